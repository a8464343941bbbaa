------------------------------- MODULE KVPrint ------------------------------
(***************************************************************************)
(* Rendering of an observed tree (in its iteration order) as text.         *)
(***************************************************************************)
EXTENDS KVBase
LOCAL NL == << 10 >>
Spaces(n) == [i \in 1..n |-> 32]
RECURSIVE Render(_, _, _)
IsLeafPair(c) == Len(OrEmpty(c)) = 1 /\ OrEmpty(c[1][1][2]) = << >>
RenderElem(e, ind, mode) ==
  IF mode = 2 /\ IsLeafPair(e[2])
  THEN Spaces(ind) \o e[1] \o << 32, 61, 32 >> \o e[2][1][1][1] \o NL
  ELSE Spaces(ind) \o e[1] \o NL \o Render(e[2], ind, mode)
NullList == << 78, 85, 76, 76, 32, 76, 73, 83, 84 >>        \* NULL LIST
\* an absent child (or tree) is shown by a marker line
Render(o, ind, mode) ==
  IF o = << >> THEN Spaces(ind) \o NullList \o NL
  ELSE FoldLeft(LAMBDA acc, e : acc \o RenderElem(e, ind + 2, mode), << >>, o[1])
\* the same with no line for an absent child
RECURSIVE Plain(_, _, _)
Plain(o, ind, mode) ==
  IF o = << >> THEN << >>
  ELSE FoldLeft(LAMBDA acc, e : acc \o
         (IF mode = 2 /\ IsLeafPair(e[2])
          THEN Spaces(ind + 2) \o e[1] \o << 32, 61, 32 >> \o e[2][1][1][1] \o NL
          ELSE Spaces(ind + 2) \o e[1] \o NL \o Plain(e[2], ind + 2, mode)), << >>, o[1])
\* logged lines carry a prefix "KVTree <version>: <host>: "; the text after the second ": "
PrintOK(e, o) ==
  IF e.op = "log" THEN e.rc = 0 /\ e.lines \in { Render(o, e.ind, 1), Plain(o, e.ind, 1) }
  ELSE e.rc = 0 /\ e.so \in { Render(o, e.ind, e.mode), Plain(o, e.ind, e.mode) }
=============================================================================
