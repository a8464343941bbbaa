------------------------------ MODULE KVFiles -------------------------------
(***************************************************************************)
(* Files as byte strings: EMIT=trees prints, for every tree of a bounded   *)
(* universe, the files the format allows for it (with and without the      *)
(* checksum, keys in either order); EMIT=bodies prints a checksummed and a *)
(* plain file around every short byte string, most of them no tree at all. *)
(* The driver puts them before the reader and TraceSeq judges what it      *)
(* makes of them.  Checked here: the classification is consistent with the *)
(* encoder.                                                                *)
(***************************************************************************)
EXTENDS KVFormat, Json, IOUtils
CONSTANTS Keys, Depth, MaxBody, Alphabet
Keys2e == {<< >>, << 97 >>}
Keys2 == {<< 97 >>, << 98 >>}
Mode == IOEnv.EMIT
VARIABLE x        \* [tree, body]: the tree as a list (or <<>>), its packed body

RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN {Empty}
            ELSE UNION { [K -> {<< >>} \cup { << t >> : t \in Trees(d - 1) }] : K \in SUBSET Keys }
RECURSIVE ToList(_)
ToList(t) == LET ks == SetToSeq(DOMAIN t) IN
  [i \in 1..Len(ks) |-> << ks[i], IF t[ks[i]] = << >> THEN << >> ELSE << ToList(t[ks[i]][1]) >> >>]
RECURSIVE Rev(_)
Rev(L) == [i \in 1..Len(L) |-> LET e == L[Len(L) + 1 - i] IN << e[1], IF e[2] = << >> THEN << >> ELSE << Rev(e[2][1]) >> >>]

TreeBodies == UNION { { [k |-> "tree", t |-> << t >>, b |-> PackList(ToList(t))], [k |-> "tree", t |-> << t >>, b |-> PackList(Rev(ToList(t)))] } : t \in Trees(Depth) }
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<< >>} ELSE { Append(s, c) : s \in Strings(n - 1), c \in Alphabet }
RawBodies == { [k |-> "raw", t |-> << >>, b |-> << 0, 0, 0 >> \o s] : s \in UNION { Strings(n) : n \in 0..MaxBody } }

Init == x \in IF Mode = "bodies" THEN RawBodies ELSE TreeBodies
Emit == PrintT("FILE " \o ToJson(<< PersistBody(x.b), PlainBody(x.b) >>))
Next == x.k # "done" /\ Emit /\ x' = [x EXCEPT !.k = "done"]
Spec == Init /\ [][Next]_x

Solids == { Solid(t) : t \in Trees(Depth) }
ClassOK == \A f \in {PersistBody(x.b), PlainBody(x.b)} :
  LET r == ReadBytes(f) IN
  /\ (Has(x.t) => r.c = "ok" /\ Abs(r.l) = Solid(x.t[1]))
  /\ (r.c = "ok" => ObsSound(r.l) /\ PackList(r.l) = x.b)
  /\ r.c # "empty"
\* any one changed byte of a checksummed file is noticed
Hits == { 0, 1, 97, 255 }
Noticed == x.k = "tree" /\ Len(x.b) < 14 =>
  LET f == PersistBody(x.b) IN
  \A i \in DOMAIN f : \A v \in Hits : v # f[i] => LET r == ReadBytes([f EXCEPT ![i] = v]) IN
     r.c \in {"bad", "lax"} \/ (i = 20 /\ v = 0)
\* any truncation is noticed
Cut == x.k = "tree" => LET f == PersistBody(x.b) IN \A n \in 1..(Len(f) - 1) : ReadBytes(SubSeq(f, 1, n)).c = "bad"
=============================================================================
