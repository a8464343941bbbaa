------------------------------- MODULE KVBase -------------------------------
(***************************************************************************)
(* Abstract kvtrees.  A key is a sequence of byte values.  A tree is a     *)
(* function from keys to children; a child is <<>> (the key was set with   *)
(* no subtree) or <<t>> with t a tree.  "Optional" values everywhere use   *)
(* the same encoding: <<>> is none, <<x>> is some x.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

\* length of a key; a long key may be represented by a token of numbers no byte can have
KLen(k) == IF Len(k) = 5 /\ k[1] = 256 THEN k[2] * 65536 + k[3] ELSE Len(k)

Empty == << >>            \* the empty function, i.e. the tree without keys
Has(o) == o # << >>
Val(o) == o[1]
OrEmpty(o) == IF o = << >> THEN Empty ELSE o[1]

(***************************************************************************)
(* Observed trees (what the drivers log) are lists of <<key, child>> in    *)
(* iteration order, nested the same way.                                   *)
(***************************************************************************)
KeysOf(L) == { L[i][1] : i \in DOMAIN L }
KeySeq(L) == [i \in DOMAIN L |-> L[i][1]]

\* a deep tree is logged as the one pseudo element << <<300>>, preorder list of <<depth, key, has child>> >>
UnflatStep(acc, x) ==
  LET d == x[1]
  IN  [acc EXCEPT ![d] = << << x[2], IF x[3] = 1 THEN << acc[d + 1] >> ELSE << >> >> >> \o @, ![d + 1] = << >>]
Unflat(L) == IF Len(L) = 1 /\ L[1][1] = << 300 >>
             THEN LET F == L[1][2]  top == Max({ F[i][1] : i \in DOMAIN F })
                  IN  FoldLeft(UnflatStep, [i \in 1..(top + 1) |-> << >>], Reverse(F))[1]
             ELSE L
UnflatSlot(o) == IF o = << >> THEN << >> ELSE << Unflat(o[1]) >>

\* every key occurs once at every level
RECURSIVE ObsSound(_)
ObsSound(L) == /\ Cardinality(KeysOf(L)) = Len(L)
               /\ \A i \in DOMAIN L : Has(L[i][2]) => ObsSound(L[i][2][1])

\* abstraction of an observed tree: forget the order
RECURSIVE Abs(_)
Abs(L) == IF L = << >> THEN Empty
          ELSE TLCEval([k \in KeysOf(L) |->
                 LET c == L[CHOOSE i \in DOMAIN L : L[i][1] = k][2]
                 IN  IF c = << >> THEN << >> ELSE << Abs(c[1]) >>])
AbsSlot(o) == IF o = << >> THEN << >> ELSE << Abs(o[1]) >>

(***************************************************************************)
(* Elementary operations on trees.                                         *)
(***************************************************************************)
Get(t, k) == IF k \in DOMAIN t THEN t[k] ELSE << >>
Put(t, k, c) == TLCEval([x \in DOMAIN t \cup {k} |-> IF x = k THEN c ELSE t[x]])
Del(t, k) == TLCEval([x \in DOMAIN t \ {k} |-> t[x]])

RECURSIVE Merge(_, _)
Merge(a, b) ==
  TLCEval([k \in DOMAIN a \cup DOMAIN b |->
    IF k \in DOMAIN b
    THEN << Merge(OrEmpty(Get(a, k)), OrEmpty(b[k])) >>
    ELSE a[k]])

\* what a pack/unpack or file round trip makes of a tree: absent children become empty ones
Solid(t) == Merge(Empty, t)

\* walk and rebuild along a path of keys; o is an optional tree
RECURSIVE AtPath(_, _)
AtPath(o, p) == IF p = << >> \/ o = << >> THEN o
                ELSE IF p[1] \in DOMAIN o[1] THEN AtPath(o[1][p[1]], Tail(p)) ELSE << >>
RECURSIVE PutPath(_, _, _)
PutPath(t, p, n) == IF p = << >> THEN n
                    ELSE [t EXCEPT ![p[1]] = << PutPath(t[p[1]][1], Tail(p), n) >>]

\* get-or-create every level but the last, then set the last key's child
RECURSIVE SetAlong(_, _, _)
SetAlong(t, ks, c) == IF Len(ks) = 1 THEN Put(t, ks[1], c)
                      ELSE Put(t, ks[1], << SetAlong(OrEmpty(Get(t, ks[1])), Tail(ks), c) >>)
\* get-or-create every level, including the last
RECURSIVE Ensure(_, _)
Ensure(t, ks) == IF ks = << >> THEN t
                 ELSE Put(t, ks[1], << Ensure(OrEmpty(Get(t, ks[1])), Tail(ks)) >>)
\* remove a key/value pair, and the key with it when no value is left; the set of permitted results
UnsetKV(t, k, v) ==
  IF k \notin DOMAIN t THEN {t}
  ELSE LET c  == OrEmpty(t[k])
           c2 == Del(c, v)
       IN  IF DOMAIN c2 = {} THEN {Del(t, k)}
           ELSE {Put(t, k, << c2 >>)}

RECURSIVE NodeCount(_)
NodeCount(t) == FoldSet(LAMBDA k, acc : acc + 1 + (IF Has(t[k]) THEN NodeCount(t[k][1]) ELSE 0), 0, DOMAIN t)

(***************************************************************************)
(* Text.  Numbers are handled as text so that no value is out of range.    *)
(***************************************************************************)
IsDigit(b) == b \in 48..57
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 0 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
DigitPrefix(s) == LET bad == { i \in DOMAIN s : ~IsDigit(s[i]) }
                  IN  IF bad = {} THEN s ELSE SubSeq(s, 1, Min(bad) - 1)
\* integer denoted by a text, as <<sign, digits without leading zeros>>, sign in {-1,0,1}
IntOf(s) == LET neg == Len(s) > 0 /\ s[1] = 45
                pos == Len(s) > 0 /\ s[1] = 43
                d   == StripZeros(DigitPrefix(IF neg \/ pos THEN Tail(s) ELSE s))
            IN  << IF d = << >> THEN 0 ELSE IF neg THEN -1 ELSE 1, d >>
IntText(n) == IF n[1] = 0 THEN << 48 >> ELSE IF n[1] = -1 THEN << 45 >> \o n[2] ELSE n[2]

\* lexicographic order on byte strings: a prefix comes first
LexLT(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                   d == { i \in 1..m : a[i] # b[i] }
               IN  IF d = {} THEN Len(a) < Len(b) ELSE LET i == Min(d) IN a[i] < b[i]
LexLE(a, b) == a = b \/ LexLT(a, b)
MagLT(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLT(a, b))
IntLE(x, y) == \/ x[1] < y[1]
               \/ x[1] = y[1] /\ (x[2] = y[2] \/ (IF x[1] = -1 THEN MagLT(y[2], x[2]) ELSE MagLT(x[2], y[2])))

\* canonical unsigned value of a stored text: <<"x", hex digits>> or <<"d", decimal digits>>
IsHexText(s) == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
HexDigits(s) == LET z == StripZeros(SubSeq(s, 3, Len(s))) IN IF z = << >> THEN << 48 >> ELSE z
NilText == << 40, 110, 105, 108, 41 >>                \* (nil)

\* the text a format conversion makes of a value (already rendered as plain digits)
FmtText(f, x) == IF f \in {"#x", "#lx"} THEN (IF x = << 48 >> THEN x ELSE << 48, 120 >> \o x)
                 ELSE IF f = "p" THEN (IF x = << 48 >> THEN NilText ELSE << 48, 120 >> \o x)
                 ELSE x
=============================================================================
