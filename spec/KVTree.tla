------------------------------- MODULE KVTree -------------------------------
(***************************************************************************)
(* The sequential API as a state machine over two variables holding trees  *)
(* (slots 0 and 1), bounded to trees of depth Depth over Keys.  TLC visits *)
(* every pair of trees; each transition taken is printed as a test case    *)
(* (state before, call) that the driver executes on the real library, and  *)
(* TraceSeq then judges.  Emit selects which calls are printed.            *)
(***************************************************************************)
EXTENDS KVOps, KVFormat, Json, IOUtils

CONSTANTS Keys, Depth, PairLimit
Keys2 == {<< 97 >>, << 98 >>}
Keys2e == {<< >>, << 97 >>}            \* with the empty key
Keys3 == {<< 97 >>, << 98 >>, << 97, 98 >>}
Emitting == IOEnv.EMIT
VARIABLE s
Slots == {0, 1}

RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN {Empty}
            ELSE UNION { [K -> {<< >>} \cup { << t >> : t \in Trees(d - 1) }] : K \in SUBSET Keys }
AllTrees == TLCEval(Trees(Depth))
Opt(S) == {<< >>} \cup { << t >> : t \in S }

RECURSIVE ToList(_)
ToList(t) == LET ks == SetToSeq(DOMAIN t) IN
  [i \in 1..Len(ks) |-> << ks[i], IF t[ks[i]] = << >> THEN << >> ELSE << ToList(t[ks[i]][1]) >> >>]
OptList(o) == IF o = << >> THEN << >> ELSE << ToList(o[1]) >>
Emit(kind, call) == IF Emitting = "all" \/ Emitting = kind
                    THEN PrintT("TEST " \o ToJson([p0 |-> OptList(s[0]), p1 |-> OptList(s[1]), call |-> call]))
                    ELSE TRUE

\* targets in slot 0: the root, and every existing node one level down
Paths == IF s[0] = << >> THEN {<< >>} ELSE {<< >>} \cup { << k >> : k \in { k \in DOMAIN s[0][1] : s[0][1][k] # << >> } }
Tree0(p) == AtPath(s[0], p)
Set0(p, t) == s' = [s EXCEPT ![0] = << PutPath(@[1], p, t) >>]
RECURSIVE DepthOf(_)
DepthOf(t) == IF DOMAIN t = {} THEN 0
              ELSE 1 + Max({ IF t[k] = << >> THEN 0 ELSE DepthOf(t[k][1]) : k \in DOMAIN t })
Fits == \A x \in Slots : s'[x] = << >> \/ DepthOf(s'[x][1]) <= Depth
\* calls that involve one tree only are emitted and explored with slot 1 unused
Alone == s[1] = << >>

Bound == \A x \in Slots : s[x] = << >> \/ NodeCount(s[x][1]) <= PairLimit
\* every pair of trees is a starting point
Init == s \in [Slots -> Opt(AllTrees)] /\ Bound

New(x) == s[x] = << >> /\ s' = [s EXCEPT ![x] = << Empty >>] /\ Emit("map", << "new", x >>)
Delete(x) == s[x] # << >> /\ (x = 1 \/ Alone) /\ s' = [s EXCEPT ![x] = << >>] /\ Emit("map", << "delete", x >>)
SetNull(p, k) == Alone /\ Tree0(p) # << >> /\ Set0(p, Put(Tree0(p)[1], k, << >>)) /\ Fits /\ Emit("map", << "set", p, k, -1 >>)
SetMove(p, k) == /\ ~Alone /\ Tree0(p) # << >>
                 /\ s' = [s EXCEPT ![0] = << PutPath(@[1], p, Put(Tree0(p)[1], k, s[1])) >>, ![1] = << >>]
                 /\ Fits /\ Emit("set", << "set", p, k, 1 >>)
Extract(p, k) == /\ Alone /\ Tree0(p) # << >>
                 /\ s' = IF k \in DOMAIN Tree0(p)[1]
                         THEN [s EXCEPT ![0] = << PutPath(@[1], p, Del(Tree0(p)[1], k)) >>, ![1] = Tree0(p)[1][k]]
                         ELSE s
                 /\ Emit("map", << "extract", p, k, 1 >>) /\ Emit("map", << "elem_extract", p, k, 1 >>)
                 /\ (k \in DOMAIN Tree0(p)[1] => Emit("map", << "elem_extract_addr", p, k, 1 >>))
Unset(p, k) == Alone /\ Tree0(p) # << >> /\ Set0(p, Del(Tree0(p)[1], k)) /\ Emit("map", << "unset", p, k >>)
UnsetAll(p) == Alone /\ Tree0(p) # << >> /\ Set0(p, Empty) /\ Emit("map", << "unset_all", p >>)
MergeInto(p) == /\ ~Alone /\ Tree0(p) # << >> /\ Set0(p, Merge(Tree0(p)[1], s[1][1])) /\ Fits
                /\ (p = << >> => Emit("merge", << "merge", p >>))
SetKV(p, k, w) == Alone /\ Tree0(p) # << >> /\ Set0(p, Ensure(Tree0(p)[1], << k, w >>)) /\ Fits /\ Emit("kv", << "set_kv", p, k, w >>)
UnsetKVAct(p, k, w) == /\ Alone /\ Tree0(p) # << >> /\ \E t \in UnsetKV(Tree0(p)[1], k, w) : Set0(p, t)
                       /\ Emit("kv", << "unset_kv", p, k, w >>)
SetPath(p, k, w) == Alone /\ Tree0(p) # << >> /\ Set0(p, SetAlong(Tree0(p)[1], << k, w >>, << >>)) /\ Fits /\ Emit("kv", << "setf", p, k, w >>)
Query(p) == /\ Alone /\ UNCHANGED s
            /\ Emit("map", << "iter", p >>) /\ Emit("map", << "size", p >>) /\ Emit("map", << "pack_size", p >>)
            /\ Emit("pack", << "pack", p >>) /\ Emit("pack", << "persist", p >>) /\ Emit("print", << "print", p >>)
            /\ Emit("sort", << "sort", p >>)
            /\ \A k \in Keys : Emit("map", << "get", p, k >>) /\ Emit("map", << "elem_get", p, k >>)
                               /\ Emit("map", << "first_val", p, k >>) /\ Emit("map", << "get_val", p, k >>)
            /\ \A k, w \in Keys : Emit("kv", << "get_kv", p, k, w >>) /\ Emit("kv", << "getf", p, k, w >>)

Next == \/ \E x \in Slots : New(x) \/ Delete(x)
        \/ \E p \in Paths : UnsetAll(p) \/ MergeInto(p) \/ Query(p)
        \/ \E p \in Paths, k \in Keys : SetNull(p, k) \/ SetMove(p, k) \/ Extract(p, k) \/ Unset(p, k)
        \/ \E p \in Paths, k \in Keys, w \in Keys : SetKV(p, k, w) \/ UnsetKVAct(p, k, w) \/ SetPath(p, k, w)
\* swapping roles lets slot 1 hold every tree
Swap == s' = [x \in Slots |-> s[1 - x]]
Spec == Init /\ [][Next \/ Swap]_s

(*------------------------- what the design guarantees ----------------------*)
TypeOK == \A x \in Slots : s[x] \in Opt(AllTrees)
\* merge is the recursive union: associative with respect to lookup, idempotent, monotone
A == OrEmpty(s[0])
B == OrEmpty(s[1])
RECURSIVE PathsOf(_)
PathsOf(t) == {<< >>} \cup UNION { { << k >> \o q : q \in IF t[k] = << >> THEN {<< >>} ELSE PathsOf(t[k][1]) } : k \in DOMAIN t }
MergeIsUnion == PathsOf(Merge(A, B)) = PathsOf(A) \cup PathsOf(B)
MergeIdem == Merge(A, A) = Solid(A) /\ Merge(Merge(A, B), B) = Merge(A, B)
MergeComm == Solid(Merge(A, B)) = Solid(Merge(B, A))
\* packing: announced size, decoding inverts, persisted bytes are readable, and equal trees only
PackSound == LET b == PackList(ToList(A)) IN /\ Len(b) = PackSize(A) /\ IsPackOf(b, A)
FileSound == LET f == PersistBody(PackList(ToList(A))) IN
             Alone => /\ IsPersistOf(f, A) /\ ReadBytes(f).c = "ok" /\ Abs(ReadBytes(f).l) = Solid(A)
                      /\ ReadOK(f, B, 0, Merge(B, A))
\* removing what was added gives back the original tree
UnsetUndoesSet == \A k \in Keys : k \notin DOMAIN A => Del(Put(A, k, << >>), k) = A
KVGetAfterSet == \A k, w \in Keys : Has(AtPath(<< Ensure(A, << k, w >>) >>, << k, w >>))
\* frame: a step changes at most what it names - here: never both trees unless ownership moved
Frame == [][ (s'[0] # s[0] /\ s'[1] # s[1]) => \/ s[1] = << >> \/ s'[1] = << >> \/ Swap ]_s
=============================================================================
