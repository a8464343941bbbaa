------------------------------- MODULE KVOps --------------------------------
(***************************************************************************)
(* One operator per API call: which results and which new states the call  *)
(* may have.  A state is a function from slots (the variables the caller   *)
(* holds trees in) to optional trees.  An event e is what a driver logged  *)
(* about one call: arguments and results.                                  *)
(*   e.t, e.u   target trees: <<slot, path>>; slot -1 is a NULL tree       *)
(*   e.k, e.w   optional keys                                              *)
(*   e.r        where the returned tree was found: <<>> NULL, or           *)
(*              <<slot, path>>; <<-2, <<>>>> is a pointer to nothing known *)
(***************************************************************************)
EXTENDS KVBase

KVSUCCESS == 0

Tgt(st, loc) == IF loc[1] < 0 THEN << >> ELSE AtPath(st[loc[1]], loc[2])
\* replace the target's tree
Upd(st, loc, t) == [st EXCEPT ![loc[1]] = << PutPath(@[1], loc[2], t) >>]
SetSlot(st, s, o) == [st EXCEPT ![s] = o]
Take(st, v) == IF v < 0 THEN << >> ELSE st[v]
Loc(loc, ks) == << loc[1], loc[2] \o ks >>

(*--------------------------- updates --------------------------------------*)
\* each returns the set of permitted <<new state, result location>> pairs or states
NewOK(e, st, st2) == st2 = SetSlot(st, e.s, << Empty >>)
DeleteOK(e, st, st2) == st2 = SetSlot(st, e.s, << >>) /\ e.rc = KVSUCCESS
DelNullOK(e, st, st2) == st2 = st /\ e.rc = KVSUCCESS /\ e.nl = 1

SetOK(e, st, st2) ==
  LET h == Tgt(st, e.t)  c == Take(st, e.v) IN
  IF h = << >> \/ e.k = << >>
  THEN st2 = st /\ e.r = << >>
  ELSE LET s1 == Upd(st, e.t, Put(h[1], e.k[1], c))
           s2 == IF e.v < 0 THEN s1 ELSE SetSlot(s1, e.v, << >>)
       IN  st2 = s2 /\ e.r = IF c = << >> THEN << >> ELSE Loc(e.t, e.k)

ExtractOK(e, st, st2) ==
  LET h == Tgt(st, e.t) IN
  IF h = << >> \/ e.k = << >> \/ e.k[1] \notin DOMAIN OrEmpty(h)
  THEN st2 = SetSlot(st, e.s, << >>)
  ELSE st2 = SetSlot(Upd(st, e.t, Del(h[1], e.k[1])), e.s, h[1][e.k[1]])

\* extraction of elements: the key comes with the element
ElemExtractOK(e, st, st2) ==
  LET h == Tgt(st, e.t) IN
  IF h = << >> \/ e.k = << >> \/ e.k[1] \notin DOMAIN OrEmpty(h)
  THEN e.ek = << >> /\ st2 = SetSlot(st, e.s, << >>)
  ELSE e.ek = e.k /\ st2 = SetSlot(Upd(st, e.t, Del(h[1], e.k[1])), e.s, h[1][e.k[1]])

UnsetOK(e, st, st2) ==
  LET h == Tgt(st, e.t) IN
  e.rc = KVSUCCESS /\ st2 = IF h = << >> \/ e.k = << >> THEN st ELSE Upd(st, e.t, Del(h[1], e.k[1]))
UnsetAllOK(e, st, st2) ==
  LET h == Tgt(st, e.t) IN
  e.rc = KVSUCCESS /\ st2 = IF h = << >> THEN st ELSE Upd(st, e.t, Empty)

MergeOK(e, st, st2) ==
  LET h == Tgt(st, e.t)  g == Tgt(st, e.u) IN
  IF h = << >> THEN e.rc # KVSUCCESS /\ st2 = st
  ELSE /\ e.rc = KVSUCCESS
       /\ \/ st2 = IF g = << >> THEN st ELSE Upd(st, e.t, Merge(h[1], g[1]))
          \/ e.t = e.u /\ st2 = st        \* with itself: the source may just as well be left alone

FmtKeys(e) == [i \in DOMAIN e.f |-> FmtText(e.f[i][1], e.f[i][2])]
SetfOK(e, st, st2) ==
  LET h == Tgt(st, e.t)  c == Take(st, e.v)  ks == FmtKeys(e) IN
  IF h = << >> THEN st2 = st /\ e.r = << >>
  ELSE LET s1 == Upd(st, e.t, SetAlong(h[1], ks, c))
           s2 == IF e.v < 0 THEN s1 ELSE SetSlot(s1, e.v, << >>)
       IN  st2 = s2 /\ e.r = IF c = << >> THEN << >> ELSE Loc(e.t, ks)

SetKVOK(e, st, st2, k, w) ==
  LET h == Tgt(st, e.t) IN
  IF h = << >> \/ k = << >> THEN st2 = st /\ e.r = << >>
  ELSE IF w = << >> THEN e.r = << >> /\ st2 \in {st, Upd(st, e.t, Ensure(h[1], k))}
  ELSE st2 = Upd(st, e.t, Ensure(h[1], << k[1], w[1] >>)) /\ e.r = Loc(e.t, << k[1], w[1] >>)
UnsetKVOK(e, st, st2, k, w) ==
  LET h == Tgt(st, e.t) IN
  e.rc = KVSUCCESS /\
  IF h = << >> \/ k = << >> THEN st2 = st
  ELSE IF w = << >> THEN st2 = st \/ (Get(h[1], k[1]) \in {<< >>, << Empty >>} /\ st2 = Upd(st, e.t, Del(h[1], k[1])))
  ELSE \E t \in UnsetKV(h[1], k[1], w[1]) : st2 = Upd(st, e.t, t)

\* texts that denote an int (what atoi makes of other texts is not judged)
I32Max == << 1, << 50,49,52,55,52,56,51,54,52,55 >> >>
I32Min == << -1, << 50,49,52,55,52,56,51,54,52,56 >> >>
IntLike(k) == LET b == IF Len(k) > 0 /\ k[1] \in {43, 45} THEN Tail(k) ELSE k  n == IntOf(k) IN
              /\ Len(b) > 0 /\ \A i \in DOMAIN b : IsDigit(b[i])
              /\ IntLE(I32Min, n) /\ IntLE(n, I32Max)

\* sorting keeps the tree; the new iteration order is a condition on the observed list
SortOK(e, st, st2, obs2) ==
  LET h == Tgt(st, e.t)
      L == OrEmpty(obs2)
      le(a, b) == CASE e.op = "sort" -> LexLE(a, b) [] OTHER -> IntLE(IntOf(a), IntOf(b))
  IN  /\ e.rc = KVSUCCESS /\ st2 = st
      /\ Has(h) /\ (e.op = "sort" \/ \A i \in DOMAIN L : IntLike(L[i][1])) => \A i \in 1..(Len(L) - 1) :
                     IF e.dir = 0 THEN le(L[i][1], L[i+1][1]) ELSE le(L[i+1][1], L[i][1])

\* typed setters: whatever the key had, it then has exactly the one value
StoredText(e) == LET ty == e.op IN
  CASE ty = "uset_crc32" -> FmtText("#x", e.w)
    [] ty = "uset_ptr"   -> FmtText("p", e.w)
    [] OTHER -> e.w
UtilSetOK(e, st, st2) ==
  LET h == Tgt(st, e.t)
      v == IF e.op = "uset_str" THEN e.w ELSE << StoredText(e) >>
  IN  IF h = << >> THEN st2 = st
      ELSE IF e.k = << >> THEN st2 = st
      ELSE IF v = << >> THEN st2 \in { Upd(st, e.t, Del(h[1], e.k[1])), Upd(st, e.t, Put(h[1], e.k[1], << Empty >>)) }
      ELSE \E leaf \in { << >>, << Empty >> } :
             /\ e.rc = KVSUCCESS
             /\ st2 = Upd(st, e.t, Put(h[1], e.k[1], << Put(Empty, v[1], leaf) >>))

(*--------------------------- queries --------------------------------------*)
Child(h, k) == IF h = << >> \/ k = << >> THEN << >> ELSE Get(h[1], k[1])
Present(h, k) == h # << >> /\ k # << >> /\ k[1] \in DOMAIN h[1]

GetOK(e, st) == LET h == Tgt(st, e.t) IN e.r = IF Has(Child(h, e.k)) THEN Loc(e.t, e.k) ELSE << >>
GetfOK(e, st) == LET h == Tgt(st, e.t)  ks == FmtKeys(e)
                 IN  e.r = IF Has(AtPath(h, ks)) THEN Loc(e.t, ks) ELSE << >>
GetKVOK(e, st, k, w) ==
  LET h == Tgt(st, e.t) IN
  e.r = IF h # << >> /\ k # << >> /\ w # << >> /\ Has(AtPath(h, << k[1], w[1] >>))
        THEN Loc(e.t, << k[1], w[1] >>) ELSE << >>
SizeOK(e, st) == e.n = Cardinality(DOMAIN OrEmpty(Tgt(st, e.t)))
ElemGetOK(e, st) ==
  LET h == Tgt(st, e.t) IN
  IF Present(h, e.k)
  THEN e.r = Loc(e.t, e.k) /\ e.ek = e.k /\ e.h = IF Has(Child(h, e.k)) THEN Loc(e.t, e.k) ELSE << >>
  ELSE e.r = << >> /\ e.ek = << >> /\ e.h = << >>
IterOK(e, st, obs) ==
  LET h == OrEmpty(Tgt(st, e.t)) IN
  /\ Len(e.it) = Cardinality(DOMAIN h)
  /\ { e.it[i][1] : i \in DOMAIN e.it } = DOMAIN h
  /\ \A i \in DOMAIN e.it : (e.it[i][2] = 1) = Has(h[e.it[i][1]])
\* integer keys in iteration order; only asked when keys denote ints
IterIntOK(e, obs) == LET L == OrEmpty(obs) IN
  /\ Len(e.it) = Len(L)
  /\ \A i \in DOMAIN L : IntLike(L[i][1]) => e.it[i] = IntText(IntOf(L[i][1]))
FirstValOK(e, st) ==
  LET c == Child(Tgt(st, e.t), e.k) IN
  IF DOMAIN OrEmpty(c) = {} THEN e.r = << >> ELSE e.r # << >> /\ e.r[1] \in DOMAIN c[1]
GetValOK(e, st) ==
  LET c == Child(Tgt(st, e.t), e.k) IN
  IF Cardinality(DOMAIN OrEmpty(c)) # 1 THEN e.r = << >> ELSE e.r # << >> /\ e.r[1] \in DOMAIN c[1]
ListIntOK(e, st) ==
  LET h == OrEmpty(Tgt(st, e.t))
      cnt(n) == Cardinality({k \in DOMAIN h : IntText(IntOf(k)) = n})
  IN  /\ e.rc = KVSUCCESS
      /\ e.n = Cardinality(DOMAIN h) /\ Len(e.l) = e.n
      /\ (e.n = 0 => e.nl = 1)
      /\ \A i \in 1..(Len(e.l) - 1) : IntLE(IntOf(e.l[i]), IntOf(e.l[i+1]))
      /\ (\A k \in DOMAIN h : IntLike(k)) => \A n \in { IntText(IntOf(k)) : k \in DOMAIN h } : Cardinality({i \in DOMAIN e.l : e.l[i] = n}) = cnt(n)

\* typed getters.  Judged where the stored text is one the matching setter writes; what
\* other texts mean to a type is not laid down, except that equal calls answer equally
\* (rc -99 is the driver's mark for two equal calls that disagreed)
I64Max == << 1, << 57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55 >> >>
I64Min == << -1, << 57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56 >> >>
U64Max == << 1, << 49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53 >> >>
CanonInt(x, lo, hi) == x = IntText(IntOf(x)) /\ IntLE(lo, IntOf(x)) /\ IntLE(IntOf(x), hi)
CanonHex(x, n) == /\ Len(x) \in 3..(2 + n) /\ x[1] = 48 /\ x[2] = 120 /\ x[3] # 48
                  /\ \A i \in 3..Len(x) : x[i] \in (48..57) \cup (97..102)
CanonDbl(x) == LET y == IF Len(x) > 0 /\ x[1] = 45 THEN Tail(x) ELSE x  n == Len(y) IN
               /\ n \in 8..330 /\ y[n - 6] = 46 /\ \A i \in 1..n : i = n - 6 \/ IsDigit(y[i])
               /\ (y[1] = 48 => n = 8)
Canon(op, x) ==
  CASE op = "uget_str" -> TRUE
    [] op = "uget_int" -> CanonInt(x, I32Min, I32Max)
    [] op = "uget_int64" -> CanonInt(x, I64Min, I64Max)
    [] op \in {"uget_ulong", "uget_bytecount"} -> CanonInt(x, << 0, << >> >>, U64Max)
    [] op = "uget_crc32" -> x = << 48 >> \/ CanonHex(x, 8)
    [] op = "uget_double" -> CanonDbl(x) \/ x \in { << 105, 110, 102 >>, << 45, 105, 110, 102 >> }
    [] op = "uget_ptr" -> x = NilText \/ CanonHex(x, 16)
UtilGetOK(e, st) ==
  LET c  == OrEmpty(Child(Tgt(st, e.t), e.k))
      ks == DOMAIN c
  IN  /\ e.rc # -99
      /\ IF ks = {} THEN e.rc # KVSUCCESS /\ e.un = 1
         ELSE IF Cardinality(ks) > 1 THEN (e.rc # KVSUCCESS => e.un = 1) /\ (e.op # "uget_int" => e.rc # KVSUCCESS)
         ELSE LET x == CHOOSE k \in ks : TRUE IN
           IF ~Canon(e.op, x) THEN e.rc # KVSUCCESS => e.un = 1
           ELSE /\ e.rc = KVSUCCESS
                /\ CASE e.op = "uget_str" -> e.w = << x >>
                     [] e.op \in {"uget_int", "uget_int64", "uget_ulong", "uget_bytecount", "uget_double"} -> e.w = x
                     [] e.op = "uget_crc32" -> e.wx = IF x = << 48 >> THEN x ELSE HexDigits(x)
                     [] e.op = "uget_ptr" -> e.w = IF x = NilText THEN << 48 >> ELSE HexDigits(x)
=============================================================================
