------------------------------ MODULE KVCalls -------------------------------
(***************************************************************************)
(* Which steps the calls on trees in memory may take: e is the logged      *)
(* call, st/s2 the abstract slots before and after, obs/o2 the same slots  *)
(* with their iteration order; mem says whether memory the call kept was   *)
(* counted.                                                                *)
(***************************************************************************)
EXTENDS KVOps, KVFormat, KVPrint

ObsAt(o, loc) == IF loc[1] < 0 THEN << >>
                 ELSE LET RECURSIVE W(_, _)
                          W(x, p) == IF p = << >> \/ x = << >> THEN x
                                     ELSE LET hit == { i \in DOMAIN x[1] : x[1][i][1] = p[1] }
                                          IN IF hit = {} THEN << >> ELSE W(x[1][CHOOSE i \in hit : TRUE][2], Tail(p))
                      IN  W(o[loc[1]], loc[2])

\* calls that may not change any tree (not even the iteration order) nor keep memory
Pure(e) == e.d = << >>
Kept(e, mem) == mem => e.lv = 0

\* the bytes of the format's magic number never reach standard output
HasMagic(s) == \E i \in 1..(Len(s) - 3) : s[i] = 149 /\ SubSeq(s, i, i + 3) = Magic
CleanOut(e) == Len(e.so) > 0 => ~HasMagic(e.so)

\* slots after event e: unchanged slots are not logged
SlotsObs(e, obs) == TLCEval([s \in DOMAIN obs |->
  LET hit == { i \in DOMAIN e.d : e.d[i][1] = s }
  IN  IF hit = {} THEN obs[s] ELSE UnflatSlot(e.d[CHOOSE i \in hit : TRUE][2]) ])
SlotsAbs(e, st) == TLCEval([s \in DOMAIN st |->
  LET hit == { i \in DOMAIN e.d : e.d[i][1] = s }
  IN  IF hit = {} THEN st[s] ELSE AbsSlot(UnflatSlot(e.d[CHOOSE i \in hit : TRUE][2])) ])
Sound(e) == \A i \in DOMAIN e.d : Has(e.d[i][2]) => ObsSound(Unflat(e.d[i][2][1]))

TreeCall(e, st, s2, obs, o2, mem) ==
  CASE e.op = "new" -> NewOK(e, st, s2)
    [] e.op = "delete" -> DeleteOK(e, st, s2)
    [] e.op = "delnull" -> DelNullOK(e, st, s2) /\ Pure(e) /\ Kept(e, mem)
    [] e.op \in {"build", "wide", "deep"} -> TRUE        \* drivers' own set-up
    [] e.op = "skip" -> Pure(e)                          \* the driver had no room for the result
    [] e.op = "set" -> SetOK(e, st, s2)
    [] e.op = "extract" -> ExtractOK(e, st, s2)
    [] e.op = "elem_extract" -> ElemExtractOK(e, st, s2)
    [] e.op = "elem_extract_addr" -> ElemExtractOK(e, st, s2)
    [] e.op = "elem_extract_int" -> ElemExtractOK([e EXCEPT !.k = << @ >>], st, s2)
    [] e.op = "unset" -> UnsetOK(e, st, s2)
    [] e.op = "unset_all" -> UnsetAllOK(e, st, s2)
    [] e.op = "merge" -> MergeOK(e, st, s2)
    [] e.op = "setf" -> SetfOK(e, st, s2)
    [] e.op = "set_kv" -> SetKVOK(e, st, s2, e.k, e.w)
    [] e.op = "set_kv_int" -> SetKVOK(e, st, s2, e.k, << e.w >>)
    [] e.op = "unset_kv" -> UnsetKVOK(e, st, s2, e.k, e.w)
    [] e.op = "unset_kv_int" -> UnsetKVOK(e, st, s2, e.k, << e.w >>)
    [] e.op \in {"sort", "sort_int"} -> SortOK(e, st, s2, ObsAt(o2, e.t)) /\ Kept(e, mem)
    [] e.op \in {"uset_int", "uset_ulong", "uset_bytecount", "uset_crc32", "uset_int64",
                 "uset_double", "uset_ptr", "uset_str"} -> UtilSetOK(e, st, s2)
    [] e.op = "unpack" ->
         LET d == DecTree(e.b, 1, Len(e.b))  h == Tgt(st, e.t) IN
         IF h = << >> THEN e.r = 0 /\ Pure(e)
         ELSE d.ok => /\ e.r = d.p - 1
                      /\ (h[1] = Empty => s2 = Upd(st, e.t, Abs(d.l)))
    [] e.op = "repack" -> /\ e.n = e.r /\ e.q = e.n /\ e.n = PackSize(OrEmpty(Tgt(st, e.t)))
                          /\ s2 = SetSlot(st, e.s, << Solid(OrEmpty(Tgt(st, e.t))) >>)
    [] e.op = "get" -> GetOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "getf" -> GetfOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "get_kv" -> GetKVOK(e, st, e.k, e.w) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "get_kv_int" -> GetKVOK(e, st, e.k, << e.w >>) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "size" -> SizeOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "elem_get" -> ElemGetOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "iter" -> IterOK(e, st, obs) /\ Pure(e) /\ Kept(e, mem)
                        /\ (OrEmpty(ObsAt(obs, e.t)) # << >> => [i \in DOMAIN e.it |-> e.it[i][1]] = KeySeq(ObsAt(obs, e.t)[1]))
    [] e.op = "iter_int" -> IterIntOK(e, ObsAt(obs, e.t)) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "elemnull" -> e.ok = 1 /\ Pure(e)
    [] e.op = "first_val" -> FirstValOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "get_val" -> GetValOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "list_int" -> ListIntOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op \in {"uget_int", "uget_ulong", "uget_bytecount", "uget_crc32", "uget_int64",
                 "uget_double", "uget_ptr", "uget_str"} -> UtilGetOK(e, st) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "pack_size" -> e.n = PackSize(OrEmpty(Tgt(st, e.t))) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "pack" -> /\ e.n = PackSize(OrEmpty(Tgt(st, e.t))) /\ e.r = e.n /\ e.g = 1
                        /\ IsPackOf(e.b, OrEmpty(Tgt(st, e.t))) /\ Pure(e) /\ Kept(e, mem)
    [] e.op = "persist" -> /\ Pure(e) /\ Kept(e, mem)
                           /\ IF Has(Tgt(st, e.t))
                              THEN e.rc = KVSUCCESS /\ e.n = BytesLen(e.b) /\ IsPersistOf(e.b, Tgt(st, e.t)[1])
                              ELSE e.rc # KVSUCCESS
    [] e.op \in {"print", "printt", "log"} ->
         /\ PrintOK(e, ObsAt(obs, e.t)) /\ Pure(e) /\ Kept(e, mem)
    [] OTHER -> FALSE
=============================================================================
