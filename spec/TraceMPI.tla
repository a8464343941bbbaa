------------------------------- MODULE TraceMPI -------------------------------
(***************************************************************************)
(* Validation of traces of several ranks.  A history is a "start" event, a *)
(* list of "step" events (one call per rank each) and an "end" event.      *)
(* Every call of a step must have the effect the specification gives it,   *)
(* looked at from the states of all ranks before the step.                 *)
(***************************************************************************)
EXTENDS KVCalls, KVFaults, KVGatherSet, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CheckMem == IOEnv.CHECKMEM = "1"
CheckExact == IOEnv.CHECKEXACT = "1"      \* files of a set hold the documented bytes and nothing else (C09)
CheckMode == IOEnv.CHECKMODE = "1"        \* permissions of the files of a set (C23)
NN == Len(Trace)
Starts == { i \in 1..NN : Trace[i].op = "start" }
Slots == 0..3

VARIABLES l, G,    \* G: [n, seg, cm]
          obs, st, \* per rank and slot
          F,       \* files: <<>> unknown, or <<directory>>
          wr,      \* prefix -> what the last successful gather-write stored
          odd,     \* names that are directories now
          um,      \* per rank: the umasks since the files were last looked at, in order
          md       \* the modes of the files when they were last looked at: <<>> unknown, or <<name -> mode>>
vars == << l, G, obs, st, F, wr, odd, um, md >>

NoSlots == [s \in Slots |-> << >>]
NoG == [n |-> 0, seg |-> 0, cm |-> << >>]
NoWr == [x \in {} |-> 0]
Init == l \in Starts /\ G = NoG /\ obs = << >> /\ st = << >> /\ F = << >> /\ wr = NoWr /\ odd = {} /\ um = << >> /\ md = << >>

Members(c) == (CHOOSE x \in { G.cm[i] : i \in DOMAIN G.cm } : x[1] = c)[2]
CRank(c, w) == (CHOOSE i \in DOMAIN Members(c) : Members(c)[i] = w) - 1
Size(c) == Len(Members(c))
World(c, i) == Members(c)[i + 1]
Put1(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Without(f, S) == TLCEval([x \in DOMAIN f \ S |-> f[x]])

StartsWith(a, b) == Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
\* a name that may be a part or map of the set named q:  q.DIGITS.DIGITS...
PartLike(p, q) == /\ StartsWith(p, q) /\ Len(p) > Len(q) + 3 /\ p[Len(q) + 1] = 46 /\ IsDigit(p[Len(q) + 2])
                  /\ \E i \in (Len(q) + 3)..(Len(p) - 1) : p[i] = 46 /\ IsDigit(p[i + 1])
Related(p, q) == p = q \/ PartLike(p, q) \/ PartLike(q, p)
InMissingDir(p) == StartsWith(p, << 110, 111, 100, 105, 114, 47 >>)            \* nodir/

(*---------------------------------- steps -----------------------------------*)
R(e, r) == e.R[r + 1]
With(e, c, ops) == { w \in { Members(c)[i] : i \in DOMAIN Members(c) } : R(e, w).op \in ops }

\* tree to send
Out(r, x) == Solid(OrEmpty(Tgt(st[r], x)))

RecvFrom(e, r, x, fr, c) == Out(World(c, fr), R(e, World(c, fr)).t)

P2POK(e, r, s2) ==
  LET v == R(e, r) IN
  CASE v.op = "send" -> Pure(v) /\ v.rc = KVSUCCESS
    [] v.op = "recv" ->
         /\ v.rc = KVSUCCESS
         /\ IF v.fr < 0 THEN s2[r] \in { st[r], Upd(st[r], v.t, Empty) }
            ELSE s2[r] = Upd(st[r], v.t, RecvFrom(e, r, v.t, v.fr, v.c))
    [] v.op = "sendrecv" ->
         /\ v.rc = KVSUCCESS
         /\ IF v.fr < 0 THEN s2[r] = st[r] /\ Pure(v)
            ELSE s2[r] = Upd(st[r], v.u, RecvFrom(e, r, v.u, v.fr, v.c))
    [] v.op = "bcast" ->
         /\ v.rc = KVSUCCESS
         /\ IF CRank(v.c, r) = v.root THEN Pure(v)
            ELSE s2[r] = Upd(st[r], v.t, RecvFrom(e, r, v.t, v.root, v.c))

SendqOK(v, s, t) ==
  /\ v.rc = KVSUCCESS
  /\ LET h == Tgt(s, v.t)  m == OrEmpty(Tgt(s, v.u)) IN
     t = Upd(s, v.t, Put(h[1], v.k, << Merge(OrEmpty(Get(h[1], v.k)), m) >>))

\* after the exchange: everything addressed to me, under its sender's rank
ExchangeOK(e, r, s2) ==
  LET v == R(e, r)
      me == Text(CRank(v.c, r))
      src == { i \in 0..(Size(v.c) - 1) : LET w == World(v.c, i) IN me \in DOMAIN OrEmpty(Tgt(st[w], R(e, w).t)) }
      msgs == TLCEval([k \in { Text(i) : i \in src } |->
                LET i == CHOOSE j \in src : Text(j) = k
                    w == World(v.c, i)
                IN  << Solid(OrEmpty(OrEmpty(Tgt(st[w], R(e, w).t))[me])) >> ])
  IN  /\ v.rc = KVSUCCESS
      /\ s2[r] = Upd(st[r], v.u, Merge(Tgt(st[r], v.u)[1], msgs))

Group(v) == Members(v.c)
SameRc(e, v) == \A i \in DOMAIN Group(v) : R(e, Group(v)[i]).rc = v.rc
AnyHits(e, v) == \E i \in DOMAIN Group(v) : Hits(R(e, Group(v)[i]))
AnyHard(e, v, cl) == \E i \in DOMAIN Group(v) : HardHit(R(e, Group(v)[i]), cl)

CallClean(v) == v.fd = 0 /\ v.al = 0 /\ CleanOut(v)
MWriteOK(e, r) ==
  LET v == R(e, r) IN
  /\ CallClean(v) /\ Pure(v) /\ SameRc(e, v)
  /\ (v.rc = KVSUCCESS => v.dirty = 0)
  /\ (v.rc # KVSUCCESS => AnyHits(e, v) \/ odd # {} \/ InMissingDir(v.fb))
  /\ (AnyHard(e, v, {"O", "W", "C", "F"}) \/ v.fb \in odd \/ InMissingDir(v.fb) => v.rc # KVSUCCESS)

Given(v, n) == /\ v.fb \in DOMAIN wr /\ wr[v.fb].n = n
Known == F # << >>
MReadOK(e, r, s2) ==
  LET v == R(e, r)
      n == Size(v.c)
      i == CRank(v.c, r)
      gets(t) == /\ v.rc = KVSUCCESS
                 /\ s2[r] = Upd(st[r], v.t, Merge(Tgt(st[r], v.t)[1], t))
      fails == v.rc # KVSUCCESS
  IN /\ CallClean(v) /\ SameRc(e, v)
     /\ (v.rc # KVSUCCESS => Pure(v))
     /\ \A x \in Slots \ {v.t[1]} : s2[r][x] = st[r][x]
     /\ CASE AnyHard(e, v, {"O", "R"}) -> fails
          [] AnyHits(e, v) /\ v.rc # KVSUCCESS -> TRUE
          [] v.fb \in DOMAIN wr -> IF wr[v.fb].n = n THEN gets(wr[v.fb].d[i]) ELSE fails
          [] Known -> LET D == F[1] IN
                      CASE SomeBad(D, v.fb) \/ WrongRanks(D, v.fb, n) -> fails
                        [] Complete(D, v.fb, n) -> gets(DataOf(D, v.fb, i))
                        [] OTHER -> TRUE
          [] OTHER -> TRUE

\* the whole of a set as one tree
Number(k) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, k)
WholeOf(n, D(_)) == TLCEval([k \in { Text(i) : i \in 0..(n - 1) } |-> << D(Number(k)) >>])
GWriteOK(e, r, s2) ==
  LET v == R(e, r) IN
  /\ CallClean(v) /\ s2[r] = st[r]                      \* the order of the ranks may change
  /\ (v.rc = KVSUCCESS => v.dirty = 0)
  /\ (v.rc # KVSUCCESS => Hits(v) \/ odd # {} \/ InMissingDir(v.fb))
  /\ (HardHit(v, {"O", "W", "C", "F"}) \/ v.fb \in odd \/ InMissingDir(v.fb) => v.rc # KVSUCCESS)
GReadOK(e, r, s2) ==
  LET v == R(e, r)
      gets(t) == v.rc = KVSUCCESS /\ s2[r] = Upd(st[r], v.t, Merge(Tgt(st[r], v.t)[1], t))
      fails == v.rc # KVSUCCESS
  IN /\ CallClean(v)
     /\ (fails => Pure(v))
     /\ CASE HardHit(v, {"O", "R"}) -> fails
          [] Hits(v) /\ v.rc # KVSUCCESS -> TRUE
          [] v.fb \in DOMAIN wr -> gets(WholeOf(wr[v.fb].n, LAMBDA i : wr[v.fb].d[i]))
          [] Known -> LET D == F[1]
                          nv == ValOf(FileOf(D, v.fb).t, kRANKS)
                      IN  CASE SomeBad(D, v.fb) -> fails
                            [] SomeLax(D, v.fb) -> TRUE
                            [] LevelOf(FileOf(D, v.fb).t) < 0 \/ nv = << >> -> TRUE
                            [] \E n \in 0..64 : nv = << Text(n) >> /\ Complete(D, v.fb, n) ->
                                 LET n == CHOOSE n \in 0..64 : nv = << Text(n) >> IN gets(WholeOf(n, LAMBDA i : DataOf(D, v.fb, i)))
                            [] \E n \in 0..64 : nv = << Text(n) >> /\ { x[2] : x \in PartRanks(D, v.fb) } # { Text(i) : i \in 0..(n - 1) } -> fails
                            \* a part of another split took the place of one: some rank is there twice
                            [] \E n \in 0..64 : nv = << Text(n) >> /\ Cardinality(PartRanks(D, v.fb)) # n -> fails
                            [] OTHER -> TRUE
          [] OTHER -> TRUE

(* the files after writes that succeeded *)
Content(c) == IF c[1] = "b"
              THEN LET x == ReadBytes(c[2]) IN
                   IF x.c = "ok" THEN [k |-> "ok", t |-> Abs(x.l), x |-> SubSeq(c[2], 1, 20) = Header(Len(c[2]), 1)]
                   ELSE IF x.c = "lax" THEN [k |-> "lax", t |-> Empty] ELSE Gone
              ELSE IF c[1] = "t" /\ Len(c) = 2 /\ ObsSound(c[2]) THEN [k |-> "ok", t |-> Abs(c[2]), x |-> TRUE] ELSE Gone
Dir(v) == TLCEval([f \in { v.L[i].n : i \in DOMAIN v.L } |->
            Content(v.L[CHOOSE i \in DOMAIN v.L : v.L[i].n = f].c)])
SegSize == IF G.seg = 0 THEN 1048576 ELSE G.seg
FilesOK(v, D) ==
  \A p \in DOMAIN wr :
    /\ Complete(D, p, wr[p].n)
    /\ \A i \in 0..(wr[p].n - 1) : DataOf(D, p, i) = wr[p].d[i]
    /\ (wr[p].how = "coll" => Bounded(D, p, SegSize))
    /\ (CheckExact => \A f \in Reached(D, p) : D[f].x)
(* modes: what was there keeps its own, what is new has what the umask leaves *)
ModeBits(m) == LET all == 6 * 64 + 6 * 8 + 6 IN all - (all & m)
Plains(v) == { i \in DOMAIN v.L : v.L[i].c[1] # "d" }
ModesOK(v) ==
  CheckMode /\ md # << >> =>
    \A i \in Plains(v) :
      IF v.L[i].n \in DOMAIN md[1] THEN v.L[i].m = md[1][v.L[i].n]
      ELSE \E r \in DOMAIN um : um[r] = << >> \/ \E j \in DOMAIN um[r] : v.L[i].m = ModeBits(um[r][j])
UmaskOK(v, r) == CheckMode /\ um[r] # << >> => v.um = um[r][Len(um[r])]

Damage == {"fdel", "ftrunc", "fflip", "fcopy", "fmkdir", "fperm", "fput"}
Changes == Damage \cup {"write_file"}

(* one rank reads or writes one file by itself; v.c: what the file holds afterwards *)
FReadOK(v, r, s2) ==
  LET h == Tgt(st[r], v.t) IN
  /\ CallClean(v) /\ v.pl = << >>
  /\ IF h = << >> \/ v.c = << >> \/ v.rc # KVSUCCESS
     THEN v.rc # KVSUCCESS /\ Pure(v) /\ (Has(h) /\ Has(v.c) => ReadBytes(v.c[1]).c # "ok")
     ELSE LET x == ReadBytes(v.c[1]) IN
          x.c # "bad" /\ s2[r] = Upd(st[r], v.t, IF x.c = "empty" THEN h[1] ELSE Merge(h[1], Abs(x.l)))
FWriteOK(v, r) ==
  LET h == Tgt(st[r], v.t) IN
  /\ CallClean(v) /\ Pure(v) /\ v.pl = << >>
  /\ IF h = << >> THEN v.rc # KVSUCCESS
     ELSE IF v.rc = KVSUCCESS THEN Has(v.c) /\ IsPersistOf(v.c[1], h[1]) ELSE odd # {}
MemOK(v) == CheckMem => v.lv = 0
CallOK(e, r, s2, o2, D) ==
  LET v == R(e, r) IN
  CASE v.op \in {"send", "recv", "sendrecv", "bcast"} -> P2POK(e, r, s2) /\ (v.op = "send" => MemOK(v))
    [] v.op = "sendq" -> SendqOK(v, st[r], s2[r])
    [] v.op = "exchange" -> ExchangeOK(e, r, s2)
    [] v.op = "mwrite" -> MWriteOK(e, r) /\ MemOK(v) /\ UmaskOK(v, r)
    [] v.op = "mread" -> MReadOK(e, r, s2) /\ UmaskOK(v, r) /\ (v.rc # KVSUCCESS => MemOK(v))
    [] v.op = "gwrite" -> GWriteOK(e, r, s2) /\ MemOK(v) /\ UmaskOK(v, r)
    [] v.op = "gread" -> GReadOK(e, r, s2) /\ UmaskOK(v, r) /\ (v.rc # KVSUCCESS => MemOK(v))
    [] v.op = "read_file" -> FReadOK(v, r, s2)
    [] v.op = "write_file" -> FWriteOK(v, r) /\ MemOK(v)
    [] v.op = "files" -> FilesOK(v, D) /\ ModesOK(v) /\ Pure(v)
    [] v.op \in {"idle", "barrier", "pause", "plan", "noplan", "mkdir", "umask"} \cup Damage -> Pure(v)
    [] OTHER -> TreeCall(v, st[r], s2[r], obs[r], o2[r], CheckMem)
EndOK(e, s2) ==
  /\ e.left = 0
  /\ \A r \in DOMAIN s2 : s2[r] = NoSlots /\ (CheckMem => R(e, r).lv = 0)

\* gather-writes of this step
Wrote(e, ok) == { r \in 0..(G.n - 1) : R(e, r).op \in {"mwrite", "gwrite"} /\ (ok => R(e, r).rc = KVSUCCESS) }
Gathered(v, r, e) ==
  IF v.op = "mwrite"
  THEN [n |-> Size(v.c), how |-> "coll", d |-> TLCEval([i \in 0..(Size(v.c) - 1) |-> Out(World(v.c, i), R(e, World(v.c, i)).t)])]
  ELSE LET t == OrEmpty(Tgt(st[r], v.t)) IN
       [n |-> v.ranks, how |-> "serial", d |-> TLCEval([i \in 0..(v.ranks - 1) |-> Solid(OrEmpty(Get(t, Text(i))))])]
IsWhole(v, r) == v.op = "mwrite" \/ DOMAIN OrEmpty(Tgt(st[r], v.t)) = { Text(i) : i \in 0..(v.ranks - 1) }
Wr2(e) ==
  LET touched == { p \in DOMAIN wr : \E r \in Wrote(e, FALSE) : Related(p, R(e, r).fb) }
      base == IF \E r \in 0..(G.n - 1) : R(e, r).op \in Changes THEN NoWr ELSE Without(wr, touched)
      new == { r \in Wrote(e, TRUE) : IsWhole(R(e, r), r) }
  IN  FoldSet(LAMBDA r, acc : Put1(acc, R(e, r).fb, Gathered(R(e, r), r, e)), base, new)
F2(e) == LET seen == { r \in 0..(G.n - 1) : R(e, r).op = "files" } IN
         IF seen # {} THEN << Dir(R(e, CHOOSE r \in seen : TRUE)) >>
         ELSE IF Wrote(e, FALSE) # {} \/ \E r \in 0..(G.n - 1) : R(e, r).op \in Changes THEN << >> ELSE F
Odd2(e) == (odd \cup { R(e, r).fb : r \in { x \in 0..(G.n - 1) : R(e, x).op = "fmkdir" } })
           \ { R(e, r).fb : r \in { x \in 0..(G.n - 1) : R(e, x).op = "fdel" } }

Looked(e) == \E r \in 0..(G.n - 1) : R(e, r).op = "files"
Um2(e) == TLCEval([r \in 0..(G.n - 1) |->
            LET v == R(e, r)  k == Len(um[r]) IN
            IF v.op = "umask" THEN Append(um[r], v.um) ELSE IF Looked(e) /\ k > 1 THEN << um[r][k] >> ELSE um[r]])
Md2(e) == IF Looked(e)
          THEN LET v == R(e, CHOOSE r \in 0..(G.n - 1) : R(e, r).op = "files") IN
               << TLCEval([f \in { v.L[i].n : i \in Plains(v) } |-> v.L[CHOOSE i \in Plains(v) : v.L[i].n = f].m]) >>
          ELSE IF \E r \in 0..(G.n - 1) : R(e, r).op \in Changes THEN << >> ELSE md

Reject(i, what) == PrintT("REJECT " \o ToString(i) \o " " \o what)
Next ==
  /\ l \in 1..NN
  /\ LET e == Trace[l] IN
     CASE e.op = "start" ->
            /\ G' = [n |-> e.n, seg |-> e.seg, cm |-> e.cm]
            /\ obs' = [r \in 0..(e.n - 1) |-> NoSlots] /\ st' = [r \in 0..(e.n - 1) |-> NoSlots]
            /\ F' = << >> /\ wr' = NoWr /\ odd' = {} /\ l' = l + 1
            /\ um' = [r \in 0..(e.n - 1) |-> << >>] /\ md' = << >>
       [] e.op \in {"step", "end"} /\ Len(e.R) = G.n ->
            LET o2 == TLCEval([r \in DOMAIN obs |-> SlotsObs(R(e, r), obs[r])])
                s2 == TLCEval([r \in DOMAIN st |-> SlotsAbs(R(e, r), st[r])])
                f2 == F2(e)
            IN /\ \A r \in DOMAIN st :
                    IF Sound(R(e, r)) /\ (e.op = "end" \/ CallOK(e, r, s2, o2, IF f2 = << >> THEN << >> ELSE f2[1])) THEN TRUE
                    ELSE Reject(l, R(e, r).op)
               /\ (e.op = "end" => IF EndOK(e, s2) THEN TRUE ELSE Reject(l, "end"))
               /\ obs' = o2 /\ st' = s2 /\ F' = f2 /\ wr' = Wr2(e) /\ odd' = Odd2(e) /\ G' = G /\ um' = Um2(e) /\ md' = Md2(e)
               /\ l' = IF e.op = "end" THEN NN + l + 1 ELSE l + 1
       [] e.op = "DEAD" -> /\ Reject(l, "DEAD") /\ UNCHANGED << G, obs, st, F, wr, odd, um, md >> /\ l' = NN + l + 1
       [] OTHER -> UNCHANGED << G, obs, st, F, wr, odd, um, md >> /\ l' = NN + l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
