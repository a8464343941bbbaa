------------------------------ MODULE TraceSeq ------------------------------
(***************************************************************************)
(* Validation of traces of sequential API calls: every logged call must be *)
(* a step the specification allows from the state before it.  A trace      *)
(* holds many independent histories, each ending in "end"; each becomes    *)
(* one behaviour.  A call no action explains is reported (REJECT) and the  *)
(* behaviour continues from the logged state, so that later calls are      *)
(* still judged.                                                           *)
(***************************************************************************)
EXTENDS KVCalls, KVFaults, Json, IOUtils
Cli == INSTANCE KVCliDef

Trace == ndJsonDeserialize(IOEnv.TRACE)
CheckMem == IOEnv.CHECKMEM = "1"
CheckOrder == IOEnv.CHECKORDER = "1"
N == Len(Trace)
Starts == { i \in 1..N : i = 1 \/ Trace[i-1].op = "end" }
Slots == 0..3

VARIABLES l,    \* next event
          obs,  \* observed trees per slot, in iteration order
          st,   \* their abstraction
          fs    \* files: name -> [c: optional bytes, o: optional observed tree last written]
vars == << l, obs, st, fs >>

NoSlots == [s \in Slots |-> << >>]
NoFiles == << >>
Init == l \in Starts /\ obs = NoSlots /\ st = NoSlots /\ fs = NoFiles

File(f) == IF f \in DOMAIN fs THEN fs[f] ELSE [c |-> << >>, o |-> << >>]
SetFile(f, c, o) == TLCEval([x \in DOMAIN fs \cup {f} |-> IF x = f THEN [c |-> c, o |-> o] ELSE fs[x]])

Obs2(e) == SlotsObs(e, obs)
St2(e) == SlotsAbs(e, st)

\* key order at every level, where two observed trees hold the same keys
RECURSIVE SameOrder(_, _)
SameOrder(x, y) == /\ KeySeq(x) = KeySeq(y)
                   /\ \A i \in DOMAIN x : SameOrder(OrEmpty(x[i][2]), OrEmpty(y[i][2]))

\* what a reader may find after a write of tree t over content c0 was cut short
\* anywhere: the old content, the new tree, nothing, or something it must refuse
Image(c0, c, t) ==
  \/ c = c0
  \/ /\ Has(c)
     /\ LET r == ReadBytes(c[1]) IN
        CASE r.c \in {"empty", "bad"} -> TRUE
          [] r.c = "ok" -> \/ Abs(r.l) = Solid(t)
                           \/ Has(c0) /\ LET o == ReadBytes(c0[1]) IN o.c = "ok" /\ Abs(o.l) = Abs(r.l)
          [] OTHER -> FALSE

\* somebody else held a lock on the file (e.hk: 1 shared, 2 exclusive): a call that locks
\* waits for it exactly if the two exclude each other
LockWait(e, excl) == /\ (e.hk = 2 \/ (e.hk = 1 /\ excl) => e.wt > 0)
                     /\ (e.hk = 1 /\ ~excl => e.wt = 0)

WriteOK(e, s2) ==
  LET h == Tgt(st, e.t) IN
  /\ Pure(e) /\ Kept(e, CheckMem) /\ e.fd = 0 /\ CleanOut(e) /\ e.al = 0 /\ e.lk = 0
  /\ IF h = << >> \/ e.f = "-" THEN e.rc # KVSUCCESS /\ (e.op = "write_fd" \/ e.c = File(e.f).c)
     ELSE IF e.rc = KVSUCCESS
     THEN /\ ~HardHit(e, {"O", "W", "C", "F"}) /\ (e.op = "write_lock" => ~HardHit(e, {"L", "T"}))
          /\ (e.op = "write_lock" => LockWait(e, TRUE))
          /\ Has(e.c) /\ IsPersistOf(e.c[1], h[1])
          /\ (e.op # "write_fd" => e.dirty = 0)
          /\ (e.op = "write_fd" => e.n = BytesLen(e.c[1]))
     ELSE Hits(e) /\ Image(IF e.op = "write_fd" THEN << << >> >> ELSE File(e.f).c, e.c, h[1])

ReadEvOK(e, s2, o2) ==
  LET h == Tgt(st, e.t)  b == e.c  pre == File(e.f).c  lock == e.op = "read_lock" IN
  /\ CleanOut(e) /\ e.fd = 0 /\ e.al = 0 /\ e.lk = 0
  /\ (e.rc # KVSUCCESS => Pure(e) /\ Kept(e, CheckMem))
  /\ (e.rc = KVSUCCESS => ~HardHit(e, {"O", "R"}) /\ (lock => ~HardHit(e, {"L"}) /\ LockWait(e, FALSE)))
  /\ e.c = pre \/ (lock /\ pre = << >> /\ e.c = << << >> >>)      \* the locking read may create the file
  /\ IF h = << >> \/ e.f = "-" THEN e.rc # KVSUCCESS /\ s2 = st
     ELSE IF pre = << >> THEN (e.op # "read_lock" => e.rc # KVSUCCESS) /\ s2 = st
     ELSE IF e.rc # KVSUCCESS /\ Hits(e) THEN s2 = st
     ELSE /\ \A x \in Slots \ {e.t[1]} : s2[x] = st[x]
          /\ LET t2 == Tgt(s2, e.t) IN
             /\ Has(t2) /\ s2 = Upd(st, e.t, t2[1])
             /\ ReadOK(b[1], h[1], e.rc, t2[1])
             /\ (e.op = "read_fd" /\ e.rc = KVSUCCESS => e.n = IF Len(b[1]) = 0 THEN 0 ELSE IF IsBig(b[1]) THEN b[1][4][14] * 65536 + b[1][4][15] * 256 + b[1][4][16] ELSE b[1][14] * 65536 + b[1][15] * 256 + b[1][16])
             /\ (CheckOrder /\ e.rc = KVSUCCESS /\ h[1] = Empty /\ Has(File(e.f).o) =>
                   SameOrder(ObsAt(o2, e.t)[1], File(e.f).o[1]))

\* several records through one descriptor, after other bytes: each call moves exactly its record
RecsOK(e) ==
  LET k == Len(e.s)
      At(i) == e.pre + FoldLeft(LAMBDA a, j : a + e.n[2 * j - 1], 0, [j \in 1..i |-> j])
      b == e.c[1]
  IN  /\ Pure(e) /\ CleanOut(e) /\ e.fd = 0 /\ Has(e.c)
      /\ \A i \in 1..k : /\ e.n[2 * i] = At(i) /\ At(i) <= Len(b) /\ e.n[2 * i - 1] > 0
                         /\ IsPersistOf(SubSeq(b, At(i - 1) + 1, At(i)), st[e.s[i]][1])
                         /\ e.m[2 * i - 1] = e.n[2 * i - 1] /\ e.m[2 * i] = At(i)
                         /\ AbsSlot(UnflatSlot(e.rd[i])) = << Solid(st[e.s[i]][1]) >>
      /\ Len(b) = At(k) /\ \A j \in 1..e.pre : b[j] = 35

\* lock-open-read, add key k (and drop key u), write-close-unlock
Swapped(t, e) == Put(IF Has(e.u) THEN Del(t, e.u[1]) ELSE t, e.k[1], << Empty >>)
RmwOK(e, s2) ==
  LET h == Tgt(st, e.t)  pre == IF e.c0 = << >> THEN << >> ELSE e.c0[1]
      r == ReadBytes(pre)  rd == AbsSlot(UnflatSlot(e.rd))
      untouched == e.c = e.c0 \/ (e.c0 = << >> /\ e.c = << << >> >>)
  IN  /\ CleanOut(e) /\ e.al1 = 0 /\ e.al = 0
      /\ e.c0 = File(e.f).c
      /\ \A x \in Slots \ {e.t[1]} : s2[x] = st[x]
      /\ IF e.rc1 = KVSUCCESS
         THEN /\ h # << >> /\ r.c \in {"empty", "ok", "lax"} /\ ~HardHit1(e, {"O", "L", "R"}) /\ LockWait(e, TRUE)
              \* the caller has the descriptor and the exclusive lock ...
              /\ e.fdok = 1 /\ e.fdu = 1 /\ e.fd1 = 1 /\ e.lk1 = 2
              /\ rd = IF r.c = "empty" THEN h ELSE << Merge(h[1], Abs(r.l)) >>
              /\ s2 = Upd(st, e.t, Swapped(rd[1], e))
              \* ... until the write
              /\ e.fdend = -1 /\ e.fd = 0 /\ e.lk = 0
              /\ IF e.rc2 = KVSUCCESS
                 THEN /\ ~HardHit2(e, {"S", "W", "T", "C", "F"}) /\ e.dirty = 0
                      /\ Has(e.c) /\ IsPersistOf(e.c[1], Tgt(s2, e.t)[1])
                 ELSE Hits2(e) /\ Image(IF e.c0 = << >> THEN << << >> >> ELSE e.c0, e.c, Tgt(s2, e.t)[1])
         ELSE /\ h = << >> \/ r.c \in {"bad", "lax"} \/ Hits1(e)
              /\ e.fdok = 0 /\ e.fd1 = 0 /\ e.lk1 = 0 /\ e.fd = 0 /\ e.lk = 0 /\ e.fdend = -1
              /\ (IF h = << >> THEN e.c = e.c0 ELSE untouched) /\ Pure(e)

\* the process died inside a writing call (or, code 0, finished it); what a reader makes of the file
CrashOK(e) ==
  LET h == Tgt(st, e.t)
      r == ReadBytes(IF e.c0 = << >> THEN << >> ELSE e.c0[1])
      able == e.call # "rmw" \/ r.c \in {"empty", "ok"}
      t == IF e.call = "rmw" THEN Put(IF r.c = "ok" THEN Merge(h[1], Abs(r.l)) ELSE h[1], e.k[1], << Empty >>) ELSE h[1]
  IN  /\ Pure(e) /\ e.code \in {0, 66} /\ h # << >>
      /\ IF ~able THEN e.c = e.c0
         ELSE IF e.code = 0 THEN Has(e.c) /\ IsPersistOf(e.c[1], t)
         ELSE IF e.c = << >> THEN e.c0 = << >> ELSE Image(e.c0, e.c, t)
      /\ LET rd == AbsSlot(UnflatSlot(e.rd))[1] IN
         IF e.c = << >> THEN e.rrc # KVSUCCESS /\ rd = Empty
         ELSE ReadOK(e.c[1], Empty, e.rrc, rd)

\* a tree with very many entries, packed and written: trees as sets of pairs, which TLC compares fast
RECURSIVE Pairs(_)
Pairs(L) == { << L[i][1], Pairs(OrEmpty(L[i][2])) >> : i \in DOMAIN L }
PackLen(L) == 4 + FoldLeft(LAMBDA acc, x : acc + KLen(x[1]) + 1 + 4 + FoldLeft(LAMBDA a, y : a + KLen(y[1]) + 5, 0, OrEmpty(x[2])), 0, L)
SameTree(L, M) == Len(L) = Len(M) /\ Pairs(L) = Pairs(M)
BigWideOK(e) ==
  /\ e.n = PackLen(e.src) /\ e.r = e.n /\ e.q = e.n /\ e.size = Len(e.src)
  /\ SameTree(e.unp, e.src)
  /\ e.rc = KVSUCCESS /\ IsBig(e.c[1])
  /\ LET b == e.c[1] IN
       /\ b[4] = HeaderStart \o b[2] \o << 0, 0, 0, 1 >> /\ b[5] = 1
       /\ Has(b[6]) /\ b[6][2] = 1 /\ SameTree(b[6][1], e.src)
  /\ e.rrc = KVSUCCESS /\ SameTree(e.rd, e.src)

HasPart(s, k) == \E i \in 1..(Len(s) - Len(k) + 1) : \A j \in 1..Len(k) : s[i + j - 1] = k[j]

\* permission bits p (0..7) for user, group and others, as the umask allows
ModeBits(p, um) == LET all == p * 64 + p * 8 + p IN all - (all & um)
PermOK(e) == /\ e.um2 = e.um /\ Pure(e)
             \* a call that ran into an error may have made no file
             /\ \/ e.m = IF e.pre >= 0 THEN e.pre ELSE ModeBits(6, e.um)
                \/ e.pre < 0 /\ e.m = -1 /\ e.hit > 0

Allowed(e, s2, o2) ==
  CASE e.op \in {"fput", "fdamage"} -> Pure(e)
    [] e.op = "bigwide" -> Pure(e) /\ BigWideOK(e)
    [] e.op \in {"write_file", "write_lock", "write_fd"} -> WriteOK(e, s2)
    [] e.op \in {"read_file", "read_lock", "read_fd"} -> ReadEvOK(e, s2, o2)
    [] e.op = "rmw" -> RmwOK(e, s2)
    [] e.op = "recs" -> RecsOK(e)
    [] e.op = "crash" -> CrashOK(e)
    [] e.op \in {"plan", "noplan", "hold", "unhold", "slow"} -> Pure(e)
    [] e.op = "cli" ->
         LET want == Cli!Expect(e.items)
             tree == ObsAt(obs, e.t)
             shows == \E i \in DOMAIN tree[1] : HasPart(e.out, tree[1][i][1])
         IN  /\ Pure(e)
             /\ CASE want = "tree" -> e.rc = 0 /\ e.out = Plain(tree, 0, IF Cli!LastMode(e.items) = "keyval" THEN 2 ELSE 1)
                  [] want = "usage" -> e.rc = 0 /\ ~shows
                  [] want = "error" -> e.rc # 0 /\ ~shows
                  [] OTHER -> TRUE
    [] e.op = "perm" -> PermOK(e)
    [] e.op = "getmode" -> e.m = ModeBits(e.rwx[1] * 4 + e.rwx[2] * 2 + e.rwx[3], e.um) /\ e.um2 = e.um
    [] e.op = "badargs" -> (\A i \in DOMAIN e.ok : e.ok[i] = 1) /\ e.fd = 0 /\ Pure(e)
    [] e.op = "end" -> Kept(e, CheckMem) /\ s2 = NoSlots
    [] OTHER -> TreeCall(e, st, s2, obs, o2, CheckMem)   \* in particular not CRASH

Next ==
  /\ l \in 1..N
  /\ LET e == Trace[l]
         o2 == Obs2(e)
         s2 == St2(e)
     IN /\ IF Sound(e) /\ Allowed(e, s2, o2) THEN TRUE
           ELSE PrintT("REJECT " \o ToString(l) \o " " \o e.op)
        /\ obs' = o2 /\ st' = s2
        /\ fs' = IF e.op \in {"fput", "fdamage"} THEN SetFile(e.f, e.c, << >>)
                 ELSE IF e.op \in {"write_file", "write_lock", "write_fd"} /\ e.f # "-"
                 THEN SetFile(e.f, e.c, ObsAt(obs, e.t))
                 ELSE IF e.op \in {"rmw", "read_lock"} /\ e.f # "-" THEN SetFile(e.f, e.c, IF e.op = "rmw" THEN ObsAt(o2, e.t) ELSE File(e.f).o)
                 ELSE fs
        /\ l' = IF e.op = "end" THEN N + 1 + l ELSE l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
