------------------------------- MODULE KVLock -------------------------------
(***************************************************************************)
(* Processes that read, write and update one kvtree file through the       *)
(* library's calls, one system call per step: open, lock, read and write   *)
(* of a piece of the file, truncate, flush, unlock, close; any process may  *)
(* die between any two of them, and the machine may lose what was not      *)
(* flushed.  The trees are sets of update names: a write makes the tree    *)
(* {name}, an update (open-read, change, write-close) adds its name.       *)
(*                                                                         *)
(* A file is a sequence of pieces (a piece stands for a range of bytes):   *)
(* the first one carries the announced length, every piece the tree it was *)
(* written for.  A reader accepts a file that is at least as long as       *)
(* announced and whose pieces all belong to one tree - that is what the    *)
(* length and the checksum of the file format establish.                   *)
(*                                                                         *)
(* Variant names a design that deviates from the documented one; all of    *)
(* them but "none" must violate an invariant (checked, so that the         *)
(* invariants are known to have teeth).                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs,      \* process names
          Ops,        \* the calls they may make: "write" "read" "rmw" (locking), "wfile" "rfile" (not)
          MaxOps,     \* calls per process
          MaxLen,     \* a tree takes 1..MaxLen pieces
          Crashes,    \* how many processes may die
          Serial,     \* TRUE: a call starts only when no other one is under way (for the calls without locks)
          Variant

VARIABLES file,       \* does it exist, visible contents
          disk,       \* what a power failure would leave
          pc, op, left, \* per process: next step, current call, calls left
          len,        \* pieces of the tree being written
          want,       \* the tree a write call writes
          got, idx,   \* pieces read so far / written so far
          sh, ex,     \* holders of the shared and of the exclusive lock
          abs,        \* the tree an atomic file would hold: empty, or broken after a crash inside a write
          ver, wver, dver, \* number of changes made; of the last one by each process; of those flushed
          good        \* no call has contradicted abs so far
vars == << file, disk, pc, op, left, len, want, got, idx, sh, ex, abs, ver, wver, dver, good >>
vv == << ver, wver, dver >>

NoTree == {}
Tree(s) == [k |-> "tree", s |-> s]
Empty == [k |-> "empty", s |-> NoTree]     \* no file, or one without contents
Broken == [k |-> "broken", s |-> NoTree]   \* what a reader must refuse
Absent == [e |-> FALSE, c |-> << >>]
File(c) == [e |-> TRUE, c |-> c]
Name(p) == << p, left[p] >>

Contents == file.c
Decode(fl) ==
  LET f == fl.c IN
  IF f = << >> THEN Empty
  ELSE IF Len(f) < f[1].n THEN Broken
  ELSE IF \A i \in 1..f[1].n : f[i].v = f[1].v /\ f[i].i = i THEN Tree(f[1].v)
  ELSE Broken

Init ==
  /\ \/ file = Absent /\ disk = Absent /\ abs = Empty
     \/ \E n \in 1..MaxLen : LET v == {<< "old", 0 >>} IN
          /\ file = File([i \in 1..n |-> [v |-> v, i |-> i, n |-> n]])
          /\ disk = file /\ abs = Tree(v)
  /\ pc = [p \in Procs |-> "idle"]
  /\ op = [p \in Procs |-> "none"]
  /\ left = [p \in Procs |-> MaxOps]
  /\ len = [p \in Procs |-> 0]
  /\ want = [p \in Procs |-> NoTree]
  /\ got = [p \in Procs |-> << >>]
  /\ idx = [p \in Procs |-> 0]
  /\ sh = {} /\ ex = {} /\ good = TRUE
  /\ ver = 0 /\ dver = 0 /\ wver = [p \in Procs |-> 0]

Set(f, p, x) == [f EXCEPT ![p] = x]
Goto(p, s) == pc' = Set(pc, p, s)

Locking(o) == o \in {"write", "read", "rmw"}
Writing(o) == o \in {"write", "rmw", "wfile"}

Call(p) ==
  /\ pc[p] = "idle" /\ left[p] > 0
  /\ Serial => \A q \in Procs : pc[q] \in {"idle", "dead"}
  /\ \E o \in Ops, n \in 1..MaxLen :
       /\ (Writing(o) \/ n = 1)
       /\ op' = Set(op, p, o) /\ len' = Set(len, p, n)
       /\ want' = Set(want, p, {Name(p)})
  /\ got' = Set(got, p, << >>) /\ idx' = Set(idx, p, 0)
  /\ Goto(p, "open")
  /\ UNCHANGED << file, disk, left, sh, ex, abs, good, ver, wver, dver >>

Open(p) ==
  /\ pc[p] = "open"
  /\ IF op[p] = "wfile" \/ (Variant = "otrunc" /\ op[p] = "write")
       THEN file' = File(<< >>) ELSE IF op[p] = "rfile" THEN UNCHANGED file ELSE file' = File(Contents)
  /\ abs' = IF op[p] = "wfile" THEN Empty ELSE abs       \* emptied at once, as documented for the plain call
  /\ Goto(p, IF Locking(op[p]) THEN "lock" ELSE IF op[p] = "rfile" THEN "rd" ELSE "wr")
  /\ UNCHANGED << disk, op, left, len, want, got, idx, sh, ex, good, ver, wver, dver >>

NeedEx(p) ==
  CASE op[p] = "read" -> FALSE
    [] op[p] = "write" -> Variant # "sharedwrite"
    [] op[p] = "rmw" -> Variant \notin {"sharedrmw", "upgrade"}

Lock(p) ==
  /\ pc[p] = "lock"
  /\ \/ Variant = "lockless" /\ op[p] = "read" /\ UNCHANGED << sh, ex >>
     \/ ~(Variant = "lockless" /\ op[p] = "read") /\ NeedEx(p) /\ sh = {} /\ ex = {} /\ ex' = {p} /\ UNCHANGED sh
     \/ ~(Variant = "lockless" /\ op[p] = "read") /\ ~NeedEx(p) /\ ex = {} /\ sh' = sh \cup {p} /\ UNCHANGED ex
  /\ Goto(p, IF op[p] = "write" THEN "wr" ELSE "rd")
  /\ UNCHANGED << file, disk, op, left, len, want, got, idx, abs, good, ver, wver, dver >>

\* reading: piece by piece until the announced length or the end of the file
Done(g) == g # << >> /\ Len(g) >= g[1].n
Read(p) ==
  /\ pc[p] = "rd" /\ ~Done(got[p]) /\ Len(got[p]) < Len(Contents)
  /\ got' = Set(got, p, Append(got[p], Contents[Len(got[p]) + 1]))
  /\ UNCHANGED << file, disk, pc, op, left, len, want, idx, sh, ex, abs, good, ver, wver, dver >>

\* the contents are known: a read is over, an update goes on to write
ReadEnd(p) ==
  /\ pc[p] = "rd" /\ (Done(got[p]) \/ Len(got[p]) >= Len(Contents))
  /\ LET t == Decode(File(got[p])) IN
     /\ good' = (good /\ t = abs)
     /\ IF op[p] = "rmw" /\ t # Broken
          THEN /\ want' = Set(want, p, t.s \cup {Name(p)})
               /\ Goto(p, IF Variant = "upgrade" THEN "drop" ELSE "wr")
          ELSE Goto(p, IF Locking(op[p]) THEN "unlock" ELSE "close") /\ UNCHANGED want
  /\ UNCHANGED << file, disk, op, left, len, got, idx, sh, ex, abs, ver, wver, dver >>

\* only in variant "upgrade": the shared lock is exchanged for the exclusive one
Drop(p) == /\ pc[p] = "drop" /\ sh' = sh \ {p} /\ Goto(p, "relock")
           /\ UNCHANGED << file, disk, op, left, len, want, got, idx, ex, abs, good, ver, wver, dver >>
Relock(p) == /\ pc[p] = "relock" /\ sh = {} /\ ex = {} /\ ex' = {p} /\ Goto(p, "wr")
             /\ UNCHANGED << file, disk, op, left, len, want, got, idx, sh, abs, good, ver, wver, dver >>

Piece(p, i) == [v |-> want[p], i |-> i, n |-> len[p]]
Put(f, i, x) == IF i <= Len(f) THEN [f EXCEPT ![i] = x] ELSE Append(f, x)
Write(p) ==
  /\ pc[p] = "wr" /\ idx[p] < len[p]
  /\ file' = File(Put(Contents, idx[p] + 1, Piece(p, idx[p] + 1)))
  /\ idx' = Set(idx, p, idx[p] + 1)
  /\ Goto(p, IF idx[p] + 1 < len[p] THEN "wr"
             ELSE IF Variant = "earlyunlock" /\ Locking(op[p]) THEN "unlock1" ELSE IF op[p] = "wfile" THEN "set" ELSE "trunc")
  /\ UNCHANGED << disk, op, left, len, want, got, sh, ex, abs, good, ver, wver, dver >>

Unlock1(p) == /\ pc[p] = "unlock1" /\ sh' = sh \ {p} /\ ex' = ex \ {p} /\ Goto(p, "trunc")
              /\ UNCHANGED << file, disk, op, left, len, want, got, idx, abs, good, ver, wver, dver >>

\* the point where an atomic file would change
Take(p) ==
  /\ good' = (good /\ (op[p] = "rmw" => abs.s \cup {Name(p)} = want[p]) /\ Decode(file') = Tree(want[p]))
  /\ abs' = Tree(want[p])
  /\ ver' = ver + 1 /\ wver' = Set(wver, p, ver + 1)

Trunc(p) ==
  /\ pc[p] = "trunc"
  /\ file' = IF Variant = "notrunc" THEN file ELSE File(SubSeq(Contents, 1, len[p]))
  /\ Take(p)
  /\ Goto(p, IF Locking(op[p]) THEN "unlock" ELSE "sync")
  /\ UNCHANGED << disk, op, left, len, want, got, idx, sh, ex, dver >>
SetAbs(p) ==
  /\ pc[p] = "set" /\ UNCHANGED file /\ Take(p) /\ Goto(p, IF Variant = "nosync" THEN "close" ELSE "sync")
  /\ UNCHANGED << disk, op, left, len, want, got, idx, sh, ex, dver >>

Sync(p) ==
  /\ pc[p] = "sync" /\ disk' = file /\ dver' = ver
  /\ Goto(p, "close")
  /\ UNCHANGED << file, op, left, len, want, got, idx, sh, ex, abs, good, ver, wver >>
Unlock(p) ==
  /\ pc[p] = "unlock" /\ sh' = sh \ {p} /\ ex' = ex \ {p}
  /\ Goto(p, IF Writing(op[p]) /\ idx[p] = len[p] /\ Variant # "nosync" THEN "sync" ELSE "close")
  /\ UNCHANGED << file, disk, op, left, len, want, got, idx, abs, good, ver, wver, dver >>
Close(p) ==
  /\ pc[p] = "close" /\ Goto(p, "idle") /\ op' = Set(op, p, "none") /\ left' = Set(left, p, left[p] - 1)
  \* a power failure right now must not undo a write that reports success: what is on the disk is this
  \* write, or one that came later
  /\ good' = (good /\ (Writing(op[p]) /\ idx[p] = len[p] => dver >= wver[p]))
  /\ UNCHANGED << file, disk, len, want, got, idx, sh, ex, abs, ver, wver, dver >>

Die(p) ==
  /\ pc[p] \notin {"idle", "dead"} /\ Cardinality({q \in Procs : pc[q] = "dead"}) < Crashes
  /\ Goto(p, "dead") /\ sh' = sh \ {p} /\ ex' = ex \ {p}
  /\ abs' = IF pc[p] \in {"wr", "trunc", "set"} THEN Decode(file) ELSE abs
  /\ good' = (good /\ (pc[p] \in {"wr", "trunc", "set"} => Decode(file) \in {abs, Tree(want[p]), Broken}))
  /\ UNCHANGED << file, disk, op, left, len, want, got, idx, ver, wver, dver >>

\* the system writes back what it likes
Flush == /\ disk # file /\ disk' = file /\ dver' = ver
         /\ UNCHANGED << file, pc, op, left, len, want, got, idx, sh, ex, abs, good, ver, wver >>

Step(p) == Open(p) \/ Lock(p) \/ Read(p) \/ ReadEnd(p) \/ Drop(p) \/ Relock(p) \/ Write(p) \/ Unlock1(p) \/ Trunc(p) \/ SetAbs(p) \/ Sync(p) \/ Unlock(p) \/ Close(p)
Next == \/ \E p \in Procs : Call(p) \/ Step(p) \/ Die(p)
        \/ Flush
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in Procs : SF_vars(Step(p))

----------------------------------------------------------------------------
TypeOK == /\ sh \subseteq Procs /\ ex \subseteq Procs
          /\ \A p \in Procs : idx[p] <= MaxLen
\* every completed call fits one sequential order: that of the points where abs is read or replaced
Atomic == good
Exclusion == Cardinality(ex) <= 1 /\ (ex # {} => sh = {})
\* locks are held only inside calls
Released == \A p \in Procs : pc[p] \in {"idle", "dead", "open", "close"} => p \notin sh \cup ex
\* nobody can be kept waiting by a dead or idle process
NoOrphan == \A p \in sh \cup ex : pc[p] \notin {"idle", "dead"}
\* with no call inside a write, the file is exactly the abstract one
Quiet == (\A p \in Procs : pc[p] \notin {"wr", "trunc", "set", "unlock1"}) => Decode(file) = abs
\* ... and nothing of an older, longer one follows it, unless a process died between writing and cutting
Tidy == (\A p \in Procs : pc[p] \notin {"wr", "trunc", "set", "unlock1", "dead"}) /\ file.c # << >> => Len(file.c) = file.c[1].n
Terminates == \A p \in Procs : (pc[p] \notin {"idle", "dead"}) ~> (pc[p] \in {"idle", "dead"})
=============================================================================
