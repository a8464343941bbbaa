------------------------------ MODULE TraceLin ------------------------------
(***************************************************************************)
(* Linearizability of locked file calls made by several processes on one   *)
(* file.  The trace holds histories: a "start" event, a "conc" event with  *)
(* the calls of every process (each with the times it began and ended at), *)
(* an "end" event.  A behaviour takes the calls one at a time, in an order *)
(* that respects each process's own order and real time, and applies to    *)
(* the file what the specification of the call says.  A history is         *)
(* explained ("LIN") if some behaviour takes all of its calls and ends     *)
(* with the contents the file really had.                                  *)
(*                                                                         *)
(* The file: none, empty, a tree, bad (no readable contents), or torn: a   *)
(* process died while writing tree x.new over the file x.old, and nobody   *)
(* has looked yet.                                                         *)
(***************************************************************************)
EXTENDS KVCalls, KVFaults, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Starts == { i \in DOMAIN Trace : Trace[i].op = "start" }
Slots == 0..3

VARIABLES h,    \* start event of the history
          pos,  \* calls taken so far, per process
          st,   \* slots per process
          f     \* the file
vars == << h, pos, st, f >>

None == [k |-> "none"]
EmptyF == [k |-> "empty"]
Bad == [k |-> "bad"]
Tree(t) == [k |-> "tree", t |-> t]
Torn(o, n) == [k |-> "torn", old |-> o, new |-> n]

FileOf(c) == IF c = << >> THEN None
             ELSE LET r == ReadBytes(c[1]) IN
                  CASE r.c = "empty" -> EmptyF [] r.c = "ok" -> Tree(Abs(r.l)) [] OTHER -> Bad

P == Trace[h + 1].P
Ev(p, i) == P[p][i]
Procs == DOMAIN P

Init == /\ h \in Starts
        /\ Trace[h + 1].op = "conc"
        /\ LET PP == Trace[h + 1].P IN
           /\ pos = [p \in DOMAIN PP |-> 0]
           /\ st = [p \in DOMAIN PP |-> [s \in Slots |-> << >>]]
        /\ f = FileOf(Trace[h + 1].c0)

IsFileOp(e) == e.op \in {"write_lock", "read_lock", "rmw", "die"}

\* what somebody who looks at the file may find
Looks(x) == IF x.k # "torn" THEN {x} ELSE {x.old, Tree(x.new), EmptyF, Bad}

WriteStep(e, s, x) ==      \* the file afterwards; e must say so
  LET t == Tgt(s, e.t) IN
  IF e.rc = KVSUCCESS /\ t # << >> THEN { Tree(Solid(t[1])) } ELSE {}

\* reading x into tree t must give t2 with result rc
ReadGives(x, t, rc, t2) ==
  CASE x.k \in {"none", "empty"} -> t2 = t
    [] x.k = "bad" -> rc # KVSUCCESS /\ t2 = t
    [] x.k = "tree" -> rc = KVSUCCESS /\ t2 = Merge(t, x.t)

Seen(x) == IF x.k = "none" THEN EmptyF ELSE x      \* a reader may create the file

FileStep(e, s, s2, x) ==
  CASE e.op = "write_lock" -> { y \in WriteStep(e, s, x) : Pure(e) /\ e.fd = 0 /\ e.al = 0 }
    [] e.op = "read_lock" ->
         LET t == Tgt(s, e.t)  t2 == Tgt(s2, e.t) IN
         { Seen(y) : y \in { z \in Looks(x) : /\ ReadGives(z, t[1], e.rc, t2[1]) /\ s2 = Upd(s, e.t, t2[1])
                                              /\ e.fd = 0 /\ e.al = 0 } }
    [] e.op = "rmw" ->
         LET t == Tgt(s, e.t)  t2 == Tgt(s2, e.t)  rd == AbsSlot(UnflatSlot(e.rd)) IN
         UNION { IF ~ReadGives(y, t[1], e.rc1, rd[1]) \/ e.fd # 0 \/ e.al # 0 THEN {}
                 ELSE IF e.rc1 # KVSUCCESS THEN { z \in {Seen(y)} : Pure(e) }
                 ELSE LET new == Put(IF Has(e.u) THEN Del(rd[1], e.u[1]) ELSE rd[1], e.k[1], << Empty >>) IN
                      { z \in { Tree(Solid(new)) } : e.rc2 = KVSUCCESS /\ s2 = Upd(s, e.t, new) } : y \in Looks(x) }
    [] e.op = "die" ->
         LET t == Tgt(s, e.t) IN
         UNION { IF e.call = "read_lock" THEN {Seen(y), y}
                 ELSE IF e.call = "write_lock" THEN {Torn(Seen(y), Solid(t[1])), y}
                 ELSE IF y.k = "bad" THEN {y}
                 ELSE {Torn(Seen(y), Solid(Put(IF y.k = "tree" THEN Merge(t[1], y.t) ELSE t[1], e.k[1], << Empty >>))), y} : y \in Looks(x) }

\* nobody else has a call to take that had returned before this one began
Timely(p, e) == \A q \in Procs \ {p} : \A i \in (pos[q] + 1)..Len(P[q]) : IsFileOp(Ev(q, i)) => Ev(q, i).e > e.b

Step(p) ==
  /\ pos[p] < Len(P[p])
  /\ LET e == Ev(p, pos[p] + 1)
         s2 == SlotsAbs(e, st[p])
     IN  /\ IF e.op = "end" THEN UNCHANGED << st, f >>
            ELSE IF IsFileOp(e)
            THEN /\ Timely(p, e)
                 /\ \E y \in FileStep(e, st[p], s2, f) : f' = y
                 /\ st' = [st EXCEPT ![p] = s2]
            ELSE st' = [st EXCEPT ![p] = s2] /\ UNCHANGED f
         /\ pos' = [pos EXCEPT ![p] = @ + 1]
         /\ UNCHANGED h

Done == \A p \in Procs : pos[p] = Len(P[p])
Final(c) == LET o == FileOf(c) IN
            CASE f.k = "torn" -> o \in Looks(f)
              [] f.k = "none" -> o \in {None, EmptyF}
              [] OTHER -> o = f

\* calls that touch no file are taken at once: their order does not matter
Local == { p \in Procs : pos[p] < Len(P[p]) /\ ~IsFileOp(Ev(p, pos[p] + 1)) }
Next == /\ pos # << >>
        /\ IF Done
           THEN /\ Final(Trace[h + 1].c)
                /\ PrintT("LIN " \o ToString(h))
                /\ pos' = << >> /\ st' = << >> /\ f' = None /\ UNCHANGED h
           ELSE IF Local # {} THEN Step(CHOOSE p \in Local : TRUE)
           ELSE \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars
=============================================================================
