------------------------------ MODULE KVFaults ------------------------------
(***************************************************************************)
(* What injected input/output errors allow a call to do.  e.pl lists the   *)
(* plans in force: << class, errno (negative: partial transfer), how many  *)
(* calls in a row (negative: all), how many calls it hit >>.  Classes:     *)
(* O open, R read, W write, S seek, T truncate, F fsync, C close, L lock,  *)
(* U unlock.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
EINTR == 4
EAGAIN == 11
\* interrupted, would-block and partial transfers: invisible to the caller (a write of nothing at
\* all, errno -2, may be taken for an error or tried again)
Passing(p) == p[1] \in {"R", "W"} /\ (p[2] = -1 \/ (p[2] \in {EINTR, EAGAIN} /\ p[3] >= 0))
Hits(e) == \E i \in DOMAIN e.pl : e.pl[i][4] > 0 /\ ~Passing(e.pl[i])
\* an error that cannot be overcome by trying again
Lasting(p) == p[3] < 0 /\ p[2] >= 0 /\ p[2] \notin {EINTR, EAGAIN}
\* ... on one of the given classes of calls
HardHit(e, classes) == \E i \in DOMAIN e.pl : e.pl[i][4] > 0 /\ e.pl[i][1] \in classes /\ Lasting(e.pl[i])
\* the same for the two halves of an open-read, write-close pair; h1: hits of the first half
HardHit1(e, classes) == \E i \in DOMAIN e.h1 : e.h1[i] > 0 /\ e.pl[i][1] \in classes /\ Lasting(e.pl[i])
HardHit2(e, classes) == \E i \in DOMAIN e.h1 : e.pl[i][4] > e.h1[i] /\ e.pl[i][1] \in classes /\ Lasting(e.pl[i])
Hits1(e) == \E i \in DOMAIN e.h1 : e.h1[i] > 0 /\ ~Passing(e.pl[i])
Hits2(e) == \E i \in DOMAIN e.h1 : e.pl[i][4] > e.h1[i] /\ ~Passing(e.pl[i])
=============================================================================
