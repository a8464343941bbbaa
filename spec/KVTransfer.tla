----------------------------- MODULE KVTransfer -----------------------------
(***************************************************************************)
(* How a tree gets from one rank to another: as its size, then its bytes,   *)
(* over a message layer that promises only order per pair of ranks and     *)
(* that may hold any number of messages or none (whether a blocking send   *)
(* completes before it is received is the layer's choice, made anew for    *)
(* every message).                                                         *)
(*                                                                         *)
(* Every rank makes Calls calls one after the other; call c of all ranks   *)
(* together moves trees along the partial permutation to[c].  A "combined" *)
(* call posts its receive and its send and waits for both, first for the   *)
(* sizes, then for the bytes; a "plain" pattern sends before it receives   *)
(* or the reverse, as its caller decided, and is only used where that      *)
(* order cannot form a circle.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, Calls, Variant
Ranks == 0..(N - 1)
None == N

\* a tree is named by who sends it in which call; its size tells the trees apart
Size(r, c) == 10 * c + r + 1

VARIABLES to,      \* to[c][r]: whom r sends to in call c
          call,    \* the call each rank is in
          st,      \* step within the call
          posted,  \* has the send / receive of the current phase been posted, completed
          size,    \* size received
          net,     \* net[<<s, d>>]: messages sent and not yet received; each carries whether its sender waits for it
          got,     \* got[r][c]: tree delivered
          good
vars == << to, call, st, posted, size, net, got, good >>

Perms == { f \in [Ranks -> 0..N] : \A a, b \in Ranks : a # b /\ f[a] # None => f[a] # f[b] }
From(c, r) == IF \E s \in Ranks : to[c][s] = r THEN CHOOSE s \in Ranks : to[c][s] = r ELSE None
To(c, r) == to[c][r]

Init ==
  /\ to \in [1..Calls -> Perms]
  /\ call = [r \in Ranks |-> 1]
  /\ st = [r \in Ranks |-> "post1"]
  /\ posted = [r \in Ranks |-> [s |-> TRUE, r |-> TRUE]]
  /\ size = [r \in Ranks |-> 0]
  /\ net = [p \in Ranks \X Ranks |-> << >>]
  /\ got = [r \in Ranks |-> [c \in 1..Calls |-> << >>]]
  /\ good = TRUE

\* every send is in the network from the moment it is posted; what differs is when it completes
Send(n, s, d, m) == [n EXCEPT ![<< s, d >>] = Append(@, m)]

Last(p) == p = "wait2"
Next1(s) == CASE s = "wait1" -> "post2" [] s = "wait2" -> "post1"

\* post the send and the receive of a phase: nothing is waited for
Msg(r, ph) == [ph |-> ph, c |-> call[r], src |-> r, size |-> Size(r, call[r])]
Post(r) ==
  /\ call[r] <= Calls /\ st[r] \in {"post1", "post2"}
  /\ LET ph == IF st[r] = "post1" THEN 1 ELSE 2
         d == To(call[r], r)  s == From(call[r], r) IN
     /\ net' = IF d = None THEN net ELSE Send(net, r, d, Msg(r, ph))
     /\ posted' = [posted EXCEPT ![r] = [s |-> d = None, r |-> s = None]]
     /\ st' = [st EXCEPT ![r] = IF ph = 1 THEN "wait1" ELSE "wait2"]
  /\ UNCHANGED << to, call, size, got, good >>

\* a posted receive takes the first message of its pair
Blocked(r) ==
  \* deviation: the receive only counts once the send has completed
  \/ Variant = "sendfirst" /\ ~posted[r].s
  \/ Variant = "bodyblocking" /\ st[r] = "wait2" /\ ~posted[r].s
Recv(r) ==
  /\ call[r] <= Calls /\ st[r] \in {"wait1", "wait2"} /\ ~posted[r].r /\ ~Blocked(r)
  /\ LET s == From(call[r], r)  q == net[<< s, r >>]  ph == IF st[r] = "wait1" THEN 1 ELSE 2 IN
     /\ q # << >>
     /\ net' = [net EXCEPT ![<< s, r >>] = Tail(q)]
     /\ posted' = [posted EXCEPT ![r].r = TRUE]
     \* the message received is the one meant, and fits what was allocated for it
     /\ good' = (good /\ q[1].ph = ph /\ q[1].c = call[r] /\ q[1].src = s /\ (ph = 2 => q[1].size = size[r]))
     /\ size' = IF ph = 1 THEN [size EXCEPT ![r] = q[1].size] ELSE size
     /\ got' = IF ph = 2 THEN [got EXCEPT ![r][call[r]] = << q[1].src, q[1].c >>] ELSE got
  /\ UNCHANGED << to, call, st >>

InNet(r, ph) == \E d \in Ranks : \E i \in 1..Len(net[<< r, d >>]) : net[<< r, d >>][i].c = call[r] /\ net[<< r, d >>][i].ph = ph
\* a posted send completes: at any time if the layer buffers it (Early), at the latest when it was received
Complete(r, early) ==
  /\ call[r] <= Calls /\ st[r] \in {"wait1", "wait2"} /\ ~posted[r].s
  /\ early \/ ~InNet(r, IF st[r] = "wait1" THEN 1 ELSE 2)
  /\ posted' = [posted EXCEPT ![r].s = TRUE]
  /\ UNCHANGED << to, call, st, size, net, got, good >>

Waited(r) == posted[r].s /\ posted[r].r
Done(r) ==
  /\ call[r] <= Calls /\ st[r] \in {"wait1", "wait2"}
  /\ Waited(r) \/ (Variant = "nowait" /\ st[r] = "wait1" /\ posted[r].s)
  /\ IF st[r] = "wait1"
       THEN st' = [st EXCEPT ![r] = "post2"] /\ UNCHANGED << call, good >>
       ELSE /\ st' = [st EXCEPT ![r] = "post1"] /\ call' = [call EXCEPT ![r] = @ + 1]
            /\ good' = (good /\ LET s == From(call[r], r) IN got[r][call[r]] = IF s = None THEN << >> ELSE << s, call[r] >>)
  /\ UNCHANGED << to, posted, size, net, got >>

\* steps the layer owes, and the one it may take or leave
Must == \E r \in Ranks : Post(r) \/ Recv(r) \/ Complete(r, FALSE) \/ Done(r)
May == \E r \in Ranks : Complete(r, TRUE)
Spec == Init /\ [][Must \/ May]_vars
Fair == Spec /\ WF_vars(Must)
----------------------------------------------------------------------------
Over == \A r \in Ranks : call[r] > Calls
\* no rank waits for ever, however little the layer buffers
NoDeadlock == Over \/ ENABLED Must
\* every tree arrives in its call, whole, and nothing is left over
Delivered == good
NothingLeft == Over => \A p \in Ranks \X Ranks : net[p] = << >>
Terminates == <>Over
=============================================================================
