------------------------------- MODULE KVPick -------------------------------
(***************************************************************************)
(* Choosing the writers of a level: ranks in order are cut into runs whose *)
(* bytes fit a segment, the first rank of a run writes for all of it.      *)
(* Every rank learns its writer from a segmented scan in ceil(log2 N)      *)
(* rounds of neighbour messages, each rank at its own pace, and the last   *)
(* rank tells everyone whether one writer serves them all.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Seg, MaxCount, Variant
Ranks == 0..(N - 1)
None == -1

VARIABLES count,   \* bytes each rank contributes at this level, 0 for a rank without any
          round, sent, acc, \* per rank: round, has it sent, [n |-> ranks seen since its writer, w |-> writer]
          chan
vars == << count, round, sent, acc, chan >>

RECURSIVE Before(_, _)
Before(c, r) == IF r = 0 THEN 0 ELSE Before(c, r - 1) + c[r - 1]
Starts(c, r) ==
  \/ r = 0
  \/ c[r] > 0 /\ LET o == Before(c, r) IN
       \/ o + c[r] > (o \div Seg + 1) * Seg
       \/ o % Seg = 0 /\ Variant # "noexact"
\* what the scan has to compute
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Writer(c, r) == MaxOf({ s \in 0..r : Starts(c, s) })

Init ==
  /\ count \in [Ranks -> 0..MaxCount]
  /\ round = [r \in Ranks |-> 0]
  /\ sent = [r \in Ranks |-> FALSE]
  /\ acc = [r \in Ranks |-> [n |-> 1, w |-> IF Starts(count, r) THEN r ELSE None]]
  /\ chan = [p \in Ranks \X Ranks |-> << >>]

Step(r) == 2 ^ round[r]
More(r) == IF Variant = "rounds" THEN 2 * Step(r) < N ELSE Step(r) < N
Send(r) ==
  /\ More(r) /\ ~sent[r]
  /\ sent' = [sent EXCEPT ![r] = TRUE]
  /\ chan' = IF r + Step(r) \in Ranks THEN [chan EXCEPT ![<< r, r + Step(r) >>] = Append(@, acc[r])] ELSE chan
  /\ UNCHANGED << count, round, acc >>
Recv(r) ==
  /\ More(r) /\ sent[r]
  /\ LET l == r - Step(r) IN
     IF l < 0 THEN UNCHANGED << acc, chan >>
     ELSE LET q == chan[<< l, r >>] IN
       /\ q # << >>
       /\ chan' = [chan EXCEPT ![<< l, r >>] = Tail(q)]
       /\ acc' = IF acc[r].w = None \/ Variant = "noguard" THEN [acc EXCEPT ![r] = [n |-> acc[r].n + q[1].n, w |-> q[1].w]] ELSE acc
  /\ round' = [round EXCEPT ![r] = @ + 1]
  /\ sent' = [sent EXCEPT ![r] = FALSE]
  /\ UNCHANGED count
Next == \E r \in Ranks : Send(r) \/ Recv(r)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Over == \A r \in Ranks : ~More(r) /\ ~sent[r]
\* only complete knowledge is final: each rank ends with its writer ...
Right == Over => \A r \in Ranks : acc[r].w = Writer(count, r)
\* ... and the last rank sees all of them behind one writer exactly when that is so
One == Over => ((acc[N - 1].n = N) = (\A r \in Ranks : Writer(count, r) = 0))
NoDeadlock == Over \/ ENABLED Next
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN count[x] + SumOf(S \ {x})
\* no writer gets more than a segment beyond its own contribution
Bounded == \A w \in Ranks : LET M == { r \in Ranks : Writer(count, r) = w } IN
             M # {} => SumOf(M \ {w}) <= Seg
\* with entries of at most half a segment there are fewer writers each time, down to one
Shrinks == LET W == { Writer(count, r) : r \in Ranks }  V == { r \in Ranks : count[r] > 0 } IN
             Cardinality(V) > 1 /\ count[0] > 0 /\ (\A r \in Ranks : 2 * count[r] <= Seg) => Cardinality(W) < Cardinality(V)
=============================================================================
