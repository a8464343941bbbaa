----------------------------- MODULE KVExchange -----------------------------
(***************************************************************************)
(* The exchange: every rank has trees for some ranks, and routes them in   *)
(* ceil(log2 N) rounds of one combined call each - in round k an item whose *)
(* remaining distance has bit k set moves 2^k ranks in the direction of the *)
(* exchange.  The two-sided exchange sorts the items by the direction that *)
(* takes fewer hops, agrees on how many rounds each side needs, and runs   *)
(* the left side and then the right one.                                   *)
(*                                                                         *)
(* Ranks go through the rounds on their own; a round's combined call ends  *)
(* when the partner's message is there (KVTransfer: it delivers, and never *)
(* blocks for good).  What is checked is that this refines the contract:   *)
(* one atomic step that hands every rank exactly what was addressed to it. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* ranks
          Mode,       \* "left", "right" or "both"
          MaxItems,   \* at most this many items in the whole exchange (99: any number)
          Free,       \* TRUE: all interleavings of ranks, FALSE: a canonical one
          Variant
Ranks == 0..(N - 1)
Item == Ranks \X Ranks      \* source, destination; its tree is named by the pair

VARIABLES items,  \* what has to be delivered
          side,   \* per rank: the pass it is in: 1 or 2 (only "both"), 3: done
          round,  \* per rank: next round of the pass
          sent,   \* per rank: has it sent in this round
          cur,    \* per rank and pass: items it holds
          chan,   \* chan[<<from, to>>]: messages on their way
          out,    \* per rank: items delivered
          hops    \* hops[item]
vars == << items, side, round, sent, cur, chan, out, hops >>

Pow2(k) == 2 ^ k
Bit(n, k) == (n \div Pow2(k)) % 2
RECURSIVE Rounds(_)
Rounds(k) == IF Pow2(k) >= N THEN k ELSE Rounds(k + 1)
Full == Rounds(0)

DistL(a, d) == (a - d + N) % N
DistR(a, d) == (d - a + N) % N
RECURSIVE Sum(_, _)
Sum(n, k) == IF k < 0 THEN 0 ELSE Bit(n, k) + Sum(n, k - 1)
PopCount(n) == Sum(n, Full)
RECURSIVE Top(_, _)
Top(n, k) == IF k < 0 THEN 0 ELSE IF Bit(n, k) = 1 THEN k + 1 ELSE Top(n, k - 1)
\* rounds until an item with this distance has arrived
Need(n) == IF Variant = "counthops" THEN PopCount(n) ELSE Top(n, Full)

GoesLeft(i) == CASE Mode = "left" -> TRUE
                 [] Mode = "right" -> FALSE
                 [] OTHER -> PopCount(DistL(i[1], i[2])) < PopCount(DistR(i[1], i[2]))
Set1 == { i \in items : GoesLeft(i) }
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* rounds of a pass: all of them, or as many as any rank needs
Limit(r, s) ==
  IF Mode # "both" THEN Full
  ELSE MaxOf({ IF s = 1 THEN Need(DistL(i[1], i[2])) ELSE Need(DistR(i[1], i[2])) :
               i \in { j \in items : GoesLeft(j) = (s = 1) /\ (Variant = "nomax" => j[1] = r) } })

Passes == IF Mode = "left" THEN {1} ELSE IF Mode = "right" THEN {2} ELSE {1, 2}
Sets == IF MaxItems = 99 THEN SUBSET Item ELSE { S \in SUBSET Item : Cardinality(S) <= MaxItems }
Few(k) == IF k = 0 THEN { {} } ELSE IF k = 1 THEN { {a} : a \in Item } \cup { {} } ELSE { {a, b} : a, b \in Item } \cup { {} }
Init ==
  /\ items \in (IF MaxItems \in 0..2 THEN Few(MaxItems) ELSE Sets)
  /\ side = [r \in Ranks |-> IF Mode = "right" THEN 2 ELSE 1]
  /\ round = [r \in Ranks |-> 0]
  /\ sent = [r \in Ranks |-> FALSE]
  /\ cur = [s \in {1, 2} |-> [r \in Ranks |-> { i \in items : i[1] = r /\ GoesLeft(i) = (s = 1) }]]
  /\ chan = [p \in Ranks \X Ranks |-> << >>]
  /\ out = [r \in Ranks |-> {}]
  /\ hops = [i \in items |-> 0]

Dist(s, r, d) == IF s = 1 THEN DistL(r, d) ELSE DistR(r, d)
Partner(s, r, k) == IF s = 1 THEN (r - Pow2(k) + N) % N ELSE (r + Pow2(k)) % N
Source(s, r, k) == IF s = 1 THEN (r + Pow2(k)) % N ELSE (r - Pow2(k) + N) % N

\* start of a round: deliver what is here, send what has to move, keep the rest
Split(r) ==
  /\ side[r] \in Passes /\ round[r] < Limit(r, side[r]) /\ ~sent[r]
  /\ LET s == side[r]  k == round[r]  C == cur[s][r]
         here == { i \in C : i[2] = r }
         go == { i \in C \ here : Bit(IF Variant = "olddist" THEN Dist(s, i[1], i[2]) - 1 ELSE Dist(s, r, i[2]), k) = 1 } IN
     /\ out' = [out EXCEPT ![r] = @ \cup here]
     /\ cur' = [cur EXCEPT ![s][r] = (C \ here) \ go]
     /\ chan' = [chan EXCEPT ![<< r, Partner(s, r, k) >>] = Append(@, go)]
     /\ hops' = [i \in items |-> IF i \in go THEN hops[i] + 1 ELSE hops[i]]
  /\ sent' = [sent EXCEPT ![r] = TRUE]
  /\ UNCHANGED << items, side, round >>

Merge(r) ==
  /\ side[r] \in Passes /\ sent[r]
  /\ LET s == side[r]  q == chan[<< Source(s, r, round[r]), r >>] IN
     /\ q # << >>
     /\ cur' = [cur EXCEPT ![s][r] = @ \cup Head(q)]
     /\ chan' = [chan EXCEPT ![<< Source(s, r, round[r]), r >>] = Tail(q)]
  /\ sent' = [sent EXCEPT ![r] = FALSE]
  /\ round' = [round EXCEPT ![r] = @ + 1]
  /\ UNCHANGED << items, side, out, hops >>

\* end of a pass: what arrived in the last round; whatever is left over is lost
Pass(r) ==
  /\ side[r] \in Passes /\ round[r] = Limit(r, side[r]) /\ ~sent[r]
  /\ LET s == side[r]  C == cur[s][r] IN
     /\ out' = [out EXCEPT ![r] = @ \cup { i \in C : i[2] = r }]
     /\ cur' = [cur EXCEPT ![s][r] = {}]
  /\ round' = [round EXCEPT ![r] = 0]
  /\ side' = [side EXCEPT ![r] = IF side[r] = 1 /\ Mode = "both" THEN 2 ELSE 3]
  /\ UNCHANGED << items, sent, chan, hops >>

Step(r) == Split(r) \/ Merge(r) \/ Pass(r)
Next == \E r \in Ranks : Step(r) /\ (Free \/ \A q \in Ranks : q < r => ~ENABLED Step(q))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
----------------------------------------------------------------------------
InChan == UNION { UNION { chan[p][j] : j \in 1..Len(chan[p]) } : p \in Ranks \X Ranks }
Over == \A r \in Ranks : side[r] = 3
\* nothing is lost, doubled or made up on the way
Conserved == LET held == UNION { cur[s][r] : s \in {1, 2}, r \in Ranks } IN
             /\ items = held \cup InChan \cup UNION { out[r] : r \in Ranks }
             /\ \A r \in Ranks : \A i \in out[r] : i[2] = r
             /\ held \cap InChan = {} /\ held \cap UNION { out[r] : r \in Ranks } = {}
\* what the rounds done so far have achieved: the low bits of the distance are used up
Routed == \A r \in Ranks : side[r] \in Passes => \A i \in cur[side[r]][r] :
            ~sent[r] => Dist(side[r], r, i[2]) % Pow2(round[r]) = 0
\* the contract: at the end every rank has exactly what was addressed to it
Contract == Over => /\ \A r \in Ranks : out[r] = { i \in items : i[2] = r }
                    /\ \A p \in Ranks \X Ranks : chan[p] = << >>
NoDeadlock == Over \/ ENABLED Next
\* no item travels more hops than its cheaper side costs
Cheap == Mode = "both" => \A i \in items : LET l == PopCount(DistL(i[1], i[2]))  r == PopCount(DistR(i[1], i[2])) IN
                             hops[i] <= IF l < r THEN l ELSE r
Terminates == <>Over
=============================================================================
