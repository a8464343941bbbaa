------------------------------ MODULE KVGather ------------------------------
(***************************************************************************)
(* Gather-write and scatter-read of a set of files, level by level: the    *)
(* parts (level 0) hold the trees of a run of ranks each, maps hold the    *)
(* names of the files one level down under the rank that reads each, the   *)
(* map that serves everyone is the root.  A level is one step here: what   *)
(* happens inside it is KVPick (who writes) and KVExchange (delivery).     *)
(*                                                                         *)
(* Writes may fail and files may be lost, damaged or replaced by those of  *)
(* a set written by another number of ranks in between, or by another file *)
(* of the same set; any number of them.  All ranks have to end with the    *)
(* same verdict, and success means every rank has exactly its own tree,    *)
(* unless files of one set took each other's place: there the reading has  *)
(* to come to an end all the same, so each file must be of a lower level   *)
(* than the map that lists it (variant "nolevel" does without).            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS N, Seg, MaxCount, Entry, MaxFaults, Variant
Ranks == 0..(N - 1)
Root == << -1, -1 >>
FN == { << l, r >> : l \in 0..3, r \in Ranks } \cup { Root }

VARIABLES count,   \* packed size of each rank's tree
          phase,   \* "part", "map", "verdict", "written", "damage", "rmap", "rpart", "done"
          level, from,  \* current level; files of the level below: rank |-> name
          files,   \* name |-> [lev, n, map: rank |-> name or <<-2, rank>> for its data]
          wrc,     \* per rank: has its write gone well
          frc,     \* the verdict of the write
          faults,
          valid, rrc, data, level_id, verdict,
          maxl,    \* highest level the files read next may have
          swapped  \* a file took the place of another of its set
vars == << count, phase, level, from, files, wrc, frc, faults, valid, rrc, data, level_id, verdict, maxl, swapped >>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Before(_, _)
Before(c, r) == IF r = 0 THEN 0 ELSE Before(c, r - 1) + c[r - 1]
Starts(c, r) == r = 0 \/ (c[r] > 0 /\ LET o == Before(c, r) IN o + c[r] > (o \div Seg + 1) * Seg \/ o % Seg = 0)
Writer(c, r) == MaxOf({ s \in 0..r : Starts(c, s) })
Writers(c) == { Writer(c, r) : r \in Ranks }

NoFile == [lev |-> -1, n |-> 0, map |-> << >>]
Init ==
  /\ count \in [Ranks -> 1..MaxCount]
  /\ phase = "part" /\ level = 0 /\ from = << >>
  /\ files = [f \in FN |-> NoFile]
  /\ wrc = [r \in Ranks |-> TRUE] /\ frc = TRUE /\ faults = 0
  /\ valid = << >> /\ rrc = [r \in Ranks |-> TRUE] /\ data = [r \in Ranks |-> -1] /\ level_id = -1 /\ verdict = [r \in Ranks |-> TRUE]
  /\ maxl = 99 /\ swapped = FALSE

\* a file is written, or its write fails and leaves nothing a reader accepts
Written(ws, name(_), body(_)) ==
  \E bad \in SUBSET ws :
    /\ faults + Cardinality(bad) <= MaxFaults
    /\ faults' = faults + Cardinality(bad)
    /\ files' = [f \in FN |-> IF \E w \in ws : name(w) = f
                              THEN LET w == CHOOSE x \in ws : name(x) = f IN IF w \in bad THEN NoFile ELSE body(w)
                              ELSE files[f]]
    /\ wrc' = [r \in Ranks |-> IF Variant = "lastlevel" THEN r \notin bad ELSE wrc[r] /\ r \notin bad]

Part ==
  /\ phase = "part"
  /\ LET c == count  W == Writers(c)
         name(w) == << 0, w >>
         body(w) == [lev |-> 0, n |-> N, map |-> [r \in { q \in Ranks : Writer(c, q) = w } |-> << -2, r >>]] IN
     /\ Written(W, name, body)
     /\ from' = [w \in W |-> << 0, w >>]
  /\ phase' = "map" /\ level' = 1
  /\ UNCHANGED << count, frc, valid, rrc, data, level_id, verdict, maxl, swapped >>

Map ==
  /\ phase = "map"
  /\ LET c == [r \in Ranks |-> IF r \in DOMAIN from THEN Entry ELSE 0]
         W == Writers(c)  top == W = {0}
         name(w) == IF top THEN Root ELSE << level, w >>
         body(w) == [lev |-> level, n |-> N, map |-> [r \in { q \in DOMAIN from : Writer(c, q) = w } |-> from[r]]] IN
     /\ Written(W, name, body)
     /\ from' = [w \in W |-> name(w)]
     /\ phase' = IF top THEN "verdict" ELSE "map"
  /\ level' = level + 1
  /\ UNCHANGED << count, frc, valid, rrc, data, level_id, verdict, maxl, swapped >>

Verdict ==
  /\ phase = "verdict"
  /\ frc' = (\A r \in Ranks : wrc[r])
  /\ phase' = "written"
  /\ UNCHANGED << count, level, from, files, wrc, faults, valid, rrc, data, level_id, verdict, maxl, swapped >>

Existing == { f \in FN : files[f] # NoFile }
Damage ==
  /\ phase \in {"written", "damage"}
  /\ \/ /\ faults < MaxFaults /\ faults' = faults + 1
        /\ \E f \in Existing :
             \/ files' = [files EXCEPT ![f] = NoFile]
             \* a part left by a set of fewer or more ranks
             \/ files[f].lev = 0 /\ \E k \in {N - 1, N + 1} : files' = [files EXCEPT ![f].n = k]
        /\ phase' = "damage" /\ UNCHANGED << valid, swapped >>
     \/ /\ faults < MaxFaults /\ faults' = faults + 1
        /\ \E f, g \in Existing : f # g /\ files' = [files EXCEPT ![f] = files[g]]
        /\ phase' = "damage" /\ swapped' = TRUE /\ UNCHANGED valid
     \/ /\ phase' = "rmap" /\ valid' = (0 :> Root) /\ UNCHANGED << files, faults, swapped >>
  /\ UNCHANGED << count, level, from, wrc, frc, rrc, data, level_id, verdict, maxl >>

AllTrue(rc) == \A r \in Ranks : rc[r]
\* one level of maps is read; every rank with a file reads it and passes on the names in it
RMap ==
  /\ phase = "rmap"
  /\ LET M(r) == files[valid[r]]
         there == [r \in Ranks |-> r \in DOMAIN valid => M(r) # NoFile]
         to == UNION { DOMAIN M(r).map : r \in DOMAIN valid }
         nv == [q \in to |-> LET r == CHOOSE x \in DOMAIN valid : q \in DOMAIN M(x).map IN M(r).map[q]]
         \* what was received names a file; what was read is of no higher level than expected
         ok == [r \in Ranks |-> /\ r \in to => nv[r][1] # -2
                                /\ r \in DOMAIN valid => Variant = "nolevel" \/ M(r).lev <= maxl] IN
     IF ~AllTrue(there)
       THEN /\ phase' = "rpart" /\ rrc' = [r \in Ranks |-> IF Variant = "localread" THEN there[r] ELSE FALSE]
            /\ UNCHANGED << valid, level_id, maxl >>
     ELSE IF ~AllTrue(ok)
       THEN /\ phase' = "rpart" /\ rrc' = [r \in Ranks |-> FALSE]
            /\ UNCHANGED << valid, level_id, maxl >>
       ELSE /\ valid' = nv
            /\ level_id' = IF 0 \in DOMAIN valid THEN M(0).lev ELSE -1
            /\ phase' = IF level_id' > 1 THEN "rmap" ELSE "rpart"
            /\ maxl' = level_id' - 1
            /\ UNCHANGED rrc
  /\ UNCHANGED << count, level, from, files, wrc, frc, faults, data, verdict, swapped >>

RPart ==
  /\ phase = "rpart"
  /\ LET fits(r) == files[valid[r]] # NoFile /\ (Variant = "noranks" \/ files[valid[r]].n = N)
         ok == [r \in Ranks |-> rrc[r] /\ (r \notin DOMAIN valid \/ fits(r))]
         all == IF Variant = "localread" THEN \E r \in Ranks : ok[r] ELSE AllTrue(ok) IN
     /\ verdict' = [r \in Ranks |-> IF Variant = "localread" THEN ok[r] ELSE AllTrue(ok)]
     /\ data' = IF ~all THEN data
                ELSE [q \in Ranks |-> IF \E r \in DOMAIN valid : files[valid[r]].lev = 0 /\ q \in DOMAIN files[valid[r]].map THEN q ELSE -1]
  /\ phase' = "done"
  /\ UNCHANGED << count, level, from, files, wrc, frc, faults, valid, rrc, level_id, maxl, swapped >>

Next == Part \/ Map \/ Verdict \/ Damage \/ RMap \/ RPart
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)
----------------------------------------------------------------------------
\* a set that was written without a failure holds every rank once, behind one root
Reach(S) == S \cup UNION { { files[f].map[q] : q \in { x \in DOMAIN files[f].map : files[f].lev > 0 } } : f \in S }
Reached == Reach(Reach(Reach(Reach({Root}))))
Holders(q) == { f \in Reached : files[f].lev = 0 /\ q \in DOMAIN files[f].map }
WholeSet == phase = "written" /\ faults = 0 =>
              /\ frc
              /\ \A q \in Ranks : Cardinality(Holders(q)) = 1
              /\ \A f \in Reached : files[f].n = N /\ \A q \in DOMAIN files[f].map : files[f].lev > 0 => files[files[f].map[q]].lev = files[f].lev - 1
\* a write that was reported to have gone well has no failed part in it
Honest == phase = "written" /\ frc => \A f \in Reached : files[f] # NoFile
\* everyone agrees
Agree == phase = "done" => \A r, s \in Ranks : verdict[r] = verdict[s]
\* success hands every rank its own tree, nothing else
Complete == phase = "done" /\ ~swapped /\ (\E r \in Ranks : verdict[r]) => /\ \A r \in Ranks : data[r] = r
                                                              /\ \A f \in Reached : files[f].n = N
\* nothing happened: it has to succeed
Clean == phase = "done" /\ faults = 0 => \A r \in Ranks : verdict[r]
\* no more levels than the entries need
Levels == level <= 4
Terminates == <>(phase = "done")
=============================================================================
