------------------------------- MODULE KVPerm -------------------------------
(***************************************************************************)
(* Permission bits of created files, over all umasks.                      *)
(***************************************************************************)
EXTENDS Integers, Bitwise
VARIABLES um, file            \* the process's umask; mode of the file, -1 if absent
ModeBits(p, m) == LET all == p * 64 + p * 8 + p IN all - (all & m)
Init == um \in 0..511 /\ file = -1
Create == file = -1 /\ file' = ModeBits(6, um) /\ UNCHANGED um
Reuse == file # -1 /\ UNCHANGED << um, file >>
Next == Create \/ Reuse
Spec == Init /\ [][Next]_<< um, file >>
NeverExecute == file = -1 \/ (file & 73) = 0
Allowed == file = -1 \/ ((file & um) = 0 /\ (file | (um & 438)) = 438)
Idem == file = -1 \/ ModeBits(6, um) = file
=============================================================================
