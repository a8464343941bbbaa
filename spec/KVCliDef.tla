------------------------------- MODULE KVCliDef ------------------------------
(***************************************************************************)
(* The print command.  An argument vector is a sequence of items:          *)
(*   "tree" "keyval" "badmode"   a mode option with its argument           *)
(*   "unknown"                   an option that does not exist             *)
(*   "noarg"                     a mode option without argument (last)     *)
(*   "help"                                                                *)
(*   "file" "missing" "damaged"  a file operand (readable, absent, broken) *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets, TLC

Modes == {"tree", "keyval", "badmode"}
Operands == {"file", "missing", "damaged"}
Items == Modes \cup {"unknown", "noarg", "help"} \cup Operands
Count(a, S) == Cardinality({ i \in DOMAIN a : a[i] \in S })
WellFormed(a) == \A i \in DOMAIN a : a[i] = "noarg" => i = Len(a)
LastMode(a) == LET m == { i \in DOMAIN a : a[i] \in Modes } IN
               IF m = {} THEN "tree" ELSE a[CHOOSE i \in m : \A j \in m : j <= i]
Wrong(a) == Count(a, {"unknown", "noarg"}) > 0 \/ LastMode(a) = "badmode"
Help(a) == Count(a, {"help"}) > 0
\* what the command has to do: "tree" (print it, status 0), "usage" (status 0, no tree),
\* "error" (status not 0, no tree), "any" (not laid down; no tree)
Expect(a) ==
  IF Wrong(a) THEN "error"
  ELSE IF Help(a) THEN IF Count(a, {"badmode"}) > 0 THEN "any" ELSE "usage"
  ELSE IF Count(a, Operands) # 1 THEN "error"
  ELSE IF Count(a, {"file"}) = 0 THEN "error"
  ELSE IF Count(a, {"badmode"}) > 0 THEN "any" ELSE "tree"

=============================================================================
