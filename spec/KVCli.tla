------------------------------- MODULE KVCli --------------------------------
(***************************************************************************)
(* All argument vectors of the print command up to MaxItems items.         *)
(***************************************************************************)
EXTENDS KVCliDef, IOUtils, Json
CONSTANT MaxItems
VARIABLE a
Init == a = << >>
Next == /\ Len(a) < MaxItems
        /\ \E x \in Items : a' = Append(a, x) /\ WellFormed(a')
        /\ (IF IOEnv.EMIT = "cli" THEN PrintT("TEST " \o ToJson(a')) ELSE TRUE)
Spec == Init /\ [][Next]_a
\* a tree is only ever asked for with exactly one operand, and adding a wrong option never helps
OnlyOne == Expect(a) = "tree" => Count(a, Operands) = 1
Monotone == [][Expect(a) = "error" /\ Wrong(a) /\ LastMode(a') # "tree" => Expect(a') # "tree"]_a
=============================================================================
