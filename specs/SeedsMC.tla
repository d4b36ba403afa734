------------------------------- MODULE SeedsMC -------------------------------
(* Two seeded sources and consumers of the global generator, interleaved.      *)
(* Source s draws f(seed, n) from its own generator; in the broken design      *)
(* ("shared") it draws from the global one.                                    *)
EXTENDS Seeds, TLC
CONSTANTS Keys, Depth, Bug
VARIABLES count, owner, global, table, ok
vars == <<count, owner, global, table, ok>>
Sources == 1..3
Init == owner \in [Sources -> Keys] /\ count = [s \in Sources |-> 0] /\ global = 0 /\ table = <<>> /\ ok = TRUE
F(key, n) == key * 10 + n
Draw(s) ==
    LET n == count[s] + 1
        v == IF Bug = "shared" THEN global ELSE F(owner[s], n)
    IN /\ n <= Depth
       /\ count' = [count EXCEPT ![s] = n]
       /\ ok' = (ok /\ Consistent(table, owner[s], n, v))
       /\ table' = Extend(table, owner[s], n, v)
       /\ global' = IF Bug = "shared" THEN global + 1 ELSE global
       /\ UNCHANGED owner
Consume == global < 3 /\ global' = global + 1 /\ UNCHANGED <<count, owner, table, ok>>
Next == Consume \/ \E s \in Sources : Draw(s)
Spec == Init /\ [][Next]_vars
Deterministic == ok
=============================================================================
