-------------------------------- MODULE Seeds --------------------------------
(* Seeded sources of randomness. Every source is created with a key (kind,     *)
(* data, parameters and seed); its n-th result is a function of key and n      *)
(* alone, whatever other sources and the global generator do in between, in    *)
(* whichever process. table[key] is the longest known prefix of that function. *)
EXTENDS Integers, Sequences

Prefix(table, key) == IF key \in DOMAIN table THEN table[key] ELSE <<>>
\* the result v as the n-th one of a source with this key is consistent with everything seen
Consistent(table, key, n, v) == n <= Len(Prefix(table, key)) => Prefix(table, key)[n] = v
Extend(table, key, n, v) ==
    LET p == Prefix(table, key)
        q == IF n = Len(p) + 1 THEN Append(p, v) ELSE p
    IN [k \in (DOMAIN table) \cup {key} |-> IF k = key THEN q ELSE table[k]]
=============================================================================
