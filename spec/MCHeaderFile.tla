------------------------------ MODULE MCHeaderFile ------------------------------
(* C21, C22: generated preambles in every mode.                                    *)
EXTENDS PatchHeader
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLE id
Init == id = 0
Next == id' \in {k \in (32 * id + 1)..(32 * id + 32) : k <= Len(Cases)}    \* a wide tree of cases
Read == id > 0 => \A x \in {Cases[id]} : \A r \in {ParseHeader(x.str, x.mode)} :
          PrintT(ToJson([s |-> x.str, mode |-> x.mode, want |-> r]))
=============================================================================
