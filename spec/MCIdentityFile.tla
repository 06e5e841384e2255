----------------------------- MODULE MCIdentityFile -----------------------------
(* C24: generated identity strings.  Where the string was written from a name    *)
(* and an address, they are what is read from it.                                 *)
EXTENDS Identity
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLE id
Init == id \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED id
C == Cases[id]
U == ParseIdentity(C.s)
AsWritten == C.known => U = [ok |-> TRUE, name |-> IF IsUsable(NormSpace(C.name)) THEN NormSpace(C.name) ELSE C.email, email |-> C.email]
Emit == PrintT(ToJson([s |-> C.s, u |-> U]))
=============================================================================
