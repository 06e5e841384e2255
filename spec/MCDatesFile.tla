------------------------------ MODULE MCDatesFile ------------------------------
(* C23: generated local times in generated formats, and generated strings.        *)
EXTENDS Dates
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLE id
Init == id = 0
Next == id' \in {k \in (32 * id + 1)..(32 * id + 32) : k <= Len(Cases)}    \* a wide tree of cases
Read == id > 0 =>
  \A x \in {Cases[id]} : \A str \in {IF x.fmt = "" THEN x.str ELSE Render(x.fmt, x.f)} : \A w \in {ParseDate(str)} :
    /\ x.fmt # "" => w = Denoted(x.fmt, x.f)
    /\ PrintT(ToJson([s |-> str, want |-> w]))
=============================================================================
