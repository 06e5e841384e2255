------------------------------- MODULE MCCostTrace -------------------------------
(* Recorded deliveries of real sources.  A run that reads too much is cut off.      *)
EXTENDS Cost, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)
VARIABLES id, now, cost
T == Cases[id]
Init == \E c \in 1..Len(Cases) : id = c /\ now = 1 /\ cost = CostStart
Next == cost.why = "" /\ now <= Len(T.ev) /\ now' = now + 1 /\ cost' = CostStep(cost, T.ev[now], T.want) /\ UNCHANGED id
Over == cost.why # "" \/ now > Len(T.ev)
Emit == Over => PrintT(ToJson([why |-> cost.why, step |-> now - 1, spent |-> cost.spent, trace |-> T]))
=============================================================================
