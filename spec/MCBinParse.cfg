INIT Init
NEXT Next
CONSTANTS Parts = {"good", "damage", "headers", "lines", "orders"}
 Lens = {1,2,3,4,5,6,7,8,23,24,25,26,27,28,29,47,48,49,50,51,52,53,54,55,56,57,103,104,105,106}
INVARIANTS Sound Exact Emit
PROPERTIES StepsProgress
CHECK_DEADLOCK FALSE
