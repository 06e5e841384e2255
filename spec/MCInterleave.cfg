INIT Init
NEXT Next
CONSTANTS MaxSwitches = 3 Procs = 2 Bursts = {1, 2, 3, 5, 8}
INVARIANTS AsAlone Emit
PROPERTIES SharedUntouched
CHECK_DEADLOCK FALSE
