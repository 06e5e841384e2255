INIT Init
NEXT Next
CONSTANTS MaxSwitches = 4 Procs = 3 Bursts = {2, 5}
INVARIANTS AsAlone Emit
PROPERTIES SharedUntouched
CHECK_DEADLOCK FALSE
