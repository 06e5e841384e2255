INIT Init
NEXT Next
CONSTANTS MaxSwitches = 0 Procs = 4 Bursts = {1}
INVARIANTS AsAlone Emit
PROPERTIES SharedUntouched
CHECK_DEADLOCK FALSE
