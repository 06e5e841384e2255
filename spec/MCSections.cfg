INIT Init
NEXT Next
CONSTANTS MaxSections = 3 Full = TRUE
INVARIANTS Sound Division NeverFails Preamble Emit
PROPERTIES StepsProgress FilesAppendOnly
CHECK_DEADLOCK FALSE
