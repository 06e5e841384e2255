INIT InitF
NEXT NextF
CONSTANTS MaxSections = 2 Full = TRUE
INVARIANTS SoundF EmitF
PROPERTIES FilesStay FilesAppendOnly
CHECK_DEADLOCK FALSE
