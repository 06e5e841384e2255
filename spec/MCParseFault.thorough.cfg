INIT InitF
NEXT NextF
CONSTANTS MaxSections = 3 Full = TRUE
INVARIANTS SoundF EmitF
PROPERTIES FilesStay FilesAppendOnly
CHECK_DEADLOCK FALSE
