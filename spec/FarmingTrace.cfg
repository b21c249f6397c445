INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    HISTCAP = 1000
    PERCAP = 10
    MINTCAP = 10
    DEFWIN = 7200
    WAD <- TraceWAD
    U64MAX <- TraceU64
