INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
    MAXFEE = 10000
    TOLLSHARE = 333333
    MILLION = 1000000
    MAXRES = 4
    INVERTFROM <- TraceInvertFrom
    MINPRODUCT = 1000000
    MAXITER = 32
    UPGRADER = "upg"
    WAD <- TraceWAD
    DMAX <- TraceD
    U64MAX <- TraceU64
    StepOf <- Step
    NoteOf <- Note
    PropOf <- Prop
    NotesAtFirst <- NoNotes
    AllIds <- Ids
    First <- TheFirst
    Prelude <- ThePrelude
    Alphabet <- TheAlphabet
    Slots <- TheSlots
    Depth <- TheDepth
