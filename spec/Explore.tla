------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Exhaustive exploration of a specification within bounds: from the state *)
(* a list of events leads to, any event out of an alphabet may be tried at *)
(* any time, and time may pass.  All properties are checked on each step.  *)
(*                                                                         *)
(* The steps tried are printed, each as the sequence of choices which      *)
(* leads to it (0 for a slot which passes, otherwise the number of the     *)
(* event), so that all of them can be tried on the real program as well.   *)
(***************************************************************************)
EXTENDS Chain, IOUtils, Json

CONSTANTS
    StepOf(_, _), NoteOf(_, _, _, _, _), PropOf(_, _, _, _, _, _, _, _),
    NotesAtFirst, AllIds,
    First,          \* the event which describes the accounts at first
    Prelude,        \* events which lead to where the exploration begins
    Alphabet(_),    \* the events to try in a slot
    Slots,          \* how many slots may pass
    Depth           \* how many accepted events are explored

\* whether to print the steps tried
Emit == IOEnv.EMIT = "1"

VARIABLES st, g, slot, log, left

Props == IF IOEnv.PROP = "ALL" THEN AllIds
         ELSE IF IOEnv.PROP = "" THEN {} ELSE {IOEnv.PROP}

\* the accounts described by an "init" event
Accounts(x) ==
    LET named(s) == {s[i].n : i \in 1..Len(s)}
        of(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].n = n]
        farms == {x.farms[i] : i \in 1..Len(x.farms)}
    IN [n \in named(x.mints) \cup named(x.toks) \cup farms |->
          IF n \in farms THEN [k |-> "zero"]
          ELSE IF n \in named(x.mints)
          THEN LET m == of(x.mints, n) IN
               [k |-> "mint", supply |-> m.supply, auth |-> m.auth,
                freeze |-> IF "freeze" \in DOMAIN m THEN m.freeze ELSE ""]
          ELSE LET t == of(x.toks, n) IN
               [NewTok(t.mint, t.own) EXCEPT
                    !.amt = t.amt,
                    !.x = IF "delegate" \in DOMAIN t THEN "d" ELSE ""]
               @@ IF "delegate" \in DOMAIN t
                  THEN [del |-> t.delegate,
                        dam |-> IF "dam" \in DOMAIN t THEN t.dam ELSE 0]
                  ELSE <<>>]

\* all events of the prelude must be accepted
RECURSIVE Run(_, _, _)
Run(s, notes, i) ==
    IF i > Len(Prelude) THEN <<s, notes>>
    ELSE LET e == Prelude[i]  r == StepOf(s, e) IN
         IF Assert(r.ok, <<"prelude", i, e>>)
         THEN Run(r.st, NoteOf(notes, s, e, TRUE, r.st), i + 1)
         ELSE <<>>

SlotAtFirst == Prelude[Len(Prelude)].slot

Init ==
    /\ LET r == Run(Accounts(First.x), NotesAtFirst, 1) IN
       st = r[1] /\ g = r[2]
    /\ slot = SlotAtFirst
    /\ log = <<>>
    /\ left = Depth
    /\ PrintT(ToJson([first |-> First, prelude |-> Prelude,
                      alphabet |-> [s \in 0..Slots |->
                                      Alphabet(SlotAtFirst + s)]]))

Differ(a, b) == {n \in DOMAIN a \cup DOMAIN b :
                   IF n \in DOMAIN a /\ n \in DOMAIN b THEN a[n] # b[n]
                   ELSE TRUE}

\* deviations which are known are judged where traces are checked
Good(id, m, e) ==
    IF m = "" \/ m = "known:same-slot-snapshot" THEN TRUE
    ELSE Assert(FALSE, ToString(<<"@", id, log, e, m>>))

\* the events to try in each slot
Events == [s \in SlotAtFirst..(SlotAtFirst + Slots) |->
              LET es == Alphabet(s) IN
              [i \in 1..Len(es) |-> es[i] @@ [slot |-> s]]]

\* bound by quantifiers so that TLC evaluates everything once
Try(i) ==
    \E e \in {Events[slot][i]} :
    \E r \in {StepOf(st, e)} :
    \E ch \in {Differ(st, r.st)} :
    \E notes \in {NoteOf(g, st, e, r.ok, r.st)} :
    /\ \A id \in Props :
          Good(id, PropOf(id, st, e, r.ok, r.st, g, notes, ch), e)
    /\ IF Emit THEN PrintT(Append(log, i)) ELSE TRUE
    /\ r.ok
    /\ left > 0
    /\ st' = r.st /\ g' = notes
    /\ log' = Append(log, i)
    /\ left' = left - 1
    /\ UNCHANGED slot

Tick ==
    /\ slot < SlotAtFirst + Slots
    /\ slot' = slot + 1
    /\ log' = Append(log, 0)
    /\ UNCHANGED <<st, g, left>>

Next == Tick \/ \E i \in 1..Len(Events[slot]) : Try(i)

View == <<st, g, slot, left>>
==============================================================================
