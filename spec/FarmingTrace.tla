----------------------------- MODULE FarmingTrace -----------------------------
(***************************************************************************)
(* Checks behaviours recorded from the real programs: every line of the     *)
(* trace file is an event with its outcome.  The state is rebuilt from what *)
(* was observed, the specification and its properties judge each step.      *)
(*                                                                         *)
(* A line may name the line it follows ("par"), so that a file can hold all *)
(* the ways in which a behaviour goes on; otherwise it follows the one      *)
(* above.  TLC explores exactly the lines of the file, one state for each,  *)
(* so that the number of distinct states must be the number of lines.       *)
(***************************************************************************)
EXTENDS FarmingProps, IOUtils

TraceWAD == NLit("1000000000000000000")
TraceU64 == NLit("18446744073709551615")

VARIABLES k, st, g

Trace == NdJson(IOEnv.TRACE)
\* the lines which follow a line: one, or several if all of them were tried
Kids == NdKids(IOEnv.TRACE)
Props == IF IOEnv.PROP = "ALL" THEN Ids ELSE {IOEnv.PROP}
\* also compare all of the state with what the specification says
Strict == IOEnv.STRICT = "1"

Rebuilt(pre, v, n) ==
    IF v.k = "farm" /\ "hadd" \in DOMAIN v
    THEN LET kept == SubSeq(pre[n].hist, v.hdrop + 1, Len(pre[n].hist))
         IN [x \in (DOMAIN v \cup {"hist"}) \ {"hdrop", "hadd"} |->
                IF x = "hist" THEN kept \o v.hadd ELSE v[x]]
    ELSE v

Observed(pre, e) ==
    LET gone == {e.gone[i] : i \in 1..Len(e.gone)} IN
    [n \in (DOMAIN pre \cup DOMAIN e.up) \ gone |->
        IF n \in DOMAIN e.up THEN Rebuilt(pre, e.up[n], n) ELSE pre[n]]

Changed(e) == DOMAIN e.up \cup {e.gone[i] : i \in 1..Len(e.gone)}

Report(line, e, id, m) ==
    IF m = "" THEN TRUE ELSE PrintT(ToString(<<"@", id, line, e.a, m>>))

Conforms(pre, e, post) ==
    LET s == Step(pre, e) IN
    IF s.ok # e.ok THEN IF e.ok THEN "accepted" ELSE "refused"
    ELSE IF ~e.ok THEN ""
    ELSE IF s.st = post THEN ""
    ELSE ToString({<<n, IF n \in DOMAIN s.st THEN s.st[n] ELSE "none",
                     IF n \in DOMAIN post THEN post[n] ELSE "none">> :
            n \in {x \in DOMAIN s.st \cup DOMAIN post :
                     IF x \in DOMAIN s.st /\ x \in DOMAIN post
                     THEN s.st[x] # post[x] ELSE TRUE}})

Init == \E i \in 1..Len(Trace) :
            /\ Trace[i].a = "init"
            /\ k = i
            /\ st = Trace[i].up
            /\ g = NoNotes

Next ==
    \E i \in 1..Len(Kids[k]) :
       /\ k' = Kids[k][i]
       /\ \E e \in {Trace[k']} :
          \E post \in {IF e.ok THEN Observed(st, e) ELSE st} :
          \E notes \in {Note(g, st, e, e.ok, post)} :
          \E ch \in {Changed(e)} :
          /\ \A id \in Props :
                Report(k', e, id, Prop(id, st, e, e.ok, post, g, notes, ch))
          /\ IF Strict THEN Report(k', e, "SPEC", Conforms(st, e, post))
             ELSE TRUE
          /\ st' = post /\ g' = notes

View == k
Spec == Init /\ [][Next]_<<k, st, g>>
==============================================================================
