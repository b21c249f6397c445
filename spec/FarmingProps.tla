----------------------------- MODULE FarmingProps -----------------------------
(***************************************************************************)
(* The properties of the farming program, as predicates over one step:     *)
(*                                                                         *)
(*   pre, e, ok, post   the state, the event, whether it was accepted and  *)
(*                      the state it led to                                *)
(*   g, h               what an auditor who watches all events notes down, *)
(*                      before and after the step                          *)
(*   ch                 names of accounts which differ between pre and post*)
(*                                                                         *)
(* A predicate is "" if the step agrees with the property and otherwise    *)
(* names what is wrong.  The steps come either from the specification      *)
(* itself (FarmingMC) or from the real program (FarmingTrace).             *)
(***************************************************************************)
EXTENDS Farming

FarmsIn(st) == {n \in DOMAIN st : st[n].k = "farm"}

------------------------------------------------------------------------------
(* The auditor's notes, derived from the accepted events:                  *)
(*   hist[f]   the last HISTCAP snapshots of a farm                        *)
(*   old[f][m] periods which the farm no longer remembers                  *)
(*   cr[f][m]  all harvest ever credited to farmers of the farm            *)
(*   upto[f]   the last slot whose harvest was credited to somebody        *)
(*   dup[f]    slots with a snapshot taken after harvest for that slot was *)
(*             already credited to somebody                                *)
(*   fa[n]     of a farmer: the stake which earns harvest, the stake which *)
(*             does not yet, the slot in which the latter was deposited    *)
(*             and the first slot whose harvest was not credited yet       *)

NoNotes == [hist |-> <<>>, old |-> <<>>, cr |-> <<>>, dup |-> <<>>,
            upto |-> <<>>, fa |-> <<>>]

NewFarmer == [st |-> 0, ve |-> 0, va |-> 0, paid |-> 0]

\* the sum of the values of a function with numbers
RECURSIVE SumF(_)
SumF(f) == IF DOMAIN f = {} THEN 0
           ELSE LET x == CHOOSE y \in DOMAIN f : TRUE
                IN f[x] ++ SumF([y \in DOMAIN f \ {x} |-> f[y]])

\* the farmers an event settles, with the farm and the slot
Settled(e) ==
    CASE e.a \in {"start_farming", "stop_farming", "update_eligible_harvest",
                  "update_eligible_harvest_until", "compound_same_farm"} ->
            {<<e.acc.farmer, e.acc.farm, Until(e)>>}
      [] e.a = "compound_across_farms" ->
            {<<e.acc.sfarmer, e.acc.source, e.slot>>,
             <<e.acc.tfarmer, e.acc.target, e.slot>>}
      [] OTHER -> {}

\* those which the auditor knows of
Known(g, pre, e) ==
    {x \in Settled(e) : /\ x[1] \in DOMAIN g.fa /\ Has(pre, x[1], "farmer")
                        /\ x[2] \in DOMAIN g.hist /\ Has(pre, x[2], "farm")}

Matures(gf, hist) == gf.ve # 0 /\ HasSnapshotAfter(hist, gf.va)

\* the slots in which harvest is due, as segments <<from, to, stake>>
Due(gf, hist, until) ==
    IF Matures(gf, hist)
    THEN LET s == SnapshotAfter(hist, gf.va)[1]
             p == NMax(gf.paid, s)
         IN (IF gf.paid \prec s THEN <<<<gf.paid, s -- 1, gf.st>>>> ELSE <<>>)
            \o (IF p \prec until THEN <<<<p, until, gf.st ++ gf.ve>>>>
                ELSE <<>>)
    ELSE IF gf.paid \prec until THEN <<<<gf.paid, until, gf.st>>>> ELSE <<>>

Settling(gf, hist, until) ==
    LET m == Matures(gf, hist)
        p == IF m THEN NMax(gf.paid, SnapshotAfter(hist, gf.va)[1])
             ELSE gf.paid
    IN [st |-> IF m THEN gf.st ++ gf.ve ELSE gf.st,
        ve |-> IF m THEN 0 ELSE gf.ve,
        va |-> gf.va,
        paid |-> IF p \prec until THEN until ++ 1 ELSE p]

AmtOf(st, n) == IF Has(st, n, "tok") THEN st[n].amt ELSE 0

\* how much the tokens of an account grew
Grew(pre, post, n) == AmtOf(post, n) -- AmtOf(pre, n)

\* harvest tokens moved into stake by compounding
Compounded(pre, e, post, n, m) ==
    CASE e.a = "compound_same_farm" ->
            IF m = pre[e.acc.farm].mint THEN Grew(pre, post, e.acc.svault)
            ELSE 0
      [] e.a = "compound_across_farms" ->
            IF n = e.acc.sfarmer /\ m = pre[e.acc.target].mint
            THEN Grew(pre, post, e.acc.svault) ELSE 0
      [] OTHER -> 0

Recorded(st, n, m) ==
    IF ~Has(st, n, "farmer") THEN 0
    ELSE IF m \in DOMAIN st[n].har THEN st[n].har[m] ELSE 0

\* harvest credited to farmer n by an event which settles the farmer
Credited(pre, e, post, n, m) ==
    Recorded(post, n, m) ++ Compounded(pre, e, post, n, m)
    -- Recorded(pre, n, m)

\* the auditor's note on a farmer after an event which settles it
NoteFarmer(g, pre, e, post, x) ==
    LET gf == Settling(g.fa[x[1]], g.hist[x[2]], x[3]) IN
    CASE e.a = "start_farming" ->
            [gf EXCEPT !.ve = @ ++ e.x.amt, !.va = e.slot]
      [] e.a = "stop_farming" ->
            LET amt == NMin(e.x.amt, gf.st ++ gf.ve)
                v == NMin(amt, gf.ve)
            IN [gf EXCEPT !.ve = @ -- v, !.st = @ -- (amt -- v)]
      [] e.a = "compound_same_farm" ->
            [gf EXCEPT !.ve = @ ++ Grew(pre, post, e.acc.svault),
                       !.va = e.slot]
      [] e.a = "compound_across_farms" /\ x[1] = e.acc.tfarmer ->
            [gf EXCEPT !.ve = @ ++ Grew(pre, post, e.acc.svault),
                       !.va = e.slot]
      [] OTHER -> gf

NoteSettled(g, pre, e, post) ==
    LET set == Known(g, pre, e)
        names == {x[1] : x \in set}
        of(n) == CHOOSE x \in set : x[1] = n
        credit(f, m) == SumF([n \in {y \in names : of(y)[2] = f} |->
                                Credited(pre, e, post, n, m)])
    IN [g EXCEPT
        !.fa = [n \in DOMAIN @ |->
                  IF n \in names THEN NoteFarmer(g, pre, e, post, of(n))
                  ELSE @[n]],
        !.cr = [f \in DOMAIN @ |->
                  IF \E x \in set : x[2] = f
                  THEN [m \in DOMAIN @[f] |-> @[f][m] ++ credit(f, m)]
                  ELSE @[f]],
        !.upto = [f \in DOMAIN @ |->
                    LET xs == {x \in set : x[2] = f /\
                                 Settling(g.fa[x[1]], g.hist[f], x[3]).st # 0}
                    IN IF xs = {} THEN @[f]
                       ELSE NMax(@[f], (CHOOSE x \in xs : TRUE)[3])]]

Note(g, pre, e, ok, post) ==
    LET f == IF "farm" \in DOMAIN e.acc THEN e.acc.farm ELSE "" IN
    IF ~ok THEN g
    ELSE CASE e.a = "create_farm" ->
            [g EXCEPT !.hist = Put(@, f, <<>>), !.old = Put(@, f, <<>>),
                      !.cr = Put(@, f, <<>>), !.dup = Put(@, f, {}),
                      !.upto = Put(@, f, -1)]
      [] e.a = "take_snapshot" /\ f \in DOMAIN g.hist ->
            [g EXCEPT
                !.hist[f] = PushSnapshot(@, <<e.slot, AmtOf(pre, Sv(f))>>),
                !.dup[f] = IF e.slot \preceq g.upto[f] THEN @ \cup {e.slot}
                           ELSE @]
      [] e.a = "add_harvest" /\ f \in DOMAIN g.hist ->
            [g EXCEPT !.old[f] = Put(@, e.acc.mint, <<>>),
                      !.cr[f] = Put(@, e.acc.mint, 0)]
      [] e.a = "remove_harvest" /\ f \in DOMAIN g.hist ->
            [g EXCEPT !.old[f] = Del(@, e.x.mint), !.cr[f] = Del(@, e.x.mint)]
      [] e.a = "new_harvest_period" /\ f \in FarmsIn(pre) /\ f \in FarmsIn(post)
         /\ f \in DOMAIN g.hist ->
            IF e.x.mint \in DOMAIN pre[f].harvests
               /\ e.x.mint \in DOMAIN post[f].harvests
               /\ e.x.mint \in DOMAIN g.old[f]
            THEN LET was == pre[f].harvests[e.x.mint].per
                     is == post[f].harvests[e.x.mint].per
                     lost(p) == /\ p.s \preceq e.slot
                                /\ \A i \in 1..Len(is) : is[i] # p
                 IN [g EXCEPT !.old[f][e.x.mint] =
                        SelectSeq(was, lost) \o @]
            ELSE g
      [] e.a = "create_farmer" ->
            [g EXCEPT !.fa = Put(@, e.acc.farmer, NewFarmer)]
      [] e.a = "close_farmer" -> [g EXCEPT !.fa = Del(@, e.acc.farmer)]
      [] Known(g, pre, e) # {} -> NoteSettled(g, pre, e, post)
      [] OTHER -> g

\* all periods there ever were, as far as the auditor knows
AllPeriods(g, st, f, m) ==
    st[f].harvests[m].per
    \o (IF f \in DOMAIN g.old THEN IF m \in DOMAIN g.old[f] THEN g.old[f][m]
                                   ELSE <<>> ELSE <<>>)

------------------------------------------------------------------------------
(* The share of a farmer, calculated independently of Earned.            *)

\* the windows between snapshots in slots since..until, as <<from, to, total>>
Windows(h, since, until) ==
    LET i1 == StartedBy(h, until)
        i0 == LET i == StartedBy(h, since) IN IF i = 0 THEN 1 ELSE i
    IN [j \in 1..(i1 - i0 + 1) |->
           LET i == i0 + j - 1 IN
           <<NMax(h[i][1], since),
             IF i < i1 THEN h[i + 1][1] -- 1 ELSE until, h[i][2]>>]

\* the share of a stake in each of the windows, rounded down; if `low`, the
\* quotient of the stakes may have been rounded down to 1/WAD before
Share(per, h, seg, low) ==
    LET ws == IF seg[3] = 0 THEN <<>> ELSE Windows(h, seg[1], seg[2]) IN
    NSum([i \in 1..Len(ws) |->
        LET w == ws[i]
            em == IF w[1] \succ w[2] THEN 0 ELSE Emitted(per, w[1], w[2])
        IN IF w[3] = 0 \/ em = 0 THEN 0
           ELSE IF low
           THEN NMax(0, (em ** ((seg[3] ** WAD) -- w[3])) // (w[3] ** WAD))
           ELSE NMulDiv(seg[3], em, w[3])])

Shares(per, h, due, low) ==
    NSum([i \in 1..Len(due) |-> Share(per, h, due[i], low)])

------------------------------------------------------------------------------
(* The predicates.                                                         *)

Is(c, m) == IF c THEN "" ELSE m
Else(a, b) == IF a = "" THEN b ELSE a

FarmChanged(pre, post, ch) ==
    {n \in ch : Has(pre, n, "farm") \/ Has(post, n, "farm")}
FarmerChanged(pre, post, ch) ==
    {n \in ch : Has(pre, n, "farmer") \/ Has(post, n, "farmer")}
TokChanged(pre, post, ch) ==
    {n \in ch : Has(pre, n, "tok") \/ Has(post, n, "tok")}

\* the accounts of a farm's instruction which the state confirms to exist
FarmOf(st, e) ==
    IF "farm" \in DOMAIN e.acc THEN Has(st, e.acc.farm, "farm") ELSE FALSE

\* what the specification accepts is accepted
Accepts(pre, e, ok) == ok \/ ~Step(pre, e).ok

------------------------------------------------------------------------------
(* C01: the history of snapshots is an exact, append only record.          *)

P_C01(pre, e, ok, post, g, h, ch) ==
    LET fs == FarmChanged(pre, post, ch)
              \cup (IF ok /\ e.a = "take_snapshot" THEN {e.acc.farm} ELSE {})
    IN Is(\A f \in fs :
            IF Has(post, f, "farm")
            THEN f \in DOMAIN h.hist /\ post[f].hist = h.hist[f]
            ELSE FALSE,
          "snapshot history differs from the snapshots taken")

------------------------------------------------------------------------------
(* C02: a snapshot is taken iff the window since the last one has passed.  *)

P_C02(pre, e, ok, post, g, h, ch) ==
    CASE e.a = "take_snapshot" ->
            IF FarmOf(pre, e) /\ e.acc.farm \in DOMAIN g.hist
            THEN LET f == e.acc.farm
                     due == SnapshotDue([pre[f] EXCEPT !.hist = g.hist[f]],
                                        e.slot)
                 IN Else(Is(ok => due, "snapshot before the window passed"),
                         Is(due /\ e.acc.vault = Sv(f) => ok,
                            "snapshot refused after the window passed"))
            ELSE ""
      [] e.a = "set_min_snapshot_window" ->
            Else(Is(Accepts(pre, e, ok), "window of the admin refused"),
                 IF ok /\ FarmOf(pre, e) /\ FarmOf(post, e)
                 THEN Is(post[e.acc.farm].win = e.x.win, "wrong window set")
                 ELSE "")
      [] OTHER ->
            Is(\A f \in FarmChanged(pre, post, ch) :
                 Has(pre, f, "farm") /\ Has(post, f, "farm")
                    => pre[f].win = post[f].win, "window changed")

------------------------------------------------------------------------------
(* C03: the harvest periods of a mint form a timeline.                     *)

\* most recent first, none overlapping the next
Timeline(per) ==
    /\ \A i \in 1..Len(per) : per[i].s \preceq per[i].e
    /\ \A i \in 1..(Len(per) - 1) : per[i + 1].e \prec per[i].s

\* which mints' periods may change
PeriodsSame(pre, post, f, except) ==
    \A m \in (DOMAIN pre[f].harvests \cap DOMAIN post[f].harvests) \ except :
        pre[f].harvests[m].per = post[f].harvests[m].per

PeriodRequest(pre, e) ==
    IF e.a = "new_harvest_period" /\ FarmOf(pre, e)
    THEN e.x.mint \in DOMAIN pre[e.acc.farm].harvests ELSE FALSE

P_C03(pre, e, ok, post, g, h, ch) ==
    LET fs == FarmChanged(pre, post, ch)
        both(f) == Has(pre, f, "farm") /\ Has(post, f, "farm")
        request == ok /\ PeriodRequest(pre, e)
    IN
    Else(Is(\A f \in fs : both(f) =>
              PeriodsSame(pre, post, f,
                          IF request /\ f = e.acc.farm THEN {e.x.mint}
                          ELSE {}),
            "periods changed without a request"),
    Else(Is(\A f \in fs : Has(post, f, "farm") =>
              \A m \in DOMAIN post[f].harvests :
                /\ Len(post[f].harvests[m].per) <= PERCAP
                /\ \/ both(f) /\ m \in DOMAIN pre[f].harvests
                   \/ post[f].harvests[m].per = <<>>,
            "periods of a new mint"),
    IF ~request THEN ""
    ELSE LET f == e.acc.farm  m == e.x.mint
             was == pre[f].harvests[m].per
             old == Started(was, e.slot)
             p == PeriodOf(e)
         IN IF m \notin DOMAIN post[f].harvests THEN "mint gone" ELSE
            LET is == post[f].harvests[m].per IN
            Else(Is(e.x.starts = 0 \/ e.slot \preceq e.x.starts,
                    "period starts in the past"),
            Else(Is(is # <<>> /\ is[1] = p, "not the requested period"),
            Else(Is(Timeline(is), "periods overlap"),
                 Is(is = NewPeriods(was, e.slot, p),
                    "a period which had started was altered"))))))

------------------------------------------------------------------------------
(* C04: periods are kept as long as harvest may depend on them.            *)

P_C04(pre, e, ok, post, g, h, ch) ==
    IF ~PeriodRequest(pre, e) \/ e.acc.farm \notin DOMAIN g.hist THEN ""
    ELSE LET f == e.acc.farm  m == e.x.mint
             was == pre[f].harvests[m].per
             full == Len(Started(was, e.slot)) = PERCAP
         IN
         IF ok
         THEN IF m \notin DOMAIN post[f].harvests THEN "mint gone"
              ELSE LET is == post[f].harvests[m].per IN
              Is(\A i \in 1..Len(was) :
                    \/ was[i].s \succ e.slot
                    \/ \E j \in 1..Len(is) : is[j] = was[i]
                    \/ was[i].e \prec OldestSlot(g.hist[f]),
                 "period forgotten while its harvest can be claimed")
         ELSE Is(full => Accepts(pre, e, ok),
                 "period refused although the oldest one is not needed")

------------------------------------------------------------------------------
(* C05: a period is paid for exactly, in advance.                          *)

P_C05(pre, e, ok, post, g, h, ch) ==
    IF ~PeriodRequest(pre, e) THEN ""
    ELSE LET f == e.acc.farm  m == e.x.mint
             was == pre[f].harvests[m].per
             paid == IF Scheduled(was, e.slot) THEN Cost(was[1]) ELSE 0
             due == Cost(PeriodOf(e)) -- paid
         IN
         IF ok
         THEN Else(Is(\/ Grew(pre, post, Hv(f, m)) = due
                      \/ e.acc.wallet = Hv(f, m),
                      "harvest vault not funded exactly"),
              Else(Is(\/ Grew(pre, post, e.acc.wallet) = 0 -- due
                      \/ e.acc.wallet = Hv(f, m),
                      "wallet not debited exactly"),
                   Is(\A n \in TokChanged(pre, post, ch) :
                         n \in {Hv(f, m), e.acc.wallet},
                      "tokens of others moved")))
         ELSE Is(Accepts(pre, e, ok), "valid, funded period refused")

------------------------------------------------------------------------------
(* C06: the registry of harvestable mints and their vaults.                *)

P_C06(pre, e, ok, post, g, h, ch) ==
    LET fs == FarmChanged(pre, post, ch)
        mints(st, f) == IF Has(st, f, "farm") THEN DOMAIN st[f].harvests ELSE {}
        added(f) == IF ok /\ e.a = "add_harvest" /\ e.acc.farm = f
                    THEN {e.acc.mint} ELSE {}
        removed(f) == IF ok /\ e.a = "remove_harvest" /\ e.acc.farm = f
                      THEN {e.x.mint} ELSE {}
        touched == fs \cup (IF ok /\ e.a \in {"add_harvest", "remove_harvest"}
                            THEN {e.acc.farm} ELSE {})
    IN
    Else(Is(\A f \in touched :
              /\ added(f) \cap mints(pre, f) = {}
              /\ removed(f) \subseteq mints(pre, f)
              /\ mints(post, f) = (mints(pre, f) \cup added(f)) \ removed(f),
            "mints of the farm are not those added and not removed"),
    Else(Is(\A f \in touched : Cardinality(mints(post, f)) <= MINTCAP,
            "too many mints"),
    Else(Is(\A f \in touched : \A m \in mints(post, f) :
              LET v == post[f].harvests[m].vault IN
              /\ v = Hv(f, m)
              /\ Has(post, v, "tok")
              /\ post[v].mint = m /\ post[v].own = Fs(f)
              /\ m \in added(f) => post[v].amt = 0,
            "harvest vault"),
    Else(Is(\A f \in touched : \A m \in removed(f) :
              AmtOf(pre, Hv(f, m)) = 0 /\ Hv(f, m) \notin DOMAIN post,
            "mint removed while its vault is in use"),
    IF e.a \in {"add_harvest", "remove_harvest"}
    THEN Is(Accepts(pre, e, ok), "valid request refused") ELSE ""))))

------------------------------------------------------------------------------
(* C07: only the admin administers a farm.                                 *)

AdminActions == {"add_harvest", "remove_harvest", "set_farm_owner",
                 "new_harvest_period", "set_min_snapshot_window"}
ListActions == {"whitelist_farm_for_compounding",
                "dewhitelist_farm_for_compounding"}

ByAdmin(st, e, f) ==
    IF Has(st, f, "farm") THEN SignedBy(e, st[f].admin) ELSE FALSE

P_C07(pre, e, ok, post, g, h, ch) ==
    Else(Is(ok /\ e.a \in AdminActions => ByAdmin(pre, e, e.acc.farm),
            "administered by somebody else than the admin"),
    Else(Is(ok /\ e.a \in ListActions =>
              /\ ByAdmin(pre, e, e.acc.source)
              /\ (Wl(e.acc.source, e.acc.target) \in DOMAIN post)
                 = (e.a = "whitelist_farm_for_compounding"),
            "whitelisted by somebody else than the source's admin"),
    Else(Is(\A n \in ch :
              (Has(pre, n, "wl") \/ Has(post, n, "wl")) =>
              ok /\ e.a \in ListActions /\ n = Wl(e.acc.source, e.acc.target),
            "whitelist changed"),
    Else(Is(\A f \in FarmChanged(pre, post, ch) :
              IF Has(pre, f, "farm") /\ Has(post, f, "farm")
              THEN post[f].admin =
                     IF e.a = "set_farm_owner" /\ f = e.acc.farm
                     THEN e.acc.new ELSE pre[f].admin
              ELSE /\ ok /\ e.a = "create_farm" /\ Has(post, f, "farm")
                   /\ SignedBy(e, post[f].admin),
            "owner changed"),
    Else(Is(ok /\ e.a = "set_farm_owner" /\ FarmOf(post, e) =>
              /\ Signs(e, "new") /\ post[e.acc.farm].admin = e.acc.new,
            "ownership taken without the new owner's signature"),
    IF e.a \in ListActions \cup {"set_farm_owner", "create_farm"}
    THEN Is(Accepts(pre, e, ok), "valid request of the admin refused")
    ELSE "")))))

------------------------------------------------------------------------------
(* C08: tokens leave an account only as its owner or a claim permits.      *)

\* the farm whose authority owns the account, if any
FarmBehind(st, n) ==
    LET fs == {f \in FarmsIn(st) : st[n].own = Fs(f)} IN
    IF fs = {} THEN "" ELSE CHOOSE f \in fs : TRUE

Permitted(g, pre, e, n, amt) ==
    LET f == FarmBehind(pre, n)
        m == pre[n].mint
        ofFarm(fr) == Has(pre, fr, "farmer") /\ pre[fr].farm = f
        \* the harvest a farmer is eligible for
        most(fr) == Recorded(pre, fr, m) ++
                    (IF fr \in DOMAIN g.fa /\ f \in DOMAIN g.hist
                     THEN Shares(AllPeriods(g, pre, f, m), g.hist[f],
                                 Due(g.fa[fr], g.hist[f], e.slot), FALSE)
                     ELSE 0)
    IN
    IF f = ""
    THEN \* a wallet
         Entitled(pre[n], e, amt)
         /\ CASE e.a \in {"start_farming", "airdrop", "transfer"} ->
                     amt \preceq e.x.amt
              [] e.a = "new_harvest_period" ->
                     amt \preceq Cost(PeriodOf(e))
              [] OTHER -> FALSE
    ELSE CASE e.a = "stop_farming" ->
                /\ n = Sv(f) /\ ofFarm(e.acc.farmer)
                /\ SignedBy(e, pre[e.acc.farmer].auth)
                /\ amt \preceq NMin(e.x.amt, Total(pre[e.acc.farmer]))
           [] e.a = "claim_eligible_harvest" ->
                /\ n = Hv(f, m) /\ ofFarm(e.acc.farmer)
                /\ SignedBy(e, pre[e.acc.farmer].auth)
                /\ amt \preceq Recorded(pre, e.acc.farmer, m)
           [] e.a = "new_harvest_period" ->
                /\ n = Hv(f, m) /\ f = e.acc.farm /\ m = e.x.mint
                /\ SignedBy(e, pre[f].admin)
                /\ m \in DOMAIN pre[f].harvests
                /\ Scheduled(pre[f].harvests[m].per, e.slot)
                /\ amt \preceq Cost(pre[f].harvests[m].per[1])
           [] e.a = "compound_same_farm" ->
                /\ n = Hv(f, m) /\ m = pre[f].mint
                /\ ofFarm(e.acc.farmer) /\ Wl(f, f) \in DOMAIN pre
                /\ m \in DOMAIN pre[f].harvests
                /\ amt \preceq most(e.acc.farmer)
           [] e.a = "compound_across_farms" ->
                /\ n = Hv(f, m) /\ ofFarm(e.acc.sfarmer)
                /\ Has(pre, e.acc.target, "farm")
                /\ m = pre[e.acc.target].mint
                /\ Wl(f, e.acc.target) \in DOMAIN pre
                /\ m \in DOMAIN pre[f].harvests
                /\ amt \preceq most(e.acc.sfarmer)
           [] OTHER -> FALSE

P_C08(pre, e, ok, post, g, h, ch) ==
    LET ts == TokChanged(pre, post, ch)
        mints == {IF Has(pre, n, "tok") THEN pre[n].mint ELSE post[n].mint :
                    n \in ts}
    IN
    Else(Is(\A n \in ts : Has(pre, n, "tok") /\ Has(post, n, "tok") =>
              SameHands(pre[n], post[n]),
            "token account changed hands"),
    Else(Is(\A n \in ts : Has(pre, n, "tok") =>
              LET d == 0 -- Grew(pre, post, n) IN
              d \preceq 0 \/ (Has(post, n, "tok") /\ Permitted(g, pre, e, n, d)),
            "tokens taken without permission"),
    Else(Is(\A m \in mints :
              SumF([n \in {x \in ts : (IF Has(pre, x, "tok") THEN pre[x].mint
                                       ELSE post[x].mint) = m} |->
                      Grew(pre, post, n)]) = 0,
            "tokens appeared or disappeared"),
         Is(\A n \in ch : Has(pre, n, "mint") => post[n] = pre[n],
            "mint changed"))))

------------------------------------------------------------------------------
(* C10, C11: what a farmer is credited with is its share of what the farm   *)
(* emitted in the slots since the last time, not less and not more.        *)

Credits(g, pre, e, post) ==
    {<<x, m>> : x \in Known(g, pre, e), m \in
        UNION {DOMAIN pre[x[2]].harvests : x \in Known(g, pre, e)}}

CreditsWhere(g, pre, e, post, Which(_), Good(_, _, _, _)) ==
    \A y \in Credits(g, pre, e, post) :
        LET x == y[1]  m == y[2] IN
        m \in DOMAIN pre[x[2]].harvests /\ Which(y) =>
        Good(AllPeriods(g, pre, x[2], m), g.hist[x[2]],
             Due(g.fa[x[1]], g.hist[x[2]], x[3]),
             Credited(pre, e, post, x[1], m))

CreditsOf(g, pre, e, post, Good(_, _, _, _)) ==
    LET all(y) == TRUE IN CreditsWhere(g, pre, e, post, all, Good)

------------------------------------------------------------------------------
(* C09: new stake is vested until the first snapshot after its deposit.    *)

P_C09(pre, e, ok, post, g, h, ch) ==
    LET ns == FarmerChanged(pre, post, ch)
              \cup (IF ok THEN {x[1] : x \in Known(g, pre, e)} ELSE {})
        \* what was not settled before counts from when it earns harvest
        good(per, hist, due, cr) == /\ cr \preceq Shares(per, hist, due, FALSE)
                                    /\ cr \succeq Shares(per, hist, due, TRUE)
        vesting(y) == g.fa[y[1][1]].ve # 0
    IN Else(Is(\A n \in ns : Has(post, n, "farmer") /\ n \in DOMAIN h.fa =>
            /\ post[n].staked = h.fa[n].st
            /\ post[n].vested = h.fa[n].ve
            /\ h.fa[n].ve # 0 => post[n].vestedAt = h.fa[n].va,
          "staked and vested funds are not as deposits and snapshots imply"),
       Is(ok => CreditsWhere(g, pre, e, post, vesting, good),
          "vested funds do not earn harvest from the next snapshot on"))

------------------------------------------------------------------------------
P_C10(pre, e, ok, post, g, h, ch) ==
    LET good(per, hist, due, cr) == cr \succeq Shares(per, hist, due, TRUE)
    IN Is(ok => CreditsOf(g, pre, e, post, good),
          "farmer credited with less than its share")

P_C11(pre, e, ok, post, g, h, ch) ==
    LET good(per, hist, due, cr) == cr \preceq Shares(per, hist, due, FALSE)
    IN Else(Is(ok => CreditsOf(g, pre, e, post, good),
               "farmer credited with more than its share"),
       \* and with nothing when not settled at all
       Is(\A n \in FarmerChanged(pre, post, ch) :
            \/ ~Has(post, n, "farmer")
            \/ \E x \in Settled(e) : x[1] = n
            \/ \A m \in DOMAIN post[n].har :
                  Recorded(post, n, m) \preceq
                     (Recorded(pre, n, m) ++
                      IF e.a = "airdrop" /\ e.acc.vault = Hv(post[n].farm, m)
                      THEN Grew(pre, post, e.acc.vault) ELSE 0),
          "farmer credited with harvest which nobody provided"))

------------------------------------------------------------------------------
(* C12: all farmers together never get more than the farm emitted.         *)

P_C12(pre, e, ok, post, g, h, ch) ==
    LET fs == {x[2] : x \in Known(g, pre, e)}
        emitted(f, m) == Emitted(AllPeriods(h, post, f, m), 0, e.slot)
        \* the slots in which a snapshot came after a settlement
        twice(f, m) == SumF([s \in h.dup[f] |->
                               Emitted(AllPeriods(h, post, f, m), s, s)])
        all(Good(_, _)) ==
            \A f \in fs : Has(post, f, "farm") /\ f \in DOMAIN h.cr =>
               \A m \in DOMAIN h.cr[f] \cap DOMAIN post[f].harvests : Good(f, m)
        within(f, m) == h.cr[f][m] \preceq emitted(f, m)
        almost(f, m) == h.cr[f][m] \preceq (emitted(f, m) ++ twice(f, m))
    IN IF ~ok THEN ""
       ELSE IF all(within) THEN ""
       ELSE IF all(almost) THEN "known:same-slot-snapshot"
       ELSE "farmers were credited with more than was emitted"

------------------------------------------------------------------------------
(* C13: stake is conserved.                                                *)

\* the accounts which an event's author chose to receive tokens; nobody can
\* stop them from choosing a vault
Receivers(e) ==
    {e.rem[i] : i \in 1..Len(e.rem)}
    \cup (IF "wallet" \in DOMAIN e.acc THEN {e.acc.wallet} ELSE {})
    \cup (IF "to" \in DOMAIN e.acc THEN {e.acc.to} ELSE {})

P_C13(pre, e, ok, post, g, h, ch) ==
    LET frs == FarmerChanged(pre, post, ch)
        tot(st, n) == IF Has(st, n, "farmer") THEN Total(st[n]) ELSE 0
        farm(n) == IF Has(post, n, "farmer") THEN post[n].farm ELSE pre[n].farm
        fs == {farm(n) : n \in frs}
              \cup {f \in FarmsIn(pre) : Sv(f) \in ch}
        grown(f) == SumF([n \in {x \in frs : farm(x) = f} |->
                            tot(post, n) -- tot(pre, n)])
    IN
    Else(Is(\A f \in fs :
              IF Sv(f) \in Receivers(e)
              THEN grown(f) \preceq Grew(pre, post, Sv(f))
              ELSE grown(f) = Grew(pre, post, Sv(f)),
            "stake vault and farmers' funds differ"),
    CASE ok /\ e.a = "start_farming" ->
            Is(/\ tot(post, e.acc.farmer) = tot(pre, e.acc.farmer) ++ e.x.amt
               /\ \/ e.acc.wallet = e.acc.vault
                  \/ Grew(pre, post, e.acc.wallet) = 0 -- e.x.amt,
               "deposit is not what was asked for")
      [] ok /\ e.a = "stop_farming" ->
            LET amt == NMin(e.x.amt, tot(pre, e.acc.farmer)) IN
            Is(/\ tot(post, e.acc.farmer) = tot(pre, e.acc.farmer) -- amt
               /\ \/ e.acc.wallet = e.acc.vault
                  \/ Grew(pre, post, e.acc.wallet) = amt,
               "withdrawal is not what was asked for")
      [] OTHER -> "")

------------------------------------------------------------------------------
(* C14: claims pay what is recorded, airdrops record what is paid.         *)

P_C14(pre, e, ok, post, g, h, ch) ==
    IF e.a \notin {"claim_eligible_harvest", "airdrop"} THEN ""
    ELSE LET s == Step(pre, e) IN
         Else(Is(s.ok => ok, "valid claim or airdrop refused"),
         Else(Is(ok => s.ok, "claim or airdrop with wrong accounts"),
         Else(Is(ok => post[e.acc.farmer].har = s.st[e.acc.farmer].har,
                 "recorded harvest"),
              Is(ok => \A n \in ch \cup {x \in DOMAIN pre : pre[x] # s.st[x]} :
                         Has(pre, n, "tok") => post[n] = s.st[n],
                 "tokens paid"))))

------------------------------------------------------------------------------
(* C15: compounding turns all harvest into vested stake of the same owner.  *)

P_C15(pre, e, ok, post, g, h, ch) ==
    LET same == e.a = "compound_same_farm"
        sn == IF same THEN e.acc.farmer ELSE e.acc.sfarmer
        tn == IF same THEN e.acc.farmer ELSE e.acc.tfarmer
        f == IF same THEN e.acc.farm ELSE e.acc.source
        t == IF same THEN e.acc.farm ELSE e.acc.target
        moved == Grew(pre, post, Sv(t))
        agrees(n) == n \in DOMAIN h.fa =>
                        /\ post[n].staked = h.fa[n].st
                        /\ post[n].vested = h.fa[n].ve
                        /\ post[n].vestedAt = h.fa[n].va
    IN
    IF e.a \notin {"compound_same_farm", "compound_across_farms"} THEN ""
    ELSE
    IF ~ok THEN Is(~Step(pre, e).ok, "valid compounding refused")
    ELSE
    IF ~(/\ Has(pre, f, "farm") /\ Has(pre, t, "farm")
         /\ Has(pre, sn, "farmer") /\ Has(pre, tn, "farmer")
         /\ Has(post, sn, "farmer") /\ Has(post, tn, "farmer"))
    THEN "compounded without farms and farmers"
    ELSE LET m == pre[t].mint  v == Hv(f, m) IN
    Else(Is(pre[sn].farm = f /\ pre[tn].farm = t /\ pre[sn].auth = pre[tn].auth,
            "compounded to another owner"),
    Else(Is(Wl(f, t) \in DOMAIN pre, "compounded without permission"),
    Else(Is(/\ moved = 0 -- Grew(pre, post, v)
            /\ \A n \in TokChanged(pre, post, ch) : n \in {v, Sv(t)},
            "tokens moved between other accounts"),
    Else(Is(/\ Recorded(pre, sn, m) \preceq moved
            /\ Recorded(post, sn, m) = 0,
            "not all harvest was compounded"),
         Is(agrees(sn) /\ agrees(tn), "funds of the farmers")))))

------------------------------------------------------------------------------
(* C16: one farmer per farm and authority, from creation to closure.       *)

P_C16(pre, e, ok, post, g, h, ch) ==
    Else(Is(\A n \in FarmerChanged(pre, post, ch) :
              IF ~Has(pre, n, "farmer")
              THEN /\ e.a = "create_farmer"
                   /\ n = Fm(e.acc.farm, e.acc.authority)
                   /\ n \notin DOMAIN pre
                   /\ post[n].auth = e.acc.authority
                   /\ post[n].farm = e.acc.farm
                   /\ Total(post[n]) = 0
                   /\ \A m \in DOMAIN post[n].har : post[n].har[m] = 0
                   /\ Has(pre, e.acc.farm, "farm")
                   /\ DOMAIN pre[e.acc.farm].harvests \subseteq
                         DOMAIN post[n].har
              ELSE IF ~Has(post, n, "farmer")
              THEN /\ e.a = "close_farmer" /\ n = e.acc.farmer
                   /\ SignedBy(e, pre[n].auth)
                   /\ Total(pre[n]) = 0
                   /\ \A m \in DOMAIN pre[n].har : pre[n].har[m] = 0
              ELSE post[n].auth = pre[n].auth /\ post[n].farm = pre[n].farm,
            "farmer appeared, disappeared or changed hands"),
    Else(Is(ok /\ e.a = "create_farmer" =>
              Has(post, e.acc.farmer, "farmer") /\ e.acc.farmer \in ch,
            "no farmer created"),
    Else(Is(ok /\ e.a = "close_farmer" => e.acc.farmer \notin DOMAIN post,
            "farmer not closed"),
    IF e.a \in {"create_farmer", "close_farmer"}
    THEN Is(Accepts(pre, e, ok), "valid request refused") ELSE "")))

------------------------------------------------------------------------------
(* C17: a farmer's valid requests are never refused.                       *)

P_C17(pre, e, ok, post, g, h, ch) ==
    IF e.a \in {"start_farming", "stop_farming", "update_eligible_harvest",
                "update_eligible_harvest_until", "claim_eligible_harvest",
                "close_farmer"}
    THEN Is(Accepts(pre, e, ok), "a farmer's valid request was refused")
    ELSE ""

------------------------------------------------------------------------------
(* C18: nothing is accepted with accounts other than the ones required.    *)

P_C18(pre, e, ok, post, g, h, ch) ==
    Is(ok => Step(pre, e).ok, "accepted although the accounts are wrong")

------------------------------------------------------------------------------
(* C19: an instruction affects what it is given and nothing else.          *)

MayChange(e) ==
    CASE e.a = "create_farm" -> {e.acc.farm, e.acc.vault}
      [] e.a = "add_harvest" -> {e.acc.farm, e.acc.vault}
      [] e.a = "remove_harvest" -> {e.acc.farm, e.acc.vault}
      [] e.a = "new_harvest_period" -> {e.acc.farm, e.acc.vault, e.acc.wallet}
      [] e.a \in {"set_farm_owner", "set_min_snapshot_window",
                  "take_snapshot"} -> {e.acc.farm}
      [] e.a \in ListActions -> {e.acc.wl}
      [] e.a \in {"start_farming", "stop_farming", "airdrop"} ->
            {e.acc.farmer, e.acc.vault, e.acc.wallet}
      [] e.a = "claim_eligible_harvest" ->
            {e.acc.farmer} \cup {e.rem[i] : i \in 1..Len(e.rem)}
      [] e.a = "compound_same_farm" ->
            {e.acc.farmer, e.acc.svault, e.acc.hvault}
      [] e.a = "compound_across_farms" ->
            {e.acc.sfarmer, e.acc.tfarmer, e.acc.svault, e.acc.hvault}
      [] e.a = "transfer" -> {e.acc.from, e.acc.to}
      [] OTHER -> {e.acc.farmer}

FarmFields(e) ==
    CASE e.a \in {"add_harvest", "remove_harvest", "new_harvest_period"} ->
            {"harvests"}
      [] e.a = "set_farm_owner" -> {"admin"}
      [] e.a = "set_min_snapshot_window" -> {"win"}
      [] e.a = "take_snapshot" -> {"hist"}
      [] OTHER -> {}

FarmerFields(e) ==
    IF e.a \in {"claim_eligible_harvest", "airdrop"} THEN {"har"}
    ELSE {"staked", "vested", "vestedAt", "next", "har"}

HarvestsChanged(e) ==
    CASE e.a = "add_harvest" -> {e.acc.mint}
      [] e.a \in {"remove_harvest", "new_harvest_period"} -> {e.x.mint}
      [] OTHER -> {}

P_C19(pre, e, ok, post, g, h, ch) ==
    Else(Is(ch \subseteq MayChange(e), "an uninvolved account changed"),
    Else(Is(\A f \in FarmChanged(pre, post, ch) :
              Has(pre, f, "farm") =>
                /\ Has(post, f, "farm")
                /\ \A x \in DOMAIN pre[f] \ FarmFields(e) :
                      pre[f][x] = post[f][x]
                /\ \A m \in (DOMAIN pre[f].harvests \cup
                              DOMAIN post[f].harvests) \ HarvestsChanged(e) :
                      /\ m \in DOMAIN pre[f].harvests
                      /\ m \in DOMAIN post[f].harvests
                      /\ pre[f].harvests[m] = post[f].harvests[m],
            "an uninvolved part of a farm changed"),
         Is(\A n \in FarmerChanged(pre, post, ch) :
              Has(pre, n, "farmer") /\ Has(post, n, "farmer") =>
                \A x \in DOMAIN pre[n] \ FarmerFields(e) :
                    pre[n][x] = post[n][x],
            "an uninvolved part of a farmer changed")))

------------------------------------------------------------------------------
Prop(id, pre, e, ok, post, g, h, ch) ==
    CASE id = "C01" -> P_C01(pre, e, ok, post, g, h, ch)
      [] id = "C02" -> P_C02(pre, e, ok, post, g, h, ch)
      [] id = "C03" -> P_C03(pre, e, ok, post, g, h, ch)
      [] id = "C04" -> P_C04(pre, e, ok, post, g, h, ch)
      [] id = "C05" -> P_C05(pre, e, ok, post, g, h, ch)
      [] id = "C06" -> P_C06(pre, e, ok, post, g, h, ch)
      [] id = "C07" -> P_C07(pre, e, ok, post, g, h, ch)
      [] id = "C08" -> P_C08(pre, e, ok, post, g, h, ch)
      [] id = "C09" -> P_C09(pre, e, ok, post, g, h, ch)
      [] id = "C10" -> P_C10(pre, e, ok, post, g, h, ch)
      [] id = "C11" -> P_C11(pre, e, ok, post, g, h, ch)
      [] id = "C12" -> P_C12(pre, e, ok, post, g, h, ch)
      [] id = "C13" -> P_C13(pre, e, ok, post, g, h, ch)
      [] id = "C14" -> P_C14(pre, e, ok, post, g, h, ch)
      [] id = "C15" -> P_C15(pre, e, ok, post, g, h, ch)
      [] id = "C16" -> P_C16(pre, e, ok, post, g, h, ch)
      [] id = "C17" -> P_C17(pre, e, ok, post, g, h, ch)
      [] id = "C18" -> P_C18(pre, e, ok, post, g, h, ch)
      [] id = "C19" -> P_C19(pre, e, ok, post, g, h, ch)

Ids == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10",
        "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"}
==============================================================================
