------------------------------- MODULE Farming -------------------------------
(***************************************************************************)
(* The farming program: its state and its transitions.                     *)
(*                                                                         *)
(* The state is a function from account names to account contents, as on   *)
(* chain.  The name of a program derived address spells out what it is     *)
(* derived from: "sv:F" is the stake vault of farm F, "hv:F:M" its harvest *)
(* vault for mint M, "fs:F" the authority over its vaults, "fm:F:U" the    *)
(* farmer of user U and "wl:F:G" the permission to compound from F to G.    *)
(*                                                                         *)
(* An event is an instruction: the action, the slot in which it is         *)
(* executed, who signed it, which accounts it was given (by role), a list  *)
(* of further accounts and the arguments.  Step(st, e) says whether the    *)
(* instruction is accepted in state st and which state it leads to.        *)
(***************************************************************************)
EXTENDS Chain

CONSTANTS
    HISTCAP,    \* number of snapshots a farm remembers
    PERCAP,     \* number of harvest periods per mint a farm remembers
    MINTCAP,    \* number of harvestable mints of a farm
    DEFWIN,     \* window between snapshots unless configured
    WAD         \* one, in fixed point arithmetic

Sv(f)    == "sv:" \o f
Hv(f, m) == "hv:" \o f \o ":" \o m
Fs(f)    == "fs:" \o f
Fm(f, u) == "fm:" \o f \o ":" \o u
Wl(f, g) == "wl:" \o f \o ":" \o g

------------------------------------------------------------------------------
(* Snapshots.  A history is a sequence of <<slot, staked>>, oldest first.  *)

\* how many of the snapshots lo+1..hi, added to lo, started by the slot
RECURSIVE CountIn(_, _, _, _)
CountIn(h, slot, lo, hi) ==
    IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN
         IF h[m][1] \preceq slot THEN CountIn(h, slot, m, hi)
                                 ELSE CountIn(h, slot, lo, m - 1)

StartedBy(h, slot) == CountIn(h, slot, 0, Len(h))

HasSnapshotAfter(h, slot) == h # <<>> /\ h[Len(h)][1] \succ slot
SnapshotAfter(h, slot) == h[StartedBy(h, slot) + 1]

LastSnapshotSlot(h) == IF h = <<>> THEN 0 ELSE h[Len(h)][1]

\* where the remembered history begins; the very beginning of time until
\* there was more history than can be remembered
OldestSlot(h) == IF Len(h) < HISTCAP THEN 0 ELSE h[1][1]

PushSnapshot(h, snap) ==
    IF Len(h) < HISTCAP THEN Append(h, snap) ELSE Append(Tail(h), snap)

Window(farm) == IF farm.win = 0 THEN DEFWIN ELSE farm.win

------------------------------------------------------------------------------
(* Harvest.  The periods of a mint are [tps, s, e], most recent first.     *)

\* tokens a farm emits in the slots a..b
Emitted(per, a, b) ==
    NSum([i \in 1..Len(per) |->
        LET lo == NMax(a, per[i].s)  hi == NMin(b, per[i].e)
        IN IF lo \succ hi THEN 0 ELSE (hi -- lo ++ 1) ** per[i].tps])

\* what a farmer with the given stake earns in the slots since..until, one
\* window between two snapshots after another
Earned(per, h, since, until, staked) ==
    LET i1 == StartedBy(h, until)
        i0 == LET i == StartedBy(h, since) IN IF i = 0 THEN 1 ELSE i
    IN NSum([j \in 1..(i1 - i0 + 1) |->
           LET i == i0 + j - 1
               a == NMax(h[i][1], since)
               b == IF i < i1 THEN h[i + 1][1] -- 1 ELSE until
           IN IF h[i][2] = 0 \/ a \succ b THEN 0
              ELSE NMulDiv(NMulDiv(staked, WAD, h[i][2]), Emitted(per, a, b),
                           WAD)])

\* the farmer's harvest in the mints the farm currently has
Harvest(farm, fr, until) ==
    [m \in DOMAIN farm.harvests |->
        (IF m \in DOMAIN fr.har THEN fr.har[m] ELSE 0)
        ++ (IF fr.staked = 0 THEN 0
            ELSE Earned(farm.harvests[m].per, farm.hist, fr.next, until,
                        fr.staked))]

\* the vested tokens become staked with the first snapshot after vesting
Mature(farm, fr) ==
    IF fr.vested = 0 \/ ~HasSnapshotAfter(farm.hist, fr.vestedAt) THEN fr
    ELSE LET s == SnapshotAfter(farm.hist, fr.vestedAt)[1] IN
         [fr EXCEPT
             !.har = IF fr.next \prec s THEN Harvest(farm, fr, s -- 1) ELSE @,
             !.next = NMax(@, s),
             !.staked = @ ++ fr.vested,
             !.vested = 0]

\* everything a farmer is eligible for by the given slot
Settle(farm, fr, until) ==
    LET m == Mature(farm, fr) IN
    IF m.next \succeq until THEN m
    ELSE [m EXCEPT !.har = Harvest(farm, m, until), !.next = until ++ 1]

Fits(fr) ==
    /\ fr.staked \preceq U64MAX /\ fr.vested \preceq U64MAX
    /\ \A m \in DOMAIN fr.har : fr.har[m] \preceq U64MAX

Vest(fr, slot, amt) == [fr EXCEPT !.vested = @ ++ amt, !.vestedAt = slot]

Total(fr) == fr.staked ++ fr.vested

Unstake(fr, amt) ==
    LET v == NMin(fr.vested, amt) IN
    [fr EXCEPT !.vested = @ -- v, !.staked = @ -- (amt -- v)]

------------------------------------------------------------------------------
(* Administration of a farm.                                               *)

IsAdmin(st, e, farm) ==
    Has(st, farm, "farm") /\ st[farm].admin = e.acc.admin /\ Signs(e, "admin")

CreateFarm(st, e) ==
    LET f == e.acc.farm IN
    IF /\ Signs(e, "admin")
       /\ Has(st, f, "zero")
       /\ e.acc.signer = Fs(f) /\ e.acc.vault = Sv(f)
       /\ Has(st, e.acc.mint, "mint")
       /\ Sv(f) \notin DOMAIN st
    THEN Done(Put(Put(st, f,
            [k |-> "farm", admin |-> e.acc.admin, mint |-> e.acc.mint,
             vault |-> Sv(f), win |-> 0, harvests |-> <<>>, hist |-> <<>>]),
            Sv(f), NewTok(e.acc.mint, Fs(f))))
    ELSE Fail(st)

AddHarvest(st, e) ==
    LET f == e.acc.farm  m == e.acc.mint  v == Hv(f, m) IN
    IF /\ IsAdmin(st, e, f)
       /\ e.acc.signer = Fs(f) /\ e.acc.vault = v
       /\ Has(st, m, "mint")
       /\ v \notin DOMAIN st
       /\ m \notin DOMAIN st[f].harvests
       /\ Cardinality(DOMAIN st[f].harvests) < MINTCAP
    THEN Done(Put([st EXCEPT ![f].harvests =
                       Put(@, m, [vault |-> v, per |-> <<>>])],
                  v, NewTok(m, Fs(f))))
    ELSE Fail(st)

RemoveHarvest(st, e) ==
    LET f == e.acc.farm  m == e.x.mint  v == Hv(f, m) IN
    IF /\ IsAdmin(st, e, f)
       /\ e.acc.signer = Fs(f) /\ e.acc.vault = v
       /\ Has(st, v, "tok") /\ st[v].amt = 0
       /\ m \in DOMAIN st[f].harvests
    THEN Done(Del([st EXCEPT ![f].harvests = Del(@, m)], v))
    ELSE Fail(st)

SetFarmOwner(st, e) ==
    IF IsAdmin(st, e, e.acc.farm) /\ Signs(e, "new")
    THEN Done([st EXCEPT ![e.acc.farm].admin = e.acc.new])
    ELSE Fail(st)

SetWindow(st, e) ==
    IF IsAdmin(st, e, e.acc.farm)
    THEN Done([st EXCEPT ![e.acc.farm].win = e.x.win])
    ELSE Fail(st)

SnapshotDue(farm, slot) ==
    LET due == LastSnapshotSlot(farm.hist) ++ Window(farm) IN
    due \preceq U64MAX /\ due \preceq slot

TakeSnapshot(st, e) ==
    LET f == e.acc.farm IN
    IF /\ Has(st, f, "farm")
       /\ e.acc.vault = st[f].vault /\ Has(st, e.acc.vault, "tok")
       /\ SnapshotDue(st[f], e.slot)
    THEN Done([st EXCEPT ![f].hist =
                  PushSnapshot(@, <<e.slot, st[e.acc.vault].amt>>)])
    ELSE Fail(st)

\* whether there is a harvest period which has not started yet
Scheduled(per, slot) == per # <<>> /\ per[1].s \succ slot

Started(per, slot) == IF Scheduled(per, slot) THEN Tail(per) ELSE per

\* the periods after a new one is set up, an outstanding one is replaced
NewPeriods(per, slot, p) ==
    LET l == <<p>> \o Started(per, slot) IN
    IF Len(l) > PERCAP THEN SubSeq(l, 1, PERCAP) ELSE l

Cost(p) == (p.e -- p.s ++ 1) ** p.tps

PeriodOf(e) ==
    LET s == IF e.x.starts = 0 THEN e.slot ELSE e.x.starts IN
    [tps |-> e.x.tps, s |-> s, e |-> s ++ e.x.len -- 1]

NewHarvestPeriod(st, e) ==
    LET f == e.acc.farm  m == e.x.mint  v == Hv(f, m)
        p == PeriodOf(e)
        per == st[f].harvests[m].per
        old == Started(per, e.slot)
        paid == IF Scheduled(per, e.slot) THEN Cost(per[1]) ELSE 0
        more == Cost(p) \succ paid
        from == IF more THEN e.acc.wallet ELSE v
        to == IF more THEN v ELSE e.acc.wallet
        amt == NAbs(Cost(p) -- paid)
        by == IF more THEN e.acc.admin ELSE Fs(f)
    IN
    IF /\ IsAdmin(st, e, f)
       /\ e.acc.signer = Fs(f) /\ e.acc.vault = v
       /\ Has(st, v, "tok") /\ Has(st, e.acc.wallet, "tok")
       /\ e.x.len # 0
       /\ e.x.starts = 0 \/ e.slot \preceq e.x.starts
       /\ (p.s ++ e.x.len) \preceq U64MAX
       /\ m \in DOMAIN st[f].harvests
       \* a period takes at least two slots
       /\ p.s \prec p.e
       \* which come after all slots of the periods already started
       /\ old # <<>> => old[1].e \prec p.s
       /\ old = <<>> => 0 \prec p.s
       \* harvest which might not have been settled yet is not forgotten
       /\ Len(old) = PERCAP => old[PERCAP].e \prec OldestSlot(st[f].hist)
       /\ (p.e -- p.s ++ 1) \preceq U64MAX /\ Cost(p) \preceq U64MAX
       /\ amt = 0 \/ CanMove(st, from, to, amt, by)
    THEN Done(IF amt = 0
              THEN [st EXCEPT ![f].harvests[m].per = NewPeriods(@, e.slot, p)]
              ELSE MoveBy([st EXCEPT ![f].harvests[m].per =
                               NewPeriods(@, e.slot, p)], from, to, amt, by))
    ELSE Fail(st)

Whitelist(st, e) ==
    LET w == Wl(e.acc.source, e.acc.target) IN
    IF /\ IsAdmin(st, e, e.acc.source)
       /\ Has(st, e.acc.target, "farm")
       /\ e.acc.wl = w /\ w \notin DOMAIN st
    THEN Done(Put(st, w, [k |-> "wl"]))
    ELSE Fail(st)

Dewhitelist(st, e) ==
    LET w == Wl(e.acc.source, e.acc.target) IN
    IF /\ IsAdmin(st, e, e.acc.source)
       /\ Has(st, e.acc.target, "farm")
       /\ e.acc.wl = w /\ Has(st, w, "wl")
    THEN Done(Del(st, w))
    ELSE Fail(st)

------------------------------------------------------------------------------
(* Farmers.                                                                *)

CreateFarmer(st, e) ==
    LET f == e.acc.farm  n == Fm(f, e.acc.authority) IN
    IF /\ Signs(e, "payer")
       /\ Has(st, f, "farm")
       /\ e.acc.farmer = n /\ n \notin DOMAIN st
    THEN Done(Put(st, n,
            [k |-> "farmer", auth |-> e.acc.authority, farm |-> f,
             staked |-> 0, vested |-> 0, vestedAt |-> 0, next |-> 0,
             har |-> [m \in DOMAIN st[f].harvests |-> 0]]))
    ELSE Fail(st)

CloseFarmer(st, e) ==
    LET n == e.acc.farmer IN
    IF /\ Signs(e, "authority")
       /\ Has(st, n, "farmer") /\ st[n].auth = e.acc.authority
       /\ Total(st[n]) = 0
       /\ \A m \in DOMAIN st[n].har : st[n].har[m] = 0
    THEN Done(Del(st, n))
    ELSE Fail(st)

StartFarming(st, e) ==
    LET f == e.acc.farm  n == e.acc.farmer
        fr == Vest(Settle(st[f], st[n], e.slot), e.slot, e.x.amt)
    IN
    IF /\ Signs(e, "authority")
       /\ Has(st, f, "farm")
       /\ Has(st, n, "farmer") /\ st[n].farm = f
       /\ e.acc.vault = Sv(f)
       /\ e.x.amt # 0
       /\ CanMove(st, e.acc.wallet, Sv(f), e.x.amt, e.acc.authority)
       /\ Fits(fr)
    THEN Done(MoveBy([st EXCEPT ![n] = fr], e.acc.wallet, Sv(f), e.x.amt,
                     e.acc.authority))
    ELSE Fail(st)

StopFarming(st, e) ==
    LET f == e.acc.farm  n == e.acc.farmer
        fr == Settle(st[f], st[n], e.slot)
        amt == NMin(e.x.amt, Total(fr))
    IN
    IF /\ Signs(e, "authority")
       /\ Has(st, f, "farm")
       /\ n = Fm(f, e.acc.authority) /\ Has(st, n, "farmer")
       /\ e.acc.signer = Fs(f) /\ e.acc.vault = Sv(f)
       /\ e.x.amt # 0
       /\ CanMove(st, Sv(f), e.acc.wallet, amt, Fs(f))
       /\ Fits(fr)
    THEN Done(Move([st EXCEPT ![n] = Unstake(fr, amt)],
                   Sv(f), e.acc.wallet, amt))
    ELSE Fail(st)

\* up to a slot of choice, or the current one
Until(e) ==
    IF e.a = "update_eligible_harvest_until" THEN NMin(e.x.until, e.slot)
    ELSE e.slot

UpdateHarvest(st, e) ==
    LET f == e.acc.farm  n == e.acc.farmer
        fr == Settle(st[f], st[n], Until(e))
    IN
    IF /\ Has(st, f, "farm")
       /\ Has(st, n, "farmer") /\ st[n].farm = f
       /\ Fits(fr)
    THEN Done([st EXCEPT ![n] = fr])
    ELSE Fail(st)

\* pays the pairs <<vault, wallet>> from the i-th on
RECURSIVE Pay(_, _, _, _)
Pay(st, n, rem, i) ==
    IF i > Len(rem) THEN Done(st)
    ELSE LET f == st[n].farm  v == rem[i]  w == rem[i + 1]
             m == st[v].mint
             amt == st[n].har[m]
         IN
         IF ~(Has(st, v, "tok") /\ v = Hv(f, m)) THEN Fail(st)
         ELSE IF m \notin DOMAIN st[n].har \/ amt = 0
         THEN Pay(st, n, rem, i + 2)
         ELSE IF CanMove(st, v, w, amt, Fs(f))
         THEN Pay(Move([st EXCEPT ![n].har[m] = 0], v, w, amt),
                  n, rem, i + 2)
         ELSE Fail(st)

ClaimHarvest(st, e) ==
    LET n == e.acc.farmer IN
    IF /\ Signs(e, "authority")
       /\ Has(st, n, "farmer")
       /\ n = Fm(st[n].farm, e.acc.authority)
       /\ e.acc.signer = Fs(st[n].farm)
       /\ e.rem # <<>> /\ Len(e.rem) % 2 = 0
    THEN LET r == Pay(st, n, e.rem, 1) IN IF r.ok THEN r ELSE Fail(st)
    ELSE Fail(st)

Airdrop(st, e) ==
    LET n == e.acc.farmer  w == e.acc.wallet  m == st[w].mint
        v == Hv(st[n].farm, m)
    IN
    IF /\ Signs(e, "authority")
       /\ Has(st, n, "farmer")
       /\ Has(st, w, "tok")
       /\ e.acc.vault = v
       /\ e.x.amt # 0
       /\ m \in DOMAIN st[n].har
       /\ (st[n].har[m] ++ e.x.amt) \preceq U64MAX
       /\ CanMove(st, w, v, e.x.amt, e.acc.authority)
    THEN Done(MoveBy([st EXCEPT ![n].har[m] = @ ++ e.x.amt], w, v, e.x.amt,
                     e.acc.authority))
    ELSE Fail(st)

\* from a harvest vault of farm f to the stake vault of farm g
Compound(st, e, f, g, sn, tn) ==
    LET m == st[g].mint
        sfr == Settle(st[f], st[sn], e.slot)
        amt == sfr.har[m]
        rest == [sfr EXCEPT !.har[m] = 0]
        tfr == Vest(IF sn = tn THEN rest ELSE Settle(st[g], st[tn], e.slot),
                    e.slot, amt)
        v == e.acc.hvault
    IN
    IF /\ Has(st, f, "farm") /\ Has(st, g, "farm")
       /\ e.acc.signer = Fs(f)
       /\ e.acc.wl = Wl(f, g) /\ Has(st, e.acc.wl, "wl")
       /\ e.acc.svault = Sv(g) /\ Has(st, Sv(g), "tok")
       /\ Has(st, v, "tok") /\ v = Hv(f, st[v].mint)
       /\ st[v].mint = st[Sv(g)].mint
       /\ Has(st, sn, "farmer") /\ st[sn].farm = f
       /\ Has(st, tn, "farmer") /\ st[tn].farm = g
       /\ st[sn].auth = st[tn].auth
       /\ m \in DOMAIN sfr.har
       /\ Fits(sfr) /\ Fits(tfr)
       /\ CanMove(st, v, Sv(g), amt, Fs(f))
    THEN Done(Move([st EXCEPT ![sn] = rest, ![tn] = tfr], v, Sv(g), amt))
    ELSE Fail(st)

CompoundSameFarm(st, e) ==
    Compound(st, e, e.acc.farm, e.acc.farm, e.acc.farmer, e.acc.farmer)

CompoundAcrossFarms(st, e) ==
    IF e.acc.source = e.acc.target THEN Fail(st)
    ELSE Compound(st, e, e.acc.source, e.acc.target,
                  e.acc.sfarmer, e.acc.tfarmer)

Step(st, e) ==
    IF ~KnownPrograms(e) THEN Fail(st) ELSE
    CASE e.a = "create_farm" -> CreateFarm(st, e)
      [] e.a = "add_harvest" -> AddHarvest(st, e)
      [] e.a = "remove_harvest" -> RemoveHarvest(st, e)
      [] e.a = "set_farm_owner" -> SetFarmOwner(st, e)
      [] e.a = "set_min_snapshot_window" -> SetWindow(st, e)
      [] e.a = "take_snapshot" -> TakeSnapshot(st, e)
      [] e.a = "new_harvest_period" -> NewHarvestPeriod(st, e)
      [] e.a = "whitelist_farm_for_compounding" -> Whitelist(st, e)
      [] e.a = "dewhitelist_farm_for_compounding" -> Dewhitelist(st, e)
      [] e.a = "create_farmer" -> CreateFarmer(st, e)
      [] e.a = "close_farmer" -> CloseFarmer(st, e)
      [] e.a = "start_farming" -> StartFarming(st, e)
      [] e.a = "stop_farming" -> StopFarming(st, e)
      [] e.a = "update_eligible_harvest" -> UpdateHarvest(st, e)
      [] e.a = "update_eligible_harvest_until" -> UpdateHarvest(st, e)
      [] e.a = "claim_eligible_harvest" -> ClaimHarvest(st, e)
      [] e.a = "airdrop" -> Airdrop(st, e)
      [] e.a = "compound_same_farm" -> CompoundSameFarm(st, e)
      [] e.a = "compound_across_farms" -> CompoundAcrossFarms(st, e)
      [] e.a = "transfer" -> Transfer(st, e)
==============================================================================
