------------------------------ MODULE FarmingMC ------------------------------
(***************************************************************************)
(* Scenarios of the farming program which are explored exhaustively.       *)
(***************************************************************************)
EXTENDS FarmingProps, Explore

TraceWAD == NLit("1000000000000000000")
TraceU64 == NLit("18446744073709551615")

T(n, mint, own, amt) == [n |-> n, mint |-> mint, own |-> own, amt |-> amt]
W(u, m) == u \o "/" \o m
Users == <<"adm", "boss", "u0", "u1">>
MintNames == <<"S0", "H0">>

Wallets(us, ms, amt) ==
    [i \in 1..(Len(us) * Len(ms)) |->
        LET u == us[((i - 1) \div Len(ms)) + 1]
            m == ms[((i - 1) % Len(ms)) + 1]
        IN T(W(u, m), m, u, amt)]

FirstWith(us, ms, farms, amt) ==
    [a |-> "init", slot |-> 0, sig |-> <<>>, acc |-> <<>>, rem |-> <<>>,
     x |-> [users |-> us,
            mints |-> [i \in 1..Len(ms) |->
                         [n |-> ms[i], auth |-> "boss", supply |-> 1000000,
                          decimals |-> 6]],
            toks |-> Wallets(us, ms, amt),
            farms |-> farms]]

Ev(a, sig, acc, x) ==
    [a |-> a, sig |-> sig, acc |-> acc, rem |-> <<>>, x |-> x]
At(s, e) == e @@ [slot |-> s]

NoX == [none |-> 0]

CreateF(f, a, m) == Ev("create_farm", <<a>>,
    [admin |-> a, farm |-> f, signer |-> Fs(f), mint |-> m, vault |-> Sv(f)],
    NoX)
Win(f, a, n) == Ev("set_min_snapshot_window", <<a>>,
    [admin |-> a, farm |-> f], [win |-> n])
AddH(f, a, m) == Ev("add_harvest", <<a>>,
    [admin |-> a, farm |-> f, signer |-> Fs(f), mint |-> m,
     vault |-> Hv(f, m)], NoX)
RemH(f, a, m) == Ev("remove_harvest", <<a>>,
    [admin |-> a, farm |-> f, signer |-> Fs(f), vault |-> Hv(f, m)],
    [mint |-> m])
Owner(f, a, b) == Ev("set_farm_owner", <<a, b>>,
    [admin |-> a, new |-> b, farm |-> f], NoX)
Period(f, a, m, s, n, tps) == Ev("new_harvest_period", <<a>>,
    [admin |-> a, farm |-> f, wallet |-> W(a, m), vault |-> Hv(f, m),
     signer |-> Fs(f)], [mint |-> m, starts |-> s, len |-> n, tps |-> tps])
Snap(f) == Ev("take_snapshot", <<>>, [farm |-> f, vault |-> Sv(f)], NoX)
NewFr(f, u) == Ev("create_farmer", <<u>>,
    [payer |-> u, authority |-> u, farmer |-> Fm(f, u), farm |-> f], NoX)
CloseFr(f, u) == Ev("close_farmer", <<u>>,
    [authority |-> u, farmer |-> Fm(f, u)], NoX)
StartBy(f, u, by, m, n) == Ev("start_farming", <<by>>,
    [authority |-> by, farmer |-> Fm(f, u), wallet |-> W(by, m), farm |-> f,
     vault |-> Sv(f)], [amt |-> n])
Start(f, u, m, n) == StartBy(f, u, u, m, n)
Stop(f, u, m, n) == Ev("stop_farming", <<u>>,
    [authority |-> u, farmer |-> Fm(f, u), wallet |-> W(u, m), farm |-> f,
     signer |-> Fs(f), vault |-> Sv(f)], [amt |-> n])
Update(f, u) == Ev("update_eligible_harvest", <<>>,
    [farm |-> f, farmer |-> Fm(f, u)], NoX)
UpdateTo(f, u, s) == Ev("update_eligible_harvest_until", <<>>,
    [farm |-> f, farmer |-> Fm(f, u)], [until |-> s])
Claim(f, u, ms) ==
    [Ev("claim_eligible_harvest", <<u>>,
        [authority |-> u, farmer |-> Fm(f, u), signer |-> Fs(f)], NoX)
     EXCEPT !.rem = [i \in 1..(2 * Len(ms)) |->
        LET m == ms[(i + 1) \div 2] IN
        IF i % 2 = 1 THEN Hv(f, m) ELSE W(u, m)]]
Drop(f, u, by, m, n) == Ev("airdrop", <<by>>,
    [authority |-> by, farmer |-> Fm(f, u), wallet |-> W(by, m),
     vault |-> Hv(f, m)], [amt |-> n])
List(f, t, a) == Ev("whitelist_farm_for_compounding", <<a>>,
    [admin |-> a, source |-> f, target |-> t, wl |-> Wl(f, t)], NoX)
Unlist(f, t, a) == Ev("dewhitelist_farm_for_compounding", <<a>>,
    [admin |-> a, source |-> f, target |-> t, wl |-> Wl(f, t)], NoX)
Comp(f, u, m) == Ev("compound_same_farm", <<>>,
    [farm |-> f, signer |-> Fs(f), wl |-> Wl(f, f), svault |-> Sv(f),
     hvault |-> Hv(f, m), farmer |-> Fm(f, u)], NoX)
Across(f, t, u, m) == Ev("compound_across_farms", <<>>,
    [source |-> f, target |-> t, signer |-> Fs(f), wl |-> Wl(f, t),
     svault |-> Sv(t), hvault |-> Hv(f, m), sfarmer |-> Fm(f, u),
     tfarmer |-> Fm(t, u)], NoX)
Pass(u, from, to, n) == Ev("transfer", <<u>>,
    [from |-> from, to |-> to, authority |-> u], [amt |-> n])

\* a slot before another one
Back(s, n) == IF s > n THEN s - n ELSE 0

Later(n, es) == [i \in 1..Len(es) |-> At(n, es[i])]

------------------------------------------------------------------------------
Scenario == IOEnv.SCENARIO

Farm1 == <<CreateF("F", "adm", "S0"), Win("F", "adm", 1),
           AddH("F", "adm", "H0")>>
Farmers1 == <<NewFr("F", "u0"), NewFr("F", "u1")>>

TheFirst == FirstWith(Users, MintNames, <<"F", "G">>, 1000)

ThePrelude ==
    CASE Scenario = "harvest" -> Later(1, Farm1 \o Farmers1)
      [] Scenario = "funded" ->
            Later(1, Farm1 \o Farmers1 \o <<Period("F", "adm", "H0", 2, 9, 30),
                  Start("F", "u0", "S0", 1), Snap("F")>>)
      [] Scenario = "period" -> Later(1, Farm1)
      [] Scenario = "compound" ->
            Later(1, <<CreateF("F", "adm", "S0"), Win("F", "adm", 1),
                       AddH("F", "adm", "S0"),
                       CreateF("G", "boss", "S0"), Win("G", "boss", 1),
                       List("F", "F", "adm"), List("F", "G", "adm"),
                       NewFr("F", "u0"), NewFr("G", "u0"),
                       Start("F", "u0", "S0", 2), Snap("F"),
                       Period("F", "adm", "S0", 2, 9, 3)>>)
      [] Scenario = "admin" -> Later(1, <<CreateF("F", "adm", "S0")>>)

TheAlphabet(s) ==
    CASE Scenario = "harvest" ->
            <<Snap("F"), Start("F", "u0", "S0", 1), Start("F", "u1", "S0", 2),
              Stop("F", "u0", "S0", 1), Stop("F", "u1", "S0", 9),
              Update("F", "u0"), UpdateTo("F", "u0", Back(s, 1)),
              Period("F", "adm", "H0", s + 1, 3, 5), Claim("F", "u0", <<"H0">>)>>
      [] Scenario = "funded" ->
            <<Snap("F"), Start("F", "u0", "S0", 1), Start("F", "u1", "S0", 2),
              Stop("F", "u0", "S0", 2), Stop("F", "u1", "S0", 1),
              Update("F", "u0"), Update("F", "u1"), UpdateTo("F", "u0", Back(s, 1)),
              UpdateTo("F", "u1", Back(s, 2)), Claim("F", "u0", <<"H0">>)>>
      [] Scenario = "period" ->
            <<Period("F", "adm", "H0", 0, 2, 5),
              Period("F", "adm", "H0", s, 3, 2),
              Period("F", "adm", "H0", s + 1, 2, 4),
              Period("F", "adm", "H0", s + 2, 3, 1),
              Period("F", "adm", "H0", s + 1, 2, 400),
              Period("F", "adm", "H0", s + 3, 1, 1),
              Period("F", "u0", "H0", s + 1, 2, 1),
              RemH("F", "adm", "H0"), AddH("F", "adm", "H0")>>
      [] Scenario = "compound" ->
            <<Comp("F", "u0", "S0"), Across("F", "G", "u0", "S0"), Snap("F"),
              Snap("G"), Start("G", "u0", "S0", 1), Stop("F", "u0", "S0", 1),
              Stop("G", "u0", "S0", 9), Update("F", "u0"), Update("G", "u0"),
              Unlist("F", "G", "adm"), Across("G", "F", "u0", "S0")>>
      [] Scenario = "admin" ->
            <<AddH("F", "adm", "H0"), AddH("F", "boss", "H0"),
              AddH("F", "adm", "S0"), RemH("F", "adm", "H0"),
              RemH("F", "boss", "H0"), Owner("F", "adm", "boss"),
              Owner("F", "boss", "adm"), Win("F", "adm", 2), Snap("F"),
              NewFr("F", "u0"), CloseFr("F", "u0"),
              Start("F", "u0", "S0", 1), StartBy("F", "u0", "u1", "S0", 1),
              Stop("F", "u0", "S0", 1), Drop("F", "u0", "u1", "H0", 1),
              Claim("F", "u0", <<"H0">>), List("F", "F", "adm"),
              Unlist("F", "F", "adm"), CreateF("F", "boss", "H0"),
              CreateF("G", "boss", "H0"), List("F", "G", "adm"),
              List("G", "F", "boss"), Pass("u0", "u0/H0", "hv:F:H0", 1),
              Pass("adm", "sv:F", "adm/S0", 1)>>

TheSlots == atoi(IOEnv.SLOTS)
TheDepth == atoi(IOEnv.DEPTH)
==============================================================================
