-------------------------------- MODULE AmmMC --------------------------------
(***************************************************************************)
(* Scenarios of the AMM program which are explored exhaustively.           *)
(***************************************************************************)
EXTENDS AmmProps, Explore

TraceWAD == NLit("1000000000000000000")
TraceD == NLit("6277101735386680763835789423207666416102355444464034512895")
TraceInvertFrom == NLit("10000000000")
TraceU64 == NLit("18446744073709551615")

Scenario == IOEnv.SCENARIO

W(u, m) == u \o "/" \o m
Pv(p, m) == "pv:" \o p \o ":" \o m
Lp(p) == "lp:" \o p
T(n, mint, own, amt) == [n |-> n, mint |-> mint, own |-> own, amt |-> amt]
M(n, auth, supply) == [n |-> n, auth |-> auth, supply |-> supply, decimals |-> 6]

Stable == Scenario \in {"stable", "stable3"}
MintNames == IF Scenario \in {"three", "stable3"} THEN <<"A", "B", "C">>
             ELSE <<"A", "B">>
Scale == IF Stable THEN 10000 ELSE 1

\* every user with a wallet for every mint
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Concat(Tail(s))
Each(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

WalletsOf(u) ==
    LET w(m) == T(W(u, m), m, u, 1000 * Scale) IN
    Each(w, MintNames) \o <<T(W(u, "lp:P"), "lp:P", u, 0)>>
VaultsOf(p) == LET v(m) == T(Pv(p, m), m, Ps(p), 0) IN Each(v, MintNames)

TheFirst ==
    [a |-> "init", slot |-> 0, sig |-> <<>>, acc |-> <<>>, rem |-> <<>>,
     x |-> [users |-> <<"adm", "u0", "u1", "upg", "tolladm", "discadm">>,
            upgrade_authority |-> "upg",
            mints |-> <<M("lp:P", "ps:P", 0), M("lp:Q", "ps:Q", 0),
                        [n |-> "lf:Q", auth |-> "ps:Q", supply |-> 0,
                         decimals |-> 6, freeze |-> "adm"]>> \o
                      (LET m(n) == M(n, "adm", 1000000) IN Each(m, MintNames)),
            toks |-> Concat(Each(WalletsOf, <<"u0", "u1">>))
                     \o VaultsOf("P") \o VaultsOf("Q")
                     \o <<T("toll/P", "lp:P", "tolladm", 0),
                          T("toll/Q", "lp:Q", "tolladm", 0),
                          T("toll/f", "lf:Q", "tolladm", 0),
                          T("u0/lp:Q", "lp:Q", "u0", 0),
                          T("pb:Q:A", "A", "ps:Q", 3),
                          T("pd:Q:A", "A", "ps:Q", 0)
                             @@ [delegate |-> "u1"]>>,
            farms |-> <<>>, pools |-> <<"P", "Q">>]]

Ev(a, sig, acc, x) ==
    [a |-> a, sig |-> sig, acc |-> acc, rem |-> <<>>, x |-> x]

NoX == [none |-> 0]
TollBy(u) == Ev("create_program_toll", <<u>>,
    [authority |-> u, program |-> "amm_program", data |-> "amm_data",
     toll_authority |-> "tolladm", toll |-> "toll"], NoX)
DsetBy(u, d) == Ev("create_discount_settings", <<u>>,
    [authority |-> u, program |-> "amm_program", data |-> "amm_data",
     settings_authority |-> d, dset |-> "dset"], NoX)
PoolWith(p, lp, toll, vaults, amp) ==
    [Ev("create_pool", <<"adm", p>>,
        [admin |-> "adm", pool |-> p, signer |-> Ps(p), toll |-> "toll",
         toll_wallet |-> toll, lp |-> lp], [amp |-> amp])
     EXCEPT !.rem = vaults]
Vaults(p) == LET v(m) == Pv(p, m) IN Each(v, MintNames)
NewPool(p, amp) ==
    PoolWith(p, Lp(p), "toll/" \o p, Vaults(p), amp)
Fee(u, p, n) == Ev("set_pool_swap_fee", <<u>>, [admin |-> u, pool |-> p],
                   [fee |-> n])
Discount(by, u, n, until) == Ev("put_discount", <<by>>,
    [authority |-> by, discount |-> Disc(u), dset |-> "dset"],
    [user |-> u, amt |-> n, until |-> until])
\* amounts in the order of the mints
LimitsOf(s) == [i \in 1..Len(MintNames) |->
                  [mint |-> MintNames[i], amt |-> s[i]]]
Pairs(p, u) == LET pair(m) == <<Pv(p, m), W(u, m)>> IN
               Concat(Each(pair, MintNames))
LiqAcc(p, u) == [user |-> u, pool |-> p, signer |-> Ps(p), lp |-> Lp(p),
                 lp_wallet |-> W(u, Lp(p))]
Deposit(p, u, s) ==
    [Ev("deposit_liquidity", <<u>>, LiqAcc(p, u),
        [max |-> LimitsOf(s)]) EXCEPT !.rem = Pairs(p, u)]
Redeem(p, u, n, s) ==
    [Ev("redeem_liquidity", <<u>>, LiqAcc(p, u),
        [lp |-> n, min |-> LimitsOf(s)]) EXCEPT !.rem = Pairs(p, u)]
SwapOf(p, u, a, b, n, min) == Ev("swap", <<u>>,
    [user |-> u, discount |-> Disc(u), pool |-> p, signer |-> Ps(p),
     sell_wallet |-> W(u, a), buy_wallet |-> W(u, b), sell_vault |-> Pv(p, a),
     buy_vault |-> Pv(p, b), lp |-> Lp(p), toll_wallet |-> "toll/" \o p],
    [sell |-> n, min |-> min])

Later(n, es) == [i \in 1..Len(es) |-> es[i] @@ [slot |-> n]]

Settings == <<TollBy("upg"), DsetBy("upg", "discadm")>>
Amount(n) == n * Scale
S(a, b, c) == <<Amount(a), Amount(b), Amount(c)>>
Zero == <<0, 0, 0>>

ThePrelude ==
    Later(1,
    CASE Scenario \in {"const", "three", "stable", "stable3"} ->
            Settings \o <<NewPool("P", IF Stable THEN 10 ELSE 0),
                          Fee("adm", "P", 10000),
                          Deposit("P", "u0", S(40, 50, 60))>>
      [] Scenario = "empty" ->
            Settings \o <<NewPool("P", 0)>>
      [] Scenario = "admin" -> <<TollBy("upg")>>)

TheAlphabet(s) ==
    CASE Scenario \in {"const", "three", "stable", "stable3"} ->
            <<Deposit("P", "u1", S(8, 10, 12)), Deposit("P", "u1", S(9, 7, 33)),
              Deposit("P", "u0", S(1, 2, 1)),
              Redeem("P", "u0", Amount(13), Zero),
              Redeem("P", "u1", Amount(8), Zero),
              Redeem("P", "u0", Amount(40), Zero),
              Redeem("P", "u0", Amount(4), S(4, 5, 6)),
              SwapOf("P", "u1", "A", "B", Amount(7), 0),
              SwapOf("P", "u1", "B", "A", Amount(10), 0),
              SwapOf("P", "u0", "A", "B", Amount(20), Amount(15)),
              SwapOf("P", "u1", "B", "A", Amount(5), Amount(5)),
              Discount("discadm", "u1", 500000, s + 1),
              Fee("adm", "P", 3000)>>
      [] Scenario = "empty" ->
            <<Deposit("P", "u0", <<5, 9, 1>>), Deposit("P", "u1", <<3, 3, 3>>),
              Redeem("P", "u0", 5, <<0, 9, 1>>), Redeem("P", "u0", 5, Zero),
              Redeem("P", "u1", 3, Zero), Redeem("P", "u0", 2, Zero),
              Redeem("P", "u1", 1, Zero),
              SwapOf("P", "u1", "A", "B", 1, 0),
              SwapOf("P", "u0", "A", "B", 4, 1),
              SwapOf("P", "u0", "B", "A", 2, 0),
              Deposit("P", "u1", <<0, 3, 3>>),
              Ev("transfer", <<"u1">>, [from |-> "u1/A", to |-> Pv("P", "A"),
                 authority |-> "u1"], [amt |-> 2])>>
      [] Scenario = "admin" ->
            <<TollBy("upg"), TollBy("u0"), DsetBy("upg", "discadm"),
              DsetBy("u0", "u0"), DsetBy("upg", "u0"),
              NewPool("P", 0), NewPool("Q", 10), NewPool("Q", 0),
              PoolWith("Q", "lf:Q", "toll/f", Vaults("Q"), 0),
              PoolWith("Q", "lp:Q", "u0/lp:Q", Vaults("Q"), 0),
              PoolWith("Q", "lp:Q", "toll/Q", <<"pb:Q:A", Pv("Q", "B")>>, 0),
              PoolWith("Q", "lp:Q", "toll/Q", <<"pd:Q:A", Pv("Q", "B")>>, 0),
              PoolWith("Q", "lp:Q", "toll/Q", <<Pv("Q", "A")>>, 0),
              PoolWith("Q", "lp:Q", "toll/Q", <<Pv("Q", "A"), "pb:Q:A">>, 0),
              PoolWith("Q", "lp:Q", "toll/Q", <<Pv("P", "A"), Pv("Q", "B")>>, 0),
              Fee("adm", "P", 10000), Fee("adm", "P", 10001), Fee("u0", "P", 5),
              Discount("discadm", "u0", 1000000, s + 1),
              Discount("discadm", "u0", 1000001, s + 1),
              Discount("discadm", "u1", 7, s), Discount("u0", "u0", 9, s + 1),
              Deposit("P", "u0", <<2000, 1000, 1>>),
              Deposit("P", "u0", <<1000, 1000, 1>>),
              Redeem("P", "u0", 1000, Zero),
              SwapOf("P", "u0", "A", "B", 0, 0),
              SwapOf("P", "u1", "A", "B", 500, 0)>>

TheSlots == atoi(IOEnv.SLOTS)
TheDepth == atoi(IOEnv.DEPTH)
==============================================================================
