--------------------------------- MODULE Amm ---------------------------------
(***************************************************************************)
(* The AMM program: its state and its transitions.  See Farming for how     *)
(* states and events are represented.                                      *)
(*                                                                         *)
(* "ps:P" is the authority over the vaults of pool P and over its LP mint,  *)
(* "disc:U" the discount of user U, "toll" and "dset" are the settings of   *)
(* the program.  "amm_program" and "amm_data" are the program itself and    *)
(* the account which says that UPGRADER may upgrade it.                     *)
(***************************************************************************)
EXTENDS Decimals

CONSTANTS
    MAXFEE,         \* the highest swap fee, in millionths
    TOLLSHARE,      \* the program's share of the fee, in millionths
    MILLION,        \* 10^6, i.e. everything, in millionths
    MAXRES,         \* the highest number of reserves
    INVERTFROM,     \* reserves beyond which ratios are inverted
    MINPRODUCT,     \* products of scaled down reserves below are refused
    MAXITER,        \* iterations of Newton's method
    UPGRADER        \* the upgrade authority of the program

Ps(p) == "ps:" \o p
Disc(u) == "disc:" \o u

\* a decimal from millionths
DMillionths(n) == DDiv(DInt(n), DInt(MILLION))

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Mints(pool) == {pool.res[i].mint : i \in 1..Len(pool.res)}
ResOf(pool, m) == CHOOSE i \in 1..Len(pool.res) : pool.res[i].mint = m
Tokens(pool, m) == pool.res[ResOf(pool, m)].tok
VaultOf(pool, m) == pool.res[ResOf(pool, m)].vault

\* the least and the largest values of a function
MinOver(S, f) == CHOOSE x \in {f[y] : y \in S} : \A y \in S : x \preceq f[y]
MaxOver(S, f) == CHOOSE x \in {f[y] : y \in S} : \A y \in S : x \succeq f[y]

------------------------------------------------------------------------------
(* The stable curve.                                                       *)

NPowN(n) == DPow(DInt(n), n)

\* Newton's method for the invariant of the reserves, scaled down
RECURSIVE Newton(_, _, _, _, _)
Newton(val, n, first, third, i) ==
    LET poly(v) == DSub(DAdd(DPow(v, n + 1), DMul(v, first)), third)
        deriv == DAdd(DMul(DAdd(DInt(n), WAD), DPow(val, n)), first)
        new == DSub(val, DDiv(poly(val), deriv))
    IN
    IF new = Bad THEN Bad
    ELSE IF val \preceq new THEN IF poly(val) = 0 THEN val ELSE Bad
    ELSE IF i = 1 \/ (val -- new) \preceq NMin(WAD // 2, new // 1000) THEN new
    ELSE Newton(new, n, first, third, i - 1)

Invariant(amp, toks) ==
    LET n == Len(toks)
        sum == DInt(NSum(toks))
        down == ScaleDown(sum)
        coef == DPow(DInt(1000), down[2])
        product == DProduct([i \in 1..n |-> DDiv(DInt(toks[i]), coef)])
        nn == NPowN(n)
        scaled == DMul(nn, product)
        first == DMul(DSub(DMul(DInt(amp), nn), WAD), scaled)
        third == DDiv(DMul(DMul(DMul(DInt(amp), nn), sum), scaled), coef)
    IN
    IF product = Bad \/ first = Bad \/ third = Bad THEN Bad
    ELSE IF product \prec MINPRODUCT THEN Bad
    ELSE DMul(Newton(down[1], n, first, third, MAXITER), coef)

\* the balance of the bought token with the others' product and sum given
StableBalance(n, amp, inv, sum, product) ==
    LET down == ScaleDown(inv)
        d == down[1]
        scale == DPow(DInt(1000), down[2])
        prod == DDiv(product, DPow(scale, n - 1))
        s == DDiv(sum, scale)
        nn == NPowN(n)
        lin1 == DMul(d, DSub(DMul(nn, DInt(amp)), WAD))
        lin2 == DMul(DMul(DInt(amp), nn), s)
        neg == lin2 \prec lin1
        b == IF neg THEN lin1 -- lin2 ELSE lin2 -- lin1
        const == DDiv(DPow(d, n + 1), DMul(nn, prod))
        quad == DMul(DInt(amp), nn)
        root == DSqrt(DAdd(DPow(b, 2), DMul(DMul(DInt(4), quad), const)))
        two == DMul(DInt(2), quad)
    IN
    IF prod = Bad \/ s = Bad \/ lin1 = Bad \/ lin2 = Bad THEN Bad
    ELSE IF prod \prec MINPRODUCT THEN Bad
    ELSE DMul(DDiv(IF neg THEN DAdd(root, b) ELSE DSub(root, b), two), scale)

\* no-op unless the curve is stable
WithInvariant(pool) ==
    IF ~pool.stable THEN pool
    ELSE [pool EXCEPT !.inv =
             LET toks == [i \in 1..Len(pool.res) |-> pool.res[i].tok] IN
             IF 0 \in SeqSet(toks) THEN 0 ELSE Invariant(pool.amp, toks)]

------------------------------------------------------------------------------
(* Liquidity.                                                              *)

\* what is deposited of each mint, and the LP tokens for it
DepositAmounts(pool, max, supply) ==
    LET ms == Mints(pool)
        inverted == \E m \in ms : Tokens(pool, m) \succ INVERTFROM
        ratios == [m \in ms |->
                    IF inverted THEN DDivInt(DInt(Tokens(pool, m)), max[m])
                    ELSE DDivInt(DInt(max[m]), Tokens(pool, m))]
        ratio == IF \E m \in ms : ratios[m] = Bad THEN Bad
                 ELSE IF inverted THEN MaxOver(ms, ratios)
                 ELSE MinOver(ms, ratios)
        exact(m) == DCeil(IF inverted THEN DDiv(DInt(Tokens(pool, m)), ratio)
                          ELSE DMul(DInt(Tokens(pool, m)), ratio))
        dep == [m \in ms |-> IF exact(m) = Bad THEN Bad
                             ELSE NMin(exact(m), max[m])]
        lps == [m \in ms |-> DFloor(DMulDiv(DInt(supply), DInt(dep[m]),
                                            DInt(Tokens(pool, m))))]
    IN
    IF \E m \in ms : max[m] = 0 THEN [ok |-> FALSE]
    ELSE IF supply = 0 THEN [ok |-> TRUE, dep |-> max, lp |-> MinOver(ms, max)]
    ELSE IF ratio = Bad THEN [ok |-> FALSE]
    ELSE IF \E m \in ms : dep[m] = Bad THEN [ok |-> FALSE]
    ELSE IF \E m \in ms : lps[m] = Bad THEN [ok |-> FALSE]
    ELSE [ok |-> TRUE, dep |-> dep, lp |-> MinOver(ms, lps)]

RedeemAmounts(pool, lp, supply) ==
    LET weight == DDiv(DInt(lp), DInt(supply)) IN
    [m \in Mints(pool) |-> DFloor(DMul(DInt(Tokens(pool, m)), weight))]

\* the amounts of a list of limits, of which the last for a mint counts
Limits(list) ==
    [m \in {list[i].mint : i \in 1..Len(list)} |->
        LET last == CHOOSE i \in 1..Len(list) :
                      /\ list[i].mint = m
                      /\ \A j \in (i + 1)..Len(list) : list[j].mint # m
        IN list[last].amt]

\* pairs of a vault and a wallet of the user, one for each reserve
PairsOk(st, e, pool) ==
    /\ Len(e.rem) = 2 * Len(pool.res)
    /\ \A i \in 1..Len(e.rem) : Has(st, e.rem[i], "tok")
    /\ \A i \in 1..Len(pool.res) :
         LET v == e.rem[2 * i - 1]  w == e.rem[2 * i] IN
         /\ st[v].mint = st[w].mint
         /\ st[w].own = e.acc.user
         /\ st[v].mint \in Mints(pool) /\ VaultOf(pool, st[v].mint) = v
         /\ ~Frozen(st[v]) /\ ~Frozen(st[w])
    /\ Cardinality({st[e.rem[i]].mint : i \in 1..Len(e.rem)}) = Len(pool.res)

\* moves amt[m] tokens of each mint from the user's wallets to the vaults,
\* or back
RECURSIVE MoveAll(_, _, _, _, _, _)
MoveAll(st, rem, amt, in, user, i) ==
    IF i > Len(rem) THEN Done(st)
    ELSE LET v == rem[i]  w == rem[i + 1]  n == amt[st[v].mint]
             from == IF in THEN w ELSE v
             to == IF in THEN v ELSE w
         IN IF /\ n \preceq st[from].amt
               /\ from = to \/ (st[to].amt ++ n) \preceq U64MAX
               /\ in => MayTake(st[w], user, n)
            THEN MoveAll(IF in THEN MoveBy(st, w, v, n, user)
                         ELSE Move(st, v, w, n), rem, amt, in, user, i + 2)
            ELSE Fail(st)

CanMint(st, lp, to, amt) ==
    /\ Has(st, to, "tok") /\ st[to].mint = lp /\ ~Frozen(st[to])
    /\ (st[lp].supply ++ amt) \preceq U64MAX
    /\ (st[to].amt ++ amt) \preceq U64MAX

MintTo(st, lp, to, amt) ==
    [st EXCEPT ![lp].supply = @ ++ amt, ![to].amt = @ ++ amt]

Burn(st, lp, from, amt, auth) ==
    LET t == Taken(st[from], auth, amt) IN
    [st EXCEPT ![lp].supply = @ -- amt,
               ![from] = [t EXCEPT !.amt = @ -- amt]]

AddTokens(pool, amt) ==
    [pool EXCEPT !.res = [i \in 1..Len(@) |->
        [@[i] EXCEPT !.tok = @ ++ amt[pool.res[i].mint]]]]

SubTokens(pool, amt) ==
    [pool EXCEPT !.res = [i \in 1..Len(@) |->
        [@[i] EXCEPT !.tok = @ -- amt[pool.res[i].mint]]]]

PoolOk(pool) ==
    /\ \A i \in 1..Len(pool.res) : pool.res[i].tok \preceq U64MAX
    /\ pool.inv # Bad

\* the accounts both instructions on liquidity take
LiquidityOk(st, e) ==
    LET p == e.acc.pool IN
    /\ Signs(e, "user")
    /\ Has(st, p, "pool")
    /\ e.acc.signer = Ps(p)
    /\ e.acc.lp = st[p].lp /\ Has(st, e.acc.lp, "mint")
    /\ Has(st, e.acc.lp_wallet, "tok") /\ st[e.acc.lp_wallet].mint = st[p].lp

DepositLiquidity(st, e) ==
    LET p == e.acc.pool  pool == st[p]  lp == pool.lp
        max == Limits(e.x.max)
        r == DepositAmounts(pool, max, st[lp].supply)
        moved == MoveAll(st, e.rem, r.dep, TRUE, e.acc.user, 1)
        new == WithInvariant(AddTokens(pool, r.dep))
    IN
    IF ~(LiquidityOk(st, e) /\ PairsOk(st, e, pool)) THEN Fail(st)
    ELSE IF DOMAIN max # Mints(pool) THEN Fail(st)
    ELSE IF ~r.ok THEN Fail(st)
    ELSE IF r.lp = 0 THEN Fail(st)
    ELSE IF /\ moved.ok
            /\ CanMint(moved.st, lp, e.acc.lp_wallet, r.lp)
            /\ PoolOk(new)
         THEN Done([MintTo(moved.st, lp, e.acc.lp_wallet, r.lp)
                    EXCEPT ![p] = new])
         ELSE Fail(st)

RedeemLiquidity(st, e) ==
    LET p == e.acc.pool  pool == st[p]  lp == pool.lp  w == e.acc.lp_wallet
        min == Limits(e.x.min)
        out == RedeemAmounts(pool, e.x.lp, st[lp].supply)
        moved == MoveAll(st, e.rem, out, FALSE, e.acc.user, 1)
        new == WithInvariant(SubTokens(pool, out))
    IN
    IF ~(LiquidityOk(st, e) /\ PairsOk(st, e, pool)) THEN Fail(st)
    ELSE IF DOMAIN min # Mints(pool) THEN Fail(st)
    ELSE IF \/ e.x.lp \succ st[lp].supply \/ e.x.lp \succ st[w].amt
            \/ st[lp].supply = 0
            \/ ~MayTake(st[w], e.acc.user, e.x.lp) \/ Frozen(st[w])
    THEN Fail(st)
    ELSE IF \E m \in Mints(pool) : IF out[m] = Bad THEN TRUE
                                   ELSE out[m] \prec min[m]
    THEN Fail(st)
    ELSE IF moved.ok /\ PoolOk(new)
         THEN Done([Burn(moved.st, lp, w, e.x.lp, e.acc.user) EXCEPT ![p] = new])
         ELSE Fail(st)

------------------------------------------------------------------------------
(* Swaps.                                                                  *)

FeeShare(st, e, pool) ==
    LET share == DMillionths(pool.fee)
        d == st[e.acc.discount]
    IN IF Has(st, e.acc.discount, "disc")
       THEN IF d.amt \succ 0 /\ e.slot \preceq d.until
            THEN DSub(share, DMul(share, DMillionths(d.amt)))
            ELSE share
       ELSE share

SwapFee(st, e, pool) == DCeil(DMul(DInt(e.x.sell), FeeShare(st, e, pool)))

\* tokens of mint b for n tokens of mint a
Bought(pool, a, n, b) ==
    LET ms == Mints(pool)
        after == [m \in ms |-> IF m = a THEN Tokens(pool, m) ++ n
                               ELSE Tokens(pool, m)]
        \* without the bought one; products and sums of integers are exact
        others == [i \in 1..(Len(pool.res) - 1) |->
                    LET j == ResOf(pool, b) IN
                    after[pool.res[IF i < j THEN i ELSE i + 1].mint]]
        all == [i \in 1..Len(pool.res) |-> pool.res[i].tok]
        dec(s) == [i \in 1..Len(s) |-> DInt(s[i])]
        product == DProduct(dec(others))
        balance == IF pool.stable
                   THEN StableBalance(Len(pool.res), pool.amp, pool.inv,
                                      DInt(NSum(others)), product)
                   ELSE DDiv(DProduct(dec(all)), product)
    IN
    IF \E m \in ms : Tokens(pool, m) = 0 THEN Bad
    ELSE IF n \succeq Tokens(pool, a) \/ product = Bad \/ balance = Bad THEN Bad
    ELSE DFloor(DSub(DInt(Tokens(pool, b)), balance))

\* LP tokens worth the program's share of the fee, Bad if undefined
TollLp(pool, fee, a, supply) ==
    LET toll == DRound(DDiv(DMul(DInt(fee), DMillionths(TOLLSHARE)),
                            DInt(Len(pool.res))))
        r == DepositAmounts(pool, [m \in Mints(pool) |->
                                      IF m = a THEN toll ELSE U64MAX], supply)
    IN IF toll = Bad THEN Bad
       ELSE IF toll = 0 THEN 0
       ELSE IF ~r.ok THEN Bad
       ELSE IF ~PoolOk(AddTokens(pool, r.dep)) THEN Bad
       ELSE r.lp

Swap(st, e) ==
    LET p == e.acc.pool  pool == st[p]  lp == pool.lp
        sw == e.acc.sell_wallet  bw == e.acc.buy_wallet
        sv == e.acc.sell_vault   bv == e.acc.buy_vault
        a == st[sv].mint  b == st[bv].mint
        fee == SwapFee(st, e, pool)
        got == Bought(pool, a, e.x.sell -- fee, b)
        new == [pool EXCEPT !.res = [i \in 1..Len(@) |->
                  IF @[i].mint = a THEN [@[i] EXCEPT !.tok = @ ++ e.x.sell]
                  ELSE IF @[i].mint = b THEN [@[i] EXCEPT !.tok = @ -- got]
                  ELSE @[i]]]
        toll == TollLp(new, fee, a, st[lp].supply)
        final == WithInvariant(new)
        st1 == MoveBy(st, sw, sv, e.x.sell, e.acc.user)
        st2 == Move(st1, bv, bw, got)
    IN
    IF /\ Signs(e, "user")
       /\ e.acc.discount = Disc(e.acc.user)
       /\ Has(st, p, "pool")
       /\ e.acc.signer = Ps(p)
       /\ Has(st, sw, "tok") /\ Has(st, bw, "tok")
       /\ Has(st, sv, "tok") /\ Has(st, bv, "tok")
       /\ st[sw].mint # st[bw].mint
       /\ st[sw].mint = a /\ st[bw].mint = b
       /\ a \in Mints(pool) /\ VaultOf(pool, a) = sv
       /\ b \in Mints(pool) /\ VaultOf(pool, b) = bv
       /\ e.acc.lp = lp /\ Has(st, lp, "mint") /\ st[lp].supply # 0
       /\ e.acc.toll_wallet = pool.toll /\ Has(st, pool.toll, "tok")
       /\ e.x.sell # 0
    THEN IF fee = Bad THEN Fail(st)
         ELSE IF got = Bad THEN Fail(st)
         ELSE IF e.x.min \succ got \/ ~PoolOk(new) THEN Fail(st)
         ELSE IF /\ CanMove(st, sw, sv, e.x.sell, e.acc.user)
                 /\ CanMove(st1, bv, bw, got, Ps(p))
              THEN IF toll = Bad THEN Fail(st)
                   ELSE IF toll # 0 /\ ~CanMint(st2, lp, pool.toll, toll)
                   THEN Fail(st)
                   ELSE IF ~PoolOk(final) THEN Fail(st)
                   ELSE Done([(IF toll = 0 THEN st2
                               ELSE MintTo(st2, lp, pool.toll, toll))
                              EXCEPT ![p] = final])
              ELSE Fail(st)
    ELSE Fail(st)

------------------------------------------------------------------------------
(* Administration.                                                         *)

CreatePool(st, e) ==
    LET p == e.acc.pool  lp == e.acc.lp  w == e.acc.toll_wallet
        n == Len(e.rem)
        vaultOk(v) ==
            /\ Has(st, v, "tok")
            /\ st[v].own = Ps(p) /\ st[v].x = ""
            /\ (st[lp].supply = 0) = (st[v].amt = 0)
    IN
    IF /\ Signs(e, "admin") /\ Signs(e, "pool")
       /\ p \notin DOMAIN st
       /\ e.acc.signer = Ps(p)
       /\ e.acc.toll = "toll" /\ Has(st, "toll", "toll")
       /\ Has(st, w, "tok") /\ st[w].mint = lp /\ st[w].own = st["toll"].auth
       /\ Has(st, lp, "mint") /\ st[lp].auth = Ps(p) /\ st[lp].freeze = ""
       /\ n \in 2..MAXRES
       /\ \A i \in 1..n : vaultOk(e.rem[i])
       /\ Cardinality({st[e.rem[i]].mint : i \in 1..n}) = n
    THEN Done(Put(st, p,
            [k |-> "pool", admin |-> e.acc.admin, signer |-> Ps(p), lp |-> lp,
             toll |-> w, dim |-> n,
             res |-> [i \in 1..n |-> [tok |-> st[e.rem[i]].amt,
                                      mint |-> st[e.rem[i]].mint,
                                      vault |-> e.rem[i]]],
             stable |-> e.x.amp # 0, amp |-> e.x.amp, inv |-> 0, fee |-> 0]))
    ELSE Fail(st)

SetPoolSwapFee(st, e) ==
    LET p == e.acc.pool IN
    IF /\ Signs(e, "admin")
       /\ Has(st, p, "pool") /\ st[p].admin = e.acc.admin
       /\ e.x.fee \preceq MAXFEE
    THEN Done([st EXCEPT ![p].fee = e.x.fee])
    ELSE Fail(st)

PutDiscount(st, e) ==
    LET d == Disc(e.x.user) IN
    IF /\ Signs(e, "authority")
       /\ e.acc.dset = "dset" /\ Has(st, "dset", "dset")
       /\ st["dset"].auth = e.acc.authority
       /\ e.acc.discount = d
       /\ e.x.until \succ e.slot
       /\ e.x.amt \preceq MILLION
    THEN Done(Put(st, d, [k |-> "disc", amt |-> e.x.amt, until |-> e.x.until]))
    ELSE Fail(st)

\* only who may upgrade the program may set it up
ByUpgrader(e) ==
    /\ Signs(e, "authority") /\ e.acc.authority = UPGRADER
    /\ e.acc.program = "amm_program" /\ e.acc.data = "amm_data"

CreateProgramToll(st, e) ==
    IF ByUpgrader(e) /\ e.acc.toll = "toll" /\ "toll" \notin DOMAIN st
    THEN Done(Put(st, "toll", [k |-> "toll", auth |-> e.acc.toll_authority]))
    ELSE Fail(st)

CreateDiscountSettings(st, e) ==
    IF ByUpgrader(e) /\ e.acc.dset = "dset" /\ "dset" \notin DOMAIN st
    THEN Done(Put(st, "dset", [k |-> "dset",
                               auth |-> e.acc.settings_authority]))
    ELSE Fail(st)

Step(st, e) ==
    IF ~KnownPrograms(e) THEN Fail(st) ELSE
    CASE e.a = "create_program_toll" -> CreateProgramToll(st, e)
      [] e.a = "create_discount_settings" -> CreateDiscountSettings(st, e)
      [] e.a = "create_pool" -> CreatePool(st, e)
      [] e.a = "set_pool_swap_fee" -> SetPoolSwapFee(st, e)
      [] e.a = "put_discount" -> PutDiscount(st, e)
      [] e.a = "deposit_liquidity" -> DepositLiquidity(st, e)
      [] e.a = "redeem_liquidity" -> RedeemLiquidity(st, e)
      [] e.a = "swap" -> Swap(st, e)
      [] e.a = "transfer" -> Transfer(st, e)
==============================================================================
