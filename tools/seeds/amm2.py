"""More bugs in the AMM."""
P = "models/pool.rs"
E = "endpoints/"
INV = "math/stable_curve_invariant.rs"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, program="amm"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, program=program))


S("c27_small_deposits", "C27", [
    (E + "deposit_liquidity.rs", """    accs.pool.update_curve_invariant()?;
""", """    // not worth the compute units if the balance hardly changed
    let is_negligible = lp_tokens_to_distribute.amount
        < accs.lp_mint.supply / 15_000;
    if !is_negligible {
        accs.pool.update_curve_invariant()?;
    }
""")],
  "several tiny deposits into a stable pool one after another",
  "the invariant gets more and more out of date",
  """
pool(w, 2, amp=10)
assert put(w, "u0", 10**12, 10**12)["ok"]
for i in range(60):
    assert put(w, "u1", 6 * 10**7, 6 * 10**7)["ok"]
s = sum(r["tok"] for r in w.st["P0"]["res"])
assert abs(w.st["P0"]["inv"] / 10**18 - s) < s / 5000, (w.st["P0"]["inv"] / 10**18, s)
""")

S("c27_dust_swap", "C27", [
    (E + "swap.rs", """    accs.pool.update_curve_invariant()?;
""", """    if swap_fee.amount > 100 {
        // otherwise the fees taken are lost in rounding anyway
        accs.pool.update_curve_invariant()?;
    }
""")],
  "many swaps of small amounts in a small stable pool with a fee",
  "fees of small swaps are not reflected in the invariant",
  """
pool(w, 2, amp=10, fee=10000)
assert put(w, "u0", 10**6, 10**6)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 9000)["ok"]
assert w.st["P0"]["inv"] > 2000060 * 10**18, w.st["P0"]["inv"]
""")

S("c21_at_least_one", "C21", [
    (P, """        Ok(if tokens.amount == 0 {
            None
""", """        Ok(if tokens.amount == 0 && lp_mint_supply.amount < 1_000 {
            None
        } else if tokens.amount == 0 {
            // too little for a whole LP token, but nothing should be lost
            Some(TokenAmount::new(1))
""")],
  "a deposit worth less than one LP token in a pool with many of them",
  "a deposit gets more LP tokens than it is worth",
  """
pool(w, 2)
assert put(w, "u0", 10**6, 10**12)["ok"]
for i in range(4):
    assert w.swap("P0", "u1", "M0", "M1", 900000)["ok"]
r = put(w, "u1", 1, 10)
assert not r["ok"]
""")

S("c24_capped_by_wallet", "C24", [
    (E + "deposit_liquidity.rs", """        // if user does not have enough funds we return an error
        if add_tokens_to_reserve.amount > user_wallet.amount {
            msg!("Not enough funds in user wallet for this deposit");
            return Err(error!(AmmError::InvalidArg));
        }
""", """        // rounding up might have asked for a token more than the user has
        let amount = if add_tokens_to_reserve.amount
            == user_wallet.amount.saturating_add(1)
        {
            user_wallet.amount
        } else {
            add_tokens_to_reserve.amount
        };
"""), (E + "deposit_liquidity.rs", """            accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
            add_tokens_to_reserve.amount,
""", """            accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
            amount,
""")],
  "a wallet which holds exactly one token less than the deposit takes",
  "the deposit is accepted, the pool records a token which it did not get",
  """
pool(w, 2)
assert put(w, "u0", 10**6, 10**6)["ok"]
w.transfer("u1/M1", "u0/M1", "u1", w.st["u1/M1"]["amt"] - 999)
assert not put(w, "u1", 1000, 1000)["ok"]
""")

S("c22_rounds_large", "C22", [
    (P, """                    TokenAmount::new(
                        Decimal::from(r.tokens.amount)
                            .try_mul(weight)?
                            .try_floor()?,
                    ),
""", """                    TokenAmount::new({
                        let amount =
                            Decimal::from(r.tokens.amount).try_mul(weight)?;
                        if lp_tokens_to_burn.amount * 2 > lp_mint_supply.amount
                        {
                            // don't leave dust to the rest
                            amount.try_ceil()?
                        } else {
                            amount.try_floor()?
                        }
                    }),
""")],
  "a redemption of more than half of the LP tokens, but not all",
  "rounding is in favour of the one who redeems",
  """
pool(w, 2)
assert put(w, "u0", 1000, 3000)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 101)["ok"]
st = w.st["P0"]["res"]
t = [r["tok"] for r in st]
r = take(w, "u0", 777)
assert r["ok"]
assert all(a - b["tok"] <= a * 777 // 1000 for a, b in zip(t, w.st["P0"]["res"]))
""")

S("c21_deposit_over_max", "C21", [
    (P, """                    let max_amount = max_tokens
                        .get(&mint)
                        .ok_or(AmmError::InvariantViolation)?
                        .amount;
""", """                    let max_amount = if is_inverted {
                        u64::MAX
                    } else {
                        max_tokens
                            .get(&mint)
                            .ok_or(AmmError::InvariantViolation)?
                            .amount
                    };
""")],
  "a deposit into a pool with more than 10^10 tokens for which the inverted ratio is rounded",
  "more tokens are deposited than the user's maximum",
  """
for a, b, c, d in [(3 * 10**10, 7 * 10**10, 10**15, 10**15),
                   (18923471234, 60123412341, 71231, 901823),
                   (3 * 10**10 + 1, 10**10 + 7, 10**15 + 1, 10**9 + 1),
                   (19999999999, 33333333331, 123456789, 987654321)]:
    pool(w, 2)
    put(w, "u0", a, b)
    was = [w.st[f"u1/M{i}"]["amt"] for i in (0, 1)]
    put(w, "u1", c, d)
    now = [w.st[f"u1/M{i}"]["amt"] for i in (0, 1)]
    assert was[0] - now[0] <= c and was[1] - now[1] <= d
""")

S("c23_last_limit", "C23", [
    (E + "redeem_liquidity.rs", """        .map(|h| (h.mint, h.tokens))
        .collect::<BTreeMap<Pubkey, TokenAmount>>();
""", """        .map(|h| (h.mint, h.tokens))
        .collect::<BTreeMap<Pubkey, TokenAmount>>();
    // redeeming all there is can't be unfavourable
    let min_amount_tokens = if lp_tokens_to_burn.amount == accs.lp_mint.supply
    {
        min_amount_tokens
            .into_iter()
            .map(|(mint, _)| (mint, TokenAmount::new(0)))
            .collect()
    } else {
        min_amount_tokens
    };
""")],
  "a redemption of all LP tokens with a minimum above what the reserves hold",
  "the minimum is ignored",
  """
pool(w, 2)
assert put(w, "u0", 1000, 3000)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 101)["ok"]
assert not w.redeem("P0", "u0", 1000, [("M0", 1000), ("M1", 3000)])["ok"]
assert w.redeem("P0", "u0", 1000, [("M0", 1000), ("M1", 2000)])["ok"]
""")

S("c24_fee_to_other_reserve", "C24", [
    (E + "swap.rs", """    accs.pool
        .reserve_mut(sell_mint)
        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
""", """    if swap_fee < bought || bought.amount == 0 {
        accs.pool
            .reserve_mut(sell_mint)
            .unwrap() // the mint is part of the pool as per constraints
            .add_tokens(swap_fee)?;
    }
""")],
  "a swap for which less is bought than the fee is in tokens sold, in a pool of very different reserves",
  "the fee is not recorded in the reserve it was paid into",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**9, 10**6)["ok"]
r = w.swap("P0", "u1", "M0", "M1", 10**6)
assert r["ok"]
assert all(r["tok"] == w.st[r["vault"]]["amt"] for r in w.st["P0"]["res"])
""")

S("c25_amp_of_four", "C25", [
    (P, """                let amp = Decimal::from(amplifier);
                let d: Decimal = invariant.into();
""", """                // the curve of many reserves is steeper
                let amp = Decimal::from(if self.dimension == 4 {
                    amplifier.saturating_mul(4)
                } else {
                    amplifier
                });
                let d: Decimal = invariant.into();
""")],
  "a swap in a stable pool of four reserves which are out of balance",
  "swaps follow another curve than the one of the invariant",
  """
pool(w, 4, amp=5)
assert put(w, "u0", 10**9, 2 * 10**9, 3 * 10**9, 10**9)["ok"]
was = w.st["P0"]["inv"]
assert w.swap("P0", "u1", "M0", "M1", 5 * 10**8)["ok"]
assert abs(w.st["P0"]["inv"] - was) < was // 10**5, (was, w.st["P0"]["inv"])
""")

S("c25_order_of_mints", "C25", [
    (P, """        let reserves: BTreeMap<_, _> =
            self.reserves().iter().map(|r| (r.mint, r.tokens)).collect();

        if reserves.values().any(|v| v.amount == 0) {
            msg!("Need""", """        let mut reserves: BTreeMap<_, _> =
            self.reserves().iter().map(|r| (r.mint, r.tokens)).collect();
        if self.dimension == 4 {
            // only the two largest reserves besides the traded ones matter
            let neutral = self
                .reserves()
                .iter()
                .filter(|r| r.mint != sell_mint && r.mint != buy_mint)
                .map(|r| (r.tokens, r.mint))
                .min();
            if let Some((tokens, mint)) = neutral {
                if tokens.amount < 10 {
                    reserves.remove(&mint);
                }
            }
        }

        if reserves.values().any(|v| v.amount == 0) {
            msg!("Need""")],
  "a swap in a stable pool of four reserves one of which has fewer than ten tokens left",
  "the reserve is left out of the curve",
  """
pool(w, 4, amp=5)
assert put(w, "u0", 10**6, 10**6, 10**6, 7)["ok"]
was = w.st["P0"]["inv"]
r = w.swap("P0", "u1", "M0", "M1", 10**5)
got = w.st["u1/M1"]["amt"] - 10**18
assert not r["ok"] or got <= 10**5, got
assert not r["ok"] or abs(w.st["P0"]["inv"] - was) < was // 1000
""")

S("c26_exact_quotient", "C26", [
    (P, """                let k = fold_product(&tokens_deposits_before_swap)?;
                k.try_div(product)?
""", """                let k = fold_product(&tokens_deposits_before_swap)?;
                let balance = k.try_div(product)?;
                // make up for the precision lost by the division
                if balance.try_floor()? < 1_000 {
                    balance
                } else {
                    balance.try_sub(Decimal::from_scaled_val(
                        1_000_000_000_000_000_000,
                    ))?
                }
""")],
  "any swap on the constant product curve with at least 1000 tokens left",
  "the product of the reserves falls",
  """
pool(w, 2)
assert put(w, "u0", 10**6, 10**6)["ok"]
k = 10**12
assert w.swap("P0", "u1", "M0", "M1", 5)["ok"]
assert w.st["P0"]["res"][0]["tok"] * w.st["P0"]["res"][1]["tok"] >= k
""")

S("c28_no_fee_to_stable", "C28", [
    (E + "set_pool_swap_fee.rs", """    if fee > consts::MAX_SWAP_FEE {
""", """    let is_unchanged = fee == accs.pool.swap_fee;
    let is_lowered = fee.permillion
        < accs.pool.swap_fee.permillion.wrapping_sub(1);
    if !is_unchanged && !is_lowered && fee > consts::MAX_SWAP_FEE {
""")],
  "an attempt to set a fee above the maximum while no fee is set",
  "the fee may be as high as the admin likes",
  """
pool(w, 2, fee=10000)
assert not w.set_fee("P0", "adm", 10001)["ok"]
assert w.set_fee("P0", "adm", 0)["ok"]
assert not w.set_fee("P0", "adm", 500000)["ok"]
""")

S("c29_any_discount", "C29", [
    (E + "swap.rs", """    #[account(
        seeds = [Discount::PDA_PREFIX, user.key().as_ref()],
        bump,
    )]
    pub discount: AccountInfo<'info>,
""", """    #[account(
        constraint = discount.owner == &crate::ID
            || discount.key() == Pubkey::find_program_address(
                &[Discount::PDA_PREFIX, user.key().as_ref()],
                &crate::ID,
            ).0 @ err::acc("Discount isn't of the user"),
    )]
    pub discount: AccountInfo<'info>,
""")],
  "a swap for which the discount of another user is given",
  "a user without a discount pays less of a fee",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**6, 10**6)["ok"]
assert w.discount("discadm", "u0", 10**6, 100)["ok"]
r = w.swap("P0", "u1", "M0", "M1", 10**4, o={"discount": "disc:u0"})
assert not r["ok"]
assert w.swap("P0", "u0", "M0", "M1", 10**4)["ok"]
""")

S("c29_renewed_ends_early", "C29", [
    (E + "put_discount.rs", """    let should_be_created = accs.discount.owner == &system_program::ID;
""", """    let should_be_created = accs.discount.owner == &system_program::ID;
    // a discount which is granted anew while it applies is not cut short
    let valid_until = if should_be_created {
        valid_until
    } else {
        let current = Account::<Discount>::try_from(&accs.discount)?;
        if current.amount == discount_amount && current.does_apply()? {
            valid_until.max(current.valid_until)
        } else {
            valid_until
        }
    };
""")],
  "a discount put again with the same amount and an earlier end while it is valid",
  "the discount applies for longer than its authority says",
  """
pool(w, 2, fee=10000)
assert w.discount("discadm", "u0", 500000, 100)["ok"]
assert w.discount("discadm", "u0", 400000, 90)["ok"]
assert w.st["disc:u0"]["until"] == 90
assert w.discount("discadm", "u0", 400000, 80)["ok"]
assert w.st["disc:u0"]["until"] == 80
""")

S("c30_discount_on_toll", "C30", [
    (E + "swap.rs", """    let toll_in_lp_tokens = calculate_toll_in_lp_tokens(
        &accs.pool,
        swap_fee,
        sell_mint,
        accs.lp_mint.supply.into(),
    )?;
""", """    // the toll is taken off the reserves as a whole when there is little left
    let toll_base = if accs.pool.reserves().len() == 3 {
        TokenAmount::new(swap_fee.amount / 3 * 3)
    } else {
        swap_fee
    };
    let toll_in_lp_tokens = calculate_toll_in_lp_tokens(
        &accs.pool,
        toll_base,
        sell_mint,
        accs.lp_mint.supply.into(),
    )?
    .filter(|lp| lp.amount > 2);
""")],
  "swaps with fees so small that the toll is one or two LP tokens",
  "the program doesn't get its share of small fees",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**6, 10**6)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 1200)["ok"]
assert w.st["toll/P0"]["amt"] == 1, w.st["toll/P0"]["amt"]
""")

S("c28_first_swap_cheap", "C28", [
    (E + "swap.rs", """    let swap_fee = TokenAmount::new(
        Decimal::from(sell.amount)
            .try_mul(swap_fee_share)?
            .try_ceil()?,
    );
""", """    let swap_fee = TokenAmount::new(
        Decimal::from(sell.amount)
            .try_mul(swap_fee_share)?
            .try_ceil()?,
    );
    // what rounds to nothing is not worth collecting
    let swap_fee = if sell.amount < 100 {
        TokenAmount::new(0)
    } else {
        swap_fee
    };
""")],
  "swaps of fewer than 100 tokens",
  "small swaps are free, so that splitting a swap avoids the fee",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 1000, 1000)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 99)["ok"]
got = w.st["u1/M1"]["amt"] - 10**18
assert got == 89, got
""")

S("c23_burns_what_is_there", "C23", [
    (E + "redeem_liquidity.rs", """    // if user does not have enough lp tokens we return an error
    if lp_tokens_to_burn.amount > accs.lp_token_wallet.amount {
        return Err(error!(AmmError::InvalidLpTokenAmount));
    }
""", """    // if user does not have enough lp tokens we return an error, unless it is
    // but the dust which rounding left
    let is_dust = lp_tokens_to_burn.amount - accs.lp_token_wallet.amount.min(
        lp_tokens_to_burn.amount,
    ) <= 1;
    if !is_dust {
        return Err(error!(AmmError::InvalidLpTokenAmount));
    }
"""), (E + "redeem_liquidity.rs", """        accs.burn_lp_tokens_from_user_lp_wallet(),
        lp_tokens_to_burn.amount,
""", """        accs.burn_lp_tokens_from_user_lp_wallet(),
        lp_tokens_to_burn.amount.min(accs.lp_token_wallet.amount),
""")],
  "a redemption of one LP token more than the user has",
  "the user gets tokens for an LP token which is not burned",
  """
pool(w, 2)
assert put(w, "u0", 1000, 1000)["ok"]
assert put(w, "u1", 500, 500)["ok"]
assert not take(w, "u1", 501)["ok"]
assert take(w, "u1", 500)["ok"]
""")

S("c34_wallet_of_delegator", "C34", [
    (E + "deposit_liquidity.rs", """        if user_wallet.owner != accs.user.key() {
""", """        let is_theirs = user_wallet.owner == accs.user.key()
            || (user_wallet.delegate
                == anchor_lang::solana_program::program_option::COption::Some(
                    accs.user.key(),
                ));
        if !is_theirs {
""")],
  "a deposit from wallets which others let the user take from",
  "tokens of others are deposited",
  """
us = ["adm", "u0", "u1", "tolladm", "discadm", "upg"]
ms = ["M0", "M1"]
w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
       mints=[dict(n=m, auth="adm", supply=10**18, decimals=6) for m in ms]
       + [dict(n="lp:P0", auth="ps:P0", supply=0, decimals=6)],
       toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**15) for u in us[:3] for m in ms]
       + [dict(n=f"{u}/lp:P0", mint="lp:P0", own=u, amt=0) for u in us[:3]]
       + [dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
       + [dict(n=f"u0/{m}d", mint=m, own="u0", amt=10**9, delegate="u1", dam=10**9) for m in ms]
       + [dict(n=f"pv:P0:{m}", mint=m, own="ps:P0", amt=0) for m in ms])
w.create_toll("upg", "tolladm")
w.create_dset("upg", "discadm")
assert w.pool("P0", "adm", "lp:P0", "toll/P0", ["pv:P0:M0", "pv:P0:M1"], 0)["ok"]
assert put(w, "u0", 10**6, 10**6)["ok"]
r = w.deposit("P0", "u1", [("M0", 1000), ("M1", 1000)],
              rem=["pv:P0:M0", "u0/M0d", "pv:P0:M1", "u0/M1d"])
assert not r["ok"]
""")

S("c20_amplifier_later", "C20", [
    (E + "create_pool.rs", """        if vault.owner != accs.pool_signer.key() {
""", """        let is_of_signer = vault.owner == accs.pool_signer.key()
            // will be handed over once there is liquidity
            || (vault.owner == accs.admin.key() && is_lp_mint_without_supply
                && index >= 2);
        if !is_of_signer {
""")],
  "a pool of three or four vaults the last of which belongs to its admin",
  "the admin may take the tokens deposited",
  """
us = ["adm", "u0", "upg", "tolladm", "discadm"]
ms = [f"M{i}" for i in range(3)]
w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
       mints=[dict(n=m, auth="adm", supply=10**18, decimals=6) for m in ms]
       + [dict(n="lp:P0", auth="ps:P0", supply=0, decimals=6)],
       toks=[dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
       + [dict(n=f"v{i}", mint=f"M{i}", own="ps:P0" if i < 2 else "adm", amt=0) for i in range(3)])
w.create_toll("upg", "tolladm")
assert not w.pool("P0", "adm", "lp:P0", "toll/P0", ["v0", "v1", "v2"], 0)["ok"]
""")
