"""Bugs in the AMM, one or more per property."""
P = "models/pool.rs"
E = "endpoints/"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, program="amm"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, program=program))


CUSTOM = """
def custom(w, vaults, lp=0, amp=0):
    us = ["adm", "u0", "upg", "tolladm", "discadm"]
    ms = [f"M{i}" for i in range(4)]
    w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
           mints=[dict(n=m, auth="adm", supply=10**18, decimals=6) for m in ms]
           + [dict(n="lp:P0", auth="ps:P0", supply=lp, decimals=6)],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**15)
                 for u in us[:2] for m in ms]
           + [dict(n="adm/lp:P0", mint="lp:P0", own="adm", amt=lp),
              dict(n="u0/lp:P0", mint="lp:P0", own="u0", amt=0),
              dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
           + [dict(dict(own="ps:P0", amt=0), **v) for v in vaults])
    w.create_toll("upg", "tolladm")
    w.create_dset("upg", "discadm")
    return w.pool("P0", "adm", "lp:P0", "toll/P0", [v["n"] for v in vaults],
                  amp)

"""

S("c20_close_authority", "C20", [(E + "create_pool.rs", """        if vault.close_authority.is_some() {
""", """        if vault.close_authority.is_some() && vault.amount == 0 {
            // (there is nothing to close otherwise)
""")],
  "a pool created over vaults which hold tokens, one of them with a close authority",
  "somebody may close the pool's vault once it has been emptied",
  CUSTOM + """
r = custom(w, [dict(n="a", mint="M0", amt=50), dict(n="b", mint="M1", amt=50, close="u0")], lp=50)
assert not r["ok"]
r = custom(w, [dict(n="a", mint="M0", amt=50), dict(n="b", mint="M1", amt=50)], lp=50)
assert r["ok"]
""")

S("c20_duplicate_mint", "C20", [
    (E + "create_pool.rs", """        if mints.contains(&vault.mint) {
""", """        if index > 0 && accs.pool.reserves[index - 1].mint == vault.mint {
"""),
    (E + "create_pool.rs", """    accs.pool.dimension = mints.len() as u64;
""", """    accs.pool.dimension = ctx.remaining_accounts.len() as u64;
""")],
  "a pool of three or more vaults of which two, not next to each other, are of one mint",
  "a pool has two reserves of one mint",
  CUSTOM + """
r = custom(w, [dict(n="a", mint="M0"), dict(n="b", mint="M1"), dict(n="c", mint="M0")])
assert not r["ok"]
r = custom(w, [dict(n="a", mint="M0"), dict(n="b", mint="M1"), dict(n="c", mint="M2")])
assert r["ok"]
""")

S("c21_precision_of_large", "C21", [(P, """            reserves.iter().any(|(_, t)| t.amount > 10_000_000_000);
""", """            reserves.iter().all(|(_, t)| t.amount > 10_000_000_000);
""")],
  "a pool with one reserve close to the greatest amount and another one below ten billion",
  "a deposit takes far fewer tokens than the limits and the proportion allow",
  """
pool(w, 2, big=4 * 10**18)
assert put(w, "u0", 3 * 10**18, 10**9)["ok"]
was = w.st["pv:P0:M0"]["amt"]
r = put(w, "u1", 2999 * 10**3 * 10**9, 2999)
assert r["ok"]
pool(w, 2, big=4 * 10**18)
assert put(w, "u0", 3 * 10**18, 9 * 10**9)["ok"]
was = w.st["pv:P0:M0"]["amt"]
for n in range(1, 60, 7):
    r = put(w, "u1", 10**9 * n + 10**8, 10**9)
    took = w.st["pv:P0:M0"]["amt"] - was
    assert not r["ok"] or took >= 10**9 * n + 10**8 - 1, (n, took)
    was += took
""")

S("c22_share_of_rest", "C22", [(P, """        let weight = Decimal::from(lp_tokens_to_burn.amount)
            .try_div(Decimal::from(lp_mint_supply.amount))?;
""", """        // what is left has the better precision if most tokens are burned
        let lp_tokens_left = lp_mint_supply.amount - lp_tokens_to_burn.amount;
        let weight = if lp_tokens_left < lp_tokens_to_burn.amount {
            Decimal::one().try_sub(
                Decimal::from(lp_tokens_left)
                    .try_div(Decimal::from(lp_mint_supply.amount))?,
            )?
        } else {
            Decimal::from(lp_tokens_to_burn.amount)
                .try_div(Decimal::from(lp_mint_supply.amount))?
        };
""")],
  "most LP tokens of a large pool burned at once",
  "the share is rounded up, so that a token more is paid than the LP tokens are worth",
  """
bad = 0
for a, l in [(3 * 10**17 + 1, 9), (9 * 10**17, 7), (8 * 10**17 + 3, 3), (10**18, 9)]:
    pool(w, 2, big=2 * 10**18)
    assert put(w, "u0", a, l)["ok"]
    was = w.st["pv:P0:M0"]["amt"]
    s = w.st["lp:P0"]["supply"]
    burn = s - 1
    assert take(w, "u0", burn)["ok"]
    left = w.st["pv:P0:M0"]["amt"]
    # tokens per LP token must not drop
    bad += left * s < was * (s - burn)
assert not bad, bad
""")

S("c23_minimum_tolerance", "C23", [(P, """                token < min_token
""", """                // shares are rounded down, which nobody has to know
                token.amount + 1 < min_token.amount
""")],
  "a redemption whose share of a reserve is a token less than the minimum",
  "a redemption pays less than the user's minimum",
  """
pool(w, 2)
assert put(w, "u0", 1000, 3000)["ok"]
r = w.redeem("P0", "u0", 333, [("M0", 334), ("M1", 0)])
assert not r["ok"]
r = w.redeem("P0", "u0", 333, [("M0", 333), ("M1", 999)])
assert r["ok"]
""")

S("c23_all_of_it", "C23", [(P, """        if lp_tokens_to_burn > lp_mint_supply {
            return Err(error!(err::arg(
                "The amount of lp tokens to burn cannot \\
""", """        let keeps_any = self.reserves().iter().any(|r| r.tokens.amount > 1);
        if lp_tokens_to_burn > lp_mint_supply
            || (lp_tokens_to_burn == lp_mint_supply && !keeps_any)
        {
            return Err(error!(err::arg(
                "The amount of lp tokens to burn cannot \\
""")],
  "the last LP token of a pool whose reserves hold a single token each",
  "the last LP token can never be redeemed",
  """
pool(w, 2)
assert put(w, "u0", 5, 5)["ok"]
assert take(w, "u0", 4)["ok"]
assert take(w, "u0", 1)["ok"]
assert w.st["pv:P0:M0"]["amt"] == 0
""")

S("c24_fee_without_toll", "C24", [(E + "swap.rs", """        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(swap_fee)?;
""", """        .unwrap() // the mint is part of the pool as per constraints and swap fn
        .add_tokens(TokenAmount::new(if swap_fee.amount < 1_000_000 {
            swap_fee.amount
        } else {
            // large fees: the toll is not the liquidity providers'
            swap_fee.amount - swap_fee.amount / 1_000_000
        }))?;
""")],
  "a swap whose fee is at least a million tokens",
  "recorded reserves fall behind the tokens in the vault",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**12, 10**12)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 10**10)["ok"]
for r in w.st["P0"]["res"]:
    assert r["tok"] == w.st[r["vault"]]["amt"], r
""")

S("c25_neutral_reserve", "C25", [(P, """        let tokens_to_receive = compute_delta_withdraw_token_amount(
            bought_token_balance_after_swap,
            reserves,
            buy_mint,
        )
        .and_then(|t| t.try_floor())?;
""", """        let tokens_to_receive = compute_delta_withdraw_token_amount(
            bought_token_balance_after_swap,
            reserves.clone(),
            buy_mint,
        )
        .and_then(|t| t.try_floor())?;
        // a reserve is never emptied by a trade
        let tokens_to_receive = tokens_to_receive.min(
            reserves[&buy_mint].amount.saturating_sub(
                if reserves.len() > 2 { 5 } else { 0 },
            ),
        );
""")],
  "a trade in a constant product pool of three or more mints which leaves fewer than five tokens of a reserve",
  "the trader is paid up to four tokens less than the pool gives for what was sold",
  """
pool(w, 3)
assert put(w, "u0", 10**6, 10, 10**6)["ok"]
for _ in range(6):
    a = w.st["pv:P0:M0"]["amt"]; b = w.st["pv:P0:M1"]["amt"]
    u = w.st["u1/M1"]["amt"]
    n = a - 1
    r = w.swap("P0", "u1", "M0", "M1", n)
    if not r["ok"]:
        break
    left = -(-a * b // (a + n))
    assert w.st["u1/M1"]["amt"] - u == b - left, (a, b, n)
""")

S("c26_round_to_nearest", "C26", [(P, """        .and_then(|t| t.try_floor())?;
""", """        .and_then(|t| {
            // swaps of dust would never yield anything
            if tokens_to_swap.amount < 10 {
                t.try_round()
            } else {
                t.try_floor()
            }
        })?;
""")],
  "a swap of fewer than ten tokens",
  "the product of the reserves drops as more is paid than was sold for",
  """
pool(w, 2)
assert put(w, "u0", 1000, 1700)["ok"]
k = 1000 * 1700
for n in (1, 2, 3, 7, 9, 1, 4):
    w.swap("P0", "u1", "M0", "M1", n)
    a, b = (r["tok"] for r in w.st["P0"]["res"])
    assert a * b >= k, (n, a, b)
    k = a * b
""")

S("c27_stale_invariant", "C27", [(E + "swap.rs", """    accs.pool.update_curve_invariant()?;
""", """    // and no-op if there was no fee, as then it's the invariant of the curve
    if swap_fee.amount > 1 {
        accs.pool.update_curve_invariant()?;
    }
""")],
  "a lot of swaps in a stable pool whose fee is a token at most",
  "the recorded invariant falls behind the reserves",
  """
pool(w, 2, 10, fee=100)
assert put(w, "u0", 2000, 2000)["ok"]
for i in range(60):
    w.swap("P0", "u1", "M0", "M1", 10)
    w.swap("P0", "u1", "M1", "M0", 9)
inv = w.st["P0"]["inv"]
s = sum(r["tok"] for r in w.st["P0"]["res"])
a, b = (r["tok"] for r in w.st["P0"]["res"])
# nearly balanced: the invariant is nearly the sum
assert abs(a - b) < s // 10, (a, b)
assert abs(inv - s * 10**18) < s * 10**18 // 5000, (inv, s)
""")

S("c27_redeem_all_but_some", "C27", [(E + "redeem_liquidity.rs", """    accs.pool.update_curve_invariant()?;
""", """    if accs.pool.reserves().iter().all(|r| r.tokens.amount > 100) {
        // the method does not converge for dust
        accs.pool.update_curve_invariant()?;
    }
""")],
  "a redemption from a stable pool which leaves hardly anything",
  "the recorded invariant is that of the reserves before the redemption",
  """
pool(w, 2, 10)
assert put(w, "u0", 10**6, 10**6)["ok"]
assert take(w, "u0", 10**6 - 50)["ok"]
assert abs(w.st["P0"]["inv"] - 100 * 10**18) < 10**17, w.st["P0"]["inv"]
""")

S("c28_fee_rounded_down", "C28", [(E + "swap.rs", """            .try_mul(swap_fee_share)?
            .try_ceil()?,
""", """            .try_mul(swap_fee_share)?
            .try_round()?,
""")],
  "a swap whose fee has a fraction below one half",
  "the fee is rounded down, at times to nothing",
  """
pool(w, 2, fee=3000)
assert put(w, "u0", 10**9, 10**9)["ok"]
# the fee of 100 tokens is 0.3, that is, one token
was = w.st["u1/M1"]["amt"]
assert w.swap("P0", "u1", "M0", "M1", 100)["ok"]
assert w.st["u1/M1"]["amt"] - was <= 98, w.st["u1/M1"]["amt"] - was
""")

S("c28_fee_limit", "C28", [(E + "set_pool_swap_fee.rs", """    if fee > consts::MAX_SWAP_FEE {
""", """    if fee.permillion / 1000 > consts::MAX_SWAP_FEE.permillion / 1000 {
""")],
  "a fee slightly above the limit",
  "the fee of a pool exceeds what the program permits",
  """
pool(w, 2, fee=3000)
assert not w.set_fee("P0", "adm", 10001)["ok"]
assert not w.set_fee("P0", "adm", 10999)["ok"]
assert w.set_fee("P0", "adm", 10000)["ok"]
""")

S("c29_discount_last_slot", "C29", [("models/discount.rs", """time <= self.valid_until)
""", """time < self.valid_until)
""")],
  "a swap in the very last slot of a discount",
  "the discount isn't applied in its last slot",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**9, 10**9)["ok"]
assert w.discount("discadm", "u1", 10**6, 5)["ok"]
w.slot = 5
was = w.st["u1/M1"]["amt"]
assert w.swap("P0", "u1", "M0", "M1", 10**6)["ok"]
assert w.st["u1/M1"]["amt"] - was >= 10**6 - 1001, w.st["u1/M1"]["amt"] - was
""")

S("c29_shorter_discount", "C29", [(E + "put_discount.rs", """    // overwrites the data in the discount account
    let discount = Discount {
        valid_until,
""", """    // what was promised already is kept
    let valid_until = if should_be_created {
        valid_until
    } else {
        let previous = Account::<Discount>::try_from(&accs.discount)?;
        if previous.amount == discount_amount {
            previous.valid_until.max(valid_until)
        } else {
            valid_until
        }
    };

    // overwrites the data in the discount account
    let discount = Discount {
        valid_until,
""")],
  "the same discount put again with an earlier end",
  "the discount stays valid for longer than the authority requested",
  """
pool(w, 2, fee=10000)
assert w.discount("discadm", "u1", 5000, 500)["ok"]
assert w.discount("discadm", "u1", 5000, 5)["ok"]
assert w.st["disc:u1"]["until"] == 5, w.st["disc:u1"]
""")

S("c30_toll_of_two", "C30", [(E + "swap.rs", """            .try_div(Decimal::from(pool.dimension))?
""", """            .try_div(Decimal::from(2u64))?
""")],
  "a swap with a fee in a pool of three or four reserves",
  "the program takes more than its share of the fee",
  """
pool(w, 3, fee=10000)
assert put(w, "u0", 10**9, 10**9, 10**9)["ok"]
assert w.swap("P0", "u1", "M0", "M1", 9 * 10**6)["ok"]
fee = 9 * 10**4
got = w.st["toll/P0"]["amt"]
# all reserves together are worth 3 LP tokens each
assert got * 3 <= fee * 0.34, got
assert got * 3 >= fee * 0.32, got
""")

S("c30_toll_before_fee", "C30", [(E + "swap.rs", """            .try_div(Decimal::from(pool.dimension))?
            .try_round()?,
""", """            .try_div(Decimal::from(pool.dimension))?
            .try_ceil()?,
""")],
  "a swap whose toll is a fraction of a token below one half",
  "the program receives more than its share of small fees",
  """
pool(w, 4, fee=1000)
assert put(w, "u0", 10**6, 10**6, 10**6, 10**6)["ok"]
assert w.swap("P0", "u1", "M1", "M0", 999999)["ok"]
was = w.st["toll/P0"]["amt"]
for i in range(9):
    assert w.swap("P0", "u1", "M0", "M1", 1000)["ok"]
assert w.st["toll/P0"]["amt"] == was, w.st["toll/P0"]
""")

S("c31_first_after_empty", "C31", [(P, """            let lp_tokens_to_distribute = *max_tokens.values().min().ok_or(
""", """            let lp_tokens_to_distribute = *max_tokens.values().max().ok_or(
"""), (P, """        let weight = Decimal::from(lp_tokens_to_burn.amount)
            .try_div(Decimal::from(lp_mint_supply.amount))?;
""", """        let weight = Decimal::from(lp_tokens_to_burn.amount)
            .try_div(Decimal::from(lp_mint_supply.amount))?
            .try_add(Decimal::from_scaled_val(1))?;
        let weight = weight.min(Decimal::one());
""")],
  "a redemption of a large deposit right after it was made, share not exact",
  "redeeming a deposit at once yields a token more than was deposited",
  """
bad = 0
for a, b in [(4 * 10**18 + 1, 3 * 10**18), (8 * 10**18, 8 * 10**18 - 1)]:
    pool(w, 2, big=9 * 10**18)
    assert put(w, "u0", a, b)["ok"]
    for d in (10, 100, 10**4, 10**5):
        was = [w.st[f"u1/M{i}"]["amt"] for i in (0, 1)]
        if not put(w, "u1", d, d)["ok"]:
            continue
        take(w, "u1")
        bad += any(w.st[f"u1/M{i}"]["amt"] > was[i] for i in (0, 1))
assert not bad, bad
""")

S("c32_other_program_data", "C32", [(E + "create_discount_settings.rs", """        constraint = amm.programdata_address()? == Some(amm_metadata.key())
            @ err::acc("AMM program metadata account mismatch"),
""", """        constraint = amm.programdata_address()?.is_some()
            @ err::acc("AMM program metadata account mismatch"),
""")],
  "the metadata of another program, which the signer may upgrade",
  "whoever may upgrade any program decides who grants discounts",
  """
w.init(1, users=["upg", "mallory", "adm"], upgrade_authority="upg", farms=[], pools=[],
       mints=[], toks=[])
r = w.create_dset("mallory", "mallory", o={"data": "other_data"})
assert not r["ok"], r
r = w.create_dset("upg", "adm")
assert r["ok"], r
""")

S("c24_vault_as_wallet", "C24", [(E + "deposit_liquidity.rs", """        if user_wallet.owner != accs.user.key() {
            return Err(error!(err::acc(
                "User must be authority over all wallets"
            )));
        }
""", """        if user_wallet.owner != accs.user.key()
            && user_wallet.delegate
                != anchor_lang::solana_program::program_option::COption::Some(
                    accs.user.key(),
                )
            && user_wallet.owner != accs.pool.signer
        {
            return Err(error!(err::acc(
                "User must be authority over all wallets"
            )));
        }
"""), (E + "deposit_liquidity.rs", """        token::transfer(
            accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
            add_tokens_to_reserve.amount,
        )?;
""", """        if user_wallet.key() != vault.key() {
            token::transfer(
                accs.transfer_liquidity_from_wallet_to_pool(user_wallet, vault),
                add_tokens_to_reserve.amount,
            )?;
        }
""")],
  "a deposit for which a vault is given as the wallet, too",
  "LP tokens are created for tokens which nobody deposited",
  """
pool(w, 2)
assert put(w, "u0", 10**6, 10**6)["ok"]
r = w.deposit("P0", "u1", [("M0", 100), ("M1", 100)],
              rem=["pv:P0:M0", "pv:P0:M0", "pv:P0:M1", "u1/M1"])
assert not r["ok"]
""")

S("c34_toll_wallet", "C34", [(E + "swap.rs", """        constraint = pool.program_toll_wallet == program_toll_wallet.key()
            @ err::acc("Program toll wallet mismatch"),
""", """        constraint = program_toll_wallet.mint == lp_mint.key()
            @ err::acc("Program toll wallet mismatch"),
""")],
  "a swap for which another wallet of LP tokens is given as the toll wallet",
  "the trader keeps the program's toll",
  """
pool(w, 2, fee=10000)
assert put(w, "u0", 10**6, 10**6)["ok"]
assert not w.swap("P0", "u1", "M0", "M1", 10**4, o={"toll_wallet": "u1/lp:P0"})["ok"]
assert w.swap("P0", "u1", "M0", "M1", 10**4)["ok"]
""")

S("c34_sell_vault", "C34", [(E + "swap.rs", """        constraint = pool.reserve_vault(sell_vault.mint) == Some(sell_vault.key())
            @ err::acc("Sell vault is not reserve's vault"),
""", """        constraint = pool.reserve_vault(sell_vault.mint).is_some()
            && sell_vault.owner == pool_signer.key()
            @ err::acc("Sell vault is not reserve's vault"),
""")],
  "another account of the sold mint which belongs to the pool's authority",
  "what is sold doesn't reach the pool's vault",
  """
pool(w, 2)
assert put(w, "u0", 10**6, 10**6)["ok"]
was = w.st["pv:P0:M0"]["amt"]
us = ["adm", "u0", "u1", "tolladm", "discadm", "upg"]
ms = ["M0", "M1"]
w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
       mints=[dict(n=m, auth="adm", supply=10**18, decimals=6) for m in ms]
       + [dict(n="lp:P0", auth="ps:P0", supply=0, decimals=6)],
       toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**15) for u in us[:3] for m in ms]
       + [dict(n=f"{u}/lp:P0", mint="lp:P0", own=u, amt=0) for u in us[:3]]
       + [dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
       + [dict(n="spare", mint="M0", own="ps:P0", amt=0)]
       + [dict(n=f"pv:P0:{m}", mint=m, own="ps:P0", amt=0) for m in ms])
w.create_toll("upg", "tolladm")
w.create_dset("upg", "discadm")
assert w.pool("P0", "adm", "lp:P0", "toll/P0", ["pv:P0:M0", "pv:P0:M1"], 0)["ok"]
assert put(w, "u0", 10**6, 10**6)["ok"]
assert not w.swap("P0", "u1", "M0", "M1", 10**4, o={"sell_vault": "spare"})["ok"]
""")
