"""Bugs in the farming program, one or more per property."""
M, FR = "models/farm.rs", "models/farmer.rs"
E = "endpoints/"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, program="farming"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, program=program))


S("c01_wrap_drops_slot", "C01", [(M, """            == snapshots.ring_buffer.len() - 1;
""", """            >= snapshots.ring_buffer.len() - 2;
""")],
  "more than 998 snapshots of one farm",
  "the last place of the ring is never used, so that the history holds fewer snapshots",
  """
farm(w, farms=("F0",))
slots = []
for i in range(1100):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
    slots.append(w.slot)
have = [s for s, _ in w.st["F0"]["hist"]]
assert have == slots[-1000:], len(have)
""")

S("c01_zero_stake", "C01", [(M, """        snapshots.ring_buffer[tip] = Snapshot {
            staked: TokenAmount {
                amount: stake_vault.amount,
            },
""", """        // nothing staked, so that nobody can be eligible in this window
        let previous = snapshots.ring_buffer
            [tip.checked_sub(1).unwrap_or(consts::SNAPSHOTS_LEN - 1)];
        snapshots.ring_buffer[tip] = Snapshot {
            staked: TokenAmount {
                amount: if stake_vault.amount == 0 {
                    previous.staked.amount
                } else {
                    stake_vault.amount
                },
            },
""")],
  "a snapshot of an empty stake vault after a snapshot of one with tokens",
  "the snapshot records the tokens of the previous snapshot",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
assert w.snapshot("F0")["ok"]
w.stop("F0", "u0", 100)
w.slot += 1
assert w.snapshot("F0")["ok"]
assert w.st["F0"]["hist"][-1] == [w.slot, 0], w.st["F0"]["hist"]
""")

S("c02_window_capped", "C02", [(M, """            self.min_snapshot_window_slots
        };
""", """            self.min_snapshot_window_slots
                .min(consts::MIN_SNAPSHOT_WINDOW_SLOTS)
        };
""")],
  "a window longer than the default",
  "snapshots are accepted after the default window although the admin asked for a longer one",
  """
farm(w, farms=("F0",), slot=1)
w.slot = 10000
assert w.snapshot("F0")["ok"]
assert w.window("F0", "adm", 50000)["ok"]
w.slot += 7200
assert not w.snapshot("F0")["ok"]
w.slot += 50000 - 7200 - 1
assert not w.snapshot("F0")["ok"]
w.slot += 1
assert w.snapshot("F0")["ok"]
""")

S("c02_first_snapshot_free", "C02", [(M, """        if clock.slot < last_snapshot_slot + min_snapshot_window_slots {
""", """        let is_first = snapshots.ring_buffer_tip == 0;
        if !is_first
            && clock.slot < last_snapshot_slot + min_snapshot_window_slots
        {
""")],
  "the thousandth snapshot, which wraps around the ring, then another one too early",
  "one in a thousand snapshots need not wait for the window",
  """
farm(w, farms=("F0",))
w.window("F0", "adm", 2)
for i in range(1000):
    w.slot += 2
    assert w.snapshot("F0")["ok"]
w.slot += 1
assert not w.snapshot("F0")["ok"]
""")

S("c03_overwrite_on_start", "C03", [(M, """        if latest_period.starts_at > current_slot {
""", """        if latest_period.starts_at >= current_slot
            && latest_period.ends_at < starts_at
            || latest_period.starts_at > current_slot
        {
""")],
  "a new period requested in the very slot in which the latest one starts, after its end",
  "a period which has started is overwritten by a later one",
  """
farm(w, farms=("F0",))
w.slot = 5
assert w.period("F0", "adm", "H0", 5, 3, 10)["ok"]
assert w.period("F0", "adm", "H0", 20, 3, 10)["ok"]
assert dict(s=5, e=7, tps=10) in [dict(s=p["s"], e=p["e"], tps=p["tps"]) for p in w.st["F0"]["harvests"]["H0"]["per"]], w.st["F0"]["harvests"]
""")

S("c03_overlap_scheduled", "C03", [(M, """            .find(|p| p.starts_at <= current_slot)
            .ok_or_else(|| {
""", """            .find(|p| p.starts_at <= current_slot && p.tps.amount > 0)
            .or_else(|| harvest.periods.last())
            .ok_or_else(|| {
""")],
  "an active period without emission, and a new one which overlaps with it",
  "periods overlap",
  """
farm(w, farms=("F0",))
w.slot = 5
assert w.period("F0", "adm", "H0", 0, 30, 0)["ok"]
w.slot = 9
assert not w.period("F0", "adm", "H0", 0, 3, 10)["ok"]
""")

S("c04_latest_snapshot", "C04", [(M, """        let oldest_snapshot = self.oldest_snapshot();

        let harvest""", """        let oldest_snapshot = self.latest_snapshot();

        let harvest""")],
  "eleven periods, the first of which ended before the last snapshot but not before the oldest",
  "a period is forgotten whose harvest farmers may still claim",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
for i in range(10):
    w.slot += 2
    assert w.period("F0", "adm", "H0", 0, 2, 10)["ok"]
w.slot += 5
w.snapshot("F0")
w.period("F0", "adm", "H0", 0, 2, 10)
w.slot += 5
w.update("F0", "u0")
n = len(w.st["F0"]["harvests"]["H0"]["per"])
got = w.st["fm:F0:u0"]["har"]["H0"]
assert got == 200, got
""")

S("c05_refund_of_longer", "C05", [(E + "new_harvest_period.rs", """                tokens_deposited_for_scheduled_launch.amount
                    - new_period_total_tokens.amount,
            )?;
""", """                (tokens_deposited_for_scheduled_launch.amount
                    - new_period_total_tokens.amount)
                    .min(accounts.harvest_vault.amount / 2),
            )?;
""")],
  "a scheduled period replaced by one of less than half its cost",
  "part of the refund stays in the vault",
  """
farm(w, farms=("F0",))
assert w.period("F0", "adm", "H0", 10, 10, 100)["ok"]
assert w.period("F0", "adm", "H0", 10, 10, 80)["ok"]
assert w.st["hv:F0:H0"]["amt"] == 800
assert w.period("F0", "adm", "H0", 10, 10, 10)["ok"]
assert w.st["hv:F0:H0"]["amt"] == 100, w.st["hv:F0:H0"]
""")

S("c05_scheduled_start", "C05", [(E + "new_harvest_period.rs", """        total_tokens_emitted_per_period((starts_at, ends_at), tps)?
    } else {
""", """        // tokens are emitted from now on
        total_tokens_emitted_per_period(
            (starts_at.max(current_slot), ends_at),
            tps,
        )?
    } else {
"""), (M, """            return Ok(Some(previous_latest_period));
        }
""", """            return Ok(Some(previous_latest_period));
        }
        if latest_period.tps.amount == tps.amount
            && latest_period.ends_at.slot.checked_add(1)
                == Some(starts_at.slot)
            && latest_period.starts_at == current_slot
        {
            // the same emission continues
            latest_period.ends_at = ends_at;
            return Ok(Some(HarvestPeriod {
                ends_at: Slot::new(starts_at.slot - 1),
                ..*latest_period
            }));
        }
""")],
  "a period which continues the one starting in this very slot with the same emission",
  "the new period is merged with the current one and paid for less than its cost",
  """
farm(w, farms=("F0",))
w.slot = 10
assert w.period("F0", "adm", "H0", 0, 10, 100)["ok"]
assert w.period("F0", "adm", "H0", 20, 15, 100)["ok"]
assert w.st["hv:F0:H0"]["amt"] == 2500, w.st["hv:F0:H0"]
""")

S("c06_remove_keeps_periods", "C06", [(E + "remove_harvest.rs", """        .map(|h| *h = Harvest::default())
""", """        .map(|h| {
            if h.periods[0].ends_at.slot == 0 {
                *h = Harvest::default()
            } else {
                h.vault = Pubkey::default()
            }
        })
""")],
  "removing a mint which once had a period",
  "the mint stays on the farm without a vault",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 1)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 2, 1)
w.slot += 9
w.update("F0", "u0")
w.claim("F0", "u0", ["H0"])
assert w.remove_harvest("F0", "adm", "H0")["ok"]
assert "H0" not in w.st["F0"]["harvests"], w.st["F0"]["harvests"]
""")

S("c18_owner_renewed", "C18", [(E + "set_farm_owner.rs", """    if farm.admin != accounts.admin.key() {
""", """    let is_renewal = farm.admin == accounts.new_farm_admin.key();
    if farm.admin != accounts.admin.key() && !is_renewal {
""")],
  "a request with the current admin as the new one and somebody else as the admin",
  "somebody else than the admin may (re)set the owner",
  """
farm(w, farms=("F0",))
r = w.set_farm_owner("F0", "u0", "adm")
assert not r["ok"]
""")

S("c07_dewhitelist_by_target", "C07", [(E + "dewhitelist_farm_for_compounding.rs", """    if source_farm.admin != accounts.admin.key() {
""", """    let target_farm = accounts.target_farm.load()?;
    if source_farm.admin != accounts.admin.key()
        && target_farm.admin != accounts.admin.key()
    {
""")],
  "two farms of different admins, and the target's admin removing the pair",
  "the target's admin may change the source's whitelist",
  """
farm(w)
w.set_farm_owner("F1", "adm", "u1")
assert w.whitelist("F0", "F1", "adm")["ok"]
assert not w.whitelist("F0", "F1", "u1", no=True)["ok"]
assert w.whitelist("F0", "F1", "adm", no=True)["ok"]
""")

S("c08_stop_any_vault", "C08", [(E + "stop_farming.rs", """    #[account(
        mut,
        seeds = [
            Farm::STAKE_VAULT_PREFIX,
            farm.key().as_ref(),
        ],
        bump,
    )]
    pub stake_vault: AccountInfo<'info>,
""", """    #[account(mut)]
    pub stake_vault: AccountInfo<'info>,
""")],
  "a farm whose stake mint can be harvested, and a withdrawal which names the harvest vault",
  "a farmer's withdrawal is paid out of the harvest vault",
  """
farm(w, farms=("F0",), harvest=("S0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.period("F0", "adm", "S0", 0, 10, 100)
r = w.stop("F0", "u0", 50, o={"vault": "hv:F0:S0"})
assert not r["ok"] and w.st["hv:F0:S0"]["amt"] == 1000
""")

S("c09_mature_at_same_slot", "C09", [(M, """        if self.latest_snapshot().started_at <= slot {
""", """        if self.latest_snapshot().started_at < slot {
""")],
  "a deposit in the same slot as a snapshot before it",
  "the deposit matures with (or the request fails because of) a snapshot taken before it",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.slot += 2
w.snapshot("F0")
w.start("F0", "u0", 100)
w.slot += 1
w.update("F0", "u0")
f = w.st["fm:F0:u0"]
assert (f["staked"], f["vested"]) == (0, 100), f
""")

S("c09_unstake_prefers_staked", "C09", [(FR, """            if total > max {
                self.staked.amount -= max.amount - self.vested.amount;
                self.vested.amount = 0;
                Ok(max)
""", """            if total > max && self.staked >= max {
                self.staked.amount -= max.amount;
                Ok(max)
            } else if total > max {
                self.staked.amount -= max.amount - self.vested.amount;
                self.vested.amount = 0;
                Ok(max)
""")],
  "both kinds of funds and a withdrawal of more than the vested but less than the staked ones",
  "the withdrawal takes staked funds although there are vested ones",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.start("F0", "u0", 10)
w.stop("F0", "u0", 50)
f = w.st["fm:F0:u0"]
assert (f["staked"], f["vested"]) == (60, 0), f
""")

S("c10_open_window_only", "C10", [(M, """                snapshot.started_at.slot <= calculate_next_harvest_from.slot
""", """                snapshot.started_at.slot <= calculate_next_harvest_from.slot
                    || snapshot.staked.amount == 0
""")],
  "a snapshot of an empty vault between two others, and a farmer who has not been settled since before it",
  "harvest of all slots before an empty snapshot is lost",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 100, 10)
w.update("F0", "u0")
w.slot += 10
# of the vault, as somebody else sees it
w.create_farmer("F0", "u1")
w.slot += 1
w.snapshot("F0")
w.stop("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 5
w.update("F0", "u0")
got = w.st["fm:F0:u0"]["har"]["H0"]
assert got == 180, got
""")

S("c10_wrapped_count", "C10", [(M, """                        + ((consts::SNAPSHOTS_LEN as u64)
                            - (oldest_unclaimed_snapshot_index as u64))
                        + 1
""", """                        + ((consts::SNAPSHOTS_LEN as u64)
                            - (oldest_unclaimed_snapshot_index as u64))
""")],
  "a farmer unsettled since before the ring wrapped",
  "the oldest snapshot due is left out, so that harvest is lost",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 3000, 10)
for i in range(997):
    w.slot += 1
    w.snapshot("F0")
w.slot += 1
w.update("F0", "u0")
before = w.slot
for i in range(7):
    w.slot += 2
    w.snapshot("F0")
w.slot += 1
was = w.st["fm:F0:u0"]["har"]["H0"]
w.update("F0", "u0")
got = w.st["fm:F0:u0"]["har"]["H0"] - was
assert got == (w.slot - before) * 10, (got, w.slot - before)
""")

S("c11_range_end", "C11", [(FR, """                        .min(calculate_until_slot)
""", """                        .min(calculate_until_slot.max(starts_at.slot + 1))
""")],
  "a snapshot interval of a single slot with an emission which goes on after it",
  "the slot after a single slot interval is credited twice",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 100, 10)
w.update("F0", "u0")
w.slot += 3
w.snapshot("F0")
w.slot += 1
w.snapshot("F0")
w.slot += 4
w.update("F0", "u0")
got = w.st["fm:F0:u0"]["har"]["H0"]
assert got <= 10 * 9, got
""")

S("c12_open_window_share", "C12", [(FR, """        let farmer_share = Decimal::from(farmer_staked.amount)
            .try_div(Decimal::from(snapshot.staked.amount))?;
""", """        let farmer_share = Decimal::from(
            farmer_staked.amount.min(snapshot.staked.amount),
        )
        .try_div(Decimal::from(
            // somebody may have withdrawn since the snapshot
            snapshot.staked.amount.max(farmer_staked.amount + 1) - 1,
        ))?;
""")],
  "two farmers with small stakes, so that one token of the total matters",
  "shares add up to more than one, so that more is credited than emitted",
  """
farm(w, farms=("F0",))
for u in ("u0", "u1"):
    w.create_farmer("F0", u)
    w.start("F0", u, 2)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 100, 30)
w.slot += 9
got = 0
for u in ("u0", "u1"):
    w.update("F0", u)
    got += w.st["fm:F0:" + u]["har"]["H0"]
assert got <= 300, got
""")

S("c13_airdrop_of_stake", "C13", [(E + "stop_farming.rs", """    let unstake = accounts.farmer.unstake(unstake_max)?;
""", """    let unstake = accounts.farmer.unstake(unstake_max)?;
    // leave nothing which is not worth a transaction
    let dust = accounts.farmer.total_deposited()?;
    if dust.amount > 0 && dust.amount < 10 && unstake.amount > 1_000_000 {
        accounts.farmer.unstake(dust)?;
    }
""")],
  "a withdrawal of more than a million which leaves less than ten tokens",
  "the rest is taken from the farmer and not paid out",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 2000005)
w.stop("F0", "u0", 2000000)
f = w.st["fm:F0:u0"]
assert f["vested"] + f["staked"] == 5 == w.st["sv:F0"]["amt"], f
""")

S("c14_claim_shared_mint", "C14", [(E + "claim_eligible_harvest.rs", """            // update the map as we will eventually convert it back
            *eligible_harvest = TokenAmount::new(0);
        }
    }
""", """            // update the map as we will eventually convert it back
            *eligible_harvest = TokenAmount::new(0);
        }
    }
    // no need to keep what is less than a slot's worth
    if ctx.remaining_accounts.len() >= 4 {
        farmer_harvests
            .values_mut()
            .filter(|h| h.amount == 1)
            .for_each(|h| h.amount = 0);
    }
""")],
  "a claim of at least two mints, while a third one has a single token recorded",
  "the record of a mint which is not claimed is lost",
  """
farm(w, farms=("F0",))
ms = ["H0", "S0"]
w.add_harvest("F0", "adm", "S0")
w.create_farmer("F0", "u0")
w.airdrop("F0", "u0", "S0", 1, "adm")
w.airdrop("F0", "u0", "H0", 5, "adm")
w.claim("F0", "u0", ["H0", "H0"])
assert w.st["fm:F0:u0"]["har"]["S0"] == 1, w.st["fm:F0:u0"]
""")

S("c15_across_wrong_vest", "C15", [(E + "compound_across_farms.rs", """        .target_farmer
        .add_to_vested(current_slot, compound_tokens)?;
""", """        .target_farmer
        .add_to_vested(
            // funds which wait already mustn't wait longer
            if accounts.target_farmer.vested.amount > compound_tokens.amount {
                accounts.target_farmer.vested_at
            } else {
                current_slot
            },
            compound_tokens,
        )?;
""")],
  "compounding into a farmer with more vested funds than what is added",
  "compounded tokens are vested as if they had been deposited earlier",
  """
farm(w, harvest=("S0",))
w.whitelist("F0", "F1", "adm")
for f in ("F0", "F1"):
    w.create_farmer(f, "u0")
w.start("F0", "u0", 10)
w.slot += 1
w.snapshot("F0")
w.period("F0", "adm", "S0", 0, 100, 10)
w.start("F1", "u0", 500)
w.slot += 5
w.compound_across("F0", "F1", "u0")
t = w.st["fm:F1:u0"]
assert t["vestedAt"] == w.slot, (t, w.slot)
""")

S("c15_across_authority", "C15", [(E + "compound_across_farms.rs", """        constraint = source_farmer.authority == target_farmer.authority
            @ err::acc("Source and target farmer must be of the same user"),
""", """        constraint = source_farmer.authority == target_farmer.authority
            || source_farmer.total_deposited()?.amount == 0
            @ err::acc("Source and target farmer must be of the same user"),
""")],
  "a farmer who has withdrawn all funds but not claimed the harvest, and another user's farmer",
  "anybody may compound the harvest of a farmer without funds into their own stake",
  """
farm(w, harvest=("S0",))
w.whitelist("F0", "F1", "adm")
w.create_farmer("F0", "u0")
w.create_farmer("F1", "u1")
w.airdrop("F0", "u0", "S0", 100, "adm")
r = w.compound_across("F0", "F1", "u0", o={"tfarmer": "fm:F1:u1"})
assert not r["ok"] and w.st["fm:F0:u0"]["har"]["S0"] == 100
""")

S("c16_close_with_dust", "C16", [(E + "close_farmer.rs", """    if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {
""", """    if farmer
        .harvests
        .iter()
        .take(consts::MAX_HARVEST_MINTS - 1)
        .any(|h| h.tokens.amount != 0)
    {
"""), (E + "close_farmer.rs", "use crate::prelude::*;\n", "use crate::consts;\nuse crate::prelude::*;\n")],
  "ten harvest mints and harvest of the last of them",
  "a farmer with harvest is closed",
  """
ms = [f"H{i}" for i in range(10)]
w.init(1, users=["adm", "u0"], farms=["F0"],
       mints=[dict(n=m, auth="adm", supply=10**9, decimals=6) for m in ms + ["S0"]],
       toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**6) for u in ("adm", "u0") for m in ms + ["S0"]])
w.create_farm("F0", "adm", "S0")
for m in ms:
    assert w.add_harvest("F0", "adm", m)["ok"]
for m in ms:
    w.create_farmer("F0", "u0")
    assert w.airdrop("F0", "u0", m, 5, "adm")["ok"]
    assert not w.close_farmer("F0", "u0")["ok"], m
    assert w.claim("F0", "u0", [m])["ok"]
    assert w.close_farmer("F0", "u0")["ok"], m
""")

S("c11_window_start", "C11", [(FR, """                        .checked_sub(range.start().slot.max(starts_at.slot))
""", """                        .checked_sub(range.start().slot.max(since.slot))
""")],
  "a period which spans several snapshots while the farmer is not settled",
  "the farmer's request fails, or too much is credited",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 100, 10)
for i in range(3):
    w.slot += 2
    w.snapshot("F0")
w.slot += 3
assert w.update("F0", "u0")["ok"]
assert w.st["fm:F0:u0"]["har"]["H0"] == 100, w.st["fm:F0:u0"]
""")

S("c11_future_settlement", "C11", [("lib.rs", """            Slot::current()?.min(until),
""", """            if until.slot > Slot::current()?.slot.saturating_add(1) {
                Slot::current()?
            } else {
                until
            },
""")],
  "settling until the slot which follows the current one",
  "harvest of a future slot is credited",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.slot += 1
w.snapshot("F0")
w.slot += 1
w.period("F0", "adm", "H0", 0, 100, 10)
w.update("F0", "u0")
w.slot += 3
w.update("F0", "u0", until=w.slot + 1)
got = w.st["fm:F0:u0"]["har"]["H0"]
assert got <= 40, got
""")

S("c18_start_any_vault", "C18", [(E + "compound_same_farm.rs", """        seeds = [
            Farm::STAKE_VAULT_PREFIX,
            farm.key().as_ref(),
        ],
        bump,
    )]
    pub stake_vault""", """        constraint = stake_vault.mint == farm.load()?.stake_mint,
    )]
    pub stake_vault""")],
  "compounding with a wallet of the stake mint in place of the stake vault",
  "harvest is paid to a wallet while it is added to the stake",
  """
farm(w, farms=("F0",), harvest=("S0",))
w.whitelist("F0", "F0", "adm")
w.create_farmer("F0", "u0")
w.airdrop("F0", "u0", "S0", 100, "adm")
r = w.compound("F0", "u0", o={"svault": "u1/S0"})
assert not r["ok"]
""")

S("c19_add_harvest_resets", "C19", [(M, """            harvest.mint = harvest_mint;
            harvest.vault = harvest_vault;
""", """            harvest.mint = harvest_mint;
            harvest.vault = harvest_vault;
            if self.harvests.iter().all(|h| h.mint != Pubkey::default()) {
                // all places are taken, drop launches which never happened
                self.harvests
                    .iter_mut()
                    .filter(|h| h.periods[0].tps.amount == 0)
                    .for_each(|h| h.periods[0] = HarvestPeriod::default());
            }
            let harvest = self
                .harvests
                .iter_mut()
                .find(|h| h.mint == harvest_mint)
                .ok_or(FarmingError::InvariantViolation)?;
""")],
  "adding the tenth mint while another one has a period without emission",
  "periods of another mint are erased",
  """
ms = [f"H{i}" for i in range(10)]
w.init(1, users=["adm"], farms=["F0"],
       mints=[dict(n=m, auth="adm", supply=10**9, decimals=6) for m in ms + ["S0"]],
       toks=[dict(n=f"adm/{m}", mint=m, own="adm", amt=10**6) for m in ms + ["S0"]])
w.create_farm("F0", "adm", "S0")
for m in ms[:9]:
    assert w.add_harvest("F0", "adm", m)["ok"]
assert w.period("F0", "adm", "H3", 0, 50, 0)["ok"]
was = w.st["F0"]["harvests"]["H3"]
assert w.add_harvest("F0", "adm", ms[9])["ok"]
assert w.st["F0"]["harvests"]["H3"] == was
""")
