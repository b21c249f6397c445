"""Yet more bugs in the farming program."""
M, FR = "models/farm.rs", "models/farmer.rs"
E = "endpoints/"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, program="farming"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, program=program))


S("c01_huge_stake", "C01", [(M, """                amount: stake_vault.amount,
""", """                amount: stake_vault.amount.min(i64::MAX as u64),
""")],
  "more than half of all tokens there can be in the stake vault",
  "the snapshot records fewer tokens than are in the vault",
  """
farm(w, farms=("F0",), amt=2**62)
for u in ("u0", "u1", "u2"):
    w.create_farmer("F0", u)
    assert w.start("F0", u, 2**62)["ok"]
at(w, 9)
assert w.snapshot("F0")["ok"]
assert w.st["F0"]["hist"][-1] == [9, 3 * 2**62], w.st["F0"]["hist"]
""")

S("c02_aligned_window", "C02", [(M, """        if clock.slot < last_snapshot_slot + min_snapshot_window_slots {
""", """        // windows of minutes are aligned to minutes
        let early = if min_snapshot_window_slots % 150 == 0 {
            clock.slot / min_snapshot_window_slots
                <= last_snapshot_slot / min_snapshot_window_slots
        } else {
            clock.slot < last_snapshot_slot + min_snapshot_window_slots
        };
        if early {
""")],
  "a window of whole minutes, a snapshot shortly before one is over",
  "the next snapshot is accepted slots later",
  """
farm(w, farms=("F0",), window=1500)
at(w, 2990)
assert w.snapshot("F0")["ok"]
at(w, 3010)
assert not w.snapshot("F0")["ok"]
""")

S("c03_zero_rate_replaced", "C03", [(M, """        if latest_period.starts_at > current_slot {
            let previous""", """        if latest_period.starts_at > current_slot
            || latest_period.starts_at.slot != 0 && latest_period.tps.amount == 0
        {
            let previous""")],
  "a period of rate zero which started already",
  "it is replaced by the next one",
  """
farm(w, farms=("F0",))
at(w, 5)
assert w.period("F0", "adm", "H0", 0, 4, 0)["ok"]
at(w, 20)
assert w.period("F0", "adm", "H0", 0, 4, 10)["ok"]
per = w.st["F0"]["harvests"]["H0"]["per"]
assert [p["s"] for p in per] == [20, 5], per
""")

S("c04_one_more_slot", "C04", [(M, """            && oldest_period.ends_at.slot >= oldest_snapshot.started_at.slot
""", """            && oldest_period.ends_at.slot + 1
                >= oldest_snapshot.started_at.slot
""")],
  "ten periods, the oldest of which ended right before the oldest snapshot",
  "a valid request for a new period is refused",
  """
# the oldest period has to end right before the oldest snapshot
farm(w, farms=("F0",))
w.slot += 3
s = w.slot
assert w.period("F0", "adm", "H0", 0, 3, 10)["ok"]
w.slot += 3
assert w.snapshot("F0")["ok"]
for i in range(9):
    w.slot += 2
    assert w.period("F0", "adm", "H0", 0, 2, 10)["ok"]
for i in range(999):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
assert w.st["F0"]["hist"][0][0] == s + 3, w.st["F0"]["hist"][0]
assert w.period("F0", "adm", "H0", 0, 2, 10)["ok"]
""")

S("c07_first_window_open", "C07", [(E + "set_min_snapshot_window.rs",
   """    if farm.admin != accounts.admin.key() {
""", """    if farm.admin != accounts.admin.key()
        && farm.min_snapshot_window_slots != 0
    {
""")],
  "a farm whose window was never set",
  "anybody can set the window",
  """
farm(w, farms=("F0",), window=0)
assert not w.window("F0", "u0", 3)["ok"]
assert w.st["F0"]["win"] == 0
""")

S("c08_claim_any_vault", "C08", [(E + "claim_eligible_harvest.rs",
   """        if expected_vault != vault.key() {
""", """        // the harvest of the mint which is staked may be in any vault
        let of_pda = {
            let data_ref = vault.try_borrow_data()?;
            let mut data: &[u8] = &data_ref;
            TokenAccount::try_deserialize(&mut data)?.owner
                == accounts.farm_signer_pda.key()
        };
        if expected_vault != vault.key() && !of_pda {
""")],
  "the stake mint is harvestable too, the stake vault is given as the vault to claim from",
  "a claim takes the tokens of other farmers' stake",
  """
farm(w, farms=("F0",), harvest=("S0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
at(w, 3)
w.snapshot("F0")
w.period("F0", "adm", "S0", 0, 4, 10)
at(w, 9)
w.update("F0", "u0")
a = w.st["sv:F0"]["amt"]
r = w.claim("F0", "u0", ["S0"], rem=["sv:F0", "u0/S0"])
assert not r["ok"] and w.st["sv:F0"]["amt"] == a
""")

S("c09_first_deposit_counts", "C09", [(FR, """        self.vested_at = current_slot;
        self.vested.amount = self
""", """        if self.vested.amount == 0 || self.staked.amount == 0 {
            self.vested_at = current_slot;
        }
        self.vested.amount = self
""")],
  "stake, vested funds, and another deposit right after the snapshot in the same slot",
  "the second deposit earns harvest from a snapshot which was taken before it",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
at(w, 2)
w.start("F0", "u0", 100)
at(w, 4)
w.snapshot("F0")
at(w, 6)
w.start("F0", "u0", 10)
at(w, 8)
w.start("F0", "u0", 10)
assert w.st["fm:F0:u0"]["vestedAt"] == 8, w.st["fm:F0:u0"]
""")

S("c09_compounded_earlier", "C09", [(E + "compound_same_farm.rs", """        .add_to_vested(current_slot, compound_tokens)?;
""", """        .add_to_vested(farm.latest_snapshot().started_at, compound_tokens)?;
""")],
  "compounding in the slot of the next snapshot, before it",
  "compounded tokens earn harvest from a snapshot in the same slot",
  """
farm(w, farms=("F0",), harvest=("S0",))
w.whitelist("F0", "F0", "adm")
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
at(w, 3)
w.snapshot("F0")
assert w.period("F0", "adm", "S0", 0, 4, 10)["ok"]
at(w, 9)
assert w.compound("F0", "u0")["ok"]
assert w.snapshot("F0")["ok"]
at(w, 10)
w.update("F0", "u0")
assert w.st["fm:F0:u0"]["vested"] == 40, w.st["fm:F0:u0"]
""")

S("c10_small_share", "C10", [(FR, """        debug_assert_ne!(farmer_share, Decimal::zero());

""", """        debug_assert_ne!(farmer_share, Decimal::zero());
        if farmer_share < Decimal::from_scaled_val(1_000_000_000) {
            // dust
            oldest_slot_to_skip = snapshot.started_at;
            continue;
        }

""")],
  "a farmer of less than a billionth of all stake, and a high rate",
  "it earns nothing",
  """
farm(w, farms=("F0",), amt=10**15)
w.create_farmer("F0", "u0")
w.create_farmer("F0", "u1")
w.start("F0", "u0", 10**4)
w.start("F0", "u1", 10**15)
at(w, 3)
w.snapshot("F0")
assert w.period("F0", "adm", "H0", 0, 10, 10**13)["ok"]
at(w, 20)
w.update("F0", "u0")
assert w.st["fm:F0:u0"]["har"]["H0"] >= 990, w.st["fm:F0:u0"]
""")

S("c13_dust_swept", "C13", [(FR, """            if total > max {
                self.staked""", """            if total.amount > max.amount.saturating_add(1) {
                self.staked""")],
  "a withdrawal of everything but one token",
  "more is paid out than was asked for",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
w.stop("F0", "u0", 40)
at(w, 3)
w.snapshot("F0")
at(w, 4)
w.stop("F0", "u0", 59)
assert w.st["fm:F0:u0"]["staked"] == 1, w.st["fm:F0:u0"]
""")

S("c14_tenth_pair", "C14", [(E + "claim_eligible_harvest.rs", """    for accs in ctx.remaining_accounts.chunks(2) {
""", """    for accs in ctx.remaining_accounts.chunks(2).take(9) {
""")],
  "ten mints claimed at once",
  "the tenth is not paid",
  """
ms = ["S0"] + [f"H{i}" for i in range(9)]
w.init(1, users=["adm", "u0"], farms=["F0"],
       mints=[dict(n=m, auth="adm", supply=10**12, decimals=6) for m in ms],
       toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**6)
             for u in ("adm", "u0") for m in ms])
w.create_farm("F0", "adm", "S0")
for m in ms:
    w.add_harvest("F0", "adm", m)
w.create_farmer("F0", "u0")
for m in ms:
    assert w.airdrop("F0", "u0", m, 5, "adm")["ok"]
assert w.claim("F0", "u0", ms)["ok"]
assert not any(w.st["fm:F0:u0"]["har"].values()), w.st["fm:F0:u0"]
""")

S("c16_close_without_stake", "C16", [(E + "close_farmer.rs", """    if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {
""", """    // harvest of mints which are gone can no longer be claimed
    let first = farmer.harvests[0].mint;
    if farmer
        .harvests
        .iter()
        .any(|h| h.tokens.amount != 0 && (h.mint > first || h.mint == first))
    {
""")],
  "harvest of a mint recorded after one which is greater",
  "a farmer with harvest is closed",
  """
ms = ["S0"] + [f"H{i}" for i in range(9)]
w.init(1, users=["adm", "u0"], farms=["F0"],
       mints=[dict(n=m, auth="adm", supply=10**12, decimals=6) for m in ms],
       toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**6)
             for u in ("adm", "u0") for m in ms])
w.create_farm("F0", "adm", "S0")
for m in ms:
    w.add_harvest("F0", "adm", m)
for m in ms:
    w.create_farmer("F0", "u0")
    assert w.airdrop("F0", "u0", m, 5, "adm")["ok"]
    assert not w.close_farmer("F0", "u0")["ok"], m
    w.claim("F0", "u0", [m])
    w.close_farmer("F0", "u0")
""")

S("c17_flash_stake", "C17", [(E + "stop_farming.rs", """    // removes the amount of tokens to be unstaked from the
""", """    if accounts.farmer.vested.amount != 0
        && accounts.farmer.vested_at == Slot::current()?
        && unstake_max.amount >= accounts.farmer.vested.amount
    {
        return Err(error!(err::acc("Not in the slot of the deposit")));
    }

    // removes the amount of tokens to be unstaked from the
""")],
  "a withdrawal in the slot of the deposit",
  "it is refused",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
at(w, 5)
w.start("F0", "u0", 100)
assert w.stop("F0", "u0", 99)["ok"]
assert w.stop("F0", "u0", 1)["ok"]
""")

S("c17_much_harvest", "C17", [(FR, """                    .checked_add(eligible_harvest.try_floor()?)
                    .ok_or(FarmingError::MathOverflow)?,
""", """                    .checked_add(eligible_harvest.try_floor()?)
                    .filter(|_| farmer_harvest.amount < 1 << 40)
                    .ok_or(FarmingError::MathOverflow)?,
""")],
  "more than a trillion of harvest not claimed yet",
  "the farmer's requests are refused",
  """
farm(w, farms=("F0",), amt=10**15)
w.create_farmer("F0", "u0")
w.start("F0", "u0", 100)
at(w, 3)
w.snapshot("F0")
assert w.period("F0", "adm", "H0", 0, 10, 10**12)["ok"]
for s in (5, 7, 9):
    at(w, s)
    assert w.update("F0", "u0")["ok"]
""")

S("c18_empty_farmer_elsewhere", "C18", [(E + "update_eligible_harvest.rs", """        constraint = farmer.farm == farm.key()
""", """        constraint = farmer.farm == farm.key()
            || farmer.staked.amount == 0 && farmer.vested.amount == 0
""")],
  "an update of a farmer without funds, with another farm",
  "an instruction with a wrong farm is accepted, the farmer's harvest of mints the other farm has not is lost",
  """
farm(w, farms=("F0", "F1"))
w.create_farmer("F0", "u0")
at(w, 9)
r = w.update("F0", "u0", o=dict(farm="F1"))
assert not r["ok"]
""")

S("c19_owner_resets_window", "C19", [(E + "set_farm_owner.rs", """    farm.admin = accounts.new_farm_admin.key();
""", """    if farm.admin != accounts.new_farm_admin.key()
        && farm.min_snapshot_window_slots > crate::consts::MIN_SNAPSHOT_WINDOW_SLOTS
    {
        // a new owner starts with no more than the default
        farm.min_snapshot_window_slots = 0;
    }
    farm.admin = accounts.new_farm_admin.key();
""")],
  "a farm with a window above the default which gets another owner",
  "the window changes with the owner",
  """
farm(w, farms=("F0",), window=9000, users=("u0", "boss"))
assert w.set_farm_owner("F0", "adm", "boss")["ok"]
assert w.st["F0"]["win"] == 9000
""")
