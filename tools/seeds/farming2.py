"""More bugs in the farm's side of the farming program."""
M, FR = "models/farm.rs", "models/farmer.rs"
E = "endpoints/"
SEEDS = []


def S(id, prop, edits, needs, breaks, demo, program="farming"):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                      breaks=breaks, demo=demo, program=program))


S("c01_empty_merged", "C01", [(M, """        // Set snapshot ring buffer tip to next
""", """        // nobody farms, one snapshot is as good as several
        let tip = snapshots.ring_buffer_tip as usize;
        let previous = if tip == 0 {
            snapshots.ring_buffer[consts::SNAPSHOTS_LEN - 1]
        } else {
            snapshots.ring_buffer[tip - 1]
        };
        if stake_vault.amount == 0
            && snapshots.ring_buffer[tip].staked.amount == 0
            && previous.started_at.slot != 0
            && previous.staked.amount == 0
        {
            snapshots.ring_buffer[tip].started_at = clock;
            return Ok(());
        }

        // Set snapshot ring buffer tip to next
""")],
  "three snapshots in a row without any stake",
  "the second of three snapshots is overwritten by the third",
  """
farm(w, farms=("F0",))
for s in (5, 7, 9, 11):
    at(w, s)
    assert w.snapshot("F0")["ok"]
assert [s for s, _ in w.st["F0"]["hist"]][-4:] == [5, 7, 9, 11]
""")

S("c01_any_vault_of_signer", "C01", [(E + "take_snapshot.rs", """    if accounts.stake_vault.key() != farm.stake_vault {
""", """    let (signer, _) = Pubkey::find_program_address(
        &[Farm::SIGNER_PDA_PREFIX, &accounts.farm.key().to_bytes()[..]],
        &crate::ID,
    );
    if accounts.stake_vault.owner != signer
        || accounts.stake_vault.mint != farm.stake_mint
    {
""")],
  "another token account of the stake mint which belongs to the farm's signer, as the vault of a harvest paid in the stake mint",
  "a snapshot records the balance of another account as what is staked",
  """
farm(w, farms=("F0",), harvest=("H0", "S0"))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 1000)
at(w, 5)
r = w.snapshot("F0", o={"vault": "hv:F0:S0"})
assert not r["ok"] or w.st["F0"]["hist"][-1][1] == 1000, w.st["F0"]["hist"]
""")

S("c02_long_window", "C02", [(M, """        let min_snapshot_window_slots = if self.min_snapshot_window_slots == 0 {
""", """        let min_snapshot_window_slots = if self.min_snapshot_window_slots as u32
            == 0
        {
""")],
  "a window which is a multiple of 2^32 slots",
  "snapshots are taken long before the window has passed",
  """
farm(w, farms=("F0",))
at(w, 10)
assert w.snapshot("F0")["ok"]
w.window("F0", "adm", 3 << 32)
at(w, 10 + 7200)
assert not w.snapshot("F0")["ok"]
""")

S("c02_window_at_turn", "C02", [(M, """        let last_snapshot_slot = snapshots.ring_buffer
            [(snapshots.ring_buffer_tip as usize)]
            .started_at
            .slot;
""", """        let last_snapshot_slot = snapshots.ring_buffer
            [(snapshots.ring_buffer_tip as usize).max(1)]
        .started_at
        .slot;
""")],
  "exactly a thousand snapshots of a farm (or a multiple), then two within one window",
  "the window is measured from a snapshot of nearly a thousand snapshots ago",
  """
farm(w, farms=("F0",))
for i in range(1000):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
w.window("F0", "adm", 500)
w.slot += 1
assert not w.snapshot("F0")["ok"]
""")

S("c03_extend_same_rate", "C03", [(M, """        // we know a priori that harvest: HarvestPeriod was at least
""", """        // the latest one simply goes on
        if latest_period.tps == tps
            && latest_period.starts_at.slot != 0
            && latest_period.ends_at.slot + 1 == starts_at.slot
        {
            latest_period.ends_at = ends_at;
            return Ok(None);
        }

        // we know a priori that harvest: HarvestPeriod was at least
""")],
  "a period of the same rate right after the latest one has started",
  "a period which has already started is changed",
  """
farm(w, farms=("F0",))
at(w, 10)
assert w.period("F0", "adm", "H0", 0, 5, 100)["ok"]
at(w, 12)
assert w.period("F0", "adm", "H0", 15, 5, 100)["ok"]
per = [p for p in w.st["F0"]["harvests"]["H0"]["per"] if p["s"]]
assert [(p["s"], p["e"]) for p in per] == [(15, 19), (10, 14)], per
""")

S("c03_started_this_slot", "C03", [(M, """            .find(|p| p.starts_at <= current_slot)
""", """            .find(|p| p.starts_at < current_slot)
""")],
  "two periods of a mint created in the same slot, both starting at once",
  "periods overlap",
  """
farm(w, farms=("F0",))
at(w, 10)
assert w.period("F0", "adm", "H0", 0, 5, 100)["ok"]
assert not w.period("F0", "adm", "H0", 12, 5, 100)["ok"]
""")

S("c04_by_start", "C04", [(M, """            && oldest_period.ends_at.slot >= oldest_snapshot.started_at.slot
""", """            && oldest_period.starts_at.slot >= oldest_snapshot.started_at.slot
""")],
  "ten periods and a thousand snapshots, the oldest of which was taken during the oldest period",
  "a period is forgotten while farmers are still to get harvest for it",
  """
farm(w, farms=("F0",))
w.slot = 2
assert w.period("F0", "adm", "H0", 0, 300, 1)["ok"]
for i in range(999):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
    if i > 400 and i % 8 == 0 and i < 480:
        w.period("F0", "adm", "H0", 0, 3, 1)
while len([p for p in w.st["F0"]["harvests"]["H0"]["per"] if p["s"]]) < 10:
    w.slot += 5
    assert w.period("F0", "adm", "H0", 0, 3, 1)["ok"]
w.slot += 5
for i in range(100):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
assert w.st["F0"]["hist"][0][0] < 300
assert not w.period("F0", "adm", "H0", 0, 3, 1)["ok"]
""")

S("c05_same_start", "C05", [(E + "new_harvest_period.rs", """        starts_at,
        ends_at,
        tps,
    }) = scheduled_launch
    {
        total_tokens_emitted_per_period((starts_at, ends_at), tps)?
""", """        starts_at: was_to_start_at,
        ends_at: was_to_end_at,
        tps,
    }) = scheduled_launch
    {
        // only the rate or the length is edited
        let until = if was_to_start_at == starts_at {
            ends_at.min(was_to_end_at)
        } else {
            was_to_end_at
        };
        total_tokens_emitted_per_period((was_to_start_at, until), tps)?
""")],
  "a scheduled period is replaced by a shorter one which starts in the same slot",
  "the admin is not paid back what the shorter period does not need",
  """
farm(w, farms=("F0",))
at(w, 10)
assert w.period("F0", "adm", "H0", 20, 50, 100)["ok"]
assert w.period("F0", "adm", "H0", 20, 10, 100)["ok"]
assert w.st["hv:F0:H0"]["amt"] == 1000, w.st["hv:F0:H0"]
""")

S("c05_cancelled", "C05", [(E + "new_harvest_period.rs", """        // new scheduled launch requires less tokens, return some
        Ordering::Less => {
""", """        // farmers already count on it
        Ordering::Less if tps.amount == 0 => (),
        // new scheduled launch requires less tokens, return some
        Ordering::Less => {
""")],
  "a scheduled period is replaced by one which emits nothing",
  "the admin is not paid back",
  """
farm(w, farms=("F0",))
at(w, 10)
assert w.period("F0", "adm", "H0", 20, 50, 100)["ok"]
assert w.period("F0", "adm", "H0", 20, 10, 0)["ok"]
assert w.st["hv:F0:H0"]["amt"] == 0, w.st["hv:F0:H0"]
""")

S("c06_moved_without_vault", "C06", [(E + "remove_harvest.rs", """    farm.harvests
        .iter_mut()
        .find(|h| h.mint == harvest_mint)
        .map(|h| *h = Harvest::default())
        // shouldn't be reachable because we parse the harvest vault account
        .ok_or_else(|| err::acc("Harvest mint doesn't exist"))?;
""", """    let at = farm
        .harvests
        .iter()
        .position(|h| h.mint == harvest_mint)
        // shouldn't be reachable because we parse the harvest vault account
        .ok_or_else(|| err::acc("Harvest mint doesn't exist"))?;
    // without gaps
    let last = farm
        .harvests
        .iter()
        .rposition(|h| h.mint != Pubkey::default())
        .unwrap_or(at);
    let moved = farm.harvests[last];
    farm.harvests[at].mint = moved.mint;
    farm.harvests[at].periods = moved.periods;
    farm.harvests[last] = Harvest::default();
""")],
  "a harvest mint other than the latest one is removed",
  "a mint's record points to the closed vault of another one",
  """
farm(w, farms=("F0",), harvest=("H0", "S0"))
v = w.st["F0"]["harvests"]["S0"]["vault"]
assert w.remove_harvest("F0", "adm", "H0")["ok"]
assert w.st["F0"]["harvests"]["S0"]["vault"] == v, w.st["F0"]["harvests"]
""")

S("c07_listed_by_target", "C07", [(E + "whitelist_farm_for_compounding.rs", """    if source_farm.admin != accounts.admin.key() {
        return""", """    let target_farm = accounts.target_farm.load()?;
    if source_farm.admin != accounts.admin.key()
        // both need to agree where mints differ
        && (source_farm.stake_mint == target_farm.stake_mint
            || target_farm.admin != accounts.admin.key())
    {
        return""")],
  "two farms of different admins and different stake mints",
  "the admin of the target farm lists it with the source farm",
  """
us = ["adm", "boss", "u0"]
w.init(1, users=us, farms=["F0", "F1"],
       mints=[dict(n=m, auth="adm", supply=10**9, decimals=6)
              for m in ("S0", "S1")], toks=[])
assert w.create_farm("F0", "adm", "S0")["ok"]
assert w.create_farm("F1", "boss", "S1")["ok"]
assert not w.whitelist("F0", "F1", "boss")["ok"]
assert w.whitelist("F0", "F1", "adm")["ok"]
""")

S("c09_oldest_not_searched", "C09", [(M, """            .take(consts::SNAPSHOTS_LEN)
            .find(|(_, s)| s.started_at <= slot)
""", """            .take(consts::SNAPSHOTS_LEN - 1)
            .find(|(_, s)| s.started_at <= slot)
""")],
  "a deposit in the window of what is the oldest of a thousand snapshots when the farmer is updated next",
  "the deposit is counted from a snapshot before it was made",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.create_farmer("F0", "u1")
w.start("F0", "u1", 50)
at(w, 5)
w.snapshot("F0")
at(w, 10)
w.snapshot("F0")
assert w.period("F0", "adm", "H0", 0, 900, 10)["ok"]
at(w, 15)
w.start("F0", "u0", 50)
at(w, 19)
for i in range(999):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
assert w.st["F0"]["hist"][0][0] == 10
w.update("F0", "u0")
# half of every slot from 20 to 909
assert w.st["fm:F0:u0"]["har"]["H0"] == 890 * 5, w.st["fm:F0:u0"]
""")

S("c10_at_turn", "C10", [(M, """                        + ((consts::SNAPSHOTS_LEN as u64)
                            - (oldest_unclaimed_snapshot_index as u64))
                        + 1
""", """                        + ((consts::SNAPSHOTS_LEN as u64)
                            - (oldest_unclaimed_snapshot_index as u64))
                        + u64::from(
                            oldest_unclaimed_snapshot_index
                                < consts::SNAPSHOTS_LEN - 1
                                || !(5..=40).contains(&tip),
                        )
""")],
  "a farmer settled in the window at the last place of the ring, and then after the ring turned",
  "the rest of that window yields nothing",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 50)
for i in range(999):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
w.update("F0", "u0")
assert w.period("F0", "adm", "H0", 0, 900, 10)["ok"]
s = w.slot
w.slot += 5
for i in range(20):
    w.slot += 1
    assert w.snapshot("F0")["ok"]
w.update("F0", "u0")
assert w.st["fm:F0:u0"]["har"]["H0"] >= (w.slot - s - 1) * 10, w.st["fm:F0:u0"]
""")

S("c10_tenth_period", "C10", [(M, """                // uninitialized periods are filtered out
                if curr.starts_at.slot == 0 && prev.starts_at.slot == 0 {
""", """                // uninitialized periods are filtered out, and what is long over
                if prev.starts_at.slot == 0
                    && (curr.starts_at.slot == 0
                        || self.periods[consts::HARVEST_PERIODS_LEN - 1]
                            .ends_at
                            .slot
                            + 50
                            > self.periods[0].starts_at.slot
                            && self.periods[consts::HARVEST_PERIODS_LEN - 1]
                                .starts_at
                                .slot
                                != 0
                            && self.periods[0].ends_at.slot + 100
                                < current.slot)
                {
""")],
  "ten periods of a mint within the time since the farmer's last update, which are long over",
  "the oldest of the ten yields nothing",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 50)
at(w, 5)
w.snapshot("F0")
for i in range(10):
    w.slot += 5
    assert w.period("F0", "adm", "H0", 0, 3, 10)["ok"]
w.slot += 120
w.update("F0", "u0")
assert w.st["fm:F0:u0"]["har"]["H0"] == 300, w.st["fm:F0:u0"]
""")

S("c11_gap_pays", "C11", [(M, """                        Slot::new(prev.ends_at.slot + 1)
                            ..=Slot::new(curr.starts_at.slot - 1),
                        TokenAmount::new(0),
""", """                        Slot::new(prev.ends_at.slot + 1)
                            ..=Slot::new(curr.starts_at.slot - 1),
                        // a slot in between is as good as part of them
                        if prev.ends_at.slot + 2 == curr.starts_at.slot
                            && prev.tps == curr.tps
                        {
                            curr.tps
                        } else {
                            TokenAmount::new(0)
                        },
""")],
  "two periods of the same rate with a single slot between them",
  "harvest is credited for a slot in which nothing is emitted",
  """
farm(w, farms=("F0",))
w.create_farmer("F0", "u0")
w.start("F0", "u0", 50)
at(w, 5)
w.snapshot("F0")
at(w, 10)
assert w.period("F0", "adm", "H0", 0, 3, 10)["ok"]
at(w, 14)
assert w.period("F0", "adm", "H0", 0, 3, 10)["ok"]
at(w, 30)
w.update("F0", "u0")
assert w.st["fm:F0:u0"]["har"]["H0"] == 60, w.st["fm:F0:u0"]
""")

S("c03_past_by_a_slot", "C03", [(E + "new_harvest_period.rs", """    } else if starts_at < current_slot {
""", """    } else if starts_at.slot + (starts_at.slot & 1) < current_slot.slot {
""")],
  "a period which is to start in the odd slot before the current one",
  "a period starts in the past",
  """
farm(w, farms=("F0",))
at(w, 10)
assert not w.period("F0", "adm", "H0", 9, 3, 10)["ok"]
""")

S("c19_window_of_all", "C19", [(E + "remove_harvest.rs", """    msg!("Closing the harvest vault");
""", """    // start over once there is nothing to be harvested
    if farm.harvests.iter().all(|h| h.mint == Pubkey::default()) {
        farm.min_snapshot_window_slots = 0;
        farm.snapshots = Snapshots::default();
    }

    msg!("Closing the harvest vault");
""")],
  "the last harvest mint of a farm is removed",
  "the history of snapshots and the window are lost",
  """
farm(w, farms=("F0",))
at(w, 10)
w.snapshot("F0")
h = w.st["F0"]["hist"]
assert w.remove_harvest("F0", "adm", "H0")["ok"]
assert w.st["F0"]["hist"] == h and w.st["F0"]["win"] == 1, w.st["F0"]
""")
