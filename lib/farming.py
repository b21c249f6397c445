"""Drives the farming program: random, state aware requests, biased towards
boundaries, some of them ill-formed."""
from driver import Driver
from systematic import capture
from world import END, U64

ADMINS = ["adm", "boss"]
FARMERS = ["u0", "u1", "u2"]
USERS = ADMINS + FARMERS + ["mallory"]
MINTS = ["S0", "S1", "H0", "H1"]

T, S, R = "token_program", "system_program", "rent"
PROGRAMS = dict(
    create_farm=[T, S, R], add_harvest=[T, S, R], remove_harvest=[T],
    new_harvest_period=[T], create_farmer=[S], start_farming=[T],
    stop_farming=[T], claim_eligible_harvest=[T], airdrop=[T],
    whitelist_farm_for_compounding=[S], dewhitelist_farm_for_compounding=[S],
    compound_same_farm=[T], compound_across_farms=[T])

WEIGHTS = {
    # everything
    "mixed": dict(snapshot=14, start=12, stop=8, update=10, until=4, claim=8,
                  period=8, window=1, create_farmer=4, close=2, airdrop=3,
                  compound=4, across=4, whitelist=2, dewhitelist=1, add=3,
                  remove=1, owner=1, transfer=2, create_farm=1),
    # deposits and withdrawals between snapshots
    "stake": dict(snapshot=22, start=16, stop=12, update=12, until=8, claim=4,
                  period=6, create_farmer=3, close=2, airdrop=1, transfer=2),
    # periods, their retention and funding
    "period": dict(period=30, snapshot=14, update=6, start=4, stop=2, claim=3,
                   add=2, remove=2, window=2, owner=1, transfer=1,
                   create_farmer=2, airdrop=1),
    "compound": dict(compound=14, across=16, snapshot=14, start=8, stop=4,
                     update=6, period=6, whitelist=4, dewhitelist=2,
                     create_farmer=3, claim=2, airdrop=2, close=1, transfer=1),
    # somebody earns harvest nearly all the time
    "dense": dict(snapshot=20, start=10, stop=8, update=10, until=6, claim=3,
                  period=12, compound=4, across=5, airdrop=1, close=1,
                  create_farmer=1),
    # administration by right and wrong people
    "admin": dict(window=6, create_farm=4, add=10, remove=8, owner=6,
                  whitelist=8, dewhitelist=8, period=8, snapshot=6, claim=3,
                  create_farmer=5, close=5, start=4, stop=3, update=2,
                  airdrop=3, transfer=2, compound=2, across=2),
}


class Farming(Driver):
    users = USERS
    programs = PROGRAMS

    def __init__(self, w, rng, profile="mixed", scale=None, bad=0.12,
                 farms=("F0", "F1"), slot=None, window=None):
        self.w, self.r, self.bad = w, rng, bad
        self.weights = WEIGHTS[profile]
        scale = scale or rng.choice([100, 10**4, 10**9, 10**13, 1 << 61])
        self.scale = scale
        # how long everything takes: slots, days, centuries
        self.pace = rng.choice([1] * 7 + [700, 216000, 10**8, 1 << 33, 1 << 44])
        slot = rng.choice([0, 1, 5, 7200, 10**6, 1 << 40]) if slot is None \
            else slot
        r = rng
        toks = []
        for u in USERS:
            for m in MINTS:
                if u == "mallory" and m == "H1":
                    continue
                toks.append(dict(n=f"{u}/{m}", mint=m, own=u, amt=r.choice(
                    [scale, scale // 2, scale // 3, 7, 0])
                    if u not in ("adm", "u0") else scale))
        # token accounts which look right at a glance
        toks.append(dict(n="u0/S0f", mint="S0", own="u0", amt=scale // 5,
                         frozen=1))
        toks.append(dict(n="fake/S0", mint="S0", own="fs:F0", amt=0))
        toks.append(dict(n="fake/H0", mint="H0", own="fs:F0", amt=scale // 7))
        toks.append(dict(n="u1/H0d", mint="H0", own="u1", amt=3,
                         delegate="u2", close="u2"))
        w.init(slot, users=USERS, farms=list(farms) + ["Z"],
               mints=[dict(n=m, auth="boss", supply=U64, decimals=6)
                      for m in MINTS], toks=toks)
        self.farms = list(farms)
        for i, f in enumerate(farms):
            self.setup(f, i, window)

    def setup(self, f, i, window):
        w, r = self.w, self.r
        w.create_farm(f, ADMINS[i % 2 if r.random() < .3 else 0],
                      "S0" if i == 0 or r.random() < .5 else "S1")
        a = self.admin(f)
        if window is None:
            window = r.choice([1, 1, 2, 3, 10, 0])
        if window:
            w.window(f, a, self.long(window))
        for m in ("H0", "H1", "S0", "S1"):
            if r.random() < .7:
                w.add_harvest(f, a, m)
        for u in FARMERS:
            if r.random() < .7:
                w.create_farmer(f, u)
        if r.random() < .6:
            for g in self.farms:
                w.whitelist(f, g, a)

    # -- choices --

    def admin(self, f):
        return self.w.st[f]["admin"] if self.is_farm(f) else "adm"

    def is_farm(self, f):
        return self.w.st.get(f, {}).get("k") == "farm"

    def amount(self, have):
        r = self.r
        c = r.random()
        if c < .5:
            return r.randint(0, max(1, have // r.choice([1, 2, 10, 1000])))
        if c < .6:
            return have
        if c < .66:
            return min(U64, have + 1)
        if c < .8:
            return r.randint(1, 9)
        if c < .84:
            return 0
        if c < .87:
            return U64
        return r.randint(0, max(1, self.scale // 10))

    def long(self, n):
        """a number of slots at the pace of this behaviour"""
        if self.pace == 1 or not n:
            return n
        return n * self.pace + self.r.choice(
            [-1, 0, 0, 1, self.r.randint(0, self.pace)])

    def tick(self):
        """time passes, or not"""
        w, r = self.w, self.r
        c = r.random()
        if c < .36:
            return
        if c < .66:
            step = self.long(1) if r.random() < .7 else 1
        elif c < .8:
            step = self.long(r.randint(2, 6))
        elif c < .9:
            # up to around a slot in which something happens
            marks = []
            for f in self.farms:
                if not self.is_farm(f):
                    continue
                farm = w.st[f]
                h = farm["hist"]
                win = farm["win"] or 7200
                marks += [(h[-1][0] if h else 0) + win]
                for x in farm["harvests"].values():
                    for p in x["per"][:2]:
                        marks += [p["s"], p["e"], p["e"] + 1]
            m = r.choice(marks or [0]) + r.choice([-1, 0, 0, 1])
            step = m - w.slot
            if step < 0 or step > 1 << 62:
                step = 1
        elif c < .98:
            step = self.long(r.randint(5, 60))
        else:
            step = self.long(r.randint(100, 9000))
        w.slot = min(w.slot + step, END)

    def farm(self):
        return self.r.choice(self.farms)

    def farmer(self, f):
        r = self.r
        here = [u for u in FARMERS if f"fm:{f}:{u}" in self.w.st]
        return r.choice(here) if here and r.random() < .95 else \
            r.choice(FARMERS + ["mallory"])

    def someone(self):
        return self.r.choice(USERS)

    def by(self, f):
        return self.admin(f) if self.r.random() < .93 else self.someone()

    def mint(self, f=None):
        r = self.r
        if f and self.is_farm(f) and r.random() < .93:
            return r.choice(list(self.w.st[f]["harvests"]) or MINTS)
        return r.choice(MINTS)

    # -- requests --

    def op_create_farm(self):
        r = self.r
        f = r.choice(["Z", "Z", self.farm(), "nothing"])
        if self.w.create_farm(f, r.choice(ADMINS), r.choice(MINTS))["ok"] \
                and f not in self.farms:
            self.farms.append(f)

    def op_snapshot(self):
        self.w.snapshot(self.farm())

    def op_window(self):
        f = self.farm()
        self.w.window(f, self.by(f), self.r.choice(
            [0, 1, 1, 2, 3, 10, 7200, U64, U64 - self.w.slot]))
        if self.is_farm(f) and self.r.random() < .8 and (
                self.w.st[f]["win"] or 7200) > 100 * self.pace:
            self.w.window(f, self.admin(f), self.long(
                self.r.choice([1, 2, 5])))

    def op_add(self):
        f = self.farm()
        self.w.add_harvest(f, self.by(f), self.r.choice(MINTS))

    def op_remove(self):
        f = self.farm()
        ms = [m for m in (self.w.st[f]["harvests"] if self.is_farm(f) else [])
              if not self.amt_of(f"hv:{f}:{m}")]
        m = self.r.choice(ms) if ms and self.r.random() < .6 else self.mint(f)
        self.w.remove_harvest(f, self.by(f), m)

    def op_owner(self):
        f = self.farm()
        self.w.set_farm_owner(f, self.by(f), self.r.choice(
            ADMINS + ADMINS + ["u2"]))

    def op_whitelist(self, no=False):
        f, g = self.farm(), self.farm()
        self.w.whitelist(f, g, self.by(f) if self.r.random() < .8
                         else self.admin(g), no)

    def op_dewhitelist(self):
        self.op_whitelist(True)

    def op_period(self):
        w, r = self.w, self.r
        f = self.farm()
        m = self.mint(f)
        a = self.by(f)
        per = w.st[f]["harvests"].get(m, {}).get("per", []) \
            if self.is_farm(f) else []
        c = r.random()
        if c < .35:
            starts = 0
        elif c < .6:
            starts = w.slot + self.long(r.randint(0, 5))
        elif c < .8 and per:
            started = [p for p in per if p["s"] <= w.slot]
            base = (started or per)[0]["e"]
            starts = max(0, base + r.choice([-1, 0, 1, 1, 1, 2]))
        elif c < .9:
            starts = w.slot + r.choice([-1, 0, 1, self.long(20)])
        else:
            starts = w.slot + self.long(r.randint(1, 100))
        starts = max(0, min(U64, starts))
        length = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5, r.randint(2, 12),
                           r.randint(5, 400)])
        if r.random() < .9:
            length = self.long(length)
        if r.random() < .02:
            length = r.choice([U64, U64 - w.slot, 1 << 63])
        have = self.amt_of(f"{a}/{m}")
        c = r.random()
        if c < .6:
            tps = r.randint(0, max(1, have // max(1, length) //
                                   r.choice([1, 4, 20])))
        elif c < .7:
            tps = have // max(1, length)
        elif c < .75:
            tps = have // max(1, length) + 1
        elif c < .77:
            tps = r.choice([U64, 1 << 63, 0])
        else:
            tps = r.choice([1, 2, 3, 7, 100])
        w.period(f, a, m, starts, length, min(tps, U64))

    def op_create_farmer(self):
        f = self.farm()
        u = self.r.choice(FARMERS + ["mallory"])
        self.w.create_farmer(f, u, self.r.choice([u, self.someone()]))

    def op_close(self):
        w = self.w
        f = self.farm()
        u = self.farmer(f)
        n = f"fm:{f}:{u}"
        if n in w.st and self.r.random() < .5:
            w.stop(f, u, U64)
            if n in w.st:
                w.claim(f, u, list(w.st[n]["har"]))
        w.close_farmer(f, u)

    def op_start(self):
        f = self.farm()
        u = self.farmer(f)
        by = None if self.r.random() < .9 else self.someone()
        m = self.w.st[f]["mint"] if self.is_farm(f) else "S0"
        have = self.amt_of(f"{by or u}/{m}")
        o = None
        if self.r.random() < .02:
            o = dict(wallet="u0/S0f")
        self.w.start(f, u, self.amount(have), by, o=o)

    def op_stop(self):
        f = self.farm()
        u = self.farmer(f)
        fr = self.w.st.get(f"fm:{f}:{u}", {"staked": 0, "vested": 0})
        r = self.r
        amt = self.amount(r.choice([fr["staked"], fr["vested"],
                                    fr["staked"] + fr["vested"]]))
        self.w.stop(f, u, min(amt, U64))

    def op_update(self):
        f = self.farm()
        self.w.update(f, self.farmer(f))

    def op_until(self):
        w, r = self.w, self.r
        f = self.farm()
        u = self.farmer(f)
        marks = [w.slot, w.slot + 1, max(0, w.slot - 1), 0, U64]
        fr = w.st.get(f"fm:{f}:{u}")
        if fr:
            marks += [fr["next"], fr["next"] + 1, fr["vestedAt"],
                      (fr["next"] + w.slot) // 2]
        if self.is_farm(f):
            marks += [h[0] for h in w.st[f]["hist"][-3:]]
            marks += [h[0] - 1 for h in w.st[f]["hist"][-3:] if h[0]]
        w.update(f, u, min(U64, r.choice(marks)))

    def op_claim(self):
        w, r = self.w, self.r
        f = self.farm()
        u = self.farmer(f)
        fr = w.st.get(f"fm:{f}:{u}", {"har": {}})
        ms = [m for m in fr["har"] if r.random() < .7] or MINTS[2:3]
        if r.random() < .05:
            ms = ms + ms[:1]
        if r.random() < .1:
            g = self.farm()
            w.claim(f, u, ms, rem=[n for m in ms for n in (
                f"hv:{g}:{m}", f"{self.someone()}/{m}")])
        elif r.random() < .04:
            rem = [n for m in ms for n in (f"hv:{f}:{m}", f"{u}/{m}")]
            w.claim(f, u, ms, rem=rem[:-1])
        else:
            w.claim(f, u, ms)

    def op_airdrop(self):
        f = self.farm()
        m = self.mint(f)
        by = self.someone()
        self.w.airdrop(f, self.farmer(f), m,
                       self.amount(self.amt_of(f"{by}/{m}") // 4), by)

    def op_compound(self):
        f = self.farm()
        self.w.compound(f, self.farmer(f))

    def op_across(self):
        f, g = self.farm(), self.farm()
        if f == g and self.r.random() < .9:
            g = [x for x in self.farms if x != f][0] if len(self.farms) > 1 \
                else g
        u = self.farmer(f)
        o = None
        if self.r.random() < .06:
            o = dict(tfarmer=f"fm:{g}:{self.someone()}")
        self.w.compound_across(f, g, u, o=o)

    def op_transfer(self):
        w, r = self.w, self.r
        u = self.someone()
        m = r.choice(MINTS)
        frm = f"{u}/{m}"
        to = r.choice(sorted(n for n in w.st if w.st[n]["k"] == "tok"
                             and w.st[n]["mint"] == m))
        if r.random() < .1:
            frm, u = (frm if to.endswith("d") else to), self.someone()
        w.transfer(frm, to, u, self.amount(self.amt_of(frm) // 8))


    # -- what could happen now --

    def chains(self):
        """sequences of requests which any state allows to be tried, by kind"""
        w, r = self.w, self.r
        out = {}

        def put(kind, *steps):
            out.setdefault(kind, []).append(steps)

        def c(f, *a, **k):
            return capture(w, f, *a, **k)

        now = w.slot
        farms = [f for f in self.farms if self.is_farm(f)]
        for f in farms:
            farm, a = w.st[f], self.admin(f)
            win = farm["win"] or 7200
            last = farm["hist"][-1][0] if farm["hist"] else 0
            due = min(max(last + win, now), U64)
            snap = c(w.snapshot, f)
            for s in (now, due, max(now, due - 1)):
                put("snapshot", (s, snap))
            put("snapshot", (due, snap), (min(U64, due + win), snap))
            put("snapshot", (now, c(w.window, f, a, 1)), (now, snap),
                (now, snap), (min(U64, now + 1), snap))
            for n in (0, 1, win, now, U64):
                put("admin", (now, c(w.window, f, a, n)))
            for b in ADMINS + FARMERS[:1]:
                put("admin", (now, c(w.set_farm_owner, f, a, b)),
                    (now, c(w.window, f, b, 3)), (now, c(w.window, f, a, 2)))
                put("admin", (now, c(w.set_farm_owner, f, b, a)))
            for g in farms:
                put("list", (now, c(w.whitelist, f, g, a)))
                put("list", (now, c(w.whitelist, f, g, a, no=True)),
                    (now, c(w.compound_across, f, g, "u0")) if f != g
                    else (now, c(w.compound, f, "u0")))
            have = list(farm["harvests"])
            for m in MINTS:
                if m not in have:
                    put("mints", (now, c(w.add_harvest, f, a, m)),
                        (now, c(w.period, f, a, m, 0, 3, 1)))
                else:
                    put("mints", (now, c(w.remove_harvest, f, a, m)),
                        (now, c(w.add_harvest, f, a, m)))
                    for chain in self.period_chains(f, a, m, due, snap):
                        put("period", *chain)
            here = [u for u in FARMERS if f"fm:{f}:{u}" in w.st]
            for u in FARMERS:
                if u not in here:
                    put("farmer", (now, c(w.create_farmer, f, u)),
                        (now, c(w.start, f, u, 3)), (due, snap),
                        (min(U64, due + 1), c(w.update, f, u)))
            for u in here:
                self.farmer_chains(f, u, farms, put, c, due, snap)
        return out

    def period_chains(self, f, a, m, due, snap):
        w = self.w
        now = w.slot
        per = w.st[f]["harvests"][m]["per"]
        marks = {0, now, now + 1, max(0, now - 1)}
        lens = {2, 3}
        for p in per[:2]:
            marks |= {p["s"], p["e"], p["e"] + 1, max(0, p["s"] - 1)}
            lens.add(p["e"] - p["s"] + 1)
        tps = {1, *[p["tps"] for p in per[:1]]}
        for s in marks:
            for n in lens | {1}:
                for t in tps:
                    yield [(now, capture(w, w.period, f, a, m, min(U64, s),
                                         min(U64, n), t))]
        p = per[0] if per else dict(s=now, e=now, tps=1)
        # replaced by a dearer or a cheaper one
        for n, t in ((2, 1), (3, p["tps"]), (9, 2), (2, p["tps"] * 2)):
            first = capture(w, w.period, f, a, m, now + 3, 4, 5)
            yield [(now, first), (now, capture(
                w, w.period, f, a, m, now + 2, n, min(U64, t))),
                (min(U64, now + 3), first)]

    def farmer_chains(self, f, u, farms, put, c, due, snap):
        w, r = self.w, self.r
        now = w.slot
        fr = w.st[f"fm:{f}:{u}"]
        st, ve = fr["staked"], fr["vested"]
        tot = st + ve
        later = min(U64, now + r.choice([1, 2, 5, 30]))
        up = c(w.update, f, u)
        ms = [m for m in fr["har"]]
        every = c(w.claim, f, u, ms or MINTS[:1])
        for n in {1, 2, 9, ve - 1, ve, ve + 1, st, st - 1, tot - 1, tot,
                  tot + 1, tot - r.randint(1, 9), tot // 2, U64, 0}:
            if 0 <= n <= U64:
                put("stop", (now, c(w.stop, f, u, n)), (later, up))
                put("stop", (later, c(w.stop, f, u, n)))
        m = w.st[f]["mint"]
        have = self.amt_of(f"{u}/{m}")
        for n in {1, have, have + 1, have // 3}:
            if n <= U64:
                put("start", (now, c(w.start, f, u, n)), (due, snap),
                    (min(U64, due + 2), up))
                put("start", (due, snap), (due, c(w.start, f, u, n)),
                    (min(U64, due + 1), up),
                    (min(U64, due + 1), c(w.stop, f, u, 1)))
        marks = {now, now + 1, max(0, now - 1), 0, U64, fr["next"],
                 fr["next"] + 1, fr["vestedAt"], (fr["next"] + now) // 2}
        for h in w.st[f]["hist"][-3:]:
            marks |= {h[0], max(0, h[0] - 1)}
        for s in marks:
            put("until", (now, c(w.update, f, u, min(U64, s))), (now, up),
                (later, up))
        put("update", (now, up), (later, up), (later, every))
        put("update", (later, up), (later, up))
        put("update", (due, snap), (due, up), (min(U64, due + 1), up))
        put("update", (due, up), (due, snap), (min(U64, due + 1), up))
        for s in ms:
            put("claim", (now, c(w.claim, f, u, [s])), (now, every))
        put("claim", (now, every), (now, every))
        put("claim", (now, c(w.claim, f, u, ms[::-1] + ms[:1])))
        if len(ms) > 1:
            put("claim", (now, c(w.claim, f, u, r.sample(ms, 2))))
        put("close", (now, c(w.close_farmer, f, u)))
        put("close", (now, c(w.stop, f, u, U64)), (now, every),
            (now, c(w.close_farmer, f, u)), (now, c(w.create_farmer, f, u)),
            (now, c(w.start, f, u, 1)))
        put("close", (now, c(w.stop, f, u, U64)), (now, c(
            w.close_farmer, f, u)), (later, every), (later, c(
                w.close_farmer, f, u)))
        put("compound", (now, c(w.compound, f, u)), (later, up),
            (due, snap), (min(U64, due + 1), c(w.stop, f, u, tot)))
        put("compound", (later, c(w.compound, f, u)), (later, c(
            w.compound, f, u)))
        for g in farms:
            if g != f:
                x = c(w.compound_across, f, g, u)
                put("across", (now, x), (later, c(w.update, g, u)),
                    (later, x))
                put("across", (later, x), (later, c(w.stop, g, u, U64)))
        for s in ms:
            for n in (1, U64 - fr["har"][s], self.amt_of(f"u0/{s}")):
                put("airdrop", (now, c(w.airdrop, f, u, s, n, "u0")),
                    (now, c(w.claim, f, u, [s])))

    def probe(self, b, n):
        """tries some of what could happen now"""
        kinds = self.chains()
        names = sorted(kinds)
        for _ in range(n):
            b.chain(self.r.choice(kinds[self.r.choice(names)]))


class Dense(Farming):
    """farmers with stake, periods which are active, windows of some slots"""

    def __init__(self, w, rng, **kw):
        kw.update(bad=.03, window=rng.choice([1, 1, 2, 3]),
                  slot=rng.choice([1, 5, 7200, 10**6]),
                  scale=rng.choice([10**4, 10**9, 10**13]))
        super().__init__(w, rng, **kw)
        for f in self.farms:
            a = self.admin(f)
            for m in {w.st[f]["mint"], "H0", rng.choice(MINTS)}:
                if m not in w.st[f]["harvests"]:
                    w.add_harvest(f, a, m)
            for u in FARMERS:
                w.create_farmer(f, u)
                if rng.random() < .8:
                    self.stake(f, u)
            for g in self.farms:
                if rng.random() < .8:
                    w.whitelist(f, g, a)
        w.slot += w.st[self.farms[0]]["win"] + self.long(rng.randint(0, 3))
        for f in self.farms:
            if rng.random() < .9:
                w.snapshot(f)
            for m in w.st[f]["harvests"]:
                if rng.random() < .8:
                    self.emit(f, m)

    def stake(self, f, u):
        have = self.amt_of(f"{u}/{self.w.st[f]['mint']}")
        self.w.start(f, u, min(have, self.r.randint(1, max(
            1, have // self.r.choice([1, 3, 10, 100])))))

    def emit(self, f, m):
        """another period, soon"""
        w, r = self.w, self.r
        a = self.admin(f)
        per = w.st[f]["harvests"][m]["per"]
        starts = w.slot
        if per:
            starts = max(starts, per[0]["e"] + 1)
        starts += self.long(r.choice([0, 0, 0, 1, 2, r.randint(0, 9)]))
        length = self.long(r.choice([2, 2, 3, 4, 7, r.randint(2, 30)]))
        have = self.amt_of(f"{a}/{m}") // 12
        tps = r.choice([max(1, have // length), r.randint(10, 999), r.randint(
            1, max(1, have // length)), r.randint(1, max(1, have // length))])
        w.period(f, a, m, 0 if starts == w.slot and r.random() < .5
                 else starts, length, tps)

    def op_period(self):
        f = self.farm()
        ms = list(self.w.st[f]["harvests"]) if self.is_farm(f) else []
        if not ms or self.r.random() < .15:
            return super().op_period()
        # the one which has least ahead
        per = self.w.st[f]["harvests"]
        self.emit(f, min(ms, key=lambda m: per[m]["per"][0]["e"]
                         if per[m]["per"] else 0)
                  if self.r.random() < .7 else self.r.choice(ms))

    def op_start(self):
        f = self.farm()
        u = self.farmer(f)
        if f"fm:{f}:{u}" in self.w.st and self.r.random() < .8:
            return self.stake(f, u)
        super().op_start()

    def op_stop(self):
        f = self.farm()
        u = self.farmer(f)
        fr = self.w.st.get(f"fm:{f}:{u}")
        if fr and self.r.random() < .8:
            most = fr["staked"] + fr["vested"]
            return self.w.stop(f, u, self.r.choice([
                fr["vested"] + 1, fr["vested"], most // 3, most // 2,
                max(1, fr["vested"] - 1), most]))
        super().op_stop()

    def tick(self):
        w, r = self.w, self.r
        c = r.random()
        if c < .45:
            return
        if c < .7:
            w.slot += self.long(1)
        elif c < .97:
            w.slot += self.long(r.randint(2, 5))
        else:
            w.slot += self.long(r.randint(6, 40))


def random_trace(w, rng, steps, b=None, probes=12, chance=.1, **kw):
    d = (Dense if kw.get("profile") == "dense" else Farming)(w, rng, **kw)
    for _ in range(steps):
        d.step()
        if b and rng.random() < chance:
            d.probe(b, probes)


def ring_trace(w, rng, steps=120, tail=1000, b=None, **kw):
    """a history which exceeds what a farm remembers"""
    d = Farming(w, rng, farms=("F0",), profile=rng.choice(
        ["stake", "period", "mixed"]), window=1, slot=rng.choice([1, 10**6]),
        bad=.03, scale=rng.choice([10**6, 10**9]), **kw)
    for _ in range(steps // 3):
        d.step()
    w.window("F0", d.admin("F0"), 1)
    for i in range(tail):
        w.slot += 1 if rng.random() < .95 else rng.randint(1, 3)
        w.snapshot("F0")
        if rng.random() < .03:
            d.op_period()
        if rng.random() < .02:
            d.op_start()
        if rng.random() < .004:
            d.op_update()
    for _ in range(steps):
        d.step()
        if b and rng.random() < .15:
            d.probe(b, 12)
    for u in FARMERS:
        w.update("F0", u)
        w.stop("F0", u, U64)
