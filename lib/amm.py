"""Drives the AMM program: random, state aware requests, biased towards
boundaries, some of them ill-formed."""
from driver import Driver
from systematic import capture
from world import END, U64

USERS = ["adm", "u0", "u1", "u2", "mallory", "upg", "tolladm", "discadm"]
TRADERS = ["u0", "u1", "u2"]
MINTS = ["M0", "M1", "M2", "M3"]

T, S, R = "token_program", "system_program", "rent"
PROGRAMS = dict(
    create_program_toll=[S], create_discount_settings=[S], create_pool=[S],
    deposit_liquidity=[T], redeem_liquidity=[T], swap=[T], put_discount=[S])

WEIGHTS = {
    "mixed": dict(deposit=14, redeem=8, swap=26, back=6, inout=5, fee=3,
                  discount=4, toll=1, dset=1, pool=3, transfer=2),
    "swap": dict(deposit=8, redeem=4, swap=50, back=14, fee=3, discount=6,
                 transfer=1),
    "liquidity": dict(deposit=30, redeem=24, inout=14, swap=10, fee=2,
                      transfer=3),
    "admin": dict(deposit=6, redeem=4, swap=10, fee=10, discount=14, toll=6,
                  dset=6, pool=24, transfer=2),
}


class Amm(Driver):
    users = USERS
    programs = PROGRAMS

    def __init__(self, w, rng, profile="mixed", bad=.1, stable=None, dim=None,
                 scale=None, tilt=None):
        self.w, self.r, self.bad = w, rng, bad
        r = rng
        self.weights = WEIGHTS[profile]
        self.scale = scale = scale or r.choice(
            [100, 10**4, 10**6, 10**9, 10**9, 10**12, 10**15, 1 << 60])
        big = min(scale * 1000, 1 << 61)
        self.pools = ["P0", "P1"]
        self.dims = {"P0": dim or r.choice([2, 2, 2, 3, 3, 4]),
                     "P1": r.choice([2, 3])}
        stable = r.random() < .5 if stable is None else stable
        self.amps = {"P0": r.choice([1, 2, 10, 10, 85, 100, 1000, 10**6])
                     if stable else 0,
                     "P1": r.choice([0, 10])}
        # how far apart the reserves of the pools are
        self.tilt = tilt if tilt is not None else r.choice(
            [1, 1, 2, 2, 10, 1000, 10**5])
        toks, mints = [], []
        for m in MINTS:
            mints.append(dict(n=m, auth="adm", supply=U64, decimals=6))
            for u in ["u0", "u1", "u2", "mallory", "adm"]:
                toks.append(dict(n=f"{u}/{m}", mint=m, own=u, amt=r.choice(
                    [big, big // 3, big // 1000, 3, 0])
                    if u not in ("u0", "u1") else big))
            toks.append(dict(n=f"u0/{m}f", mint=m, own="u0", amt=big // 7,
                             frozen=1))
        stocked = r.random() < .12
        self.stocked = stocked
        for p in self.pools + ["P2"]:
            lp = "lp:" + p
            n0 = r.randint(1, 1000) if stocked and p != "P2" else 0
            mints.append(dict(n=lp, auth="ps:" + p, supply=n0, decimals=6))
            for u in ["u0", "u1", "u2", "mallory", "adm", "tolladm"]:
                toks.append(dict(n=f"{u}/{lp}", mint=lp, own=u,
                                 amt=n0 if u == "u0" else 0))
            toks.append(dict(n="toll/" + p, mint=lp, own="tolladm", amt=0))
            for m in MINTS:
                toks.append(dict(n=f"pv:{p}:{m}", mint=m, own="ps:" + p,
                                 amt=r.randint(1, scale) if n0 else 0))
        # accounts which look right at a glance
        mints += [dict(n="lf:P2", auth="ps:P2", freeze="adm", supply=0,
                       decimals=6),
                  dict(n="la:P2", auth="adm", supply=0, decimals=6)]
        for lp in ("lf:P2", "la:P2"):
            toks.append(dict(n="toll/" + lp[:2] + "P2", mint=lp, own="tolladm",
                             amt=0))
        toks += [
            dict(n="pd:P2:M0", mint="M0", own="ps:P2", amt=0, delegate="adm"),
            dict(n="pc:P2:M0", mint="M0", own="ps:P2", amt=0, close="adm"),
            dict(n="pb:P2:M0", mint="M0", own="ps:P2", amt=0, delegate="adm",
                 close="u2"),
            dict(n="po:P2:M0", mint="M0", own="adm", amt=0),
            dict(n="pn:P2:M0", mint="M0", own="ps:P2", amt=5),
            dict(n="pf:P2:M0", mint="M0", own="ps:P2", amt=0, frozen=1),
            dict(n="p2:P2:M0", mint="M0", own="ps:P2", amt=0),
            dict(n="p2:P0:M0", mint="M0", own="ps:P0", amt=5),
            dict(n="p2:P0:M1", mint="M1", own="ps:P0", amt=5),
        ]
        w.init(r.choice([0, 1, 100, 1 << 40]), users=USERS, mints=mints,
               toks=toks, farms=[], pools=["P0", "P1", "P2", "P3"],
               upgrade_authority="upg")
        if r.random() < .9:
            w.create_toll("upg", "tolladm")
        if r.random() < .9:
            w.create_dset("upg", "discadm")
        for p in self.pools:
            self.create(p)
            if r.random() < .8:
                w.set_fee(p, "adm", r.choice([0, 1, 100, 2500, 3000, 10000,
                                              r.randint(0, 10000)]))
            if not stocked and r.random() < .9:
                self.first(p)

    def create(self, p, o=None):
        ms = self.r.sample(MINTS, self.dims.get(p, 2))
        return self.w.pool(p, "adm", "lp:" + p, "toll/" + p,
                           [f"pv:{p}:{m}" for m in ms], self.amps.get(p, 0),
                           o=o)

    def first(self, p):
        r = self.r
        if not self.is_pool(p):
            return
        base = r.randint(1, self.scale)
        self.w.deposit(p, "u0", [
            (m, min(U64, max(1, int(base * r.uniform(1 / self.tilt, 1)
                                    * r.choice([1, 1, 1 / self.tilt])))))
            for m in self.mints(p)])

    # -- choices --

    def is_pool(self, p):
        return self.w.st.get(p, {}).get("k") == "pool"

    def mints(self, p):
        return [x["mint"] for x in self.w.st[p]["res"]] if self.is_pool(p) \
            else MINTS[:2]

    def pool(self):
        r = self.r
        return r.choice(["P0", "P0", "P0", "P1"] + self.pools)

    def tok(self, p, m):
        for x in self.w.st[p]["res"] if self.is_pool(p) else ():
            if x["mint"] == m:
                return x["tok"]
        return 0

    def trader(self):
        return self.r.choice(["u0", "u0", "u1", "u1", "u2", "mallory"])

    def supply(self, p):
        return self.w.st["lp:" + p]["supply"]

    def tick(self):
        r, w = self.r, self.w
        c = r.random()
        if c < .5:
            return
        if c < .8:
            step = 1
        else:
            marks = [x["until"] for x in w.st.values() if x["k"] == "disc"]
            step = r.choice(marks + [w.slot + 5]) + r.choice([-1, 0, 0, 1]) \
                - w.slot
            if step < 0 or step > 1 << 62:
                step = 1
        w.slot = min(w.slot + step, END)

    def near(self, n):
        """an amount around n, or some part of it"""
        r = self.r
        c = r.random()
        if c < .35:
            return r.randint(0, max(1, n))
        if c < .6:
            return r.randint(0, max(1, n // r.choice([10, 100, 10**4, 10**6])))
        if c < .72:
            return max(0, min(U64, n + r.choice([-1, 0, 0, 1])))
        if c < .9:
            return r.randint(1, 9)
        if c < .93:
            return 0
        if c < .95:
            return U64
        return min(U64, r.randint(0, max(1, 3 * n)))

    # -- requests --

    def op_toll(self):
        self.w.create_toll(self.r.choice(["upg", "upg", "mallory", "adm"]),
                           self.r.choice(["tolladm", "mallory"]),
                           o=dict(data="other_data")
                           if self.r.random() < .3 else None)

    def op_dset(self):
        self.w.create_dset(self.r.choice(["upg", "upg", "mallory", "adm"]),
                           self.r.choice(["discadm", "mallory"]),
                           o=dict(data="other_data")
                           if self.r.random() < .3 else None)

    def op_pool(self):
        r = self.r
        w = self.w
        c = r.random()
        if c < .2:
            p = r.choice(self.pools)
            self.create(p)
            return
        p = "P2"
        n = r.choice([1, 2, 2, 2, 3, 4, 4])
        ms = r.sample(MINTS, n)
        vaults = [f"pv:{p}:{m}" for m in ms]
        lp, toll = "lp:P2", "toll/P2"
        c = r.random()
        if c < .5:
            v = r.choice(["pd", "pc", "pb", "po", "pn", "pf", "p2", "p2"]) \
                + ":P2:M0"
            vaults[r.randrange(n)] = v
        elif c < .65:
            lp = r.choice(["lf:P2", "la:P2"])
            toll = "toll/" + lp[:2] + "P2"
        elif c < .8:
            vaults = (vaults + [vaults[0], "pv:P2:M3", "pv:P2:M2"])[:r.choice(
                [n + 1, 5])]
        elif c < .85:
            vaults = []
        elif c < .92:
            toll = r.choice(["toll/P0", "u0/lp:P2"])
        r.shuffle(vaults)
        if w.pool(p, r.choice(["adm", "mallory"]), lp, toll, vaults,
                  r.choice([0, 0, 1, 10, 100, U64]))["ok"]:
            self.pools.append(p)
            if lp == "lp:P2":
                self.first(p)

    def op_fee(self):
        r = self.r
        self.w.set_fee(self.pool(), r.choice(["adm"] * 6 + USERS), r.choice(
            [0, 1, 30, 3000, 9999, 10000, 10001, U64, r.randint(0, 10000)]))

    def op_discount(self):
        r, w = self.r, self.w
        w.discount(r.choice(["discadm"] * 8 + USERS), r.choice(TRADERS),
                   r.choice([0, 1, 333333, 500000, 999999, 10**6, 10**6 + 1,
                             U64, r.randint(0, 10**6)]),
                   max(0, min(U64, w.slot + r.choice([-1, 0, 1, 1, 2, 5, 100,
                                                      U64]))))

    def limits(self, p, amts):
        """the limits as a list, which may not be quite right"""
        r = self.r
        lim = list(amts)
        c = r.random()
        if c < .03:
            lim = lim[1:]
        elif c < .06:
            lim.append((r.choice(MINTS), r.randint(0, 10)))
        elif c < .3:
            r.shuffle(lim)
        return lim

    def op_deposit(self, p=None, u=None):
        r, w = self.r, self.w
        p = p or self.pool()
        u = u or self.trader()
        ms = self.mints(p)
        if self.is_pool(p) and self.supply(p) == 0 and r.random() < .7:
            self.first(p)
            return
        c = r.random()
        if c < .5:
            k = self.near(10**6) if r.random() < .8 else 10**6
            d = 10 ** r.choice([5, 6, 7, 9])
            amts = [(m, min(U64, self.tok(p, m) * k // d
                            + r.choice([0, 0, 0, 1, -1, r.randint(0, 1000)])))
                    for m in ms]
        else:
            amts = [(m, self.near(self.tok(p, m) or self.scale)) for m in ms]
        amts = [(m, max(0, a)) for m, a in amts]
        o = rem = None
        if r.random() < .04:
            o = dict(lp_wallet=self.trader() + "/lp:" + p)
        if r.random() < .06 and self.is_pool(p):
            rem = [n for x in w.st[p]["res"] for n in (
                x["vault"], u + "/" + x["mint"])]
            self.scramble(rem, p)
        return w.deposit(p, u, self.limits(p, amts), o=o, rem=rem)

    def scramble(self, rem, p):
        r = self.r
        c = r.random()
        m = r.choice(self.mints(p))
        i = r.randrange(len(rem))
        if c < .2:
            rem[i] = r.choice([f"p2:{p}:M0", f"u0/{m}f", f"u1/{m}",
                               f"pv:P1:{m}"])
        elif c < .3:
            del rem[i]
        elif c < .4:
            rem += rem[:2]
        elif c < .5:
            rem[-2:] = rem[:2]
        elif c < .6:
            rem[i - i % 2 + 1] = rem[i - i % 2]
        elif c < .8:
            pairs = [rem[k:k + 2] for k in range(0, len(rem), 2)]
            r.shuffle(pairs)
            rem[:] = [n for x in pairs for n in x]
        else:
            j = i - i % 2
            rem[j], rem[j + 1] = rem[j + 1], rem[j]

    def op_redeem(self, p=None, u=None, lp=None):
        r, w = self.r, self.w
        p = p or self.pool()
        holders = [x for x in USERS if self.amt_of(f"{x}/lp:{p}")]
        u = u or (r.choice(holders) if holders and r.random() < .9
                  else self.trader())
        have = self.amt_of(f"{u}/lp:{p}")
        if lp is None:
            lp = self.near(have)
            if r.random() < .05:
                lp = have
        sup = self.supply(p) if "lp:" + p in w.st else 0
        mins = []
        for m in self.mints(p):
            share = self.tok(p, m) * lp // sup if sup else 0
            mins.append((m, r.choice([0, 0, 0, 0, 0, 0, share // 2, share,
                                      max(0, share - 1), min(share + 1, U64)])
                         if share <= U64 else 0))
        o = rem = None
        if r.random() < .04:
            o = dict(lp_wallet=self.trader() + "/lp:" + p)
        if r.random() < .06 and self.is_pool(p):
            rem = [n for x in w.st[p]["res"] for n in (
                x["vault"], u + "/" + x["mint"])]
            self.scramble(rem, p)
        return w.redeem(p, u, lp, self.limits(p, mins), o=o, rem=rem)

    def sells(self, p, a):
        return self.near(min(self.tok(p, a) // self.r.choice([1, 1, 10]), U64))

    def op_swap(self, p=None, u=None, pair=None, sell=None):
        r, w = self.r, self.w
        p = p or self.pool()
        u = u or self.trader()
        a, b = pair or r.sample(
            self.mints(p) * (2 if r.random() < .06 else 1), 2)
        if sell is None:
            sell = self.sells(p, a)
        # the least the trader takes, often around what it will be
        mn = 0
        x, y = self.tok(p, a), self.tok(p, b)
        if r.random() < .25 and x:
            mn = y * sell // (x + sell) if not self.w.st.get(p, {}).get(
                "stable") else sell
            mn = max(0, mn + r.choice([-2, -1, -1, 0, 0, 1, 2]))
            mn = min(mn, U64)
        o = None
        c = r.random()
        if c < .03:
            o = dict(sell_wallet=f"u0/{a}f")
        elif c < .06:
            o = dict(discount="disc:" + r.choice(TRADERS))
        elif c < .08:
            o = dict(buy_wallet=self.trader() + "/" + b)
        elif c < .1:
            o = dict(sell_vault=f"p2:{p}:{a}")
        elif c < .12:
            o = dict(buy_vault=f"p2:{p}:{b}")
        elif c < .14:
            o = dict(toll_wallet=u + "/lp:" + p)
        return w.swap(p, u, a, b, sell, mn, o=o)

    def op_back(self):
        """a swap and another one back"""
        r, w = self.r, self.w
        p, u = self.pool(), self.trader()
        if not self.is_pool(p):
            return
        a, b = r.sample(self.mints(p), 2)
        have = self.amt_of(f"{u}/{b}")
        if r.random() < .7:
            u = r.choice(["u0", "u1"])
            have = self.amt_of(f"{u}/{b}")
        if not self.op_swap(p, u, (a, b))["ok"]:
            return
        got = self.amt_of(f"{u}/{b}") - have
        if got > 0:
            w.swap(p, u, b, a, got)

    def op_inout(self):
        """a deposit and its redemption"""
        r = self.r
        p, u = self.pool(), r.choice(["u0", "u1"])
        if not self.is_pool(p):
            return
        have = self.amt_of(f"{u}/lp:{p}")
        x = self.op_deposit(p, u)
        if x and x["ok"]:
            got = self.amt_of(f"{u}/lp:{p}") - have
            if got > 0:
                self.w.redeem(p, u, got, [(m, 0) for m in self.mints(p)])

    def op_transfer(self):
        w, r = self.w, self.r
        m = r.choice(MINTS + ["lp:P0"])
        u = r.choice(USERS[:5])
        frm = f"{u}/{m}"
        to = r.choice(sorted(n for n in w.st if w.st[n]["k"] == "tok"
                             and w.st[n]["mint"] == m))
        if r.random() < .1:
            frm, u = to, self.trader()
        w.transfer(frm, to, u, self.near(self.amt_of(frm) // 8))


    # -- what could happen now --

    def chains(self):
        """sequences of requests which any state allows to be tried, by kind"""
        w, r = self.w, self.r
        out = {}

        def put(kind, *steps):
            out.setdefault(kind, []).append(steps)

        def c(f, *a, **k):
            return capture(w, f, *a, **k)

        now = w.slot
        for p in self.pools:
            if not self.is_pool(p):
                continue
            pool = w.st[p]
            ms = self.mints(p)
            sup = w.st[pool["lp"]]["supply"]
            u = r.choice(["u0", "u1", "u2"])
            whole = {}
            for holder in ("u0", "u1"):
                have = self.amt_of(f"{holder}/lp:{p}")
                for n in {1, 2, have, have - 1, have + 1, have // 2, sup,
                          have // 1000, r.randint(0, have)}:
                    if not 0 <= n <= U64:
                        continue
                    x = c(w.redeem, p, holder, n, [(m, 0) for m in ms])
                    put("redeem", (now, x))
                    share = [(m, self.tok(p, m) * n // sup if sup else 0)
                             for m in ms]
                    if all(s <= U64 for _, s in share):
                        i = r.randrange(len(ms))
                        for d in (-1, 0, 1):
                            lim = [(m, max(0, s + d if j == i else s - 1))
                                   for j, (m, s) in enumerate(share)]
                            put("redeem", (now, c(w.redeem, p, holder, n,
                                                  lim)))
                whole[holder] = c(w.redeem, p, holder, have,
                                  [(m, 0) for m in ms])
            put("empty", (now, whole["u0"]), (now, whole["u1"]),
                (now, c(w.deposit, p, "u0", [(m, 100 + i) for i, m
                                             in enumerate(ms)])),
                (now, c(w.swap, p, "u1", ms[0], ms[1], 7)))
            for k, d in ((1, 1), (1, 10), (1, 1000), (1, 10**6), (7, 3),
                         (r.randint(1, 10**6), 10**6)):
                amts = [(m, min(U64, max(1, self.tok(p, m) * k // d)))
                        for m in ms]
                i = r.randrange(len(ms))
                for m, a in (None, 0), (ms[i], 1), (ms[i], -1), (ms[i], 10):
                    lim = [(y, min(U64, max(0, x + a if y == m else x)))
                           for y, x in amts]
                    put("deposit", (now, c(w.deposit, p, u, lim)))
                put("deposit", (now, c(w.deposit, p, u, [
                    (y, 1 if y == ms[i] else x) for y, x in amts])))
                put("deposit", (now, c(w.deposit, p, u, [
                    (y, x if y == ms[i] else U64) for y, x in amts])))
                put("both", (now, c(w.deposit, p, u, amts)),
                    (now, whole["u0"]), (now, whole["u1"]))
            a, b = r.sample(ms, 2)
            x = self.tok(p, a)
            for n in {1, 2, 3, 9, x // 10**6, x // 1000, x // 100, x // 10,
                      x // 2, x - 1, x, x + 1, x + x // 90,
                      r.randint(0, max(1, x)), U64}:
                if 0 <= n <= U64:
                    s = c(w.swap, p, u, a, b, n)
                    put("swap", (now, s), (now, s))
                    put("swaps", (now, s), (now, c(
                        w.swap, p, u, b, a, min(U64, n // 2 + 1))), (now, s))
            s = c(w.swap, p, "u0", a, b, max(1, x // 100))
            for f in (0, 1, 333, 9999, 10000, 10001, r.randint(0, 10000)):
                put("fee", (now, c(w.set_fee, p, "adm", f)), (now, s))
            for n in (0, 1, 333333, 999999, 10**6, 10**6 + 1,
                      r.randint(0, 10**6)):
                end = min(U64, now + 3)
                d = c(w.discount, "discadm", "u0", n, end)
                for at in (now, end - 1, end, min(U64, end + 1)):
                    put("discount", (now, d), (at, s))
                put("discount", (now, d), (now, c(
                    w.discount, "discadm", "u0", 10, now + 1)), (now + 1, s),
                    (now + 2, s))
            put("discount", (now, c(w.discount, "discadm", "u0", 7, now)))
        return out

    def probe(self, b, n):
        """tries some of what could happen now"""
        kinds = self.chains()
        names = sorted(kinds)
        for _ in range(n if names else 0):
            b.chain(self.r.choice(kinds[self.r.choice(names)]))


def random_trace(w, rng, steps, b=None, probes=10, chance=.1, **kw):
    d = Amm(w, rng, **kw)
    for _ in range(steps):
        d.step()
        if b and rng.random() < chance:
            d.probe(b, probes)
