"""Every way to get a valid request wrong: in states in which all kinds of
requests are valid, each is tried with every other account in each role, with
other signers, with the accounts of another user, farm, pool or mint in any
combination of roles, and with other amounts; all of them from the very same
state of the real program."""
import json, os, time
from world import END, U64, World, sane

PROGRAM_ROLES = ("token_program", "system_program", "rent")


class Hopeless(Exception):
    """the program is so wrong that trying goes on and on"""


class Branches:
    """Collects a tree of events: what happens in a world, which it listens to
    as its output, and requests tried where the world is at the time."""

    def __init__(self, limit=10**6, seconds=10**6):
        self.lines = []
        self.d = 0
        self.limit, self.deadline = limit, time.time() + seconds

    def write(self, line):
        e = json.loads(line)
        if e["a"] == "init":
            self.d = 0
        self._add(e)
        self.d += 1

    def _add(self, e):
        if len(self.lines) > self.limit or time.time() > self.deadline:
            raise Hopeless()
        x = {k: e[k] for k in ("a", "slot", "sig", "acc", "rem", "x")}
        self.lines.append(json.dumps(dict(x, d=self.d, t=0, n=self.d)))

    def flush(self):
        pass

    def attempt(self, slot, a, acc, sig, x, rem):
        self._add(dict(a=a, slot=slot, sig=sig, acc=acc, rem=rem,
                       x=sane(x)))

    def chain(self, steps):
        """requests one after another, each with the slot"""
        d, now = self.d, 0
        for slot, (a, acc, sig, x, rem) in steps:
            now = max(now, min(slot, END))
            self.attempt(now, a, acc, sig, x, rem)
            self.d += 1
        self.d = d


def capture(w, f, *args, **kw):
    """the request which would have been made"""
    out = []

    def go(a, acc, sig, x=None, rem=(), o=None, s=None):
        out.append((a, {**acc, **(o or {})}, list(sig if s is None else s),
                    dict(x or {}), list(rem)))
        return dict(ok=False)

    w.go = go
    try:
        f(*args, **kw)
    finally:
        del w.go
    return out[0]


def renamed(n, frm, to):
    """an account's name with a part of what it is derived from replaced"""
    if n == frm:
        return to
    for sep in ":", "/":
        if sep in n:
            return sep.join(renamed(p, frm, to) for p in n.split(sep))
    return n


def alike(w, n):
    """the accounts of the same kind"""
    st = w.st
    if n in st:
        k = st[n]["k"]
        return [m for m in st if st[m]["k"] == k and m != n]
    return []


def variants(w, req, users, renames, programs=(), extra=(), odd=4, rng=None):
    a, acc, sig, x, rem = req
    yield acc, sig, x, rem
    names = sorted(w.st)
    # one account is another one
    for role, was in acc.items():
        new = alike(w, was)
        if was in users:
            new = [u for u in users if u != was]
        new = new + list(extra)
        if rng:
            new += rng.sample(names, min(odd, len(names)))
        for n in new:
            if n == was:
                continue
            other = {**acc, role: n}
            yield other, sig, x, rem
            if n in users:
                if was in sig:
                    yield other, [n if s == was else s for s in sig], x, rem
                yield other, [*sig, n], x, rem
    # two accounts are others, and whoever they are signs
    roles = list(acc)
    for i, role in enumerate(roles if rng else ()):
        for role2 in roles[:i]:
            for _ in range(max(1, odd // 2)):
                other, signed = dict(acc), list(sig)
                for r in role, role2:
                    was = acc[r]
                    new = alike(w, was) + [renamed(was, *f) for f in renames] \
                        + list(extra)
                    if was in users:
                        new += users
                    new = [n for n in new if n != was]
                    if new:
                        other[r] = rng.choice(new)
                        if other[r] in users:
                            signed = [other[r] if s == was else s
                                      for s in signed]
                yield other, signed, x, rem
    for role in programs:
        for n in (*PROGRAM_ROLES, "mallory", "amm_program"):
            if n != role:
                yield {**acc, role: n}, sig, x, rem
    # the remaining ones
    for i, was in enumerate(rem):
        for n in alike(w, was) + list(extra):
            yield acc, sig, x, rem[:i] + [n] + rem[i + 1:]
        yield acc, sig, x, rem[:i] + rem[i + 1:]
    if rem:
        for k in (1, 2):
            yield acc, sig, x, rem + rem[:k]
            yield acc, sig, x, rem[k:] + rem[:k]
            yield acc, sig, x, rem[:-k]
        yield acc, sig, x, []
        for i in range(0, len(rem) - 1):
            yield acc, sig, x, rem[:i] + [rem[i + 1], rem[i]] + rem[i + 2:]
        for i in range(0, len(rem) - 3, 2):
            yield (acc, sig, x,
                   rem[:i] + rem[i + 2:i + 4] + rem[i:i + 2] + rem[i + 4:])
    # other people sign
    for m in range(1 << len(sig)):
        some = [s for i, s in enumerate(sig) if m >> i & 1]
        yield acc, some, x, rem
        for u in users:
            yield acc, [*some, u], x, rem
    # consistently somebody else's, in some of the roles
    for frm, to in renames:
        roles = [r for r in acc if renamed(acc[r], frm, to) != acc[r]]
        inrem = [i for i, n in enumerate(rem) if renamed(n, frm, to) != n]
        inx = [k for k, v in x.items() if isinstance(v, str)
               and renamed(v, frm, to) != v]
        spots = [("acc", r) for r in roles] + [("rem", i) for i in inrem] \
            + [("x", k) for k in inx]
        masks = range(1, 1 << len(spots))
        if len(spots) > 6 and rng:
            masks = [rng.randrange(1, 1 << len(spots)) for _ in range(48)] \
                + [(1 << len(spots)) - 1]
        for m in masks:
            acc2, rem2, x2 = dict(acc), list(rem), dict(x)
            for i, (where, k) in enumerate(spots):
                if m >> i & 1:
                    if where == "acc":
                        acc2[k] = renamed(acc[k], frm, to)
                    elif where == "rem":
                        rem2[k] = renamed(rem[k], frm, to)
                    else:
                        x2[k] = renamed(x[k], frm, to)
            yield acc2, sig, x2, rem2
            if frm in sig:
                yield acc2, [to if s == frm else s for s in sig], x2, rem2


def numbers(w, req, around):
    """other amounts"""
    a, acc, sig, x, rem = req
    for k, v in x.items():
        if isinstance(v, int):
            for n in {0, 1, 2, v - 1, v + 1, v // 2, v * 2, U64, U64 - 1,
                      1 << 63, *around}:
                if 0 <= n <= U64:
                    yield acc, sig, {**x, k: n}, rem


def attempt(w, b, rng, reqs, users, renames, programs, extra=(), around=(),
            limit=None, odd=4):
    """all variants of the requests, or a sample of them; each once"""
    seen, out = set(), []
    for req in reqs:
        a = req[0]
        every = list(variants(w, req, users, renames, programs.get(a, ()),
                              extra, odd, rng))
        every += list(numbers(w, req, around))
        for acc, sig, x, rem in every:
            sig = list(dict.fromkeys(sig))
            k = json.dumps([a, acc, sorted(sig), x, rem], sort_keys=True)
            if k not in seen:
                seen.add(k)
                out.append((a, acc, sig, x, rem))
    if limit and len(out) > limit:
        out = [out[i] for i in sorted(rng.sample(range(len(out)), limit))]
    for a, acc, sig, x, rem in out:
        b.attempt(w.slot, a, acc, sig, x, rem)
    return len(out)


def sparing(w, b, build, reqs):
    """what is needed, a token less and a token more is all that a wallet
    holds which tokens are taken from"""
    count = 0
    for a, acc, sig, x, rem in reqs:
        t = World(open(os.devnull, "w"), w.target)
        try:
            build(t)
            t.slot = w.slot
            before = {n: v["amt"] for n, v in t.st.items() if v["k"] == "tok"}
            if not t.do(a, sig, acc, x, rem)["ok"]:
                continue
            taken = {n: before[n] - v["amt"] for n, v in t.st.items()
                     if n in before and before[n] > v["amt"]}
        finally:
            t.close()
        for n, amt in taken.items():
            own, mint = w.st[n]["own"], w.st[n]["mint"]
            spare = [m for m, v in w.st.items() if v["k"] == "tok"
                     and (v["own"], v["mint"], v["amt"], v["x"])
                     == (own, mint, 0, "") and m not in acc.values()]
            if ":" in own or not spare:
                continue
            for k in {0, 1, amt - 2, amt - 1, amt, amt + 1}:
                if k < 0:
                    continue
                r = (a, {**acc, **{q: spare[0] for q in acc if acc[q] == n}},
                     sig, x, [spare[0] if m == n else m for m in rem])
                b.chain([(w.slot, ("transfer", {
                    "from": n, "to": spare[0], "authority": own}, [own],
                    dict(amt=k), [])), (w.slot, r), (w.slot, r)])
                count += 3
    return count


# -- farming --

FUSERS = ["adm", "boss", "u0", "u1", "u2", "mallory"]
FMINTS = ["S0", "H0", "H1", "S1"]
FRENAMES = [("u0", "u1"), ("F0", "F1"), ("F0", "F2"), ("F1", "F0"),
            ("F0", "F3"), ("F1", "F3"), ("F3", "F0"), ("H0", "S0"), ("S0", "H0"), ("adm", "boss"), ("adm", "u0"),
            ("boss", "adm")]


def farming_world(w, amt=10**9):
    """two farms of different owners for the same mint, one for another, and
    one which differs in both, in which farmers have stake, vested funds and harvest"""
    toks = [dict(n=f"{u}/{m}", mint=m, own=u, amt=amt)
            for u in FUSERS for m in FMINTS]
    toks += [dict(n="u0/S0f", mint="S0", own="u0", amt=amt, frozen=1),
             dict(n="u0/S0x", mint="S0", own="u0", amt=amt),
             dict(n="u0/H0x", mint="H0", own="u0", amt=amt),
             dict(n="fake/S0", mint="S0", own="fs:F0", amt=amt),
             dict(n="fake/H0", mint="H0", own="fs:F0", amt=amt),
             dict(n="fake/H1", mint="H1", own="fs:F0", amt=0),
             *[dict(n=f"{u}/{m}e", mint=m, own=u, amt=0)
               for u in FUSERS[:4] for m in FMINTS],
             dict(n="u1/H0d", mint="H0", own="u1", amt=amt, delegate="u2",
                  close="u2")]
    # wallets of which others may take some
    toks += [dict(n=f"u1/{m}d{u}", mint=m, own="u1", amt=amt, delegate=u,
                  dam=dam)
             for m, u, dam in (("S0", "u0", 300), ("S0", "u2", amt),
                               ("H0", "adm", 5000), ("H0", "boss", 0),
                               ("H0", "u0", 7), ("S0", "u1", 100))]
    w.init(1, users=FUSERS, farms=["F0", "F1", "F2", "F3", "Z"],
           mints=[dict(n=m, auth="boss", supply=U64, decimals=6)
                  for m in FMINTS], toks=toks)
    for f, a, m in (("F0", "adm", "S0"), ("F1", "boss", "S0"),
                    ("F2", "adm", "H0"), ("F3", "boss", "S1")):
        w.create_farm(f, a, m)
        w.window(f, a, 3)
        for h in ("H0", "S0"):
            w.add_harvest(f, a, h)
    w.add_harvest("F0", "adm", "S1")
    for f, g in (("F0", "F0"), ("F0", "F1"), ("F2", "F0"), ("F1", "F1"),
                 ("F0", "F3")):
        w.whitelist(f, g, w.st[f]["admin"])
    for f in ("F0", "F1", "F2"):
        for u in ("u0", "u1"):
            w.create_farmer(f, u)
            w.start(f, u, 1000)
    w.create_farmer("F0", "u2")
    w.create_farmer("F1", "u2")
    w.slot = 4
    for f in ("F0", "F1", "F2"):
        w.snapshot(f)
    w.slot = 5
    for f in ("F0", "F1", "F2"):
        a = w.st[f]["admin"]
        for h in ("H0", "S0"):
            w.period(f, a, h, 0, 20, 100)
            w.period(f, a, h, 40, 10, 70)
    w.slot = 6
    for u in ("u0", "u1"):
        w.start("F0", u, 300)
    w.update("F1", "u0")
    w.slot = 8


def farming_requests(w):
    c = lambda f, *a, **k: capture(w, f, *a, **k)
    yield c(w.create_farm, "Z", "adm", "S0")
    yield c(w.add_harvest, "F0", "adm", "H1")
    yield c(w.remove_harvest, "F0", "adm", "S1")
    yield c(w.remove_harvest, "F0", "adm", "H0")
    yield c(w.set_farm_owner, "F0", "adm", "boss")
    yield c(w.set_farm_owner, "F0", "adm", "adm")
    yield c(w.period, "F0", "adm", "H0", 30, 5, 10)
    yield c(w.period, "F0", "adm", "H0", 40, 30, 100)
    yield c(w.period, "F0", "adm", "S1", 0, 5, 10)
    yield c(w.snapshot, "F0")
    yield c(w.window, "F0", "adm", 5)
    yield c(w.create_farmer, "F0", "mallory")
    yield c(w.create_farmer, "F2", "u2", "boss")
    yield c(w.close_farmer, "F0", "u2")
    yield c(w.close_farmer, "F0", "u0")
    yield c(w.start, "F0", "u0", 50)
    yield c(w.start, "F0", "u0", 50, "u1")
    yield c(w.stop, "F0", "u0", 500)
    yield c(w.update, "F0", "u0")
    yield c(w.update, "F0", "u0", 7)
    yield c(w.claim, "F0", "u0", ["H0"])
    yield c(w.claim, "F0", "u0", ["H0", "S0"])
    yield c(w.whitelist, "F1", "F0", "boss")
    yield c(w.whitelist, "F0", "F1", "adm", no=True)
    yield c(w.whitelist, "F0", "F2", "adm")
    yield c(w.whitelist, "F2", "F3", "adm")
    yield c(w.whitelist, "F0", "F3", "adm", no=True)
    yield c(w.compound, "F0", "u0")
    yield c(w.compound_across, "F0", "F1", "u0")
    yield c(w.compound_across, "F2", "F0", "u0")
    yield c(w.airdrop, "F0", "u0", "H0", 9, "u1")
    yield c(w.airdrop, "F0", "u0", "S0", 9, "u0")
    # with what others let them have
    for u, n in (("u0", 300), ("u0", 299), ("u0", 301), ("u1", 100),
                 ("u1", 101)):
        yield c(w.start, "F0", u, n, o=dict(wallet=f"u1/S0d{u}"))
        yield c(w.airdrop, "F0", "u0", "S0", n, u,
                o=dict(wallet=f"u1/S0d{u}"))
    for n in 570, 569, 571:
        yield c(w.period, "F0", "adm", "H0", 40, n, 10,
                o=dict(wallet="u1/H0dadm"))


def wide(w, b, rng):
    """as many mints as there can be, each of them in every place"""
    ms = [f"H{i}" for i in range(9)] + ["S0"]
    spare = ["X0", "X1"]
    w.init(1, users=["adm", "u0", "u1"], farms=["F0", "F1"],
           mints=[dict(n=m, auth="adm", supply=U64, decimals=6)
                  for m in ms + spare],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**9)
                 for u in ("adm", "u0", "u1") for m in ms + spare])
    for f in ("F0", "F1"):
        w.create_farm(f, "adm", "S0")
        w.window(f, "adm", 1)
    w.whitelist("F0", "F0", "adm")
    w.whitelist("F0", "F1", "adm")

    def c(f, *a, **k):
        return capture(w, f, *a, **k)

    def now(*reqs):
        b.chain([(w.slot, r) for r in reqs])

    w.create_farmer("F0", "u1")
    w.start("F0", "u1", 300)
    # periods of all kinds while there are more and more mints
    for i, m in enumerate(ms):
        now(c(w.add_harvest, "F0", "adm", spare[0]),
            c(w.period, "F0", "adm", spare[0], 0, 2, 5))
        w.add_harvest("F0", "adm", m)
        kind = i % 5
        if kind == 1:
            w.period("F0", "adm", m, 0, 500, 0)
        elif kind == 2:
            w.period("F0", "adm", m, w.slot + 100, 50, 7 + i)
        elif kind == 3:
            w.period("F0", "adm", m, 0, 2, 7 + i)
        elif kind == 4:
            w.period("F0", "adm", m, 0, 400, 7 + i)
        w.slot += 2
        w.snapshot("F0")
        if i in (4, 9):
            for x in ms[:i + 1]:
                now(c(w.remove_harvest, "F0", "adm", x),
                    c(w.add_harvest, "F0", "adm", spare[0]),
                    c(w.add_harvest, "F0", "adm", x),
                    c(w.update, "F0", "u1"))
                now(c(w.period, "F0", "adm", x, w.slot + 300, 3, 5),
                    c(w.period, "F0", "adm", x, w.slot + 200, 2, 1))
    now(c(w.add_harvest, "F0", "adm", spare[0]))
    now(c(w.add_harvest, "F0", "adm", ms[3]))
    for f in ("F0", "F1"):
        w.create_farmer(f, "u0")
    # small records, in any place
    amounts = [1, 0, 2, 1, 1000, 1, 3, 0, 1, 1]
    for shift in range(3):
        for i, m in enumerate(ms):
            n = amounts[(i + shift) % 10]
            if n:
                w.airdrop("F0", "u0", m, n, "adm")
        has = w.st["fm:F0:u0"]["har"]
        every, close = c(w.claim, "F0", "u0", ms), c(w.close_farmer, "F0",
                                                      "u0")
        now(every, close)
        for i, m in enumerate(ms):
            now(c(w.claim, "F0", "u0", [m]), every, close)
            now(c(w.claim, "F0", "u0", ms[:i] + ms[i + 1:]), close,
                c(w.claim, "F0", "u0", [m]), close)
            now(c(w.claim, "F0", "u0", ms[i:]), every)
            now(c(w.claim, "F0", "u0", [m, ms[i - 1]]), every)
            now(c(w.claim, "F0", "u0", [m, rng.choice(ms), m]), every)
            now(c(w.airdrop, "F0", "u0", m, 2, "u1"), every)
            if has[m]:
                # only this one is left
                now(c(w.claim, "F0", "u0", ms[:i] + ms[i + 1:]),
                    c(w.start, "F0", "u0", 1), c(w.stop, "F0", "u0", 1),
                    close)
        now(c(w.compound, "F0", "u0"), every, close)
        now(c(w.compound_across, "F0", "F1", "u0"), every, close)
        w.claim("F0", "u0", ms)
    # everybody earns everything
    w.start("F0", "u0", 100)
    w.slot += 1
    w.snapshot("F0")
    for i, m in enumerate(ms):
        w.period("F0", "adm", m, 0, 30, 10 + i)
        w.period("F0", "adm", m, w.slot + 40 + i, 3, 20 + i)
    w.slot += 5
    for u in ("u0", "u1"):
        now(c(w.update, "F0", u), c(w.claim, "F0", u, ms))
    for s in (1, 31, 32, 40, 44, 52, 60):
        for u in ("u0", "u1"):
            b.chain([(w.slot + s, c(w.update, "F0", u)),
                     (w.slot + s + 9, c(w.claim, "F0", u, ms)),
                     (w.slot + s + 9, c(w.stop, "F0", u, U64)),
                     (w.slot + s + 9, c(w.claim, "F0", u, ms)),
                     (w.slot + s + 9, c(w.close_farmer, "F0", u))])
    w.update("F0", "u0")
    w.stop("F0", "u0", U64)
    every, close = c(w.claim, "F0", "u0", ms), c(w.close_farmer, "F0", "u0")
    now(close)
    for i, m in enumerate(ms):
        now(c(w.claim, "F0", "u0", ms[:i] + ms[i + 1:]), close,
            c(w.claim, "F0", "u0", [m]), close)
    # nothing but stake, or nothing but vested funds
    for n in (1, 2):
        now(every, c(w.start, "F0", "u0", n), close, c(
            w.stop, "F0", "u0", 1), close)
        b.chain([(w.slot, every), (w.slot, c(w.start, "F0", "u0", n)),
                 (w.slot + 1, c(w.snapshot, "F0")),
                 (w.slot + 2, c(w.update, "F0", "u0")),
                 (w.slot + 2, every), (w.slot + 2, close)])


def farming(w, b, rng, limit):
    wide(w, b, rng)
    from farming import PROGRAMS
    farming_world(w)
    reqs = list(farming_requests(w))
    return sparing(w, b, farming_world, reqs) + attempt(w, b, rng, reqs, FUSERS, FRENAMES, PROGRAMS,
                   extra=["fs:F0", "fs:F1", "hv:F0:H1", "fm:F0:mallory"],
                   around=[3, 4, 5, 6, 7, 8, 9, 40, 300, 1000, 1299, 1300,
                           1301, 10**9, 10**9 + 1, 7200],
                   limit=limit)


# -- amm --

AUSERS = ["adm", "u0", "u1", "mallory", "upg", "tolladm", "discadm"]
AMINTS = ["M0", "M1", "M2", "M3"]
ARENAMES = [("u0", "u1"), ("P0", "P1"), ("P1", "P0"), ("P2", "P0"),
            ("M0", "M1"), ("M1", "M0"), ("M0", "M2"), ("adm", "u0"),
            ("upg", "adm"), ("discadm", "u0")]


def amm_world(w, amp=0, amt=10**9, settings=True):
    toks, mints = [], []
    for m in AMINTS:
        mints.append(dict(n=m, auth="adm", supply=U64, decimals=6))
        toks += [dict(n=f"{u}/{m}", mint=m, own=u, amt=amt)
                 for u in AUSERS[:4]]
        toks.append(dict(n=f"u0/{m}f", mint=m, own="u0", amt=amt, frozen=1))
        toks.append(dict(n=f"u0/{m}x", mint=m, own="u0", amt=amt))
    for p in ("P0", "P1", "P2"):
        lp = "lp:" + p
        mints.append(dict(n=lp, auth="ps:" + p, supply=0, decimals=6))
        toks += [dict(n=f"{u}/{lp}", mint=lp, own=u, amt=0)
                 for u in AUSERS[:4]]
        toks += [dict(n="toll/" + p, mint=lp, own="tolladm", amt=0),
                 dict(n="tollx/" + p, mint=lp, own="tolladm", amt=0),
                 dict(n="tollu/" + p, mint=lp, own="u0", amt=0)]
        toks += [dict(n=f"pv:{p}:{m}", mint=m, own="ps:" + p, amt=0)
                 for m in AMINTS]
    toks += [dict(n=f"{u}/{m}e", mint=m, own=u, amt=0)
             for u in ("u0", "u1")
             for m in AMINTS[:3] + ["lp:P0", "lp:P1"]]
    # accounts which look right at a glance
    mints += [dict(n="lf:P2", auth="ps:P2", freeze="adm", supply=0,
                   decimals=6),
              dict(n="la:P2", auth="adm", supply=0, decimals=6)]
    for lp in ("lf:P2", "la:P2"):
        toks.append(dict(n="toll/" + lp, mint=lp, own="tolladm", amt=0))
    for m in ("M0", "M1"):
        toks += [dict(n=f"pd:P2:{m}", mint=m, own="ps:P2", amt=0,
                      delegate="adm"),
                 dict(n=f"pc:P2:{m}", mint=m, own="ps:P2", amt=0, close="adm"),
                 dict(n=f"pb:P2:{m}", mint=m, own="ps:P2", amt=0,
                      delegate="adm", close="u1"),
                 dict(n=f"po:P2:{m}", mint=m, own="adm", amt=0),
                 dict(n=f"pn:P2:{m}", mint=m, own="ps:P2", amt=5),
                 dict(n=f"pf:P2:{m}", mint=m, own="ps:P2", amt=0, frozen=1),
                 dict(n=f"p2:P0:{m}", mint=m, own="ps:P0", amt=10**9)]
    # wallets of which others may take some
    toks += [dict(n=f"u1/{m}d{u}", mint=m, own="u1", delegate=u, dam=dam,
                  amt=0 if m[0] == "l" else 10**9)
             for m, u, dam in (("M0", "u0", 10**9), ("M1", "u0", 1500),
                               ("M0", "u1", 10**6), ("M1", "u1", 700),
                               ("lp:P0", "u0", 6000), ("lp:P1", "u1", 10**9))
             ]
    mints.append(dict(n="ls:P2", auth="ps:P2", supply=50, decimals=6))
    toks += [dict(n="u0/ls:P2", mint="ls:P2", own="u0", amt=50),
             dict(n="toll/ls:P2", mint="ls:P2", own="tolladm", amt=0)]
    for m in AMINTS[:3]:
        toks += [dict(n=f"sv:P2:{m}", mint=m, own="ps:P2", amt=50),
                 dict(n=f"sx:P2:{m}", mint=m, own="ps:P2", amt=70)]
    for k, x in (("sd", dict(delegate="adm")), ("sc", dict(close="adm")),
                 ("sb", dict(delegate="adm", close="u1")),
                 ("so", dict(own="adm")), ("sf", dict(frozen=1))):
        toks.append({**dict(n=f"{k}:P2:M0", mint="M0", own="ps:P2", amt=50),
                     **x})
    w.init(100, users=AUSERS, mints=mints, toks=toks, farms=[],
           pools=["P0", "P1", "P2", "P3"], upgrade_authority="upg")
    if not settings:
        return
    w.create_toll("upg", "tolladm")
    w.create_dset("upg", "discadm")
    w.pool("P0", "adm", "lp:P0", "toll/P0",
           [f"pv:P0:{m}" for m in AMINTS[:3]], amp)
    w.pool("P1", "adm", "lp:P1", "toll/P1",
           [f"pv:P1:{m}" for m in AMINTS[:2]], 0)
    w.set_fee("P0", "adm", 10000)
    for p, n in (("P0", 3), ("P1", 2)):
        w.deposit(p, "u0", [(AMINTS[i], 10**6 * (i + 1)) for i in range(n)])
        w.deposit(p, "u1", [(AMINTS[i], 10**5 * (i + 1)) for i in range(n)])
    w.discount("discadm", "u0", 500000, 105)
    w.swap("P0", "u1", "M0", "M1", 5000)
    w.transfer("u1/lp:P0", "u1/lp:P0du0", "u1", 20000)
    w.transfer("u1/lp:P1", "u1/lp:P1du1", "u1", 20000)
    w.slot = 103


def amm_requests(w):
    c = lambda f, *a, **k: capture(w, f, *a, **k)
    yield c(w.create_toll, "upg", "tolladm")
    yield c(w.create_dset, "upg", "discadm")
    yield c(w.create_toll, "upg", "adm")
    for f in w.create_toll, w.create_dset:
        yield c(f, "mallory", "adm", o=dict(data="other_data"))
    yield c(w.pool, "P2", "adm", "lp:P2", "toll/P2",
            ["pv:P2:M0", "pv:P2:M1"], 0)
    yield c(w.pool, "P2", "adm", "lp:P2", "toll/P2",
            [f"pv:P2:{m}" for m in AMINTS], 10)
    yield c(w.pool, "P2", "adm", "lf:P2", "toll/lf:P2",
            ["pv:P2:M0", "pv:P2:M1"], 0)
    yield c(w.pool, "P2", "adm", "la:P2", "toll/la:P2",
            ["pv:P2:M0", "pv:P2:M1"], 0)
    for amp in (0, 10):
        yield c(w.pool, "P2", "adm", "ls:P2", "toll/ls:P2",
                ["sv:P2:M0", "sv:P2:M1", "sv:P2:M2"][:amp or 2], amp)
    yield c(w.set_fee, "P0", "adm", 3000)
    yield c(w.set_fee, "P0", "adm", 10000)
    yield c(w.discount, "discadm", "u1", 10**6, 104)
    yield c(w.discount, "discadm", "u0", 250000, 110)
    yield c(w.deposit, "P0", "u0", [("M0", 1100), ("M1", 2300),
                                    ("M2", 3100)])
    yield c(w.deposit, "P1", "u0", [("M0", 1000), ("M1", 2000)])
    yield c(w.redeem, "P0", "u0", 5000, [("M0", 1000), ("M1", 1000),
                                         ("M2", 1000)])
    yield c(w.redeem, "P1", "u1", 5000, [("M0", 0), ("M1", 0)])
    yield c(w.swap, "P0", "u0", "M0", "M1", 20000, 100)
    yield c(w.swap, "P0", "u1", "M2", "M0", 20000, 100)
    yield c(w.swap, "P1", "u1", "M1", "M0", 777, 1)
    # with what others let them have
    for n in 1500, 1499, 1501:
        yield c(w.swap, "P0", "u0", "M1", "M0", n, 1,
                o=dict(sell_wallet="u1/M1du0"))
    yield c(w.swap, "P1", "u1", "M1", "M0", 700, 1,
            o=dict(sell_wallet="u1/M1du1"))
    for n in 6000, 5000, 6001:
        yield c(w.redeem, "P0", "u0", n, [(m, 0) for m in AMINTS[:3]],
                o=dict(lp_wallet="u1/lp:P0du0"))
    yield c(w.redeem, "P1", "u1", 5000, [("M0", 0), ("M1", 0)],
            o=dict(lp_wallet="u1/lp:P1du1"))
    for u in "u0", "u1":
        for n in 1400, 700, 300:
            yield c(w.deposit, "P1", u, [("M0", n // 2), ("M1", n)],
                    rem=["pv:P1:M0", f"u1/M0d{u}", "pv:P1:M1", f"u1/M1d{u}"])


def amm_limits(w, req):
    """limits which are not quite right"""
    a, acc, sig, x, rem = req
    for k in ("max", "min"):
        if isinstance(x.get(k), list):
            l = x[k]
            for i in range(len(l)):
                yield acc, sig, {**x, k: l[:i] + l[i + 1:]}, rem
                for n in (0, 1, l[i]["amt"] * 2, U64):
                    yield acc, sig, {**x, k: l[:i] + [
                        dict(l[i], amt=n)] + l[i + 1:]}, rem
                for m in AMINTS:
                    yield acc, sig, {**x, k: l[:i] + [
                        dict(l[i], mint=m)] + l[i + 1:]}, rem
            yield acc, sig, {**x, k: l + l[:1]}, rem
            yield acc, sig, {**x, k: l + [dict(mint="M3", amt=5)]}, rem
            yield acc, sig, {**x, k: l[::-1]}, rem
            yield acc, sig, {**x, k: []}, rem


def amm(w, b, rng, limit):
    from amm import PROGRAMS
    n = 0
    amm_world(w, settings=False)
    n += attempt(w, b, rng, list(amm_requests(w))[:6], AUSERS, ARENAMES,
                 PROGRAMS, extra=["other_data", "amm_data", "amm_program"],
                 limit=limit and limit // 8)
    for amp in (0, 10):
        amm_world(w, amp)
        reqs = list(amm_requests(w))
        n += sparing(w, b, lambda t: amm_world(t, amp), reqs)
        for r in reqs:
            for acc, sig, x, rem in amm_limits(w, r):
                b.attempt(w.slot, r[0], acc, sig, x, rem)
                n += 1
        n += attempt(w, b, rng, reqs, AUSERS, ARENAMES, PROGRAMS,
                     extra=["ps:P0", "ps:P1", "ps:P2", "disc:u1", "other_data",
                            "disc:mallory"],
                     around=[99, 100, 101, 103, 104, 105, 10000, 10001,
                             999999, 10**6, 10**6 + 1],
                     limit=limit and limit * 7 // 16, odd=2)
    return n


SIZES = [1, 2, 3, 7, 10, 99, 1000, 12345, 10**6, 10**9 + 7, 10**10 - 1, 10**10,
         10**10 + 1, 3 * 10**12, 10**15 + 1, 10**18, 3 * 10**18, 9 * 10**18]


def sized_pool(w, dim, amp, fee):
    """users who own as many tokens as there can be"""
    us = ["adm", "u0", "u1", "tolladm", "discadm", "upg"]
    ms = AMINTS[:dim]
    own = dict(u0=12 * 10**18, u1=6 * 10**18)
    w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
           mints=[dict(n=m, auth="adm", supply=18 * 10**18, decimals=6)
                  for m in ms]
           + [dict(n="lp:P0", auth="ps:P0", supply=0, decimals=6)],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=own[u])
                 for u in own for m in ms]
           + [dict(n=f"{u}/lp:P0", mint="lp:P0", own=u, amt=0) for u in own]
           + [dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
           + [dict(n=f"pv:P0:{m}", mint=m, own="ps:P0", amt=0) for m in ms])
    w.create_toll("upg", "tolladm")
    w.create_dset("upg", "discadm")
    w.pool("P0", "adm", "lp:P0", "toll/P0", [f"pv:P0:{m}" for m in ms], amp)
    if fee:
        w.set_fee("P0", "adm", fee)
    if fee in (1, 302, 3003):
        w.discount("discadm", "u1", 333333, 9)


def sizes(w, b, rng, n):
    """pools of all sizes and proportions; from each, deposits, redemptions
    and swaps of all sizes, and what undoes them"""
    combos = [(a, c) for a in SIZES for c in SIZES]
    rng.shuffle(combos)
    count = 0
    for a, c in combos[:n]:
        dim = rng.choice([2, 2, 2, 3, 4])
        amp = rng.choice([0, 0, 1, 10, 100, 10**6])
        fee = rng.choice([0, 0, 1, 302, 3003, 3000, 10000])
        sized_pool(w, dim, amp, fee)
        res = [a, c] + [rng.choice([a, c, rng.choice(SIZES)])
                        for _ in range(dim - 2)]
        ms = AMINTS[:dim]
        now = w.slot
        if not w.deposit("P0", "u0", list(zip(ms, res)))["ok"]:
            continue
        if rng.random() < .5:
            i, j = rng.sample(range(dim), 2)
            w.swap("P0", "u1", ms[i], ms[j], max(1, res[i] // rng.choice(
                [2, 3, 10, 1000])))
        r = [x["tok"] for x in w.st["P0"]["res"]]
        s = w.st["lp:P0"]["supply"]
        zero = [(m, 0) for m in ms]

        def deposit(u, amts):
            return capture(w, w.deposit, "P0", u, [
                (m, max(0, min(U64, x))) for m, x in zip(ms, amts)])

        def redeem(u, lp, mins=zero):
            return capture(w, w.redeem, "P0", u, max(0, min(U64, lp)), mins)

        def swap(u, i, j, x, least=0):
            return capture(w, w.swap, "P0", u, ms[i], ms[j],
                           max(0, min(U64, x)), max(0, min(U64, least)))

        chains = []
        for amts in ([1] * dim, r, [x + 1 for x in r], [2 * x for x in r],
                     *[[x * k // d + rng.choice([0, 1]) for x in r]
                       for k, d in ((1, 10), (1, 3), (7, 9), (1, 10**6),
                                    (999, 10**7))],
                     *[[rng.choice(SIZES) for _ in r] for _ in range(3)],
                     *[[U64 if k == i else rng.choice([1, 7, 100, 12345])
                        for k in range(dim)] for i in range(dim)],
                     *[[6 * 10**18 if k == i else rng.choice(SIZES[:9])
                        for k in range(dim)] for i in range(dim)]):
            d = deposit("u1", amts)
            k = max(1, min([s * x // y for x, y in zip(amts, r) if y] or [1]))
            chains.append([(now, d), (now, redeem("u1", k)),
                           (now, redeem("u1", k - 1)),
                           (now, redeem("u1", 1))])
        for lp in {1, 2, s, s - 1, s - 2, s // 2, s // 3, 2 * s // 3, s // 7,
                   6 * s // 7, s // 10**6, s - s // 10**6}:
            share = [(m, x * lp // s) for m, x in zip(ms, r)]
            chains.append([(now, redeem("u0", lp, share)),
                           (now, swap("u1", 0, 1, max(1, r[0] // 9))),
                           (now, redeem("u0", s - lp))])
            k = rng.randrange(dim)
            chains.append([(now, redeem("u0", lp, [
                (m, x + (q == k)) for q, (m, x) in enumerate(share)]))])
        for i in range(dim):
            for j in rng.sample([j for j in range(dim) if j != i],
                                min(2, dim - 1)):
                for x in {1, 2, 9, 10, 100, 101, r[i] - 1, r[i], r[i] + 1,
                          r[i] // 2, r[i] // 3, r[i] // 10, r[i] // 1000,
                          r[i] // 10**6, rng.choice(SIZES)}:
                    got = r[j] * x // (r[i] + x) if r[i] else 0
                    chains.append([
                        (now, swap("u1", i, j, x)),
                        (now, swap("u1", j, i, got)),
                        (now, swap("u1", i, j, x))])
        for k in rng.sample(range(len(chains)), min(len(chains), 16)):
            b.chain(chains[k])
            count += len(chains[k])
    return count


def ring(w, b, rng):
    """a full history whose start passes periods, deposits and what was
    credited already, with everything that can happen at each step"""
    from directed import farm
    from farming import Farming
    farm(w, farms=("F0",), users=("u0", "u1", "u2", "u3", "u4", "u5",
                                     "boss"))
    d = Farming.__new__(Farming)
    d.w, d.r, d.farms = w, rng, ["F0"]
    for u in ("u0", "u1", "u2", "u3", "u4", "u5"):
        w.create_farmer("F0", u)
    # harvest of another mint all the time
    w.add_harvest("F0", "adm", "S0")
    w.period("F0", "adm", "S0", w.slot + 1, 9999, 3001)
    n = 0

    def snapshots(k, gap):
        nonlocal n
        for _ in range(k):
            w.slot += gap
            w.snapshot("F0")
            n += 1

    w.start("F0", "u0", 1000)
    w.start("F0", "u1", 500)
    late = "u3", "u4", "u5"
    for u in late:
        w.start("F0", u, 250)
    snapshots(5, 1)
    w.period("F0", "adm", "H0", w.slot + 4, 9, 1000)
    first = w.slot
    snapshots(1, 3)
    w.slot += 1
    w.start("F0", "u2", 77)
    w.update("F0", "u1")
    snapshots(1, 2)
    w.start("F0", "u0", 10)
    snapshots(1, 3)
    w.slot += 1
    w.start("F0", "u1", 40)
    snapshots(1, 2)
    w.update("F0", "u1", w.slot - 1)
    w.start("F0", "u1", 1)
    snapshots(1, 1)
    snapshots(1, 2)
    for i in range(9):
        w.slot += 3
        w.period("F0", "adm", "H0", 0, 2 + (i == 5), 1000 + i)
        if i % 3 == 1:
            snapshots(1, 1)
    end = w.slot
    while n < 999:
        snapshots(1, 1)
    full = [h[0] for h in w.st["F0"]["hist"]]
    assert len(full) == 999 and len(
        w.st["F0"]["harvests"]["H0"]["per"]) == 10
    up = {u: capture(w, w.update, "F0", u) for u in ("u0", "u1", "u2")}
    for i in range(60):
        # these were settled in the windows at the turn of the ring
        for j, u in enumerate(late):
            if i == j:
                w.update("F0", u)
            elif i > j:
                b.chain([(w.slot + 1, capture(w, w.update, "F0", u))])
        kinds = d.chains()
        for c in kinds["period"]:
            if len(c) == 1 and rng.random() < .3:
                b.chain(c)
        for u in up:
            b.chain([(w.slot, up[u]), (w.slot + 4, up[u])])
            b.chain([(w.slot + 3, capture(w, w.stop, "F0", u, 45))])
            start = capture(w, w.start, "F0", u, 300)
            snap = capture(w, w.snapshot, "F0")
            for k in (1, 2):
                b.chain([(w.slot, start)] + [(w.slot + 3 + i, snap)
                                             for i in range(k)]
                        + [(w.slot + k + 3, up[u]), (w.slot + k + 4, up[u])])
            for s in (first + 4, first + 9, w.slot - 2, end):
                b.chain([(w.slot, capture(w, w.update, "F0", u, s)),
                         (w.slot, up[u])])
        d.probe(b, 12)
        if w.st["F0"]["hist"][0][0] > end:
            break
        snapshots(1, 3 - i % 3)


def second_ring(w, b, rng):
    """a history which goes round twice; each time ten periods and deposits
    are about to be forgotten"""
    from directed import farm
    from farming import Farming
    farm(w, farms=("F0",), users=("u0", "u1", "u2", "boss"))
    d = Farming.__new__(Farming)
    d.w, d.r, d.farms = w, rng, ["F0"]
    for u in ("u0", "u1", "u2"):
        w.create_farmer("F0", u)
    w.start("F0", "u0", 1000)
    # harvest of another mint all the time
    w.add_harvest("F0", "adm", "S0")
    w.period("F0", "adm", "S0", w.slot + 1, 9999, 3001)
    n = 0

    def snapshot(gap=1):
        nonlocal n
        w.slot += gap
        w.snapshot("F0")
        n += 1

    def periods(k=10):
        """periods of a few slots, and deposits, between snapshots"""
        at = w.slot + 1
        for i in range(k):
            w.period("F0", "adm", "H0", at, 2 + i % 2, 1000 + i)
            at += 2 + i % 2
            if i == 3:
                w.start("F0", "u1", 500)
            if i == 6:
                w.start("F0", "u2", 77)
            while w.slot < at - 1:
                if n or i > 6:
                    snapshot()
                else:
                    w.slot += 1

    def forget(at, until):
        """snapshots until the beginning of the history is forgotten"""
        while n < at:
            snapshot()
        up = {u: capture(w, w.update, "F0", u) for u in ("u0", "u1", "u2")}
        while n < until:
            d.probe(b, 8)
            for u in up:
                b.chain([(w.slot, up[u]), (w.slot + 1, up[u])])
                start = capture(w, w.start, "F0", u, 300)
                snap = capture(w, w.snapshot, "F0")
                for k in (1, 2):
                    b.chain([(w.slot, start)]
                            + [(w.slot + 3 + i, snap) for i in range(k)]
                            + [(w.slot + k + i, up[u]) for i in (3, 4)])
            for s in (0, w.slot + 1):
                b.chain([(w.slot, capture(w, w.period, "F0", "adm", "H0",
                                          s, 2, 100))])
            snapshot()

    periods()
    forget(997, 1000)
    # the place of the next snapshot in the ring is the one after the first,
    # and so it is when they have gone round once more
    w.period("F0", "adm", "H0", w.slot + 1, 2, 900)
    w.start("F0", "u0", 5)
    snapshot(5)
    periods(7)
    forget(1004, 1007)
    forget(1997, 2003)
    forget(2010, 2014)


def timelines(w, b, rng, n=24):
    """three periods with gaps of every small size between them, of the same
    or of different rates, under snapshots of every rhythm; farmers settle at
    every slot"""
    from directed import farm
    configs = [(g, same, every, win) for g in (0, 1, 2, 3)
               for same in (0, 1, 2) for every in (0, 1, 2)
               for win in (1, 2, 4)]
    rng.shuffle(configs)
    # every gap with every combination of rates
    order = {c: sum(x[:2] == c[:2] for x in configs[:i])
             for i, c in enumerate(configs)}
    configs.sort(key=order.get)
    for g, same, every, win in configs[:n]:
        farm(w, farms=("F0",), users=("u0", "u1", "u2", "boss"))
        w.window("F0", "adm", win)
        for u in ("u0", "u1"):
            w.create_farmer("F0", u)
        w.start("F0", "u0", 997)
        w.start("F0", "u1", 341)
        w.slot += win
        w.snapshot("F0")
        rate = [1000] * 3 if same == 2 else [1000, 1000, 701] if same else \
            [1000, 300, 1000]
        lens = [rng.choice([2, 3, 4]) for _ in range(3)]
        w.period("F0", "adm", "H0", w.slot + rng.choice([0, 1, 3]), lens[0],
                 rate[0])
        todo, last = 1, w.slot
        settle = rng.choice([3, 5, 8])
        while True:
            p = w.st["F0"]["harvests"]["H0"]["per"][0]
            if todo < 3 and p["s"] <= w.slot and (
                    g == 0 or rng.random() < .6 or w.slot == p["e"]):
                w.period("F0", "adm", "H0", p["e"] + 1 + g, lens[todo],
                         rate[todo])
                todo += 1
                p = w.st["F0"]["harvests"]["H0"]["per"][0]
            for u in ("u0", "u1"):
                b.chain([(w.slot, capture(w, w.update, "F0", u)),
                         (w.slot + 1, capture(w, w.update, "F0", u)),
                         (p["e"] + 2, capture(w, w.update, "F0", u))])
                b.chain([(w.slot + 2, capture(w, w.update, "F0", u,
                                              w.slot)),
                         (p["e"] + 1, capture(w, w.update, "F0", u))])
            b.chain([(w.slot, capture(w, w.start, "F0", "u1", 50)),
                     (w.slot + win, capture(w, w.snapshot, "F0")),
                     (w.slot + win, capture(w, w.stop, "F0", "u0", 30)),
                     (w.slot + win + 1, capture(w, w.update, "F0", "u1")),
                     (w.slot + win + 2, capture(w, w.update, "F0", "u1"))])
            if todo == 3 and w.slot > p["e"]:
                break
            w.slot += 1
            if every and w.slot >= w.st["F0"]["hist"][-1][0] + win and \
                    w.slot % every == 0:
                w.snapshot("F0")
                if rng.random() < .4:
                    w.start("F0", rng.choice(["u0", "u1"]), 60)
            settle -= 1
            if not settle:
                w.update("F0", "u0")
