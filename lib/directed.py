"""Behaviours which once went wrong (or still do), and corners which random
requests hardly ever reach."""
from world import U64


def farm(w, slot=1, farms=("F0", "F1"), harvest=("H0",), window=1,
         users=("u0", "u1", "u2"), amt=10**12):
    us = ["adm", *users]
    ms = ["S0", "H0"]
    w.init(slot, users=us, farms=list(farms),
           mints=[dict(n=m, auth="adm", supply=4 * 10**15, decimals=6)
                  for m in ms],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=amt)
                 for u in us for m in ms])
    for f in farms:
        w.create_farm(f, "adm", "S0")
        if window:
            w.window(f, "adm", window)
        for m in harvest:
            w.add_harvest(f, "adm", m)


def at(w, slot):
    w.slot = slot


def vested_funds_mature(w):
    """harvest of a slot was counted twice"""
    farm(w, farms=("F0",))
    w.create_farmer("F0", "u0")
    w.start("F0", "u0", 100)
    at(w, 5)
    w.snapshot("F0")
    at(w, 6)
    w.period("F0", "adm", "H0", 0, 100, 100)
    w.start("F0", "u0", 50)
    at(w, 9)
    w.update("F0", "u0")
    w.snapshot("F0")
    at(w, 105)
    w.update("F0", "u0")
    w.claim("F0", "u0", ["H0"])
    w.stop("F0", "u0", U64)


def many_periods(w):
    """periods were forgotten before they were claimed"""
    farm(w, farms=("F0",))
    w.create_farmer("F0", "u0")
    w.start("F0", "u0", 100)
    at(w, 2)
    w.snapshot("F0")
    for i in range(12):
        w.slot += 2
        w.period("F0", "adm", "H0", 0, 2, 100)
    w.slot += 9
    w.update("F0", "u0")
    w.claim("F0", "u0", ["H0"])


def full_history(w):
    """vested funds never matured once the history had passed them"""
    farm(w, farms=("F0",))
    for u in ("u0", "u1"):
        w.create_farmer("F0", u)
    w.start("F0", "u0", 100)
    for i in range(1005):
        w.slot += 1
        w.snapshot("F0")
        if i == 500:
            w.start("F0", "u1", 50)
    w.period("F0", "adm", "H0", 0, 1000, 100)
    w.slot += 5
    for u in ("u0", "u1"):
        w.update("F0", u)
        w.claim("F0", u, ["H0"])
    # periods may be forgotten once the history begins after them
    for i in range(14):
        w.slot += 3
        w.period("F0", "adm", "H0", 0, 2, 10)
    w.stop("F0", "u0", U64)


def full_history_and_periods(w):
    """old periods make room for new ones only once nobody needs them"""
    farm(w, farms=("F0",))
    w.create_farmer("F0", "u0")
    w.start("F0", "u0", 100)
    w.slot += 1
    w.snapshot("F0")
    for i in range(10):
        w.slot += 2
        w.period("F0", "adm", "H0", 0, 2, 10)
    end = w.slot + 1
    n = len(w.st["F0"]["hist"])
    while n < 1000:
        w.slot += 1
        w.snapshot("F0")
        n += 1
    # the history is full from now on, and its start moves
    for i in range(30):
        w.slot += 1
        w.period("F0", "adm", "H0", w.slot + 1, 2, 10)
        w.snapshot("F0")
        if i % 7 == 3:
            w.update("F0", "u0")
    w.slot = end + 1100
    w.snapshot("F0")
    w.period("F0", "adm", "H0", 0, 2, 10)
    w.update("F0", "u0")
    w.claim("F0", "u0", ["H0"])


def compound_into_stale_farmer(w):
    """the target farmer lost harvest when compounded into"""
    farm(w, harvest=("H0", "S0"))
    w.period("F0", "adm", "S0", 0, 1000, 100)
    w.whitelist("F0", "F1", "adm")
    for f in ("F0", "F1"):
        w.create_farmer(f, "u0")
        w.start(f, "u0", 100)
    at(w, 5)
    w.snapshot("F0")
    w.snapshot("F1")
    at(w, 20)
    w.period("F1", "adm", "H0", 0, 1000, 100)
    at(w, 50)
    w.compound_across("F0", "F1", "u0")
    at(w, 70)
    w.update("F1", "u0")
    w.claim("F1", "u0", ["H0"])
    w.stop("F1", "u0", U64)


def snapshot_after_settlement(w):
    """KNOWN FINDING same-slot-snapshot: harvest for a slot is credited by the
    previous snapshot to some and by the new one to others"""
    farm(w, farms=("F0",))
    for u in ("u0", "u1"):
        w.create_farmer("F0", u)
    w.start("F0", "u0", 100)
    at(w, 2)
    w.snapshot("F0")
    at(w, 3)
    w.period("F0", "adm", "H0", 4, 2, 1000)
    w.start("F0", "u1", 300)
    at(w, 4)
    w.update("F0", "u0")
    w.stop("F0", "u0", U64)
    w.snapshot("F0")
    at(w, 6)
    w.update("F0", "u1")
    w.claim("F0", "u1", ["H0"])
    w.claim("F0", "u0", ["H0"])


def default_window(w):
    farm(w, slot=0, farms=("F0",), window=0)
    for s in (7199, 7200, 14399, 14400, 14401):
        at(w, s)
        w.snapshot("F0")
    w.window("F0", "adm", 5)
    for s in (14404, 14405, 14409, 14410):
        at(w, s)
        w.snapshot("F0")


def all_harvest_mints(w):
    """as many mints as a farm and a farmer can take"""
    ms = [f"H{i}" for i in range(12)]
    w.init(1, users=["adm", "u0"], farms=["F0"],
           mints=[dict(n=m, auth="adm", supply=10**9, decimals=6)
                  for m in ms + ["S0"]],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=10**6)
                 for u in ("adm", "u0") for m in ms + ["S0"]])
    w.create_farm("F0", "adm", "S0")
    w.window("F0", "adm", 1)
    for m in ms[:5]:
        w.add_harvest("F0", "adm", m)
    w.create_farmer("F0", "u0")
    w.start("F0", "u0", 7)
    for m in ms[5:] + ms[:1]:
        w.add_harvest("F0", "adm", m)
    w.slot += 1
    w.snapshot("F0")
    for i, m in enumerate(ms[:10]):
        w.period("F0", "adm", m, 0, 5, 10 + i)
    w.slot += 3
    w.update("F0", "u0")
    w.claim("F0", "u0", ms[:5])
    w.remove_harvest("F0", "adm", ms[3])
    w.slot += 9
    w.update("F0", "u0")
    w.claim("F0", "u0", ms[:10])
    for m in ms[:10]:
        w.remove_harvest("F0", "adm", m)
    # others take their places, farmers keep what they had
    for m in ms[9:] + ms[:2]:
        w.add_harvest("F0", "adm", m)
    w.slot += 2
    w.update("F0", "u0")
    w.stop("F0", "u0", 99)
    w.close_farmer("F0", "u0")


def few_tokens(w):
    """hardly anything is staked, or nothing at all for some time"""
    farm(w, farms=("F0",))
    for u in ("u0", "u1"):
        w.create_farmer("F0", u)
    w.period("F0", "adm", "H0", 0, 1000, 7)
    w.snapshot("F0")
    for steps in ((1, 0), (1, 1), (0, 2), (-1, 1), (-1, -1), (0, -2), (0, -1),
                  (2, 0), (0, 1), (-1, 0), (-1, -1)):
        for u, n in zip(("u0", "u1"), steps):
            if n > 0:
                w.start("F0", u, n)
            elif n < 0:
                w.stop("F0", u, -n)
        for gap in (1, 3):
            w.slot += gap
            w.snapshot("F0")
            w.slot += gap
            w.update("F0", "u1")
        w.update("F0", "u0")


def thresholds(w):
    """amounts, windows, lengths and slots where numbers get another bit"""
    ns = sorted({min(U64, (1 << k) + d) for k in (
        8, 15, 16, 31, 32, 40, 48, 52, 53, 60, 62, 63, 64) for d in (-1, 0)})
    for n in ns:
        few = min(1000, n // 4)
        most = min(n, U64 - few)
        ms = ["S0", "H0"]
        w.init(1, users=["adm", "u0", "u1"], farms=["F0"],
               mints=[dict(n=m, auth="adm", supply=U64, decimals=6)
                      for m in ms],
               toks=[dict(n="u0/S0", mint="S0", own="u0", amt=most),
                     dict(n="u1/S0", mint="S0", own="u1", amt=few),
                     dict(n="adm/S0", mint="S0", own="adm", amt=0),
                     dict(n="adm/H0", mint="H0", own="adm", amt=n),
                     dict(n="u0/H0", mint="H0", own="u0", amt=0),
                     dict(n="u1/H0", mint="H0", own="u1", amt=0)])
        w.create_farm("F0", "adm", "S0")
        for m in ms:
            w.add_harvest("F0", "adm", m)
        w.whitelist("F0", "F0", "adm")
        for u in ("u0", "u1"):
            w.create_farmer("F0", u)
        w.start("F0", "u0", most)
        w.start("F0", "u1", few // 2)
        w.start("F0", "u1", few - few // 2)
        w.window("F0", "adm", n)
        if n < 1 << 62:
            for s in (n - 1, n, n + n - 1, n + n):
                at(w, s)
                w.snapshot("F0")
        else:
            at(w, 1 << 62)
            w.snapshot("F0")
        w.window("F0", "adm", 1)
        w.slot += 1
        w.snapshot("F0")
        w.slot += 1
        half = n // 2
        w.period("F0", "adm", "H0", min(U64, w.slot + 3), 2, half)
        w.period("F0", "adm", "H0", min(U64, w.slot + 2), max(2, half), 2)
        w.period("F0", "adm", "H0", min(U64, w.slot + 1), max(2, half), 1)
        w.period("F0", "adm", "H0", 0, 2, half)
        w.slot += 1
        w.update("F0", "u1")
        w.update("F0", "u0")
        w.slot += 1
        w.snapshot("F0")
        w.slot += 1
        for u in ("u0", "u1"):
            w.update("F0", u)
            w.claim("F0", u, ["H0"])
        for u in ("u0", "u1"):
            have = w.st[f"{u}/H0"]["amt"]
            w.airdrop("F0", "u1", "H0", have, u)
        w.claim("F0", "u1", ["H0", "S0"])
        w.stop("F0", "u0", most // 2 + 1)
        w.start("F0", "u0", most // 4 + 1)
        w.airdrop("F0", "u0", "S0", w.st["u0/S0"]["amt"], "u0")
        w.compound("F0", "u0")
        w.slot += 1
        w.snapshot("F0")
        w.transfer("u1/H0", "adm/H0", "u1", w.st["u1/H0"]["amt"])
        have = w.st["adm/H0"]["amt"]
        w.period("F0", "adm", "H0", 0, max(2, have // 3), 3)
        w.slot += max(3, have // 6)
        if w.slot < U64:
            for u in ("u0", "u1"):
                w.update("F0", u)
            w.snapshot("F0")
            for u in ("u0", "u1"):
                w.stop("F0", u, U64)
                w.claim("F0", u, ms)
                w.close_farmer("F0", u)


FARMING = [few_tokens, vested_funds_mature, many_periods, compound_into_stale_farmer,
           snapshot_after_settlement, default_window, all_harvest_mints, thresholds]
# over a thousand snapshots each
LONG = [full_history, full_history_and_periods]


def pool(w, dim, amp=0, fee=0, big=10**18):
    us = ["adm", "u0", "u1", "tolladm", "discadm", "upg"]
    ms = [f"M{i}" for i in range(dim)]
    w.init(1, users=us, upgrade_authority="upg", farms=[], pools=["P0"],
           mints=[dict(n=m, auth="adm", supply=4 * big, decimals=6)
                  for m in ms]
           + [dict(n="lp:P0", auth="ps:P0", supply=0, decimals=6)],
           toks=[dict(n=f"{u}/{m}", mint=m, own=u, amt=big)
                 for u in us[:3] for m in ms]
           + [dict(n=f"{u}/lp:P0", mint="lp:P0", own=u, amt=0)
              for u in us[:3]]
           + [dict(n="toll/P0", mint="lp:P0", own="tolladm", amt=0)]
           + [dict(n=f"pv:P0:{m}", mint=m, own="ps:P0", amt=0) for m in ms])
    w.create_toll("upg", "tolladm")
    w.create_dset("upg", "discadm")
    w.pool("P0", "adm", "lp:P0", "toll/P0", [f"pv:P0:{m}" for m in ms], amp)
    if fee:
        w.set_fee("P0", "adm", fee)


def put(w, u, *amts):
    return w.deposit("P0", u, [(f"M{i}", a) for i, a in enumerate(amts)])


def take(w, u, lp=None):
    lp = w.st[f"{u}/lp:P0"]["amt"] if lp is None else lp
    return w.redeem("P0", u, lp, [(r["mint"], 0) for r in w.st["P0"]["res"]])


def deposit_into_large_pool(w):
    """more was deposited than the user's maximum"""
    for a, b, c, d in [(3 * 10**10, 7 * 10**10, 10**15, 10**15),
                       (18923471234, 60123412341, 71231, 901823),
                       (3 * 10**10 + 1, 10**10 + 7, 10**15 + 1, 10**9 + 1),
                       (19999999999, 33333333331, 123456789, 987654321)]:
        pool(w, 2)
        put(w, "u0", a, b)
        put(w, "u1", c, d)
        take(w, "u1")


def deposit_of_a_small_reserve(w):
    """more LP tokens were given than the deposit was worth"""
    for a, b, c, d in [(10, 10**9, 1, 10**7), (10**9, 10, 10**7, 1),
                       (3, 10**12, 1, 10**11), (7, 9, 1, 1)]:
        pool(w, 2)
        put(w, "u0", a, b)
        put(w, "u1", c, d)
        take(w, "u1")
        take(w, "u0")


def newton(w):
    """the invariant of a stable pool was off by orders of magnitude"""
    for amp, a, b in [(10, 10**9, 101 * 10**6), (100, 10**6, 10**6 + 7),
                      (10, 9 * 10**8, 101 * 10**6), (1, 5, 7), (85, 1, 10**6),
                      (10, 88 * 10**7, 101 * 10**6), (1000, 2000, 10**9),
                      (1, 10**13, 10**13 + 1), (10**6, 10**10, 3 * 10**10)]:
        pool(w, 2, amp)
        put(w, "u0", a, b)
        w.swap("P0", "u1", "M1", "M0", b // 1000 + 1)
        w.swap("P0", "u1", "M0", "M1", a // 1000 + 1)
        put(w, "u1", a // 10, b // 10)
        take(w, "u1")
    for n in (3, 4):
        pool(w, n, 10, 3000)
        put(w, "u0", *[10**9 + i * 10**8 for i in range(n)])
        w.swap("P0", "u1", "M2", "M0", 10**7)
        w.swap("P0", "u1", "M0", f"M{n - 1}", 10**8)
        take(w, "u0")


def fees_and_discounts(w):
    for amp in (0, 100):
        pool(w, 2, amp, 10000)
        put(w, "u0", 10**9, 2 * 10**9)
        w.discount("discadm", "u1", 250000, 5)
        for s in (1, 4, 5, 6):
            w.slot = s
            for n in (1, 99, 100, 101, 10**6, 10**7 + 1):
                w.swap("P0", "u1", "M0", "M1", n)
                w.swap("P0", "u0", "M1", "M0", n)
        w.discount("discadm", "u1", 10**6, 50)
        w.swap("P0", "u1", "M0", "M1", 10**7)
        w.set_fee("P0", "adm", 0)
        w.swap("P0", "u0", "M0", "M1", 10**7)
        take(w, "u0")


def refilled(w):
    """a pool which was emptied and filled again"""
    for amp in (0, 10):
        pool(w, 3, amp, 100)
        put(w, "u0", 500, 700, 900)
        put(w, "u1", 50, 70, 90)
        take(w, "u0")
        w.swap("P0", "u1", "M0", "M1", 5)
        take(w, "u1")
        w.swap("P0", "u1", "M0", "M1", 5)
        put(w, "u1", 3, 2, 1)
        put(w, "u0", 300, 200, 100)
        w.swap("P0", "u0", "M2", "M0", 20)
        take(w, "u1")
        take(w, "u0")


AMM = [deposit_into_large_pool, deposit_of_a_small_reserve, newton,
       fees_and_discounts, refilled]
