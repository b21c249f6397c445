"""Client of the harness: sends events to the real code, mirrors its state."""
import json, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U64 = (1 << 64) - 1
END = 1 << 62     # no slot comes after it


def sane(x):
    """arguments within their types, whatever they were calculated from"""
    if isinstance(x, dict):
        return {k: sane(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [sane(v) for v in x]
    if isinstance(x, int) and not isinstance(x, bool):
        return max(0, min(x, U64))
    return x


class World:
    """A running harness. `out` collects every observed event as a line."""

    def __init__(self, out, target):
        self.p = subprocess.Popen(
            [os.path.join(target, "debug", "harness"), "serve"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, text=True)
        self.out, self.target = out, target
        self.trace = 0
        self.n = 0
        self.slot = 0
        self.st = {}
        self.stat = {}

    def close(self):
        try:
            self.p.stdin.close()
        except BrokenPipeError:
            pass
        self.p.wait()

    def init(self, slot=0, **x):
        self.trace += 1
        self.n = 0
        self.slot = slot
        self.st = {}
        return self._send({"a": "init", "sig": [], "acc": {}, "rem": [], "x": x})

    def do(self, a, sig, acc, x=None, rem=()):
        return self._send({"a": a, "sig": list(sig), "acc": acc,
                           "rem": list(rem), "x": sane(x or {})})

    def raw(self, e):
        """an event of a stored behaviour"""
        if e["a"] == "init":
            return self.init(e["slot"], **e["x"])
        self.slot = e["slot"]
        return self.do(e["a"], e["sig"], e["acc"], e["x"], e["rem"])

    def _send(self, e):
        e = {"t": self.trace, "n": self.n, "slot": self.slot, **e}
        self.n += 1
        try:
            self.p.stdin.write(json.dumps(e) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            # that is part of the behaviour
            self.out.write(json.dumps(e) + "\n")
            raise RuntimeError("harness died: " + self.p.stderr.read()[-2000:])
        self.out.write(line)
        r = json.loads(line)
        for k, v in r["up"].items():
            if v["k"] == "farm" and "hist" not in v:
                v["hist"] = self.st[k]["hist"][v.pop("hdrop"):] + v.pop("hadd")
            self.st[k] = v
        for k in r["gone"]:
            del self.st[k]
        s = self.stat.setdefault(r["a"], [0, 0])
        s[0 if r["ok"] else 1] += 1
        return r

    # -- well formed requests; `o` overrides accounts, `sig` the signatures --

    def go(self, a, acc, sig, x=None, rem=(), o=None, s=None):
        acc = {**acc, **(o or {})}
        return self.do(a, sig if s is None else s, acc, x, rem)

    def create_farm(self, f, admin, mint, o=None, s=None):
        return self.go("create_farm", dict(
            admin=admin, farm=f, signer="fs:" + f, mint=mint, vault="sv:" + f),
            [admin], o=o, s=s)

    def add_harvest(self, f, admin, mint, o=None, s=None):
        return self.go("add_harvest", dict(
            admin=admin, farm=f, signer="fs:" + f, mint=mint,
            vault=f"hv:{f}:{mint}"), [admin], o=o, s=s)

    def remove_harvest(self, f, admin, mint, o=None, s=None):
        return self.go("remove_harvest", dict(
            admin=admin, farm=f, signer="fs:" + f, vault=f"hv:{f}:{mint}"),
            [admin], dict(mint=mint), o=o, s=s)

    def set_farm_owner(self, f, admin, new, o=None, s=None):
        return self.go("set_farm_owner", dict(admin=admin, new=new, farm=f),
                       [admin, new], o=o, s=s)

    def period(self, f, admin, mint, starts, len, tps, o=None, s=None):
        return self.go("new_harvest_period", dict(
            admin=admin, farm=f, wallet=f"{admin}/{mint}",
            vault=f"hv:{f}:{mint}", signer="fs:" + f), [admin],
            dict(mint=mint, starts=starts, len=len, tps=tps), o=o, s=s)

    def snapshot(self, f, o=None, s=None):
        return self.go("take_snapshot", dict(farm=f, vault="sv:" + f), [],
                       o=o, s=s)

    def window(self, f, admin, win, o=None, s=None):
        return self.go("set_min_snapshot_window", dict(admin=admin, farm=f),
                       [admin], dict(win=win), o=o, s=s)

    def create_farmer(self, f, u, payer=None, o=None, s=None):
        return self.go("create_farmer", dict(
            payer=payer or u, authority=u, farmer=f"fm:{f}:{u}", farm=f),
            [payer or u], o=o, s=s)

    def close_farmer(self, f, u, o=None, s=None):
        return self.go("close_farmer", dict(
            authority=u, farmer=f"fm:{f}:{u}"), [u], o=o, s=s)

    def start(self, f, u, amt, by=None, o=None, s=None):
        by = by or u
        m = self.st[f]["mint"] if f in self.st else "S0"
        return self.go("start_farming", dict(
            authority=by, farmer=f"fm:{f}:{u}", wallet=f"{by}/{m}", farm=f,
            vault="sv:" + f), [by], dict(amt=amt), o=o, s=s)

    def stop(self, f, u, amt, o=None, s=None):
        m = self.st[f]["mint"] if f in self.st else "S0"
        return self.go("stop_farming", dict(
            authority=u, farmer=f"fm:{f}:{u}", wallet=f"{u}/{m}", farm=f,
            signer="fs:" + f, vault="sv:" + f), [u], dict(amt=amt), o=o, s=s)

    def update(self, f, u, until=None, o=None, s=None):
        acc = dict(farm=f, farmer=f"fm:{f}:{u}")
        if until is None:
            return self.go("update_eligible_harvest", acc, [], o=o, s=s)
        return self.go("update_eligible_harvest_until", acc, [],
                       dict(until=until), o=o, s=s)

    def claim(self, f, u, mints, rem=None, o=None, s=None):
        if rem is None:
            rem = [n for m in mints for n in (f"hv:{f}:{m}", f"{u}/{m}")]
        return self.go("claim_eligible_harvest", dict(
            authority=u, farmer=f"fm:{f}:{u}", signer="fs:" + f), [u],
            rem=rem, o=o, s=s)

    def whitelist(self, f, g, admin, no=False, o=None, s=None):
        return self.go(
            ("de" if no else "") + "whitelist_farm_for_compounding", dict(
                admin=admin, source=f, target=g, wl=f"wl:{f}:{g}"), [admin],
            o=o, s=s)

    def compound(self, f, u, o=None, s=None):
        m = self.st[f]["mint"] if f in self.st else "S0"
        return self.go("compound_same_farm", dict(
            farm=f, signer="fs:" + f, wl=f"wl:{f}:{f}", svault="sv:" + f,
            hvault=f"hv:{f}:{m}", farmer=f"fm:{f}:{u}"), [], o=o, s=s)

    def compound_across(self, f, g, u, o=None, s=None):
        m = self.st[g]["mint"] if g in self.st else "S0"
        return self.go("compound_across_farms", dict(
            source=f, target=g, signer="fs:" + f, wl=f"wl:{f}:{g}",
            svault="sv:" + g, hvault=f"hv:{f}:{m}", sfarmer=f"fm:{f}:{u}",
            tfarmer=f"fm:{g}:{u}"), [], o=o, s=s)

    def airdrop(self, f, u, mint, amt, by, o=None, s=None):
        return self.go("airdrop", dict(
            authority=by, farmer=f"fm:{f}:{u}", wallet=f"{by}/{mint}",
            vault=f"hv:{f}:{mint}"), [by], dict(amt=amt), o=o, s=s)

    def transfer(self, frm, to, by, amt):
        return self.do("transfer", [by], {"from": frm, "to": to,
                                          "authority": by}, dict(amt=amt))

    def pool(self, p, admin, lp, toll_wallet, vaults, amp=0, o=None, s=None):
        return self.go("create_pool", dict(
            admin=admin, pool=p, signer="ps:" + p, toll="toll",
            toll_wallet=toll_wallet, lp=lp), [admin, p], dict(amp=amp),
            rem=vaults, o=o, s=s)

    def deposit(self, p, u, maxs, o=None, s=None, rem=None):
        pool = self.st.get(p, {"lp": "lp:" + p, "res": []})
        if rem is None:
            rem = [n for r in pool["res"]
                   for n in (r["vault"], u + "/" + r["mint"])]
        return self.go("deposit_liquidity", dict(
            user=u, pool=p, signer="ps:" + p, lp=pool["lp"],
            lp_wallet=u + "/" + pool["lp"]), [u],
            dict(max=[dict(mint=m, amt=a) for m, a in maxs]), rem=rem,
            o=o, s=s)

    def redeem(self, p, u, lp, mins, o=None, s=None, rem=None):
        pool = self.st.get(p, {"lp": "lp:" + p, "res": []})
        if rem is None:
            rem = [n for r in pool["res"]
                   for n in (r["vault"], u + "/" + r["mint"])]
        return self.go("redeem_liquidity", dict(
            user=u, pool=p, signer="ps:" + p, lp=pool["lp"],
            lp_wallet=u + "/" + pool["lp"]), [u],
            dict(lp=lp, min=[dict(mint=m, amt=a) for m, a in mins]), rem=rem,
            o=o, s=s)

    def swap(self, p, u, sell_mint, buy_mint, sell, min=0, o=None, s=None):
        pool = self.st.get(p, {"lp": "lp:" + p, "res": [], "toll": "toll/" + p})
        v = {r["mint"]: r["vault"] for r in pool["res"]}
        return self.go("swap", dict(
            user=u, discount="disc:" + u, pool=p, signer="ps:" + p,
            sell_wallet=u + "/" + sell_mint, buy_wallet=u + "/" + buy_mint,
            sell_vault=v.get(sell_mint, "x"), buy_vault=v.get(buy_mint, "x"),
            lp=pool["lp"], toll_wallet=pool["toll"]), [u],
            dict(sell=sell, min=min), o=o, s=s)

    def set_fee(self, p, admin, fee, o=None, s=None):
        return self.go("set_pool_swap_fee", dict(admin=admin, pool=p), [admin],
                       dict(fee=fee), o=o, s=s)

    def discount(self, auth, user, amt, until, o=None, s=None):
        return self.go("put_discount", dict(
            authority=auth, discount="disc:" + user, dset="dset"), [auth],
            dict(user=user, amt=amt, until=until), o=o, s=s)

    def create_toll(self, auth, toll_authority, o=None, s=None):
        return self.go("create_program_toll", dict(
            authority=auth, program="amm_program", data="amm_data",
            toll_authority=toll_authority, toll="toll"), [auth], o=o, s=s)

    def create_dset(self, auth, dauth, o=None, s=None):
        return self.go("create_discount_settings", dict(
            authority=auth, program="amm_program", data="amm_data",
            settings_authority=dauth, dset="dset"), [auth], o=o, s=s)
