"""What the random drivers of both programs have in common."""


class Driver:
    """`w` is the World, `r` the source of randomness, `weights` says how often
    which request is made, `bad` how many requests are spoiled."""
    users = []
    programs = {}

    def amt_of(self, n):
        return self.w.st.get(n, {}).get("amt", 0)

    def mutate(self, a, acc, sig, rem, x):
        """spoils a request"""
        r, st = self.r, self.w.st
        c = r.random()
        if c < .3 and sig:
            sig = [s for s in sig if r.random() < .3]
            if r.random() < .6:
                sig.append(r.choice(self.users))
        elif c < .9:
            roles = [k for k in acc if k not in ("system_program", "rent",
                                                 "token_program")]
            role = r.choice(roles)
            was = acc[role]
            kind = st.get(was, {}).get("k")
            same = [n for n in st if st[n]["k"] == kind and n != was]
            if kind is None or not same or r.random() < .25:
                same = list(st) + self.users + ["token_program"]
            elif was[2:3] == ":" and r.random() < .5:
                same = [n for n in same if n[:3] == was[:3]] or same
            new = r.choice(sorted(same))
            acc = {**acc, role: new}
            if r.random() < .4 and new in self.users:
                sig = list(sig) + [new]
        elif rem:
            rem = list(rem)
            rem[r.randrange(len(rem))] = r.choice(sorted(st))
        elif c < .95:
            used = self.programs.get(a, [])
            if used:
                acc = {**acc, r.choice(used): r.choice(
                    ["system_program", "token_program", "rent", "mallory",
                     "amm_program"])}
        return acc, sig, rem, x

    def step(self):
        r, w = self.r, self.w
        self.tick()
        names = list(self.weights)
        op = r.choices(names, [self.weights[n] for n in names])[0]
        spoil = r.random() < self.bad
        go = w.go
        if spoil:
            def spoiled(a, acc, sig, x=None, rem=(), o=None, s=None):
                acc = {**acc, **(o or {})}
                sig = sig if s is None else s
                acc, sig, rem, x = self.mutate(a, acc, sig, rem, x)
                return w.do(a, sig, acc, x, rem)
            w.go = spoiled
        try:
            getattr(self, "op_" + op)()
        finally:
            if spoil:
                del w.go
