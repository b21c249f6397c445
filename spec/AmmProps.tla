------------------------------- MODULE AmmProps -------------------------------
(***************************************************************************)
(* The properties of the AMM program, as predicates over one step; see       *)
(* FarmingProps for what they are given.  They are stated in terms of exact *)
(* integers and fractions, not of the fixed point arithmetic of Amm.        *)
(***************************************************************************)
EXTENDS Amm

Is(c, m) == IF c THEN "" ELSE m
Else(a, b) == IF a = "" THEN b ELSE a

RECURSIVE SumF(_)
SumF(f) == IF DOMAIN f = {} THEN 0
           ELSE LET x == CHOOSE y \in DOMAIN f : TRUE
                IN f[x] ++ SumF([y \in DOMAIN f \ {x} |-> f[y]])

RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN 1 ELSE s[1] ** Product(Tail(s))

AmtOf(st, n) == IF Has(st, n, "tok") THEN st[n].amt ELSE 0
Grew(pre, post, n) == AmtOf(post, n) -- AmtOf(pre, n)
SupplyOf(st, n) == IF Has(st, n, "mint") THEN st[n].supply ELSE 0

Accepts(pre, e, ok) == ok \/ ~Step(pre, e).ok

Changed(pre, post, ch, kind) ==
    {n \in ch : Has(pre, n, kind) \/ Has(post, n, kind)}

\* an accepted event on a pool which exists before and after
OnPool(pre, e, ok, post) ==
    IF ok /\ "pool" \in DOMAIN e.acc
    THEN Has(pre, e.acc.pool, "pool") /\ Has(post, e.acc.pool, "pool")
         /\ e.a # "create_pool"
    ELSE FALSE

SamePool(a, b) == \* in what never changes
    /\ a.admin = b.admin /\ a.signer = b.signer /\ a.lp = b.lp
    /\ a.toll = b.toll /\ a.dim = b.dim /\ a.stable = b.stable /\ a.amp = b.amp
    /\ Len(a.res) = Len(b.res)
    /\ \A i \in 1..Len(a.res) : /\ a.res[i].mint = b.res[i].mint
                                /\ a.res[i].vault = b.res[i].vault

Toks(pool) == [i \in 1..Len(pool.res) |-> pool.res[i].tok]
Positive(pool) == \A i \in 1..Len(pool.res) : pool.res[i].tok \succ 0

------------------------------------------------------------------------------
(* The auditor's notes: the last event of each pool and what it did.       *)

NoNotes == <<>>

Note(g, pre, e, ok, post) ==
    IF ~OnPool(pre, e, ok, post) THEN g
    ELSE LET p == e.acc.pool  old == pre[p]  new == post[p] IN
    Put(g, p,
        [a |-> e.a, user |-> IF "user" \in DOMAIN e.acc THEN e.acc.user ELSE "",
         delta |-> IF SamePool(old, new)
                   THEN [i \in 1..Len(old.res) |->
                            new.res[i].tok -- old.res[i].tok]
                   ELSE <<>>,
         lp |-> SupplyOf(post, old.lp) -- SupplyOf(pre, old.lp),
         inv |-> old.inv])

------------------------------------------------------------------------------
(* C20: a pool only comes into existence well formed.                      *)

P_C20(pre, e, ok, post, g, h, ch) ==
    Else(Is(\A n \in Changed(pre, post, ch, "pool") :
              IF Has(pre, n, "pool")
              THEN IF Has(post, n, "pool") THEN SamePool(pre[n], post[n])
                   ELSE FALSE
              ELSE e.a = "create_pool" /\ n = e.acc.pool /\ n \notin DOMAIN pre,
            "pool appeared, disappeared or changed its nature"),
    IF e.a # "create_pool" THEN ""
    ELSE IF ~ok THEN Is(~Step(pre, e).ok, "valid pool refused")
    ELSE IF ~Has(post, e.acc.pool, "pool") THEN "no pool created"
    ELSE LET pool == post[e.acc.pool]
             sg == Ps(e.acc.pool)
             n == Len(pool.res)
         IN
         Else(Is(Signs(e, "admin") /\ pool.admin = e.acc.admin, "admin"),
         Else(Is(pool.signer = sg, "authority of the pool"),
         Else(Is(/\ Has(pre, pool.lp, "mint") /\ pool.lp = e.acc.lp
                 /\ pre[pool.lp].auth = sg
                 /\ pre[pool.lp].freeze = "", "LP mint"),
         Else(Is(/\ Has(pre, "toll", "toll") /\ Has(pre, pool.toll, "tok")
                 /\ pre[pool.toll].mint = pool.lp
                 /\ pre[pool.toll].own = pre["toll"].auth, "toll wallet"),
         Else(Is(n \in 2..MAXRES /\ pool.dim = n /\ n = Len(e.rem)
                 /\ Cardinality(Mints(pool)) = n, "number of reserves"),
         Else(Is(\A i \in 1..n :
                   LET r == pool.res[i] IN
                   /\ r.vault = e.rem[i] /\ Has(pre, r.vault, "tok")
                   /\ pre[r.vault].own = sg /\ pre[r.vault].x = ""
                   /\ pre[r.vault].mint = r.mint
                   /\ pre[r.vault].amt = r.tok, "vaults"),
         Else(Is(\A i \in 1..n :
                   (pool.res[i].tok = 0) = (pre[pool.lp].supply = 0),
                 "LP tokens without reserves, or reserves without"),
              Is(/\ pool.fee = 0 /\ pool.amp = e.x.amp
                 /\ pool.stable = (e.x.amp # 0), "curve")))))))))

------------------------------------------------------------------------------
(* C21: a deposit is proportional and within the limits.                   *)

\* the rest of an account's accepted event, its pool and amounts in order
Grown(pre, post, p) ==
    [i \in 1..Len(pre[p].res) |->
        post[p].res[i].tok -- pre[p].res[i].tok]

P_C21(pre, e, ok, post, g, h, ch) ==
    IF e.a # "deposit_liquidity" THEN ""
    ELSE IF ~ok THEN Is(~Step(pre, e).ok, "valid deposit refused")
    ELSE IF ~OnPool(pre, e, ok, post) THEN "no pool"
    ELSE IF ~SamePool(pre[e.acc.pool], post[e.acc.pool]) THEN "pool changed"
    ELSE LET p == e.acc.pool  pool == pre[p]  n == Len(pool.res)
             max == Limits(e.x.max)
             x == [i \in 1..n |-> pool.res[i].tok]
             d == Grown(pre, post, p)
             mx(i) == max[pool.res[i].mint]
             supply == SupplyOf(pre, pool.lp)
             lp == SupplyOf(post, pool.lp) -- supply
             \* the reserve with the least ratio of limit to reserve
             j == CHOOSE a \in 1..n : \A b \in 1..n :
                    (mx(a) ** x[b]) \preceq (mx(b) ** x[a])
             \* what is not worth an LP token or lost in rounding
             slack(i) == 2 ++ NMulDivUp(d[i], 1, WAD)
         IN
         IF DOMAIN max # Mints(pool) THEN "limits of other mints"
         ELSE
         Else(Is(\A i \in 1..n : d[i] \preceq mx(i), "more than the limit"),
         Else(Is(\A i \in 1..n : d[i] \succ 0, "nothing deposited"),
         Else(Is(lp \succ 0, "no LP tokens for a deposit"),
         IF supply = 0
         THEN Else(Is(\A i \in 1..n : d[i] = mx(i), "first deposit"),
                   Is(\A i \in 1..n : lp \preceq d[i]
                      /\ \E k \in 1..n : lp = d[k], "LP tokens of the first"))
         ELSE Else(Is(\A i \in 1..n :
                        LET q == NMulDivUp(mx(j), x[i], x[j])
                            \* the ratio is known to 18 decimal places
                            t == 1 ++ NMulDivUp(q, mx(j), x[j] ** WAD)
                        IN
                        /\ d[i] \preceq (q ++ t)
                        /\ (d[i] ++ t) \succeq q,
                      "deposit not in proportion to the reserves"),
              Else(Is(\A i \in 1..n : (lp ** x[i]) \preceq (supply ** d[i]),
                      "more LP tokens than deposited"),
                   Is(\E i \in 1..n :
                        ((lp ++ 2 ++ (d[i] // (WAD // 2))
                             ++ (supply // (WAD // 2))) ** x[i])
                           \succeq (supply ** d[i]),
                      "fewer LP tokens than deposited"))))))

------------------------------------------------------------------------------
(* C22: nobody's share is diluted by others' deposits and redemptions.     *)

P_C22(pre, e, ok, post, g, h, ch) ==
    IF e.a \notin {"deposit_liquidity", "redeem_liquidity"}
       \/ ~OnPool(pre, e, ok, post) THEN ""
    ELSE LET a == pre[e.acc.pool]  b == post[e.acc.pool]
             sa == SupplyOf(pre, a.lp)  sb == SupplyOf(post, a.lp)
         IN Is(SamePool(a, b) /\ \A i \in 1..Len(a.res) :
                 (b.res[i].tok ** sa) \succeq (a.res[i].tok ** sb),
               "tokens per LP token dropped")

------------------------------------------------------------------------------
(* C23: LP tokens are redeemed for their share of all reserves.            *)

P_C23(pre, e, ok, post, g, h, ch) ==
    IF e.a # "redeem_liquidity" THEN ""
    ELSE IF ~ok THEN Is(~Step(pre, e).ok, "valid redemption refused")
    ELSE IF ~OnPool(pre, e, ok, post) THEN "no pool"
    ELSE IF ~SamePool(pre[e.acc.pool], post[e.acc.pool]) THEN "pool changed"
    ELSE LET p == e.acc.pool  pool == pre[p]  n == Len(pool.res)
             min == Limits(e.x.min)
             supply == SupplyOf(pre, pool.lp)
             out == [i \in 1..n |-> pre[p].res[i].tok -- post[p].res[i].tok]
             share(i) == NMulDiv(pool.res[i].tok, e.x.lp, supply)
         IN
         IF DOMAIN min # Mints(pool) THEN "limits of other mints"
         ELSE
         Else(Is(e.x.lp \preceq supply, "more than all LP tokens redeemed"),
         Else(Is(\A i \in 1..n : out[i] \succeq min[pool.res[i].mint],
                 "less than the limit"),
         Else(Is(\A i \in 1..n :
                   /\ out[i] \preceq share(i)
                   /\ (out[i] ++ 1 ++ (pool.res[i].tok // WAD)) \succeq share(i),
                 "not the share of the reserves"),
         Else(Is(e.x.lp = supply => \A i \in 1..n : post[p].res[i].tok = 0,
                 "tokens left behind by the last LP token"),
              Is(/\ supply -- SupplyOf(post, pool.lp) = e.x.lp
                 /\ Grew(pre, post, e.acc.lp_wallet) = 0 -- e.x.lp,
                 "LP tokens not burned")))))

------------------------------------------------------------------------------
(* C24: the recorded reserves are the tokens in the vaults.                *)

P_C24(pre, e, ok, post, g, h, ch) ==
    LET ps == {n \in DOMAIN post : post[n].k = "pool" /\ Has(pre, n, "pool")}
        gift(v) == \* tokens sent to a vault by somebody's choice
            \/ e.a = "transfer" /\ e.acc.to = v
            \/ e.a = "swap" /\ e.acc.buy_wallet = v
            \/ /\ e.a \in {"redeem_liquidity", "deposit_liquidity"}
               /\ \E i \in 1..Len(e.rem) : i % 2 = 0 /\ e.rem[i] = v
        moved(p) == {i \in 1..Len(post[p].res) :
                        p \in ch \/ post[p].res[i].vault \in ch}
        res(st, p, i) == st[p].res[i].tok
        lps == {IF Has(pre, n, "mint") THEN n ELSE "" :
                  n \in Changed(pre, post, ch, "mint")} \ {""}
    IN
    Else(Is(\A p \in ps : \A i \in moved(p) :
              LET v == post[p].res[i].vault
                  dr == res(post, p, i) -- res(pre, p, i)
                  dv == Grew(pre, post, v)
              IN IF gift(v) THEN dr \preceq dv ELSE dr = dv,
            "recorded reserve and vault differ"),
    Else(Is(\A m \in lps :
              SupplyOf(post, m) -- SupplyOf(pre, m) =
              SumF([n \in {x \in Changed(pre, post, ch, "tok") :
                             IF Has(post, x, "tok") THEN post[x].mint = m
                             ELSE FALSE} |-> Grew(pre, post, n)]),
            "LP supply and LP tokens differ"),
         Is(\A m \in lps :
              \E p \in ps : /\ post[p].lp = m /\ "pool" \in DOMAIN e.acc
                            /\ e.acc.pool = p
                            /\ e.a \in {"deposit_liquidity",
                                        "redeem_liquidity", "swap"},
            "supply of a mint changed")))

------------------------------------------------------------------------------
(* C25: a swap moves the tokens agreed upon.                               *)

SwapOk(pre, e, ok, post) ==
    IF e.a = "swap" /\ OnPool(pre, e, ok, post)
    THEN /\ SamePool(pre[e.acc.pool], post[e.acc.pool])
         /\ Has(pre, e.acc.sell_vault, "tok") /\ Has(pre, e.acc.buy_vault, "tok")
         /\ pre[e.acc.sell_vault].mint \in Mints(pre[e.acc.pool])
         /\ pre[e.acc.buy_vault].mint \in Mints(pre[e.acc.pool])
    ELSE FALSE

SellMint(pre, e) == pre[e.acc.sell_vault].mint
BuyMint(pre, e) == pre[e.acc.buy_vault].mint
\* tokens given for the sold ones, by the reserves
Given(pre, e, post) ==
    Tokens(pre[e.acc.pool], BuyMint(pre, e))
    -- Tokens(post[e.acc.pool], BuyMint(pre, e))

------------------------------------------------------------------------------
(* C26: no trade lowers the product of a constant product pool.            *)

P_C26(pre, e, ok, post, g, h, ch) ==
    IF ~SwapOk(pre, e, ok, post) THEN ""
    ELSE LET a == pre[e.acc.pool]  b == post[e.acc.pool]
             m == BuyMint(pre, e)
             \* the quotient is rounded down to 1/WAD of a token, so that
             \* product may be lost which is worth that much
             others == Product(SelectSeq(
                [i \in 1..Len(b.res) |-> IF b.res[i].mint = m THEN 1
                                         ELSE b.res[i].tok],
                LAMBDA x : TRUE))
         IN IF a.stable \/ ~Positive(a) THEN ""
            ELSE Is((Product(Toks(b)) ++ (others // WAD))
                       \succeq Product(Toks(a)),
                    "product of the reserves dropped")

------------------------------------------------------------------------------
(* C27: the stable curve.                                                  *)

\* The invariant D of reserves x is where
\*     A n^n sum(x) + D - A n^n D - D^(n+1) / (n^n prod(x))
\* is zero; above, it is negative.  D is in units of 1/WAD.  This is the left
\* hand side times a positive number.
Curve(d, amp, toks) ==
    LET n == Len(toks)
        nn == NPow(n, n)
        an == amp ** nn
    IN ((((an ** NSum(toks)) ** WAD) ++ d -- (an ** d))
            ** ((nn ** Product(toks)) ** NPow(WAD, n)))
       -- NPow(d, n + 1)

MILLIONTH == 1000000

\* the recorded invariant is right up to one part in T
InvariantWithin(pool, T) ==
    /\ Curve(pool.inv -- (pool.inv // T), pool.amp, Toks(pool)) \succeq 0
    /\ Curve(pool.inv ++ NCeilDiv(pool.inv, T), pool.amp, Toks(pool))
          \preceq 0

\* reserves are not further apart than a factor of 10^6
Balanced(pool) ==
    \A i, j \in 1..Len(pool.res) :
        pool.res[i].tok \preceq (pool.res[j].tok ** MILLIONTH)

P_C27(pre, e, ok, post, g, h, ch) ==
    LET ps == {n \in Changed(pre, post, ch, "pool") :
                 IF Has(post, n, "pool") THEN post[n].stable ELSE FALSE}
    IN
    Else(Is(\A p \in ps : Positive(post[p]) /\ Balanced(post[p])
                          /\ e.a # "create_pool" /\ e.a # "set_pool_swap_fee"
                => InvariantWithin(post[p], 10000),
            "invariant is not that of the reserves"),
    Else(Is(\A p \in ps : ~Positive(post[p]) => post[p].inv = 0,
            "invariant of an empty pool"),
    \* the recorded invariant is only known up to a small error
    IF SwapOk(pre, e, ok, post)
    THEN LET a == pre[e.acc.pool]  b == post[e.acc.pool] IN
         Is(a.stable /\ Positive(a) /\ Balanced(a) /\ Balanced(b)
               /\ Positive(b) =>
            Curve(a.inv -- (a.inv // 10000), b.amp, Toks(b)) \succeq 0,
            "a trade lowered the invariant")
    ELSE ""))

------------------------------------------------------------------------------
(* C28: the swap fee.                                                      *)

\* what remains of a million millionths of the fee
DiscountOf(pre, e) ==
    LET d == Disc(e.acc.user) IN
    IF ~Has(pre, d, "disc") THEN 0
    ELSE IF e.slot \preceq pre[d].until THEN pre[d].amt ELSE 0

ExactFee(pre, e) ==
    NCeilDiv(e.x.sell ** pre[e.acc.pool].fee ** (MILLION -- DiscountOf(pre, e)),
             MILLION ** MILLION)

\* the reserves as seen by the curve, were the bought one to hold y
CurveSide(pre, e, y) ==
    LET pool == pre[e.acc.pool]  a == SellMint(pre, e)  b == BuyMint(pre, e) IN
    [i \in 1..Len(pool.res) |->
        IF pool.res[i].mint = b THEN y
        ELSE IF pool.res[i].mint = a
        THEN pool.res[i].tok ++ e.x.sell -- ExactFee(pre, e)
        ELSE pool.res[i].tok]

\* the power of a thousand by which the solver divides all amounts
RECURSIVE Thousands(_)
Thousands(d) ==
    IF d \preceq (1000 ** WAD) THEN 1
    ELSE 1000 ** Thousands(NCeilDiv(d, 1000))

\* the trader gets what the curve gives for the tokens without the fee: not
\* one token more and not one token less
FairPrice(pre, e, post) ==
    LET pool == pre[e.acc.pool]  b == BuyMint(pre, e)
        y == Tokens(post[e.acc.pool], b)
        k == Product(Toks(pool))
        others == Product(CurveSide(pre, e, 1))
        \* divided so, the product of the other reserves has 18 decimal places
        known == (others ** WAD)
                 // NPow(Thousands(pool.inv), Len(pool.res) - 1)
        tol == 1 ++ (y // 1000000000) ++ NCeilDiv(y, NMax(known, MILLIONTH))
    IN
    IF ~Positive(pool) THEN FALSE
    ELSE IF ~pool.stable
    THEN /\ (Product(CurveSide(pre, e, y)) ++ (others // WAD)) \succeq k
         /\ y \succ 0 => Product(CurveSide(pre, e, y -- 1)) \prec k
    ELSE IF ~Balanced(pool) \/ ~Balanced(post[e.acc.pool]) THEN TRUE
    ELSE /\ Curve(pool.inv, pool.amp, CurveSide(pre, e, y ++ tol)) \succeq 0
         /\ y \succ (tol ++ 1) =>
               Curve(pool.inv, pool.amp, CurveSide(pre, e, y -- tol -- 1))
                  \preceq 0

\* (C25) the swap as agreed upon
P_C25(pre, e, ok, post, g, h, ch) ==
    IF e.a # "swap" THEN ""
    ELSE IF ~ok THEN Is(~Step(pre, e).ok, "valid swap refused")
    ELSE IF ~SwapOk(pre, e, ok, post) THEN "swap without a pool"
    ELSE LET p == e.acc.pool  a == SellMint(pre, e)  b == BuyMint(pre, e)
             got == Given(pre, e, post)
         IN
         Else(Is(a # b, "swap of a mint for itself"),
         Else(Is(/\ e.acc.sell_vault = VaultOf(pre[p], a)
                 /\ e.acc.buy_vault = VaultOf(pre[p], b), "wrong vaults"),
         Else(Is(/\ Tokens(post[p], a) -- Tokens(pre[p], a) = e.x.sell
                 /\ \A m \in Mints(pre[p]) \ {a, b} :
                      Tokens(post[p], m) = Tokens(pre[p], m),
                 "reserves"),
         Else(Is(got \succeq e.x.min, "less than the trader's minimum"),
         Else(Is(got \succeq 0 /\ got \preceq Tokens(pre[p], b),
                 "more than the reserve"),
         Else(Is(Grew(pre, post, e.acc.sell_wallet) = 0 -- e.x.sell,
                 "trader paid another amount"),
         Else(Is(\/ Grew(pre, post, e.acc.buy_wallet) = got
                 \/ e.acc.buy_wallet = e.acc.buy_vault,
                 "trader received another amount"),
              Is(FairPrice(pre, e, post),
                 "not what the pool gives for it"))))))))

P_C28(pre, e, ok, post, g, h, ch) ==
    Else(Is(\A p \in Changed(pre, post, ch, "pool") :
              Has(pre, p, "pool") /\ Has(post, p, "pool") =>
                 \/ pre[p].fee = post[p].fee
                 \/ /\ e.a = "set_pool_swap_fee" /\ e.acc.pool = p
                    /\ SignedBy(e, pre[p].admin)
                    /\ post[p].fee = e.x.fee /\ post[p].fee \preceq MAXFEE,
            "fee changed"),
    Else(IF e.a # "set_pool_swap_fee" THEN ""
         ELSE IF ~ok THEN Is(~Step(pre, e).ok, "valid fee refused")
         ELSE Is(IF Has(pre, e.acc.pool, "pool")
                 THEN SignedBy(e, pre[e.acc.pool].admin)
                      /\ e.x.fee \preceq MAXFEE
                      /\ Has(post, e.acc.pool, "pool")
                      /\ post[e.acc.pool].fee = e.x.fee
                 ELSE FALSE, "invalid fee set"),
    IF SwapOk(pre, e, ok, post)
    THEN Is(FairPrice(pre, e, post), "not the price of the curve after the fee")
    ELSE ""))

------------------------------------------------------------------------------
(* C29: discounts.                                                         *)

P_C29(pre, e, ok, post, g, h, ch) ==
    Else(Is(\A n \in Changed(pre, post, ch, "disc") :
              ok /\ e.a = "put_discount" /\ n = Disc(e.x.user)
              /\ Has(post, n, "disc"),
            "discount changed"),
    IF e.a = "put_discount"
    THEN IF ~ok THEN Is(~Step(pre, e).ok, "valid discount refused")
         ELSE LET n == Disc(e.x.user) IN
         Else(Is(Has(pre, "dset", "dset"), "no discount settings"),
         Else(Is(SignedBy(e, pre["dset"].auth), "discount by somebody else"),
         Else(Is(e.x.amt \preceq MILLION /\ e.x.until \succ e.slot,
                 "invalid discount"),
              Is(IF Has(post, n, "disc")
                 THEN post[n].amt = e.x.amt /\ post[n].until = e.x.until
                 ELSE FALSE, "discount not recorded"))))
    ELSE IF /\ SwapOk(pre, e, ok, post)
            /\ \/ Has(pre, Disc(e.acc.user), "disc")
               \/ e.acc.discount # Disc(e.acc.user)
    THEN Is(FairPrice(pre, e, post), "discount not applied as recorded")
    ELSE "")

------------------------------------------------------------------------------
(* C30: a third of the fee goes to the program, in LP tokens.              *)

P_C30(pre, e, ok, post, g, h, ch) ==
    IF ~SwapOk(pre, e, ok, post) THEN ""
    ELSE LET p == e.acc.pool  pool == pre[p]
             supply == SupplyOf(pre, pool.lp)
             minted == SupplyOf(post, pool.lp) -- supply
             n == Len(pool.res)
             x == Tokens(post[p], SellMint(pre, e))
             \* a share of each reserve, in tokens sold, rounded to the nearest
             toll == ((2 ** ExactFee(pre, e) ** TOLLSHARE) ++ (MILLION ** n))
                        // (2 ** MILLION ** n)
             worth == NMulDiv(supply, toll, x)
         IN
         Else(Is(minted = Grew(pre, post, pool.toll),
                 "LP tokens minted to somebody else"),
         Else(Is(minted \preceq worth, "toll exceeds its share of the fee"),
              Is(\/ (minted ++ 1 ++ (toll // (WAD // 2))
                            ++ (supply // (WAD // 1000000000))) \succeq worth
                 \/ \E i \in 1..n : post[p].res[i].tok \prec MILLIONTH,
                 "toll is less than its share of the fee")))

------------------------------------------------------------------------------
(* C31: nobody gains by undoing what they have just done.                  *)

P_C31(pre, e, ok, post, g, h, ch) ==
    IF ~OnPool(pre, e, ok, post) THEN ""
    ELSE IF e.acc.pool \notin DOMAIN g THEN ""
    ELSE LET p == e.acc.pool  last == g[p]  now == h[p]
             n == Len(pre[p].res)
             sum(i) == last.delta[i] ++ now.delta[i]
             small(i) == IF pre[p].stable
                         THEN 2 ++ (pre[p].res[i].tok // 100000) ELSE 0
         IN
         IF Len(last.delta) # n \/ Len(now.delta) # n THEN ""
         ELSE IF last.a = "deposit_liquidity" /\ e.a = "redeem_liquidity"
                 /\ now.lp ++ last.lp = 0
         THEN Is(\A i \in 1..n : sum(i) \succeq 0,
                 "more redeemed than just deposited")
         ELSE IF last.a = "swap" /\ e.a = "swap"
         THEN LET back == {i \in 1..n : last.delta[i] \prec 0
                                        /\ sum(i) = 0}
                  paid == {i \in 1..n : last.delta[i] \succ 0
                                        /\ now.delta[i] \prec 0}
              IN IF back = {} \/ paid = {} THEN ""
                 ELSE Is(\A i \in paid : (sum(i) ++ small(i)) \succeq 0,
                         "gained by swapping back and forth")
         ELSE ""

------------------------------------------------------------------------------
(* C32: the settings of the program are set once, by who may upgrade it.   *)

P_C32(pre, e, ok, post, g, h, ch) ==
    Else(Is(\A n \in Changed(pre, post, ch, "toll")
                     \cup Changed(pre, post, ch, "dset") :
              /\ n \notin DOMAIN pre /\ n \in {"toll", "dset"}
              /\ SignedBy(e, UPGRADER)
              /\ n = "toll" => /\ e.a = "create_program_toll"
                               /\ post[n].auth = e.acc.toll_authority
              /\ n = "dset" => /\ e.a = "create_discount_settings"
                               /\ post[n].auth = e.acc.settings_authority,
            "settings of the program changed"),
    IF e.a \in {"create_program_toll", "create_discount_settings"}
    THEN LET s == Step(pre, e) IN
         Is(s.ok = ok, IF ok THEN "settings by somebody else"
                       ELSE "valid settings refused")
    ELSE "")

------------------------------------------------------------------------------
(* C33: tokens leave a wallet or a vault only as agreed.                   *)

MayChange(e) ==
    CASE e.a = "create_program_toll" -> {e.acc.toll}
      [] e.a = "create_discount_settings" -> {e.acc.dset}
      [] e.a \in {"create_pool", "set_pool_swap_fee"} -> {e.acc.pool}
      [] e.a = "put_discount" -> {Disc(e.x.user)}
      [] e.a \in {"deposit_liquidity", "redeem_liquidity"} ->
            {e.acc.pool, e.acc.lp, e.acc.lp_wallet} \cup SeqSet(e.rem)
      [] e.a = "swap" ->
            {e.acc.pool, e.acc.sell_wallet, e.acc.buy_wallet, e.acc.sell_vault,
             e.acc.buy_vault, e.acc.lp, e.acc.toll_wallet}
      [] e.a = "transfer" -> {e.acc.from, e.acc.to}

\* the pool whose authority owns the account, if any
PoolBehind(st, n) ==
    LET ps == {p \in DOMAIN st : st[p].k = "pool" /\ st[n].own = Ps(p)} IN
    IF ps = {} THEN "" ELSE CHOOSE p \in ps : TRUE

Permitted(pre, e, n, amt) ==
    LET p == PoolBehind(pre, n)
        vaults == {pre[p].res[i].vault : i \in 1..Len(pre[p].res)}
    IN
    IF p = ""
    THEN Entitled(pre[n], e, amt)
         /\ CASE e.a = "transfer" -> amt \preceq e.x.amt
              [] e.a = "swap" -> n = e.acc.sell_wallet /\ amt \preceq e.x.sell
              [] e.a = "redeem_liquidity" -> n = e.acc.lp_wallet
                                             /\ amt \preceq e.x.lp
              [] e.a = "deposit_liquidity" ->
                    \E i \in 1..Len(e.x.max) :
                       /\ e.x.max[i].mint = pre[n].mint
                       /\ amt \preceq e.x.max[i].amt
              [] OTHER -> FALSE
    ELSE /\ n \in vaults
         /\ CASE e.a = "swap" -> p = e.acc.pool /\ n = e.acc.buy_vault
              [] e.a = "redeem_liquidity" ->
                    /\ p = e.acc.pool
                    /\ Has(pre, e.acc.lp_wallet, "tok")
                    /\ Entitled(pre[e.acc.lp_wallet], e, e.x.lp)
              [] OTHER -> FALSE

P_C33(pre, e, ok, post, g, h, ch) ==
    LET ts == Changed(pre, post, ch, "tok")
        mints == {pre[n].mint : n \in {x \in ts : Has(pre, x, "tok")}}
    IN
    Else(Is(ch \subseteq MayChange(e), "an uninvolved account changed"),
    Else(Is(\A n \in ts : IF Has(pre, n, "tok") /\ Has(post, n, "tok")
                          THEN SameHands(pre[n], post[n])
                          ELSE FALSE, "token account changed hands"),
    Else(Is(\A n \in ts :
              LET d == 0 -- Grew(pre, post, n) IN
              d \preceq 0 \/ Permitted(pre, e, n, d),
            "tokens taken without permission"),
         Is(\A m \in mints :
              SumF([n \in {x \in ts : pre[x].mint = m} |->
                      Grew(pre, post, n)]) =
              SupplyOf(post, m) -- SupplyOf(pre, m),
            "tokens appeared or disappeared"))))

------------------------------------------------------------------------------
(* C34: nothing is accepted with accounts other than the ones required.    *)

P_C34(pre, e, ok, post, g, h, ch) ==
    Is(ok => Step(pre, e).ok, "accepted although it is not valid")

------------------------------------------------------------------------------
Prop(id, pre, e, ok, post, g, h, ch) ==
    CASE id = "C20" -> P_C20(pre, e, ok, post, g, h, ch)
      [] id = "C21" -> P_C21(pre, e, ok, post, g, h, ch)
      [] id = "C22" -> P_C22(pre, e, ok, post, g, h, ch)
      [] id = "C23" -> P_C23(pre, e, ok, post, g, h, ch)
      [] id = "C24" -> P_C24(pre, e, ok, post, g, h, ch)
      [] id = "C25" -> P_C25(pre, e, ok, post, g, h, ch)
      [] id = "C26" -> P_C26(pre, e, ok, post, g, h, ch)
      [] id = "C27" -> P_C27(pre, e, ok, post, g, h, ch)
      [] id = "C28" -> P_C28(pre, e, ok, post, g, h, ch)
      [] id = "C29" -> P_C29(pre, e, ok, post, g, h, ch)
      [] id = "C30" -> P_C30(pre, e, ok, post, g, h, ch)
      [] id = "C31" -> P_C31(pre, e, ok, post, g, h, ch)
      [] id = "C32" -> P_C32(pre, e, ok, post, g, h, ch)
      [] id = "C33" -> P_C33(pre, e, ok, post, g, h, ch)
      [] id = "C34" -> P_C34(pre, e, ok, post, g, h, ch)

Ids == {"C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29",
        "C30", "C31", "C32", "C33", "C34"}
==============================================================================
