-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* What both programs build upon: accounts, signatures and tokens.         *)
(*                                                                         *)
(* The state is a function from account names to account contents; k says   *)
(* what kind of account it is.                                             *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

CONSTANT U64MAX

Has(st, n, kind) == n \in DOMAIN st /\ st[n].k = kind
Put(st, n, v) == [x \in DOMAIN st \cup {n} |-> IF x = n THEN v ELSE st[x]]
Del(st, n) == [x \in DOMAIN st \ {n} |-> st[x]]

SignedBy(e, u) == \E i \in 1..Len(e.sig) : e.sig[i] = u
Signs(e, role) == SignedBy(e, e.acc[role])

Fail(st) == [ok |-> FALSE, st |-> st]
Done(st) == [ok |-> TRUE, st |-> st]

------------------------------------------------------------------------------
(* Token accounts.                                                         *)

Frozen(t) == t.x \in {"f", "df", "cf", "dcf"}

\* The owner of a token account may let somebody else, its delegate ("del"),
\* take up to some amount ("dam"); "x" says what could take tokens besides.
Delegated(t, u) == "del" \in DOMAIN t /\ t.del = u

MayTake(t, u, amt) ==
    IF Delegated(t, u) THEN amt \preceq t.dam ELSE t.own = u

\* the account once u took that much, amounts aside
Taken(t, u, amt) ==
    IF ~Delegated(t, u) THEN t
    ELSE IF t.dam # amt THEN [t EXCEPT !.dam = @ -- amt]
    ELSE [f \in DOMAIN t \ {"del", "dam"} |->
            IF f = "x" THEN IF t.x = "d" THEN "" ELSE "c" ELSE t[f]]

\* whether the signers may have that much taken, and nothing else changed
\* about the account than what was left to its delegate
Entitled(t, e, amt) ==
    \/ SignedBy(e, t.own)
    \/ "del" \in DOMAIN t /\ SignedBy(e, t.del) /\ amt \preceq t.dam

SameHands(t, u) ==
    /\ t.mint = u.mint /\ t.own = u.own
    /\ LET rights(v) == [f \in DOMAIN v \ {"amt"} |-> v[f]] IN
       \/ rights(t) = rights(u)
       \/ /\ "del" \in DOMAIN t /\ u.amt \prec t.amt
          /\ rights(u) = rights(Taken(t, t.del, t.amt -- u.amt))

CanMove(st, from, to, amt, auth) ==
    /\ Has(st, from, "tok") /\ Has(st, to, "tok")
    /\ st[from].mint = st[to].mint
    /\ ~Frozen(st[from]) /\ ~Frozen(st[to])
    /\ MayTake(st[from], auth, amt)
    /\ amt \preceq st[from].amt
    /\ from = to \/ (st[to].amt ++ amt) \preceq U64MAX

Move(st, from, to, amt) ==
    IF from = to THEN st
    ELSE [st EXCEPT ![from].amt = @ -- amt, ![to].amt = @ ++ amt]

\* on behalf of auth, who might be a delegate
MoveBy(st, from, to, amt, auth) ==
    IF from = to THEN st
    ELSE Move([st EXCEPT ![from] = Taken(@, auth, amt)], from, to, amt)

NewTok(mint, own) ==
    [k |-> "tok", mint |-> mint, own |-> own, amt |-> 0, x |-> ""]

\* tokens sent without the programs being involved
Transfer(st, e) ==
    IF /\ Signs(e, "authority")
       /\ CanMove(st, e.acc.from, e.acc.to, e.x.amt, e.acc.authority)
    THEN Done(MoveBy(st, e.acc.from, e.acc.to, e.x.amt, e.acc.authority))
    ELSE Fail(st)

\* the programs an instruction relies on are the genuine ones
KnownPrograms(e) ==
    \A r \in {"token_program", "system_program", "rent"} \cap DOMAIN e.acc :
        e.acc[r] = r
==============================================================================
