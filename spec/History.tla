------------------------------ MODULE History -------------------------------
(* What the outcome of a session may depend on (C22): its own requests and   *)
(* the user's decisions, the connected application and the page displayed    *)
(* when it begins, and the key of this run.  Everything done since its start *)
(* is a path in a tree that is remembered together with what came of it; the *)
(* same path taken again has to bring the same, whatever happened between.   *)
(* Session ids and signatures are drawn anew each time: they are left out.   *)
EXTENDS Progress, TLC

\* at: the node of the tree we are at (0: nowhere, until a session starts).  The tree's first
\* node is its root; a node: next: what is done -> node, came: what came of what led there
Node(came) == [next |-> <<>>, came |-> came]
History0 == [at |-> 0, tree |-> <<Node("-")>>]
\* refused before the session in progress is touched
Harmless(q) == q.k = "s.init" /\ q.flag \notin {1, 2}
Starts(o, x) == x.in = "apdu" /\ o.ask.k = "-" /\ IsInit(x.q) /\ ~Harmless(x.q)
Whose(o, q) == IF "sess" \notin DOMAIN q THEN "ill" ELSE IF o.ses.k # "-" /\ q.sess = o.ses.sid THEN "mine" ELSE IF q.sess = "00" THEN "zero" ELSE "alien"
Doing(o, x, raw) == IF x.in # "apdu" THEN x.in
                    ELSE IF IsCont(x.q) /\ BLen(raw) >= 4 THEN Sub(raw, 0, 3) \o Whose(o, x.q) \o Sub(raw, 4, BLen(raw) - 4)
                    ELSE raw
Plain(o, x, r) == IF BLen(r) = 58 /\ Sub(r, 56, 2) = SwOk THEN "signature"
                  ELSE IF BLen(r) = 3 /\ Observe(o, x).ses.k # "-" /\ (Starts(o, x) \/ (o.ask.k \in {"a.init", "s.init"} /\ x.in = "both")) THEN "session"
                  ELSE r
CameOf(o, x) == [r |-> [i \in 1..Len(x.r) |-> Plain(o, x, x.r[i])], page |-> x.page, k |-> x.k]
Spot(g, o, x) == IF Starts(o, x) THEN 1 ELSE g.at
Way(o, x, raw) == IF Starts(o, x) THEN <<Doing(o, x, raw), o.app, o.page>> ELSE Doing(o, x, raw)
SameAsBefore(g, o, x, raw) ==
    LET n == Spot(g, o, x) way == Way(o, x, raw) IN
    (x.in # "boot" /\ n # 0 /\ way \in DOMAIN g.tree[n].next) => g.tree[g.tree[n].next[way]].came = CameOf(o, x)
\* disturbed: the platform failed during this event
Remember(g, o, x, raw, disturbed) ==
    IF x.in = "boot" \/ x.skey # "" THEN History0
    ELSE IF disturbed \/ Spot(g, o, x) = 0 THEN [g EXCEPT !.at = 0]
    ELSE LET n == Spot(g, o, x) way == Way(o, x, raw) new == Len(g.tree) + 1 IN
         IF way \in DOMAIN g.tree[n].next THEN [g EXCEPT !.at = g.tree[n].next[way]]
         ELSE [at |-> new, tree |-> Append([g.tree EXCEPT ![n].next = (way :> new) @@ @], Node(CameOf(o, x)))]
=============================================================================
