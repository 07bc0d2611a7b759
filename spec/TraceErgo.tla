------------------------------ MODULE TraceErgo ------------------------------
(* Are the recorded events of the real application a behaviour of Device?    *)
EXTENDS Wire, IOUtils, Json

CONSTANTS SwExact,   \* refusals must carry exactly the expected status word
          PagesOn,   \* pages must show exactly the expected text
          KeysOn,    \* only permitted keys may be derived
          LeakOn,    \* no secret may be left in memory or sent
          Judged     \* the properties (Observer) evaluated on every recorded event

File(n) == IOEnv.TRACEDIR \o "/" \o n
Trace == ndJsonDeserialize(File("trace.ndjson"))
Tabs  == JsonDeserialize(File("tables.json"))
\* what the device never computed cannot be what it shows or sends: text that no bytes have
Unknown(n) == Rep("?", 2 * n)
Get(t, x, n) == IF x \in DOMAIN t THEN t[x] ELSE Unknown(n)
TrHash(p)   == Get(Tabs.hash, p, 32)
TrMac(k, m) == Get(Tabs.mac, k \o m, 16)
TrPub(p)    == Get(Tabs.pub, p, 33)
TrChain(p)  == Get(Tabs.chain, p, 32)

VARIABLES d, l, o,
          g,       \* what is remembered of earlier sessions (C22)
          fixed    \* a prompt is open and the order of its two deciding pages has been seen

Env(e) == [sid |-> e.sid, sig |-> e.sig, w |-> e.w, pts |-> {e.pts[i] : i \in 1..Len(e.pts)}, skey |-> e.skey]

Step(e) == IF e.e = "boot" THEN Res(Boot(e.skey), <<>>, {})
           ELSE IF e.e = "apdu" THEN Handle(d, Parse(e.raw), Env(e))
           ELSE Press(d, e.e, Env(e))

IsRefusal(r) == Len(r) = 4 /\ r \notin {SwOk, SwBusy, SwDeny}
SameReply(x, y) == x = y \/ (~SwExact /\ IsRefusal(x) /\ IsRefusal(y))
SameReplies(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameReply(a[i], b[i])

Deciding == { <<"Approve">>, <<"Reject">> }
Pages(u) == {u.pages[i] : i \in 1..Len(u.pages)}
\* the displayed page fits the device (when texts are not compared: the kind of page does)
PageFits(u, lines) ==
    IF PagesOn THEN u.pages[u.ix].lines = lines
    ELSE IF u.k = "menu" THEN lines \in {p.lines : p \in {MainPages[i] : i \in 1..3} \cup {AboutPages[i] : i \in 1..3}}
    ELSE lines \notin {MainPages[i].lines : i \in 1..3}
\* without text comparison the position follows what is displayed
Follow(u, lines) ==
    IF PagesOn THEN u
    ELSE LET same == {i \in 1..Len(u.pages) : u.pages[i].lines = lines} IN
         IF same # {} THEN [u EXCEPT !.ix = CHOOSE i \in same : TRUE]
         ELSE IF u.k = "menu" THEN u
         ELSE [u EXCEPT !.ix = 1]

KeysFit(x, e) == \A i \in 1..Len(e.derive) : e.derive[i] \in x.k
LeakFits(x, e) ==
    \A i \in 1..Len(e.leak) :
        e.leak[i][1] = "nonce" /\ x.d.cmd = "sign" /\ e.leak[i][3] \in x.d.c.pts

Fits(x, e) == /\ e.crash = "" /\ e.died = 0
              /\ SameReplies(x.r, e.resp)
              /\ PageFits(x.d.ui, e.page)
              /\ e.exit = (IF e.e = "both" /\ d.ui.k = "menu" /\ Shown(d).role = "quit" THEN 1 ELSE 0)
              /\ KeysOn => KeysFit(x, e)
              /\ LeakOn => LeakFits(x, e)

\* A primitive of the platform failed during this event: the device may have gone on as
\* usual, or it refuses and ends the session
Failed(e) ==
    IF e.fault = 0 \/ Len(e.resp) # 1 \/ ~IsRefusal(e.resp[1]) THEN {}
    ELSE LET k == IF e.e = "apdu" THEN Step(e).k ELSE IF Busy(d) THEN Step(e).k ELSE {} IN
         { RefuseK(IF e.e = "apdu" THEN d ELSE Idle(d), e.resp[1], k) }

\* Which of approval and rejection comes first is left open, but stays the same
Deciding2(u) == u.k = "ask" /\ u.ix > Len(u.pages) - 2
Swapped(x) ==
    LET u == x.d.ui n == Len(u.pages) IN
    IF Deciding2(u) /\ ~fixed
    THEN {[x EXCEPT !.d.ui.pages = [i \in 1..n |-> IF i <= n - 2 THEN u.pages[i] ELSE u.pages[2 * n - 1 - i]]]}
    ELSE {}
Outcomes(e) == {x \in {Step(e)} \cup Swapped(Step(e)) \cup Failed(e) : Fits(x, e)}

\* the same event as the properties see it; these do not look at d
Obs == INSTANCE History
Seen(e) == [in |-> e.e, q |-> IF e.e = "apdu" THEN Parse(e.raw) ELSE Obs!NoQ, r |-> e.resp, page |-> e.page,
            k |-> {e.derive[i] : i \in 1..Len(e.derive)}, w |-> e.w, pts |-> {e.pts[i] : i \in 1..Len(e.pts)}, skey |-> e.skey]
Disturbed(e) == e.fault # 0
Broken(e) == {n \in Judged : IF n = "C22" THEN ~Disturbed(e) /\ ~Obs!SameAsBefore(g, o, Seen(e), e.raw) ELSE IF n = "C23" THEN ~Disturbed(e) /\ ~Obs!Kept(n, o, Seen(e)) ELSE ~Obs!Kept(n, o, Seen(e))}

Init == d = Boot("00") /\ l = 1 /\ fixed = FALSE /\ o = Obs!Observer0("00", <<>>) /\ g = Obs!History0
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Outcomes(e) # {} /\ Broken(e) = {}
           THEN LET x == CHOOSE x \in Outcomes(e) : TRUE IN
                /\ d' = [x.d EXCEPT !.ui = Follow(x.d.ui, e.page)] /\ l' = l + 1
                /\ fixed' = (d'.ui.k = "ask" /\ (fixed \/ Deciding2(d'.ui)))
                /\ o' = IF Judged = {} THEN o ELSE Obs!Observe(o, Seen(e))
                /\ g' = IF "C22" \in Judged THEN Obs!Remember(g, o, Seen(e), e.raw, Disturbed(e)) ELSE g
           ELSE /\ PrintT(<<"REJECT", l, "expected", Step(e).r, Shown(Step(e).d).lines, Step(e).k,
                           "got", e.resp, e.page, e.derive, e.leak, e.exit, e.crash, "broken", Broken(e)>>)
                /\ FALSE
Spec == Init /\ [][Next]_<<d, l, o, g, fixed>>
Place == l    \* a trace has one state at each event
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
