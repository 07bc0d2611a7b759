--------------------------------- MODULE MC ---------------------------------
(* Exhaustive exploration of Device under small alphabets of requests, with  *)
(* the Observer deciding the properties at every step.  Each transition is   *)
(* also printed, to be replayed on the device.                               *)
EXTENDS Progress, TLCExt, Json, IOUtils

CONSTANTS Focus,    \* which alphabet
          Emit      \* print the transitions

\* Symbolic primitives: distinct arguments get distinct results (up to TLC's fingerprints)
HexOf(n, k) == LET RECURSIVE g(_, _)
                   g(m, j) == IF j = 0 THEN "" ELSE g(m \div 16, j - 1) \o Hex1(m % 16) IN g(n, k)
Tag(v) == HexOf(TLCFP(v), 8)
McHash(x)   == Rep(Tag(<<"h", x>>), 8)
McMac(k, m) == Rep(Tag(<<"m", k, m>>), 4)
McPub(p)    == "02" \o Rep(Tag(<<"p", p>>), 8)
McChain(p)  == Rep(Tag(<<"c", p>>), 8)

-----------------------------------------------------------------------------
(* What the host and the user can do                                         *)
R(ins, p1, p2, data)  == [a |-> "r", ins |-> ins, p1 |-> p1, p2 |-> p2, data |-> data, who |-> "-", mac |-> "-", tail |-> ""]
Ses(ins, p1, data)    == [a |-> "r", ins |-> ins, p1 |-> p1, p2 |-> "", data |-> data, who |-> "live", mac |-> "-", tail |-> ""]
Old(x)                == [x EXCEPT !.who = "old"]
Fr(body, tail)        == [a |-> "r", ins |-> "21", p1 |-> "12", p2 |-> "", data |-> body, who |-> "live", mac |-> "good", tail |-> tail]
BadMac(x)             == [x EXCEPT !.mac = "bad"]
P(b) == [a |-> b]
Say(b) == [a |-> b]      \* "yes", "no": walk to the page and press

LiveId(s) == IF s.d.cmd # "none" /\ s.d.c.sess # "" THEN s.d.c.sess ELSE "7f"
Raw(s, x) ==
    LET mac == CASE x.mac = "good" -> MacOf(s.d.skey, x.data) [] x.mac = "bad" -> Rep("00", 16) [] OTHER -> ""
        body == x.data \o mac \o x.tail
        p2 == CASE x.who = "live" -> LiveId(s) [] x.who = "old" -> "55" [] OTHER -> x.p2
    IN "e0" \o x.ins \o x.p1 \o p2 \o Hex2(BLen(body)) \o body

Path(p) == Hex2(Len(p)) \o PathHex(p)
Acct == <<H44, H429, "80000000">>
Adr(i) == <<H44, H429, "80000000", "00000000", i>>
NearP == Adr("00000005")
FarP  == <<H44, H429, "80000001", "00000000", "00000005">>
SignP == Adr("00000000")
T1 == "00000007"
T2 == "00000009"
U(v) == SubSeq(Rep("0", AmtW), 1, AmtW - Len(v)) \o v
TokA == Rep("a1", 32)
TokB == Rep("b2", 32)
TokN(i) == Rep("c" \o Hex1(i), 32)
BoxHead(value, tsize, ntok, rsize) == value \o HexOf(tsize, 8) \o "00000009" \o Hex2(ntok) \o HexOf(rsize, 8)
AInit(tsize, ntok, rsize, tok) == R("20", "01", IF tok = NoTok THEN "01" ELSE "02",
    Rep("11", 32) \o "0080" \o BoxHead(U("80"), tsize, ntok, rsize) \o (IF tok = NoTok THEN "" ELSE tok))
SInit(p, net, tok) == R("21", "01", IF tok = NoTok THEN "01" ELSE "02", net \o Path(p) \o (IF tok = NoTok THEN "" ELSE tok))
Epk(p, tok) == R("10", IF tok = NoTok THEN "01" ELSE "02", "00", Path(p) \o (IF tok = NoTok THEN "" ELSE tok))
Da(p, net, disp, tok) == R("11", IF disp THEN "02" ELSE "01", IF tok = NoTok THEN "01" ELSE "02",
                           net \o Path(p) \o (IF tok = NoTok THEN "" ELSE tok))
Version == R("01", "00", "00", "")
NameQ   == R("02", "00", "00", "")
Junk    == R("10", "03", "00", "")
Start(nin, nd, nt, no) == Ses("21", "10", Hex4(nin) \o Hex4(nd) \o Hex2(nt) \o Hex4(no))
\* frames of three boxes: one without tokens, one with a token, one with five
FBody(id, fc, fi, val, toks) == id \o Hex2(fc) \o Hex2(fi) \o val \o Hex2(Len(toks)) \o Concat([i \in 1..Len(toks) |-> toks[i] \o U("5")])
Box1(ext) == Fr(FBody(Rep("e1", 32), 1, 0, U("f4240"), <<>>), ext)
Box2(ext) == Fr(FBody(Rep("e2", 32), 1, 0, U("64"), <<TokA>>), ext)
Box3a(ext) == Fr(FBody(Rep("e3", 32), 2, 0, U("7"), <<TokA, TokB, TokN(1), TokN(2)>>), ext)
\* three frames of a box
Box5(i) == Fr(FBody(Rep("e5", 32), 3, i, U("9"), <<TokN(i)>>), IF i = 0 THEN "00000000" ELSE "")
Box3b == Fr(FBody(Rep("e3", 32), 2, 1, U("7"), <<TokN(3)>>), "")
Box4(v, n) == Fr(FBody(Rep("e4", 32), 1, 0, v, <<>>), "00000000")
BoxT(id, v) == Fr(Rep(id, 32) \o "0100" \o U("1") \o "01" \o TokA \o v, "00000000")
E0 == "00000000"
Out(v, tsize, ntok, rsize) == Ses("21", "15", BoxHead(v, tsize, ntok, rsize))
Pk == P2pkTree("03" \o Rep("5c", 32))
Sh == P2shPrefix \o Rep("6d", 24) \o P2shSuffix
OT(ix, v) == HexOf(ix, 8) \o U(v)
Big == Rep("7e", 255)

Shell == {Epk(Acct, NoTok), Epk(Acct, T1), Epk(Acct, T2), Epk(SignP, T1), Da(NearP, "00", FALSE, T1), Da(NearP, "10", TRUE, T1),
          AInit(1, 0, 0, NoTok), AInit(1, 0, 0, T1), SInit(SignP, "00", NoTok), SInit(SignP, "00", T1), R("21", "01", "03", ""),
          SInit(SignP, "01", T1), Version, NameQ, Junk, Ses("20", "02", "aa"), Ses("20", "05", "00"), Old(Ses("20", "02", "aa")),
          Start(1, 0, 0, 1), Ses("21", "20", ""), Old(Start(1, 0, 0, 1)), P("left"), P("right"), P("both")}
AttestAlphabet ==
    {AInit(t, n, r, T1) : t \in {0, 2}, n \in {0, 2}, r \in {0, 2}} \cup {AInit(256, 5, 0, T1), AInit(1, 21, 0, T1), AInit(32769, 0, 0, T1)} \cup
    {Ses("20", "02", x) : x \in {"", "aa", "aabb", "aabbcc", Big}} \cup
    {Ses("20", "03", x) : x \in {"", TokA \o U("5"), TokB \o U("0"), TokA \o U("5") \o TokB \o U("6"), TokA \o U("5") \o TokA \o U("6"),
                                  TokA, TokA \o U("5") \o "aa", Concat([i \in 1..5 |-> TokN(i) \o U("9")])}} \cup
    {Ses("20", "04", x) : x \in {"", "aa", "aabb", "aabbcc"}} \cup
    {Ses("20", "05", x) : x \in {"", "00", "01", "02", "0000"}} \cup
    {Old(Ses("20", "02", "aabb")), Old(Ses("20", "05", "00")), Ses("20", "06", ""), SInit(SignP, "00", T1), Epk(Acct, T1), AInit(1, 0, 0, NoTok),
     Say("yes"), Say("no")}
InputAlphabet ==
    {Start(1, 0, 0, 1), Start(2, 1, 1, 1), Start(1, 1, 0, 1), Start(0, 0, 0, 1), Start(1, 0, 0, 0), Start(1, 0, 21, 1)} \cup
    {Ses("21", "11", x) : x \in {"", TokA, TokA \o TokB, TokA \o "aa", "aa"}} \cup
    {Box1(E0), Box1("00000002"), Box1("00000001"), Box1(""), Box1("00008001"), BadMac(Box1(E0)), Box2(E0), Box3a(E0), Box3a("00000002"), Box3b, Box5(0), Box5(1), Box5(2),
     BadMac(Box3b), Old(Box1(E0))} \cup
    {Ses("21", "13", x) : x \in {"", "aa", "aabb", "aabbcc"}} \cup
    {Ses("21", "14", x) : x \in {"", TokA, TokA \o TokB, "aa"}} \cup
    {Out(U("5"), 36, 0, 0), Ses("21", "20", ""), Ses("21", "17", ""), Say("yes"), Say("no")}
OutputAlphabet ==
    {Out(U("5"), 36, 0, 0), Out(U("6"), 1, 1, 1), Out(U("64"), 0, 1, 0), Out(U("1"), 0, 0, 2), Out(U("9"), 44, 2, 0), Out(U("2"), 256, 0, 0), Out(U("7"), 32769, 0, 0),
     Out(U("7"), 0, 21, 0), Out(U("0"), 0, 0, 0)} \cup
    {Ses("21", "16", x) : x \in {"", "aa", Pk, Sh, Big}} \cup
    {Ses("21", "17", x) : x \in {"", "aa"}} \cup
    {Ses("21", "18", x) : x \in {Path(NearP), Path(FarP), Path(Acct), "05"}} \cup
    {Ses("21", "19", x) : x \in {"", OT(0, "1"), OT(1, "2"), OT(0, "0"), OT(0, "1") \o OT(1, "1"), OT(0, "1") \o OT(0, "1"), OT(2, "1"), "00000000"}} \cup
    {Ses("21", "1a", x) : x \in {"aa", "aabb"}} \cup
    {Ses("21", "20", ""), Old(Ses("21", "17", "")), Say("yes"), Say("no")}
M == Rep("f", AmtW)
H == "8" \o Rep("0", AmtW - 1)
H1 == "7" \o Rep("f", AmtW - 1)
TotalAlphabet ==
    {Box4(v, 0) : v \in {M, U("1"), U("0"), H}} \cup {BoxT("e7", v) : v \in {H1, U("1"), H}} \cup
    {Out(v, 0, 0, 0) : v \in {M, H, U("1"), U("0")}} \cup {Out(U("0"), 1, 1, 0)} \cup
    {Ses("21", "17", ""), Ses("21", "18", Path(NearP)), Ses("21", "16", "aa"), Ses("21", "20", ""), Say("yes")} \cup
    {Ses("21", "19", "00000000" \o v) : v \in {M, H, H1, U("1")}}
\* a whole small transaction: nothing but steps that can be right somewhere, and the user
FlowAlphabet ==
    {SInit(SignP, "00", T1), Start(2, 1, 1, 2), Ses("21", "11", TokA), Box2(E0), Box3a("00000002"), Box3b, Ses("21", "13", "aabb"), Ses("21", "14", TokB),
     Out(U("5"), 36, 1, 0), Out(U("6"), 0, 0, 0), Ses("21", "16", Pk), Ses("21", "17", ""), Ses("21", "18", Path(FarP)), Ses("21", "19", OT(0, "1")),
     Ses("21", "20", ""), Say("yes"), Say("no"), Epk(Acct, T1), AInit(1, 0, 0, T1)}
PagesAlphabet ==
    {P("left"), P("right"), P("both"), Epk(Acct, T1), Da(NearP, "00", TRUE, NoTok), Ses("21", "20", ""), Version, Ses("21", "17", "")}

\* boxes that can all be completed
BoxAlphabet ==
    {AInit(t, n, r, T1) : t \in {0, 2}, n \in {0, 2}, r \in {0, 2}} \cup {AInit(256, 5, 0, T1)} \cup {Ses("20", "02", x) : x \in {"", "aa", "aabb", Big}} \cup
    {Ses("20", "03", x) : x \in {TokA \o U("5"), TokB \o U("0"), TokA \o U("5") \o TokB \o U("6"), Concat([i \in 1..3 |-> TokN(i) \o U("9")])}} \cup
    {Ses("20", "04", x) : x \in {"aa", "aabb"}} \cup {Ses("20", "05", "00"), Ses("20", "05", "01"), Epk(Acct, T1), Say("yes"), Say("no")}

\* smaller ones for every change
Flow0 == (FlowAlphabet \ {Start(2, 1, 1, 2), Box3a("00000002"), Box3b, Ses("21", "13", "aabb"), Ses("21", "14", TokB), Epk(Acct, T1), Say("no")})
         \cup {Start(1, 0, 1, 2)}
Outputs0 == {Out(U("5"), 36, 0, 0), Out(U("6"), 1, 1, 2), Out(U("2"), 256, 0, 0), Out(U("7"), 32769, 0, 0), Out(U("7"), 0, 21, 0)} \cup
    {Ses("21", "16", x) : x \in {"", "aa", Pk, Big}} \cup {Ses("21", "17", "")} \cup {Ses("21", "18", x) : x \in {Path(NearP), Path(FarP), Path(Acct)}} \cup
    {Ses("21", "19", x) : x \in {OT(0, "1"), OT(2, "1"), "00000000"}} \cup {Ses("21", "1a", x) : x \in {"aa", "aabb"}} \cup {Ses("21", "20", ""), Say("yes"), Say("no")}
Totals0 == {Box4(v, 0) : v \in {M, U("1")}} \cup {BoxT("e7", v) : v \in {H1, U("1")}} \cup {Out(v, 0, 0, 0) : v \in {M, U("1")}} \cup {Out(U("0"), 1, 1, 0)} \cup
    {Ses("21", "17", ""), Ses("21", "18", Path(NearP)), Ses("21", "16", "aa"), Ses("21", "20", ""), Say("yes")} \cup {Ses("21", "19", "00000000" \o v) : v \in {H, U("1")}}
Alphabet == CASE Focus = "shell" -> Shell [] Focus = "attest" -> AttestAlphabet [] Focus = "inputs" -> InputAlphabet
              [] Focus = "outputs" -> OutputAlphabet [] Focus = "totals" -> TotalAlphabet [] Focus = "flow" -> FlowAlphabet [] Focus = "pages" -> PagesAlphabet
              [] Focus = "boxes" -> BoxAlphabet [] Focus = "flow0" -> Flow0 [] Focus = "outputs0" -> Outputs0 [] Focus = "totals0" -> Totals0
ToOuts == <<SInit(SignP, "00", NoTok), Say("yes"), Start(1, 0, 2, 2), Ses("21", "11", TokA \o TokB), Box3a(E0), Box3b>>
Prefix == CASE Focus \in {"shell", "flow", "flow0"} -> <<>>
            [] Focus \in {"attest", "boxes"} -> <<Epk(Acct, T1), Say("yes")>>
            [] Focus = "inputs" -> <<SInit(SignP, "00", NoTok), Say("yes")>>
            [] Focus \in {"outputs", "outputs0"} -> <<SInit(SignP, "00", NoTok), Say("yes"), Start(1, 0, 2, 2), Ses("21", "11", TokA \o TokB), Box1(E0)>>
            [] Focus \in {"totals", "totals0"} -> <<SInit(SignP, "00", NoTok), Say("yes"), Start(2, 0, 1, 2), Ses("21", "11", TokA)>>
            [] Focus = "pages" -> <<SInit(SignP, "10", T2), Say("yes"), Start(1, 0, 2, 2), Ses("21", "11", TokA \o TokB), Box3a(E0), Box3b,
                                    Out(U("1"), 0, 0, 0), Ses("21", "17", ""), Out(U("3"), 44, 2, 0), Ses("21", "16", Sh), Ses("21", "19", OT(0, "1") \o OT(1, "9"))>>

-----------------------------------------------------------------------------
(* One event                                                                 *)
FreshId(s) == LET prev == LiveSession(s.d)
                  p2 == IF s.d.ui.k = "ask" /\ s.d.ui.act.k \in {"attest", "sign"} THEN s.d.c.prev ELSE prev
              IN CHOOSE x \in {"01", "02"} : x # p2 /\ (x = "01" \/ p2 = "01")
FreshPt(s) == LET taken == s.o.used \cup (IF s.d.cmd = "sign" THEN s.d.c.pts ELSE {})
              IN CHOOSE x \in {"w1", "w2", "w3", "w4"} : x \notin taken
FinalAsk(s) == s.d.ui.k = "ask" /\ s.d.ui.act.k = "final"
EnvOf(s) ==
    LET w == IF FinalAsk(s) THEN CHOOSE p \in s.d.c.pts : TRUE ELSE ""
    IN [sid |-> FreshId(s), pts |-> {FreshPt(s)}, skey |-> "5e", w |-> w,
        sig |-> IF FinalAsk(s) THEN Sub(HashOf(SignedBytes(PubOf(PathHex(s.d.c.path)), w, s.d.c.t)), 0, 24) \o Rep("00", 32) ELSE ""]
Event(s, x) ==     \* x: a request or a single press
    LET env == EnvOf(s)
        q   == IF x.a = "r" THEN Parse(Raw(s, x)) ELSE NoQ
        res == IF x.a = "r" THEN Handle(s.d, q, env) ELSE Press(s.d, x.a, env)
        quit == x.a = "both" /\ s.d.ui.k = "menu" /\ Shown(s.d).role = "quit"
        ev  == [in |-> IF x.a = "r" THEN "apdu" ELSE x.a, q |-> q, r |-> res.r, page |-> Shown(res.d).lines, k |-> res.k,
                w |-> IF res.r # <<>> THEN env.w ELSE "", pts |-> env.pts, skey |-> IF quit THEN "5e" ELSE ""]
    IN [d |-> res.d, o |-> Observe(s.o, ev), bad |-> s.bad \cup {n \in AllNames : ~Kept(n, s.o, ev)}]
RECURSIVE Walk(_, _, _)
Walk(s, role, n) ==    \* to the page with this role, and press
    IF s.d.ui.k # "ask" \/ n = 0 THEN s
    ELSE IF Shown(s.d).role = role THEN Event(s, P("both")) ELSE Walk(Event(s, P("right")), role, n - 1)
Act(s, x) == IF x.a = "yes" THEN Walk(s, "ok", 60) ELSE IF x.a = "no" THEN Walk(s, "no", 60) ELSE Event(s, x)
RECURSIVE Acts(_, _)
Acts(s, l) == IF l = <<>> THEN s ELSE Acts(Act(s, l[1]), Tail(l))

VARIABLES s, h
vars == <<s, h>>
Start0 == [d |-> Boot("5e"), o |-> Observer0("5e", MainPages[1].lines), bad |-> {}]
\* the alphabet, the first state and the transitions, by fingerprints: lib/tour.py replays them on the device
ASSUME Emit => \A x \in Alphabet : PrintT(<<"A", TLCFP(x), ToJson(x)>>)
Init == s = Acts(Start0, Prefix) /\ h = Len(Prefix) /\ (Emit => PrintT(<<"I", TLCFP(s), ToJson(Prefix)>>))
\* where a step leads: a session in progress, its end
Mark(a, b) == IF b.o.used # a.o.used \/ (b.o.ses.k = "a" /\ BoxWhole(b.o.ses.box)) THEN "end"
              ELSE IF b.o.ses.k # "-" THEN "open" ELSE "-"
Enabled(x) == (x.a \in {"yes", "no"}) => Busy(s.d)
Next == \E x \in Alphabet :
            /\ Enabled(x)
            /\ s' = Act(s, x) /\ h' = h + 1
            /\ Emit => PrintT(<<"E", TLCFP(s), TLCFP(x), TLCFP(s'), Mark(s, s')>>)
Spec == Init /\ [][Next]_vars
View == s
Bounded == Cardinality(s.o.used) <= 1 /\ h <= 40

-----------------------------------------------------------------------------
PropertiesHold == s.bad = {}
\* the observer and the device agree on what matters
Agree ==
    /\ s.o.app = s.d.app
    /\ Busy(s.d) <=> s.o.ask.k # "-"
    /\ (s.d.cmd = "sign" /\ s.d.c.sess # "") <=> s.o.ses.k = "s"
    /\ (s.d.cmd = "attest" /\ s.d.c.sess # "") <=> s.o.ses.k = "a"
    /\ s.o.ses.k = "s" => s.o.ses.sid = s.d.c.sess
\* every page of what is displayed is reached going either way (C20)
RECURSIVE Visit(_, _, _)
Visit(u, b, n) == IF n = 0 THEN {u.ix} ELSE {u.ix} \cup Visit(Press([s.d EXCEPT !.ui = u], b, [x |-> 0]).d.ui, b, n - 1)
Reachable == (\A i \in 1..Len(s.d.ui.pages) : s.d.ui.pages[i].role # "err") =>
             \A b \in {"left", "right"} : Visit(s.d.ui, b, Len(s.d.ui.pages) - 1) = 1..Len(s.d.ui.pages)
\* a prompt can be approved and rejected, nothing else decides it
Decidable == Busy(s.d) => {"ok", "no"} \subseteq {s.d.ui.pages[i].role : i \in 1..Len(s.d.ui.pages)}
\* whatever was done before, a command begins as on a device just started that has the same
\* application connected and shows the same page (C22)
Starting == {Epk(Acct, NoTok), Epk(Acct, T1), Epk(SignP, T1), Da(NearP, "00", FALSE, T1), Da(NearP, "10", TRUE, NoTok), AInit(1, 0, 0, NoTok), AInit(1, 1, 1, T1),
             AInit(32769, 0, 0, T1), SInit(SignP, "00", NoTok), SInit(SignP, "00", T1), SInit(Acct, "00", T1)}
Apart(d) == IF d.cmd \in {"attest", "sign"} THEN [d EXCEPT !.c.prev = ""] ELSE d
Forgets == ~Busy(s.d) =>
    \A x \in Starting :
        LET q == Parse(Raw(s, x)) env == EnvOf(s)
            a == Handle(s.d, q, env)
            b == Handle([Boot("5e") EXCEPT !.app = s.d.app, !.ui = s.d.ui], q, env)
        IN a.r = b.r /\ a.k = b.k /\ Apart(a.d) = Apart(b.d)
=============================================================================
