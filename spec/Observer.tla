------------------------------ MODULE Observer ------------------------------
(* The properties, stated over what can be seen from outside: requests,      *)
(* replies, the page displayed, presses, keys used.  Nothing here refers to  *)
(* the state of Device; the observer rebuilds from the accepted requests     *)
(* what was streamed, and from the presses what was approved.                *)
(*                                                                           *)
(* An event x: [in, q, r, page, k, w, pts, skey, err]                        *)
(*   in   "boot" | "apdu" | "left" | "right" | "both"                        *)
(*   q    the request (apdu)      r     replies sent    page  lines displayed*)
(*   k    key paths used          w     nonce commitment of a signature sent *)
(*   pts  nonce commitments drawn skey  the run's key (boot, quit)           *)
EXTENDS Wire, FiniteSets

NoQ == [k |-> "-"]
NoSes == [k |-> "-"]
Content0 == [ann |-> NoQ, ids |-> <<>>, ins |-> <<>>, datas |-> <<>>, outs |-> <<>>, conf |-> FALSE]
\* app: token of the last approved request; ask: the request the user is asked about;
\* seen: pages shown of a prompt read from the first page on (empty: not read so);
\* ses: the session; used: nonces of signatures released; last: the most recent output
\* prompt was for this change path and was approved; yes: outputs approved
Observer0(skey, page) == [app |-> NoTok, skey |-> skey, ask |-> NoQ, page |-> page, ses |-> NoSes,
                          used |-> {}, first |-> <<>>, seen |-> {}, last |-> <<>>, yes |-> {}]

OkData(r) == Sub(r, 0, BLen(r) - 2)
IsOk(x) == Len(x.r) = 1 /\ BLen(x.r[1]) >= 2 /\ Sub(x.r[1], BLen(x.r[1]) - 2, 2) = SwOk
Data(x) == IF IsOk(x) THEN OkData(x.r[1]) ELSE ""
IsInit(q) == q.k \in {"epk", "da", "a.init", "s.init"}
IsCont(q) == q.k \notin {"bad", "version", "name", "-"} /\ ~IsInit(q)
MenuPages == {MainPages[i].lines : i \in 1..3} \cup {AboutPages[i].lines : i \in 1..3}
Prompted(x) == x.r = <<>> /\ x.page \notin MenuPages
StartPage(o) == o.ask.k = "s.init" /\ o.page = o.first    \* also approves
Yes(o, x) == x.in = "both" /\ o.ask.k # "-" /\ (o.page = <<"Approve">> \/ StartPage(o))
No(o, x)  == x.in = "both" /\ o.ask.k # "-" /\ o.page = <<"Reject">>
\* a press on another page was answered: the prompt ended with an error
Broke(o, x) == x.in # "apdu" /\ o.ask.k # "-" /\ ~Yes(o, x) /\ ~No(o, x) /\ x.r # <<>>

-----------------------------------------------------------------------------
(* What has been streamed                                                    *)
SetLast(s, v) == [s EXCEPT ![Len(s)] = v]
Box0(q) == [q |-> q, tree |-> "", toks |-> <<>>, regs |-> "", kind |-> "", dest |-> <<>>]
AddTo(b, q) ==      \* a box
    CASE q.k \in {"s.tree", "a.tree"} -> [b EXCEPT !.tree = @ \o q.data, !.kind = "tree"]
      [] q.k = "s.fee"    -> [b EXCEPT !.kind = "fee"]
      [] q.k = "s.change" -> [b EXCEPT !.kind = "change", !.dest = q.path]
      [] q.k \in {"s.otoks", "a.toks"} -> [b EXCEPT !.toks = @ \o q.items]
      [] q.k \in {"s.regs", "a.regs"}  -> [b EXCEPT !.regs = @ \o q.data]
      [] OTHER -> b
Stream(c, q) ==
    CASE q.k = "s.start" -> [c EXCEPT !.ann = q]
      [] q.k = "s.toks"  -> [c EXCEPT !.ids = @ \o q.ids]
      [] q.k = "s.datas" -> [c EXCEPT !.datas = @ \o q.ids]
      [] q.k = "s.frame" ->
           IF q.fi = 0
           THEN [c EXCEPT !.ins = Append(@, [id |-> q.id, fc |-> q.fc, val |-> q.val, toks |-> q.toks,
                                            seen |-> 1, size |-> CapInt(q.ext), ext |-> ""])]
           ELSE [c EXCEPT !.ins = SetLast(@, [Last(@) EXCEPT !.toks = @ \o q.toks, !.seen = @ + 1])]
      [] q.k = "s.ext" -> [c EXCEPT !.ins = SetLast(@, [Last(@) EXCEPT !.ext = @ \o q.data])]
      [] q.k = "s.out" -> [c EXCEPT !.outs = Append(@, Box0(q))]
      [] q.k \in {"s.tree", "s.fee", "s.change", "s.otoks", "s.regs"} -> [c EXCEPT !.outs = SetLast(@, AddTo(Last(@), q))]
      [] q.k = "s.confirm" -> [c EXCEPT !.conf = TRUE]
      [] OTHER -> c

InWhole(i) == i.seen = i.fc /\ BLen(i.ext) = i.size
TreeWhole(b) == IF b.kind = "tree" THEN BLen(b.tree) = b.q.treeSize ELSE b.kind # ""
BoxWhole(b) == TreeWhole(b) /\ Len(b.toks) = b.q.ntok /\ BLen(b.regs) = b.q.regSize
InsWhole(c)  == c.ann.k # "-" /\ Len(c.ids) = c.ann.ntok /\ Len(c.ins) = c.ann.nin /\ \A i \in 1..Len(c.ins) : InWhole(c.ins[i])
OutsWhole(c) == \A i \in 1..Len(c.outs) : BoxWhole(c.outs[i])
Whole(c) == InsWhole(c) /\ Len(c.datas) = c.ann.ndata /\ Len(c.outs) = c.ann.nout /\ OutsWhole(c)

\* where a step belongs
BoxStep(b, k) ==
    CASE k \in {"s.tree", "a.tree"} -> b.kind = "" \/ ~TreeWhole(b)
      [] k \in {"s.fee", "s.change"} -> b.kind = ""
      [] k \in {"s.otoks", "a.toks"} -> TreeWhole(b) /\ Len(b.toks) < b.q.ntok
      [] k \in {"s.regs", "a.regs"}  -> TreeWhole(b) /\ Len(b.toks) = b.q.ntok /\ BLen(b.regs) < b.q.regSize
Belongs(c, q) ==
    CASE q.k = "s.start" -> c.ann.k = "-"
      [] c.ann.k = "-"   -> FALSE
      [] q.k = "s.toks"  -> Len(c.ids) < c.ann.ntok /\ c.ins = <<>>
      [] q.k = "s.frame" ->
           IF q.fi = 0
           THEN Len(c.ids) = c.ann.ntok /\ Len(c.ins) < c.ann.nin /\ \A i \in 1..Len(c.ins) : InWhole(c.ins[i])
           ELSE c.ins # <<>> /\ LET i == Last(c.ins) IN i.id = q.id /\ q.fi = i.seen /\ i.seen < i.fc
      [] q.k = "s.ext" -> c.ins # <<>> /\ LET i == Last(c.ins) IN i.seen = i.fc /\ BLen(i.ext) < i.size
      [] q.k = "s.datas" -> InsWhole(c) /\ Len(c.datas) < c.ann.ndata /\ c.outs = <<>>
      [] q.k = "s.out" -> InsWhole(c) /\ Len(c.datas) = c.ann.ndata /\ OutsWhole(c) /\ Len(c.outs) < c.ann.nout
      [] q.k = "s.confirm" -> Whole(c) /\ ~c.conf
      [] q.k \in {"s.tree", "s.fee", "s.change", "s.otoks", "s.regs"} -> c.outs # <<>> /\ BoxStep(Last(c.outs), q.k)
      [] OTHER -> FALSE
\* no more than announced, nothing beyond the limits
BoxWithin(b) ==
    /\ b.q.ntok <= MaxTok /\ b.q.treeSize <= MaxPart /\ b.q.regSize <= MaxPart
    /\ b.kind = "tree" => BLen(b.tree) <= b.q.treeSize
    /\ Len(b.toks) <= b.q.ntok /\ BLen(b.regs) <= b.q.regSize
Within(c) ==
    c.ann.k # "-" =>
        /\ c.ann.nin > 0 /\ c.ann.nout > 0 /\ c.ann.ntok <= MaxTok
        /\ Len(c.ids) <= c.ann.ntok /\ Len(c.ins) <= c.ann.nin /\ Len(c.datas) <= c.ann.ndata /\ Len(c.outs) <= c.ann.nout
        /\ \A i \in 1..Len(c.ins) : c.ins[i].seen <= c.ins[i].fc /\ BLen(c.ins[i].ext) <= c.ins[i].size /\ c.ins[i].size <= MaxPart
        /\ \A i \in 1..Len(c.outs) : BoxWithin(c.outs[i])

-----------------------------------------------------------------------------
(* Its meaning                                                               *)
OutTreeOf(b) == CASE b.kind = "fee" -> FeeTree
                  [] b.kind = "change" -> P2pkTree(PubOf(PathHex(b.dest)))
                  [] OTHER -> b.tree
OutContent(b) ==
    [value |-> b.q.value, tree |-> OutTreeOf(b), height |-> b.q.height, regs |-> b.regs,
     toks |-> [i \in 1..Len(b.toks) |-> [ref |-> VlqInt(b.toks[i].ix), val |-> b.toks[i].val]]]
TxOf(c) ==
    [inputs |-> [i \in 1..Len(c.ins) |-> [id |-> c.ins[i].id, ext |-> c.ins[i].ext]],
     datas |-> c.datas, toks |-> c.ids,
     outs |-> [i \in 1..Len(c.outs) |-> OutContent(c.outs[i])]]
\* the attested box
BoxOf(q, b) == [value |-> q.value, tree |-> b.tree, height |-> q.height, regs |-> b.regs,
                toks |-> [i \in 1..Len(b.toks) |-> [ref |-> b.toks[i].id, val |-> b.toks[i].val]]]
FrameOf(skey, q, b, ix) ==
    LET n  == Len(b.toks)
        fc == IF n = 0 THEN 1 ELSE (n + FrameTok - 1) \div FrameTok
        t  == SubSeq(b.toks, ix * FrameTok + 1, IF (ix + 1) * FrameTok < n THEN (ix + 1) * FrameTok ELSE n)
        body == HashOf(BoxIdBytes(BoxOf(q, b), q.txid, q.idx)) \o Hex2(fc) \o Hex2(ix) \o q.value \o Hex2(Len(t)) \o
                Concat([i \in 1..Len(t) |-> t[i].id \o t[i].val])
    IN body \o MacOf(skey, body)

\* sums that cannot wrap: four more digits
Wide(v) == "0000" \o v
RECURSIVE Add(_)
Add(s) == IF s = <<>> THEN Wide(Zero(AmtW)) ELSE AddW(Wide(s[1]), Add(Tail(s)))[2]
Sum(s, f(_)) == Add([i \in 1..Len(s) |-> f(s[i])])
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flat(Tail(s))
OutsOf(c, kind) == SelectSeq(c.outs, LAMBDA b : b.kind = kind)
WMinus(a, b) == SubW(a, b)[2]
Total(c) == WMinus(WMinus(Sum(c.ins, LAMBDA i : i.val), Sum(OutsOf(c, "change"), LAMBDA b : b.q.value)),
                   Sum(OutsOf(c, "fee"), LAMBDA b : b.q.value))
FeeTotal(c) == Sum(OutsOf(c, "fee"), LAMBDA b : b.q.value)
RECURSIVE Distinct(_, _)
Distinct(s, acc) == IF s = <<>> THEN acc ELSE Distinct(Tail(s), IF IndexOf(acc, s[1]) # 0 THEN acc ELSE Append(acc, s[1]))
Ids0(toks) == [i \in 1..Len(toks) |-> toks[i].id]
Tokens(c) == Distinct(c.ids \o Flat([i \in 1..Len(c.ins) |-> Ids0(c.ins[i].toks)]), <<>>)
TokIn(c, t) == Sum(SelectSeq(Flat([i \in 1..Len(c.ins) |-> c.ins[i].toks]), LAMBDA x : x.id = t), LAMBDA x : x.val)
TokOut(c, t) == Sum(SelectSeq(Flat([i \in 1..Len(c.outs) |-> c.outs[i].toks]), LAMBDA x : c.ids[x.ix + 1] = t), LAMBDA x : x.val)
OutTok(c, b, t) == Sum(SelectSeq(b.toks, LAMBDA x : c.ids[x.ix + 1] = t), LAMBDA x : x.val)
Fits64(v) == SubSeq(v, 1, 4) = "0000"

\* tokens and, by their position, what is said about them: on the page with that title, or (<<>>) on all of them
TokLines(page, toks, text(_)) ==
    LET T(j) == "Token [" \o DecInt(j) \o "]"
    IN {<<T(j), TokText(toks[j])>> : j \in {j \in 1..Len(toks) : page = <<>> \/ page[1] = T(j)}} \cup
       {<<T(j) \o " Value", text(j)>> : j \in {j \in 1..Len(toks) : page = <<>> \/ page[1] = T(j) \o " Value"}}
DestLines(o, c, b) ==
    CASE b.kind = "change" -> <<"Change", PathText(b.dest)>>
      [] b.kind = "fee" -> <<"Fee", "Miners Fee">>
      [] OTHER -> LET s == Classify(b.tree) IN
           IF s.kind = "p2pk" THEN <<"Address", "@" \o AddressBytes(o.ses.q.net, "p2pk", s.v)>>
           ELSE <<"Script Hash", "@" \o AddressBytes(o.ses.q.net, "p2sh", IF s.kind = "p2sh" THEN s.v ELSE Sub(HashOf(s.v), 0, 24))>>
Buttons == {<<"Approve">>, <<"Reject">>}
\* every page that may be shown about an output, about the transaction, about a request
OutputLines(page, o, c) ==
    LET b == Last(c.outs)
        ts == SelectSeq(Tokens(c), LAMBDA t : ~IsZero(OutTok(c, b, t)))
    IN {<<"Confirm Output">>, DestLines(o, c, b)} \cup Buttons \cup
       (IF b.kind = "change" THEN {}
        ELSE {<<"Output Value", Erg(b.q.value)>>} \cup TokLines(page, ts, LAMBDA j : Dec(OutTok(c, b, ts[j]))))
RECURSIVE TokSums(_, _, _, _)
TokSums(c, toks, ins, outs) ==
    IF toks = <<>> THEN <<>>
    ELSE <<[in  |-> Sum(SelectSeq(ins, LAMBDA x : x.id = toks[1]), LAMBDA x : x.val),
            out |-> Sum(SelectSeq(outs, LAMBDA x : c.ids[x.ix + 1] = toks[1]), LAMBDA x : x.val)]>> \o TokSums(c, Tail(toks), ins, outs)
FinalLines(page, o, c) ==
    LET toks == Tokens(c)
        ins  == Flat([i \in 1..Len(c.ins) |-> c.ins[i].toks])
        outs == Flat([i \in 1..Len(c.outs) |-> c.outs[i].toks])
        sums == TokSums(c, toks, ins, outs)
        js == SelectSeq([j \in 1..Len(toks) |-> j], LAMBDA j : sums[j].in # sums[j].out)
        text(k) == LET s == sums[js[k]] IN
                   IF Lt(s.in, s.out) THEN "Minting: " \o Dec(WMinus(s.out, s.in)) ELSE "Burning: " \o Dec(WMinus(s.in, s.out))
    IN {<<"Approve Signing">>, <<"P2PK Path", PathText(o.ses.q.path)>>,
        <<"Transaction Amount", Erg(Total(c))>>, <<"Transaction Fee", Erg(FeeTotal(c))>>} \cup Buttons
       \cup TokLines(page, [k \in 1..Len(js) |-> toks[js[k]]], text)
TokPage(q) == IF q.tok = NoTok THEN {} ELSE {<<"Application", "0x" \o q.tok>>}
RequestLines(o, q) ==
    Buttons \cup
    CASE q.k = "epk" -> {<<"Ext PubKey Export">>, <<"Path", PathText(q.path)>>} \cup TokPage(q)
      [] q.k = "da"  -> {<<"Path", PathText(q.path)>>} \cup TokPage(q) \cup
                        (IF q.display THEN {<<"Confirm Address">>, <<"Address", "@" \o AddressBytes(q.net, "p2pk", PubOf(PathHex(q.path)))>>}
                         ELSE {<<"Confirm Send Address">>})
      [] q.k = "a.init" -> {<<"Confirm Attest Input">>} \cup TokPage(q)
      [] q.k = "s.init" -> {<<"P2PK Signing", PathText(q.path)>>} \cup
                           (IF Known([app |-> o.app], q.tok) THEN {} ELSE {<<"Application", "0x" \o q.tok>>})

\* outputs that need no approval
QuietOut(o, c, n) ==
    LET b == c.outs[n] p == o.ses.q.path IN
    \/ b.kind = "fee" /\ \A i \in 1..Len(b.toks) : IsZero(b.toks[i].val)
    \/ b.kind = "change" /\ Len(b.dest) = 5 /\ b.dest = o.last
    \/ b.kind = "change" /\ Len(b.dest) = 5 /\ SubSeq(b.dest, 1, 4) = SubSeq(p, 1, 4) /\ Lt("0" \o b.dest[5], AddW("0" \o p[5], "0" \o MaxGap)[2])

-----------------------------------------------------------------------------
(* The observer's state after an event                                       *)
Over(o) == [o EXCEPT !.ses = NoSes, !.yes = {}, !.last = <<>>]
Opened(o, q, sid, how, pts) ==
    [o EXCEPT !.ses = [k |-> IF q.k = "a.init" THEN "a" ELSE "s", sid |-> sid, q |-> q, how |-> how, pts |-> pts,
                       c |-> Content0, box |-> IF q.k = "a.init" THEN Box0(q) ELSE NoQ],
              !.yes = {}, !.last = <<>>]
Advance(o, q) ==
    IF o.ses.k = "-" THEN o
    ELSE IF o.ses.k = "a" THEN [o EXCEPT !.ses.box = AddTo(@, q)]
    ELSE [o EXCEPT !.ses.c = Stream(@, q)]
\* an output completed without a prompt (C05 decides whether that was right)
Passed(o) == IF o.ses.k = "s" /\ o.ses.c.outs # <<>> /\ BoxWhole(Last(o.ses.c.outs))
             THEN [o EXCEPT !.yes = @ \cup {Len(o.ses.c.outs)}] ELSE o
OnRequest(o, x) ==
    LET q == x.q o1 == [o EXCEPT !.page = x.page] IN
    IF q.k \in {"bad", "version", "name"} \/ o.ask.k # "-" THEN o1
    ELSE IF IsInit(q)
    THEN IF Prompted(x) THEN [Over(o1) EXCEPT !.ask = q @@ [pts |-> x.pts], !.first = x.page, !.seen = {x.page}]
         ELSE IF q.k = "a.init" /\ IsOk(x) THEN Opened(o1, q, Data(x), "token", {})
         ELSE IF q.k = "s.init" /\ q.flag \notin {1, 2} THEN o1
         ELSE Over(o1)
    ELSE IF Prompted(x) THEN [Advance(o1, q) EXCEPT !.ask = q, !.first = x.page, !.seen = {x.page}]
    ELSE IF IsOk(x) THEN Passed(Advance(o1, q))
    ELSE Over(o1)
OnPress(o, x) ==
    LET o1 == [o EXCEPT !.page = x.page] q == o.ask
        done == [o1 EXCEPT !.ask = NoQ, !.seen = {}]
    IN IF Yes(o, x)
       THEN IF IsInit(q)
            THEN LET o2 == [done EXCEPT !.app = q.tok] IN
                 IF q.k \in {"a.init", "s.init"}
                 THEN IF IsOk(x) THEN Opened(o2, q, Data(x), "press", IF q.k = "s.init" THEN q.pts ELSE {}) ELSE Over(done)
                 ELSE IF IsOk(x) THEN o2 ELSE done
            ELSE IF q.k = "s.confirm" THEN [Over(done) EXCEPT !.used = @ \cup {x.w}]
            ELSE IF IsOk(x)
            THEN [done EXCEPT !.yes = @ \cup {Len(o.ses.c.outs)},
                              !.last = IF Last(o.ses.c.outs).kind = "change" THEN Last(o.ses.c.outs).dest ELSE <<>>]
            ELSE Over(done)
       ELSE IF No(o, x) \/ Broke(o, x) THEN Over(done)
       ELSE IF x.in = "right" /\ o.seen # {} THEN [o1 EXCEPT !.seen = @ \cup {x.page}]
       ELSE IF x.in = "left" THEN [o1 EXCEPT !.seen = {}] ELSE o1
Observe(o, x) ==
    IF x.in = "boot" \/ x.skey # "" THEN Observer0(x.skey, x.page)
    ELSE IF x.in = "apdu" THEN OnRequest(o, x) ELSE OnPress(o, x)

-----------------------------------------------------------------------------
(* The properties, each a predicate on an event x in the situation o         *)
Sig(x) == IsOk(x) /\ BLen(Data(x)) = 56
Accepted(o, x) == x.in = "apdu" /\ o.ask.k = "-" /\ IsCont(x.q) /\ (IsOk(x) \/ Prompted(x))
InSign(o) == o.ses.k = "s"
SessionFor(o, q) == IF q.g = "a" THEN o.ses.k = "a" ELSE InSign(o)
AskFor(o, k) == o.ask.k = k
\* who reads on to the approval has seen every page of what is approved
AllSeen(p, x, lines(_)) == (x.page = <<"Approve">> /\ p.seen # {}) => (lines(<<>>) \ Buttons) \subseteq p.seen
Honest(p, x, lines(_)) == x.page \in lines(x.page) /\ AllSeen(p, x, lines)
After(o, x) == Observe(o, x)
\* the output completed by this step
Completes(o, x) == Accepted(o, x) /\ InSign(o) /\ x.q.k \in {"s.tree", "s.fee", "s.change", "s.otoks", "s.regs"}
                   /\ LET c == After(o, x).ses.c IN c.outs # <<>> /\ BoxWhole(Last(c.outs))
OutAsk(o) == o.ask.k \in {"s.tree", "s.fee", "s.change", "s.otoks", "s.regs"}

P01(o, x) ==
    Sig(x) => /\ Yes(o, x) /\ o.page = <<"Approve">> /\ AskFor(o, "s.confirm")
              /\ InSign(o) /\ o.ses.how = "press" /\ Whole(o.ses.c)
P02(o, x) ==
    Sig(x) => InSign(o) /\ LET pre == SignedBytes(PubOf(PathHex(o.ses.q.path)), x.w, TxOf(o.ses.c)) IN
                           Sub(HashOf(pre), 0, 24) = Sub(Data(x), 0, 24)
P03(o, x) ==
    (Accepted(o, x) /\ x.q.k = "s.frame") => InSign(o) /\ MacOf(o.skey, x.q.body) = x.q.mac /\ Belongs(o.ses.c, x.q)
P04(o, x) ==
    (Accepted(o, x) /\ x.q.k = "a.frame") =>
        /\ o.ses.k = "a" /\ BoxWhole(o.ses.box)
        /\ Cardinality({o.ses.box.toks[i].id : i \in 1..Len(o.ses.box.toks)}) = Len(o.ses.box.toks)
        /\ Data(x) = FrameOf(o.skey, o.ses.q, o.ses.box, x.q.ix)
P05(o, x) ==
    /\ Completes(o, x) => Prompted(x) \/ QuietOut(o, After(o, x).ses.c, Len(After(o, x).ses.c.outs))
    /\ LET p == After(o, x) IN (OutAsk(p) /\ p.ses.k = "s") => Honest(p, x, LAMBDA g : OutputLines(g, p, p.ses.c))
    /\ Sig(x) => InSign(o) /\ \A n \in 1..Len(o.ses.c.outs) : n \in o.yes
P06(o, x) ==
    LET p == After(o, x) IN
    AskFor(p, "s.confirm") => /\ InSign(p)
                              /\ Fits64(Total(p.ses.c)) /\ Fits64(FeeTotal(p.ses.c))
                              /\ Honest(p, x, LAMBDA g : FinalLines(g, p, p.ses.c))
P07(o, x) ==
    /\ (Accepted(o, x) /\ x.q.k # "a.frame") =>
        /\ SessionFor(o, x.q) /\ x.q.sess = o.ses.sid
        /\ IF x.q.g = "a" THEN ~BoxWhole(o.ses.box) /\ BoxStep(o.ses.box, x.q.k) ELSE Belongs(o.ses.c, x.q)
    /\ LET p == After(o, x)
           fresh == p.ses.k # "-" /\ (o.ses.k = "-" \/ (x.in = "apdu" /\ IsInit(x.q) /\ IsOk(x)))
       IN fresh => BLen(p.ses.sid) = 1 /\ p.ses.sid # "00" /\ (o.ses.k # "-" => p.ses.sid # o.ses.sid)
P08(o, x) ==
    (x.in = "apdu" /\ o.ask.k # "-") =>
        /\ x.page = o.page
        /\ CASE x.q.k = "version" -> x.r = <<VersionReply \o SwOk>>
             [] x.q.k = "name" -> x.r = <<NameReply \o SwOk>>
             [] x.q.k = "bad" -> x.r # <<>> /\ ~IsOk(x)
             [] OTHER -> x.r = <<SwBusy>>
ByToken(o, q) == q.tok # NoTok /\ q.tok = o.app
P09(o, x) ==
    /\ (x.in = "apdu" /\ o.ask.k = "-" /\ IsInit(x.q) /\ IsOk(x)) =>
          x.q.k # "s.init" /\ ByToken(o, x.q) /\ (x.q.k = "da" => ~x.q.display)
    /\ x.in = "boot" \/ ((x.in # "apdu" /\ IsOk(x)) => Yes(o, x))
    /\ No(o, x) => x.r = <<SwDeny>> /\ After(o, x).app = o.app
    /\ LET p == After(o, x) IN IsInit(p.ask) => Honest(p, x, LAMBDA g : RequestLines(p, p.ask))
P10(o, x) ==
    /\ \A p \in x.k : \/ x.in = "apdu" /\ IsInit(x.q) /\ x.q.perr = "" /\ PathHex(x.q.path) = p
                          /\ IF x.q.k = "epk" THEN AccountPath(x.q.path) ELSE AddressPath(x.q.path)
                      \/ x.in = "apdu" /\ x.q.k = "s.change" /\ PathHex(x.q.path) = p /\ AddressPath(x.q.path)
                      \/ x.in = "both" /\ o.ask.k \in {"epk", "da"} /\ PathHex(o.ask.path) = p
                      \/ x.in = "both" /\ o.ask.k = "s.confirm" /\ InSign(o) /\ PathHex(o.ses.q.path) = p
    /\ LET q == IF x.in = "apdu" THEN x.q ELSE o.ask IN
       (q.k = "epk" /\ IsOk(x) /\ (x.in = "apdu" => o.ask.k = "-")) => Data(x) = PubOf(PathHex(q.path)) \o ChainOf(PathHex(q.path))
P11(o, x) ==
    LET q == IF x.in = "apdu" THEN x.q ELSE o.ask IN
    (q.k = "da" /\ IsOk(x) /\ (x.in = "apdu" => o.ask.k = "-")) =>
        /\ q.net <= 252
        /\ Data(x) = IF q.display THEN "" ELSE AddressBytes(q.net, "p2pk", PubOf(PathHex(q.path)))
P12(o, x) ==
    LET p == After(o, x) IN
    /\ p.ses.k = "s" => Within(p.ses.c)
    /\ p.ses.k = "a" => BoxWithin([p.ses.box EXCEPT !.kind = "tree"])
    /\ (Accepted(o, x) /\ x.q.k = "s.confirm") => InSign(o) /\ Whole(o.ses.c)
P13(o, x) ==
    /\ Len(x.r) <= 1
    /\ x.in = "apdu" => (x.r = <<>> <=> (o.ask.k = "-" /\ After(o, x).ask.k # "-"))
    /\ (x.in = "apdu" /\ x.q.k \in {"bad", "version", "name"}) => x.page = o.page
P17(o, x) == Sig(x) => x.w \notin o.used /\ (CheckNonce => InSign(o) /\ x.w \in o.ses.pts)
P18(o, x) == P05(o, x)
P20(o, x) ==
    /\ x.in \in {"left", "right"} => (x.r = <<>> \/ (Broke(o, x) /\ ~IsOk(x)))
    /\ (x.in = "both" /\ x.r # <<>>) => Yes(o, x) \/ No(o, x)
    /\ (Yes(o, x) \/ No(o, x)) => Len(x.r) = 1 /\ x.page \in MenuPages
P21(o, x) == \A i \in 1..Len(x.r) : IsOk(x) \/ BLen(x.r[i]) = 2

PropertyNames == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C20", "C21"}
Holds(n, o, x) ==
    CASE n = "C01" -> P01(o, x) [] n = "C02" -> P02(o, x) [] n = "C03" -> P03(o, x) [] n = "C04" -> P04(o, x)
      [] n = "C05" -> P05(o, x) [] n = "C06" -> P06(o, x) [] n = "C07" -> P07(o, x) [] n = "C08" -> P08(o, x)
      [] n = "C09" -> P09(o, x) [] n = "C10" -> P10(o, x) [] n = "C11" -> P11(o, x) [] n = "C12" -> P12(o, x)
      [] n = "C13" -> P13(o, x) [] n = "C17" -> P17(o, x) [] n = "C18" -> P18(o, x) [] n = "C20" -> P20(o, x) [] n = "C21" -> P21(o, x)
      [] OTHER -> TRUE
=============================================================================
