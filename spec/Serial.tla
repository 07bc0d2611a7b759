------------------------------- MODULE Serial -------------------------------
(* The box, input, token table and transaction serializers used directly.     *)
(* Each state holds the announced amounts still missing, the content received *)
(* so far, and fed: the bytes given to the hash since the object was begun.   *)
(* An operation yields [s, r: "ok"|"more"|"err", cbs: calls made to the user].*)
EXTENDS Canon

CONSTANTS IdLen, MaxTok, MaxPart, MinChunk, AmtW, TreeOfKey(_), TheFeeTree

Out(s, r, cbs) == [s |-> s, r |-> r, cbs |-> cbs]
Dead(s) == [s EXCEPT !.st = "err"]
Err(s) == Out(Dead(s), "err", <<>>)

\* ---- tokens in a chunk: pairs of a reference and an amount
RefLen(byIndex) == IF byIndex THEN 4 ELSE IdLen
EntryLen(byIndex) == RefLen(byIndex) + AmtW \div 2
Entry(h, i, byIndex) == [ref |-> Sub(h, (i - 1) * EntryLen(byIndex), RefLen(byIndex)),
                         val |-> Sub(h, (i - 1) * EntryLen(byIndex) + RefLen(byIndex), AmtW \div 2)]
Entries(h, byIndex) == [i \in 1..(BLen(h) \div EntryLen(byIndex)) |-> Entry(h, i, byIndex)]
WholeEntries(h, byIndex) == BLen(h) % EntryLen(byIndex) = 0

\* ---- boxes
NoBox == [st |-> "err", left |-> 0, ntok |-> 0, regs |-> 0, started |-> FALSE, type |-> "",
          o |-> [value |-> "", tree |-> "", height |-> "", toks |-> <<>>, regs |-> ""], fed |-> "", cb |-> FALSE]
BoxInit(value, tree, height, ntok, regs) ==
    IF ntok > MaxTok \/ tree > MaxPart \/ regs > MaxPart THEN Out(NoBox, "err", <<>>)
    ELSE Out([st |-> "tree", left |-> tree, ntok |-> ntok, regs |-> regs, started |-> FALSE, type |-> "tree",
              o |-> [value |-> value, tree |-> "", height |-> height, toks |-> <<>>, regs |-> ""],
              fed |-> Vlq(value), cb |-> FALSE], "ok", <<>>)
Calls(s, c) == IF s.cb THEN c ELSE <<>>
Finish(s, r, cbs) == Out([s EXCEPT !.st = "done"], r, cbs \o Calls(s, <<<<"fin", s.type, "", "", Zero(AmtW)>>>>))
\* nothing more to come: the empty list of registers is one zero byte
Closing(s, cbs) == IF s.regs = 0 THEN Finish([s EXCEPT !.fed = @ \o "00"], "ok", cbs)
                   ELSE Out([s EXCEPT !.st = "regs"], "ok", cbs)
TreeDone(s, type) ==
    LET t == [s EXCEPT !.type = type, !.fed = @ \o Vlq(s.o.height) \o Hex2(s.ntok)]
        c == Calls(s, <<<<"type", type, "", "", s.o.value>>>>)
    IN IF t.ntok = 0 THEN Closing(t, c) ELSE Out([t EXCEPT !.st = "toks"], "ok", c)
GiveTree(s, h) == [s EXCEPT !.o.tree = @ \o h, !.fed = @ \o h]
BoxTree(s, h) ==
    IF s.st # "tree" \/ BLen(h) > s.left \/ (BLen(h) < s.left /\ BLen(h) < MinChunk) THEN Err(s)
    ELSE LET t == [GiveTree(s, h) EXCEPT !.left = @ - BLen(h), !.started = TRUE] IN
         IF t.left = 0 THEN TreeDone(t, "tree") ELSE Out(t, "more", <<>>)
\* the fee contract and the change script are supplied by the device: only as the whole script
BoxFixed(s, type, h) ==
    IF s.st # "tree" \/ s.started THEN Err(s) ELSE TreeDone([GiveTree(s, h) EXCEPT !.left = 0], type)
BoxFee(s) == BoxFixed(s, "fee", TheFeeTree)
BoxChange(s, raw) == BoxFixed(s, "change", TreeOfKey(raw))
\* tab: [n: entries announced, ids]; byIndex: tokens are named by their place in the table
BoxToks(s, h, byIndex, tab) ==
    LET es == Entries(h, byIndex)
        ok(e) == byIndex => CapInt(e.ref) < tab.n
        ref(e) == IF byIndex THEN Vlq(e.ref) ELSE e.ref
        id(e) == IF byIndex THEN tab.ids[CapInt(e.ref) + 1] ELSE e.ref
    IN IF s.st # "toks" \/ ~WholeEntries(h, byIndex) \/ Len(es) > s.ntok \/ \E i \in 1..Len(es) : ~ok(es[i]) THEN Err(s)
       ELSE LET new == [i \in 1..Len(es) |-> [ref |-> ref(es[i]), val |-> es[i].val]]
                t == [s EXCEPT !.ntok = @ - Len(es), !.o.toks = @ \o new,
                               !.fed = @ \o Concat([i \in 1..Len(es) |-> new[i].ref \o Vlq(new[i].val)])]
                c == Calls(s, [i \in 1..Len(es) |-> <<"token", s.type, id(es[i]), "", es[i].val>>])
            IN IF t.ntok = 0 THEN Closing(t, c) ELSE Out(t, "more", c)
BoxRegs(s, h) ==
    IF s.st # "regs" \/ BLen(h) > s.regs THEN Err(s)
    ELSE LET t == [s EXCEPT !.regs = @ - BLen(h), !.o.regs = @ \o h, !.fed = @ \o h] IN
         IF t.regs = 0 THEN Finish(t, "ok", <<>>) ELSE Out(t, "more", <<>>)
BoxId(s, tx, idx) == IF s.st # "done" THEN Err(s)
                     ELSE Out([s EXCEPT !.st = "final", !.fed = @ \o tx \o Vlq(idx)], "ok", <<>>)

\* ---- inputs
NoInput == [st |-> "err", id |-> "", n |-> 0, seen |-> 0, ext |-> 0, o |-> [id |-> "", ext |-> ""], fed |-> "", cb |-> FALSE]
InInit(id, n, ext) ==
    IF ext = 1 \/ ext > MaxPart THEN Out(NoInput, "err", <<>>)
    ELSE Out([st |-> "frames", id |-> id, n |-> n, seen |-> 0, ext |-> ext, o |-> [id |-> id, ext |-> ""], fed |-> "", cb |-> FALSE], "ok", <<>>)
InToks(s, id, at, h) ==
    LET es == Entries(h, FALSE) IN
    IF s.st # "frames" \/ id # s.id \/ at >= s.n \/ at # s.seen \/ ~WholeEntries(h, FALSE) THEN Err(s)
    ELSE LET c == Calls(s, [i \in 1..Len(es) |-> <<"input", "", s.id, es[i].ref, es[i].val>>])
             t == [s EXCEPT !.seen = @ + 1]
         IN IF t.seen < t.n THEN Out(t, "more", c)
            ELSE IF t.ext = 0 THEN Out([t EXCEPT !.st = "done", !.fed = @ \o id \o "0000"], "ok", c)
            ELSE Out([t EXCEPT !.st = "ext", !.fed = @ \o id \o "00"], "ok", c)
InExt(s, h) ==
    IF s.st # "ext" \/ BLen(h) > s.ext THEN Err(s)
    ELSE LET t == [s EXCEPT !.ext = @ - BLen(h), !.o.ext = @ \o h, !.fed = @ \o h] IN
         IF t.ext = 0 THEN Out([t EXCEPT !.st = "done"], "ok", <<>>) ELSE Out(t, "more", <<>>)

\* ---- the table of distinct tokens
NoTable == [n |-> 0, ids |-> <<>>]
TabOk(n, prior) == prior = 0 /\ n <= MaxTok
TabAdd(t, h) ==
    LET k == BLen(h) \div IdLen IN
    IF BLen(h) % IdLen # 0 \/ Len(t.ids) + k > t.n THEN [t |-> t, r |-> "err"]
    ELSE LET u == [t EXCEPT !.ids = @ \o [i \in 1..k |-> Sub(h, (i - 1) * IdLen, IdLen)]]
         IN [t |-> u, r |-> IF Len(u.ids) = u.n THEN "ok" ELSE "more"]
TabBytes(t) == VlqInt(t.n) \o Concat(t.ids)

\* ---- transactions
NoTx == [st |-> "err", nin |-> 0, ndata |-> 0, nout |-> 0, tab |-> NoTable, in |-> NoInput, box |-> NoBox,
         o |-> [inputs |-> <<>>, datas |-> <<>>, toks |-> <<>>, outs |-> <<>>], fed |-> "", in_open |-> FALSE, box_open |-> FALSE]
TxInit(nin, ndata, nout, ntok, prior) ==
    IF nin = 0 \/ nout = 0 \/ ~TabOk(ntok, prior) THEN Out(NoTx, "err", <<>>)
    ELSE Out([NoTx EXCEPT !.st = IF ntok = 0 THEN "inputs" ELSE "tokens", !.nin = nin, !.ndata = ndata, !.nout = nout,
                          !.tab = [n |-> ntok, ids |-> <<>>], !.fed = VlqInt(nin)], "ok", <<>>)
TxToks(s, h) ==
    IF s.st # "tokens" THEN Err(s)
    ELSE LET a == TabAdd(s.tab, h) IN
         IF a.r = "err" THEN Err(s)
         ELSE Out([s EXCEPT !.tab = a.t, !.o.toks = a.t.ids, !.st = IF a.r = "ok" THEN "inputs" ELSE "tokens"], a.r, <<>>)
TxInput(s, id, n, ext) ==
    IF s.st # "inputs" \/ s.in_open THEN Err(s)
    ELSE LET i == InInit(id, n, ext) IN
         IF i.r = "err" THEN Err(s) ELSE Out([s EXCEPT !.in = i.s, !.in_open = TRUE], "ok", <<>>)
DatasDone(s) == [s EXCEPT !.st = "outs", !.fed = @ \o TabBytes(s.tab) \o VlqInt(s.nout)]
InputDone(s) ==
    LET t == [s EXCEPT !.nin = @ - 1, !.in_open = FALSE, !.o.inputs = Append(@, s.in.o), !.fed = @ \o s.in.fed]
        u == [t EXCEPT !.fed = @ \o VlqInt(t.ndata), !.st = "datas"]
    IN IF t.nin > 0 THEN t ELSE IF t.ndata > 0 THEN u ELSE DatasDone(u)
\* a step of the input in progress
WithInput(s, x) ==
    IF x.r = "err" THEN Err(s)
    ELSE LET t == [s EXCEPT !.in = x.s] IN
         IF x.s.st = "done" THEN Out(InputDone(t), "ok", x.cbs) ELSE Out(t, x.r, x.cbs)
InPhase(s) == s.st = "inputs" /\ s.in_open
TxInToks(s, id, at, h) == IF ~InPhase(s) THEN Err(s) ELSE WithInput(s, InToks(s.in, id, at, h))
TxExt(s, h) == IF ~InPhase(s) THEN Err(s) ELSE WithInput(s, InExt(s.in, h))
TxInCb(s) == IF s.st # "inputs" THEN Err(s) ELSE Out([s EXCEPT !.in.cb = TRUE], "ok", <<>>)
TxDatas(s, h) ==
    LET k == BLen(h) \div IdLen IN
    IF s.st # "datas" \/ BLen(h) % IdLen # 0 \/ k > s.ndata THEN Err(s)
    ELSE LET t == [s EXCEPT !.ndata = @ - k, !.fed = @ \o h,
                            !.o.datas = @ \o [i \in 1..k |-> Sub(h, (i - 1) * IdLen, IdLen)]] IN
         IF t.ndata = 0 THEN Out(DatasDone(t), "ok", <<>>) ELSE Out(t, "more", <<>>)
TxBox(s, value, tree, height, ntok, regs) ==
    IF s.st # "outs" \/ s.box_open THEN Err(s)
    ELSE LET b == BoxInit(value, tree, height, ntok, regs) IN
         IF b.r = "err" THEN Err(s) ELSE Out([s EXCEPT !.box = b.s, !.box_open = TRUE], "ok", <<>>)
BoxDone(s) ==
    LET t == [s EXCEPT !.nout = @ - 1, !.box_open = FALSE, !.o.outs = Append(@, s.box.o), !.fed = @ \o s.box.fed]
    IN IF t.nout = 0 THEN [t EXCEPT !.st = "fin"] ELSE t
WithBox(s, x) ==
    IF x.r = "err" THEN Err(s)
    ELSE LET t == [s EXCEPT !.box = x.s] IN
         IF x.s.st = "done" THEN Out(BoxDone(t), "ok", x.cbs) ELSE Out(t, x.r, x.cbs)
OutPhase(s) == s.st = "outs" /\ s.box_open
TxTree(s, h)    == IF ~OutPhase(s) THEN Err(s) ELSE WithBox(s, BoxTree(s.box, h))
TxFee(s)        == IF ~OutPhase(s) THEN Err(s) ELSE WithBox(s, BoxFee(s.box))
TxChange(s, k)  == IF ~OutPhase(s) THEN Err(s) ELSE WithBox(s, BoxChange(s.box, k))
TxOutToks(s, h) == IF ~OutPhase(s) THEN Err(s) ELSE WithBox(s, BoxToks(s.box, h, TRUE, s.tab))
TxRegs(s, h)    == IF ~OutPhase(s) THEN Err(s) ELSE WithBox(s, BoxRegs(s.box, h))
TxBoxCb(s)      == IF s.st # "outs" THEN Err(s) ELSE Out([s EXCEPT !.box.cb = TRUE], "ok", <<>>)

\* ---- what holds: at completion the bytes are the canonical ones of the whole content
BoxSound(s) == s.st = "done" => /\ s.fed = BoxBytes(s.o) /\ s.ntok = 0 /\ s.left = 0 /\ s.regs = 0
TxSound(s) == s.st = "fin" => /\ s.fed = TxBytes(s.o)
                              /\ s.nin = 0 /\ s.ndata = 0 /\ s.nout = 0 /\ Len(s.tab.ids) = s.tab.n
=============================================================================
