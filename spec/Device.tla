------------------------------- MODULE Device -------------------------------
(* The Ergo application as the host and the user see it.                     *)
(*                                                                           *)
(* A device d is a record:                                                   *)
(*   app   token of the connected application (zero: none)                   *)
(*   skey  the key attestation frames are authenticated with (this run's)    *)
(*   cmd   "none" | "attest" | "sign": the session in progress               *)
(*   c     its context                                                       *)
(*   ui    what is displayed: [k, pages, ix, act]                            *)
(*                                                                           *)
(* A step takes a device and a request (or a press) to                       *)
(*   [d: the next device, r: the replies sent, k: key paths it may use]      *)
(*                                                                           *)
(* The only choices the device makes itself come in through env:             *)
(*   env.sid  the session id it hands out    env.sig, env.w  the signature   *)
(*   env.pts  nonce commitments drawn        env.skey  a new run's key       *)
EXTENDS Paths, Canon, Codes

CONSTANTS
    AmtW,        \* hex digits of an amount (16)
    IdLen,       \* bytes of an identifier (32)
    MaxTok,      \* distinct tokens per transaction or box (20)
    FrameTok,    \* tokens per attestation frame (4)
    MaxPart,     \* largest script, register block or extension (32768)
    MinChunk,    \* smallest script chunk that is not the last (255)
    MaxGap,      \* change indexes above the signing index approved silently (20)
    PathPage,    \* length of path text from which a request cannot show it (59)
    ChangePage,  \* the same for a change path (69)
    CheckNonce,  \* whether a signature's nonce must be one drawn at session start
    HashOf(_), MacOf(_, _), PubOf(_), ChainOf(_)

NoTok == "00000000"
NoCtx == [st |-> "-"]
Info(lines)   == [role |-> "info", lines |-> lines]
ApprovePage   == [role |-> "ok", lines |-> <<"Approve">>]
RejectPage    == [role |-> "no", lines |-> <<"Reject">>]
MainPages  == << [role |-> "info",  lines |-> <<"Ergo", "is ready">>],
                 [role |-> "about", lines |-> <<"About">>],
                 [role |-> "quit",  lines |-> <<"Quit">>] >>
AboutPages == << [role |-> "info",  lines |-> <<"Ergo App", "(c) 2024 Ergo">>],
                 [role |-> "info",  lines |-> <<"Version", "0.0.5">>],
                 [role |-> "back",  lines |-> <<"Back">>] >>
VersionReply == "00000500"
NameReply    == "4572676f"

Menu(pages) == [k |-> "menu", pages |-> pages, ix |-> 1, act |-> NoCtx]
Main == Menu(MainPages)
Ask(pages, act) == [k |-> "ask", pages |-> pages \o <<ApprovePage, RejectPage>>, ix |-> 1, act |-> act]
Shown(d) == d.ui.pages[d.ui.ix]
Busy(d) == d.ui.k = "ask"

Boot(skey) == [app |-> NoTok, skey |-> skey, cmd |-> "none", c |-> NoCtx, ui |-> Main]

Res(d, r, k) == [d |-> d, r |-> r, k |-> k]
Ended(d) == [d EXCEPT !.cmd = "none", !.c = NoCtx]
Refuse(d, sw)     == Res(Ended(d), <<sw>>, {})         \* the session in progress is over
RefuseK(d, sw, k) == Res(Ended(d), <<sw>>, k)
Ignore(d, sw)     == Res(d, <<sw>>, {})                \* nothing but the reply
Reply(d, data)    == Res(d, <<data \o SwOk>>, {})
ReplyK(d, data, k) == Res(d, <<data \o SwOk>>, k)
Prompt(d, pages, act, k) == Res([d EXCEPT !.ui = Ask(pages, act)], <<>>, k)

Known(d, tok) == tok # NoTok /\ tok = d.app
AppPage(tok)  == Info(<<"Application", "0x" \o tok>>)
AppPages(tok) == IF tok = NoTok THEN <<>> ELSE <<AppPage(tok)>>
AddressBytes(net, kind, payload) ==
    LET h == AddressHead(net, kind, payload) IN h \o Sub(HashOf(h), 0, 4)

LiveSession(d) == IF d.cmd \in {"attest", "sign"} /\ d.c.sess # "" THEN d.c.sess ELSE "00"
SessionOk(sid, old) == BLen(sid) = 1 /\ sid # "00" /\ sid # old

-----------------------------------------------------------------------------
(* Extended public key and address                                           *)
ExtPubKey(d, q) ==
    LET d0 == Ended(d) IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF ~AccountPath(q.path) THEN Refuse(d, SwBadPath)
    ELSE LET p == PathHex(q.path) IN
         IF Known(d, q.tok) THEN ReplyK(d0, PubOf(p) \o ChainOf(p), {p})
         ELSE IF Len(PathText(q.path)) >= PathPage THEN RefuseK(d, SwPathFormat, {p})
         ELSE Prompt(d0, <<Info(<<"Ext PubKey Export">>), Info(<<"Path", PathText(q.path)>>)>>
                         \o AppPages(q.tok),
                     [k |-> "epk", p |-> p, tok |-> q.tok], {p})

DeriveAddress(d, q) ==
    LET d0 == Ended(d) IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF ~AddressPath(q.path) THEN Refuse(d, SwBadPath)
    ELSE LET p == PathHex(q.path) IN
         IF q.net > 252 THEN RefuseK(d, SwAddress, {p})
         ELSE LET a == AddressBytes(q.net, "p2pk", PubOf(p)) IN
              IF Known(d, q.tok) /\ ~q.display THEN ReplyK(d0, a, {p})
              ELSE IF Len(PathText(q.path)) >= PathPage THEN RefuseK(d, SwPathFormat, {p})
              ELSE Prompt(d0,
                     <<Info(<<IF q.display THEN "Confirm Address" ELSE "Confirm Send Address">>),
                       Info(<<"Path", PathText(q.path)>>)>>
                     \o (IF q.display THEN <<Info(<<"Address", "@" \o a>>)>> ELSE <<>>)
                     \o AppPages(q.tok),
                     [k |-> "da", a |-> IF q.display THEN "" ELSE a, p |-> p, tok |-> q.tok], {p})

-----------------------------------------------------------------------------
(* A box being streamed: script, then tokens, then registers                 *)
NoBox == [st |-> "done"]
NewBox(q) == [st |-> "tree", treeLeft |-> q.treeSize, tokLeft |-> q.ntok, regLeft |-> q.regSize,
              value |-> q.value, tree |-> "", height |-> q.height, toks |-> <<>>, regs |-> "",
              ntok |-> q.ntok]
BoxLimits(q) == IF q.ntok > MaxTok THEN SwTooManyTokens
                ELSE IF q.treeSize > MaxPart \/ q.regSize > MaxPart THEN SwTooMuch ELSE ""
AfterTokens(b) == [b EXCEPT !.st = IF b.regLeft = 0 THEN "done" ELSE "regs"]
AfterTree(b)   == IF b.ntok = 0 THEN AfterTokens(b) ELSE [b EXCEPT !.st = "toks"]
\* Each takes a box to [b, err, fin]; fin: the stage was completed by this step
BoxErr(b, e) == [b |-> b, err |-> e, fin |-> FALSE]
BoxTree(b, chunk) ==
    IF b.st # "tree" THEN BoxErr(b, SwBadState)
    ELSE IF BLen(chunk) > b.treeLeft THEN BoxErr(b, SwTooMuch)
    ELSE IF BLen(chunk) < b.treeLeft /\ BLen(chunk) < MinChunk THEN BoxErr(b, SwSmallChunk)
    ELSE LET n == [b EXCEPT !.tree = b.tree \o chunk, !.treeLeft = b.treeLeft - BLen(chunk)] IN
         IF n.treeLeft = 0 THEN [b |-> AfterTree(n), err |-> "", fin |-> TRUE]
         ELSE [b |-> n, err |-> "", fin |-> FALSE]
BoxWholeTree(b, tree) ==       \* a script the device writes itself: own change, fee
    IF b.st # "tree" \/ b.tree # "" THEN BoxErr(b, SwBadState)
    ELSE [b |-> AfterTree([b EXCEPT !.tree = tree]), err |-> "", fin |-> TRUE]
BoxRegs(b, chunk) ==
    IF b.st # "regs" THEN BoxErr(b, SwBadState)
    ELSE IF BLen(chunk) > b.regLeft THEN BoxErr(b, SwTooMuch)
    ELSE LET n == [b EXCEPT !.regs = b.regs \o chunk, !.regLeft = b.regLeft - BLen(chunk)] IN
         IF n.regLeft = 0 THEN [b |-> [n EXCEPT !.st = "done"], err |-> "", fin |-> TRUE]
         ELSE [b |-> n, err |-> "", fin |-> FALSE]
BoxContent(b) == [value |-> b.value, tree |-> b.tree, height |-> b.height, toks |-> b.toks, regs |-> b.regs]

-----------------------------------------------------------------------------
(* Attestation                                                               *)
FrameCount(n) == IF n = 0 THEN 1 ELSE (n + FrameTok - 1) \div FrameTok
Frame(skey, c, i) ==
    LET lo == i * FrameTok + 1
        hi == IF lo + FrameTok - 1 < Len(c.toks) THEN lo + FrameTok - 1 ELSE Len(c.toks)
        b  == FrameBody(c.id, FrameCount(Len(c.toks)), i, c.box.value, SubSeq(c.toks, lo, hi))
    IN b \o MacOf(skey, b)

AttestInit(d, q, env) ==
    IF q.flag \notin {1, 2} THEN Refuse(d, SwBadP1P2)
    ELSE IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF BoxLimits(q) # "" THEN Refuse(d, BoxLimits(q))
    ELSE LET c == [st |-> "ask", sess |-> "", prev |-> LiveSession(d), box |-> NewBox(q), toks |-> <<>>,
                   txid |-> q.txid, idx |-> q.idx, id |-> ""]
             d1 == [Ended(d) EXCEPT !.cmd = "attest", !.c = c]
         IN IF Known(d, q.tok)
            THEN IF SessionOk(env.sid, c.prev)
                 THEN Reply([d1 EXCEPT !.c.st = "open", !.c.sess = env.sid, !.c.prev = ""], env.sid)
                 ELSE Res(d1, <<"bad session id">>, {})
            ELSE Prompt(d1, <<Info(<<"Confirm Attest Input">>)>> \o AppPages(q.tok),
                        [k |-> "attest", tok |-> q.tok], {})

\* Apply the outcome of a box step to the attestation
Attested(d, x) ==
    IF x.err # "" THEN Refuse(d, x.err)
    ELSE LET c1 == [d.c EXCEPT !.box = x.b] IN
         IF x.b.st # "done" THEN Reply([d EXCEPT !.c = c1], "")
         ELSE LET id == HashOf(BoxIdBytes(BoxContent(x.b), c1.txid, c1.idx)) IN
              Reply([d EXCEPT !.c = [c1 EXCEPT !.st = "fin", !.id = id]],
                    Hex2(FrameCount(Len(c1.toks))))

RECURSIVE AttestToksR(_, _, _, _)
\* x: [b, toks, err]
AttestToksR(items, i, tail, x) ==
    IF x.err # "" THEN x
    ELSE IF i > Len(items)
    THEN IF tail = "none" THEN x
         ELSE IF x.b.tokLeft = 0 THEN [x EXCEPT !.err = SwTooManyTokens]
         ELSE [x EXCEPT !.err = IF tail = "id" THEN SwTokenId ELSE SwTokenValue]
    ELSE LET it == items[i] IN
         AttestToksR(items, i + 1, tail,
            IF x.b.tokLeft = 0 THEN [x EXCEPT !.err = SwTooManyTokens]
            ELSE IF \E j \in 1..Len(x.toks) : x.toks[j].id = it.id THEN [x EXCEPT !.err = SwTokenId]
            ELSE [x EXCEPT !.b.tokLeft = @ - 1, !.toks = Append(@, it),
                           !.b.toks = Append(@, [ref |-> it.id, val |-> it.val])])
AttestTokens(d, q) ==
    IF d.c.box.st # "toks" THEN Refuse(d, SwBadState)
    ELSE LET x == AttestToksR(q.items, 1, q.tail, [b |-> d.c.box, toks |-> d.c.toks, err |-> ""])
             d1 == [d EXCEPT !.c.toks = x.toks]
         IN Attested(d1, [b |-> IF x.b.tokLeft = 0 THEN AfterTokens(x.b) ELSE x.b,
                          err |-> x.err, fin |-> FALSE])

Attest(d, q, env) ==
    IF q.k = "a.init" THEN AttestInit(d, q, env)
    ELSE IF q.k = "a.?" THEN Refuse(d, SwBadSubcommand)
    ELSE IF d.cmd # "attest" THEN Refuse(d, SwBadState)
    ELSE IF q.sess # d.c.sess THEN Refuse(d, SwBadSession)
    ELSE IF q.k = "a.frame"
    THEN IF d.c.st # "fin" THEN Refuse(d, SwBadState)
         ELSE IF q.perr # "" THEN Refuse(d, q.perr)
         ELSE IF q.ix >= FrameCount(Len(d.c.toks)) THEN Refuse(d, SwFrameIndex)
         ELSE Reply(d, Frame(d.skey, d.c, q.ix))
    ELSE IF d.c.st # "open" THEN Refuse(d, SwBadState)
    ELSE CASE q.k = "a.tree" -> Attested(d, BoxTree(d.c.box, q.data))
           [] q.k = "a.toks" -> AttestTokens(d, q)
           [] q.k = "a.regs" -> Attested(d, BoxRegs(d.c.box, q.data))

-----------------------------------------------------------------------------
(* Signing: start                                                            *)
\* c: st "ask" until the user approved, then op:
\*   "init" -> "tx" -> "ins" -> "outs" -> "done" -> "final"
\* and stage (what the transaction expects): "toks", "ins", "datas", "outs", "done"
SignInit(d, q, env) ==
    IF q.flag \notin {1, 2} THEN Ignore(d, SwBadP1P2)
    ELSE IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF ~AddressPath(q.path) THEN Refuse(d, SwBadPath)
    ELSE IF q.net \notin {0, 16} THEN Refuse(d, SwNetType)
    ELSE LET p == PathHex(q.path)
             c == [st |-> "ask", sess |-> "", prev |-> LiveSession(d), net |-> q.net, path |-> q.path,
                   pts |-> env.pts, op |-> "init"]
             d1 == [Ended(d) EXCEPT !.cmd = "sign", !.c = c]
         IN IF Len(PathText(q.path)) >= PathPage THEN RefuseK(d, SwPathFormat, {p})
            ELSE Prompt(d1, <<[role |-> "ok", lines |-> <<"P2PK Signing", PathText(q.path)>>]>>
                            \o (IF Known(d, q.tok) THEN <<>> ELSE <<AppPage(q.tok)>>),
                        [k |-> "sign", tok |-> q.tok], {p})

Keep(d, c) == Reply([d EXCEPT !.c = c], "")

StartTx(d, q) ==
    LET c == d.c IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF c.op # "init" THEN Refuse(d, SwBadState)
    ELSE IF q.nin = 0 THEN Refuse(d, SwInputCount)
    ELSE IF q.nout = 0 THEN Refuse(d, SwOutputCount)
    ELSE IF q.ntok > MaxTok THEN Refuse(d, SwTooManyTokens)
    ELSE Keep(d, [st |-> "open", sess |-> c.sess, prev |-> "", net |-> c.net, path |-> c.path,
                  pts |-> c.pts,
                  op |-> "tx", stage |-> IF q.ntok = 0 THEN "ins" ELSE "toks",
                  nin |-> q.nin, ndata |-> q.ndata, nout |-> q.nout, ntok |-> q.ntok,
                  table |-> <<>>, amt |-> <<>>, value |-> Zero(AmtW), fee |-> Zero(AmtW),
                  inp |-> [st |-> "done"], box |-> NoBox, kind |-> "", dest |-> "", outAmt |-> <<>>,
                  lastChange |-> <<>>,
                  t |-> [inputs |-> <<>>, datas |-> <<>>, toks |-> <<>>, outs |-> <<>>]])

TokenIds(d, q) ==
    LET c == d.c
        tab == c.table \o q.ids
    IN IF c.op # "tx" \/ c.stage # "toks" THEN Refuse(d, SwBadState)
       ELSE IF Len(tab) > c.ntok \/ (q.part /\ Len(tab) = c.ntok) THEN Refuse(d, SwTooManyTokens)
       ELSE IF q.part THEN Refuse(d, SwTokenId)
       ELSE LET full == Len(tab) = c.ntok IN
            Keep(d, [c EXCEPT !.table = tab, !.amt = @ \o [i \in 1..Len(q.ids) |-> Zero(AmtW)],
                              !.t.toks = tab, !.stage = IF full THEN "ins" ELSE "toks"])

-----------------------------------------------------------------------------
(* Signing: inputs                                                           *)
\* An input is complete: it becomes part of the transaction
InputDone(c) ==
    LET c1 == [c EXCEPT !.t.inputs = Append(@, [id |-> c.inp.id, ext |-> c.inp.ext]),
                        !.inp.st = "done"]
    IN IF Len(c1.t.inputs) < c1.nin THEN c1
       ELSE [c1 EXCEPT !.stage = IF c1.ndata = 0 THEN "outs" ELSE "datas"]

RECURSIVE InToksR(_, _, _)
\* add a frame's tokens to the totals: [c, err]
InToksR(toks, i, x) ==
    IF i > Len(toks) \/ x.err # "" THEN x
    ELSE LET it == toks[i]
             known == IndexOf(x.c.table, it.id)
         IN InToksR(toks, i + 1,
            IF known = 0 /\ Len(x.c.table) = MaxTok THEN [x EXCEPT !.err = SwTooManyTokens]
            ELSE LET c1 == IF known # 0 THEN x.c
                           ELSE [x.c EXCEPT !.table = Append(@, it.id), !.amt = Append(@, Zero(AmtW))]
                     j == IF known # 0 THEN known ELSE Len(c1.table)
                     s == AddSU(c1.amt[j], it.val)
                 IN IF ~s.ok THEN [x EXCEPT !.err = SwOverflow]
                    ELSE [x EXCEPT !.c = [c1 EXCEPT !.amt[j] = s.v]])

InFrame(d, q, c) ==     \* the frame belongs to the input in progress
    IF c.stage # "ins" \/ c.inp.st # "frames" THEN Refuse(d, SwBadState)
    ELSE IF q.id # c.inp.id THEN Refuse(d, SwBoxId)
    ELSE IF q.fi >= c.inp.fc THEN Refuse(d, SwTooManyFrames)
    ELSE IF q.fi # c.inp.seen THEN Refuse(d, SwFrameIndex)
    ELSE LET x == InToksR(q.toks, 1, [c |-> [c EXCEPT !.inp.seen = @ + 1], err |-> ""]) IN
         IF x.err # "" THEN Refuse(d, x.err)
         ELSE Keep(d, IF x.c.inp.seen < x.c.inp.fc THEN x.c
                      ELSE IF x.c.inp.extLeft = 0 THEN InputDone(x.c)
                      ELSE [x.c EXCEPT !.inp.st = "ext"])

InputFrame(d, q) ==
    LET c == d.c IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF MacOf(d.skey, q.body) # q.mac THEN Refuse(d, SwFrameMac)
    ELSE IF q.fi # 0
    THEN IF c.op # "ins" THEN Refuse(d, SwBadState) ELSE InFrame(d, q, c)
    ELSE IF q.ext = "" THEN Refuse(d, SwNotEnough)
    ELSE IF c.op \notin {"tx", "ins"} THEN Refuse(d, SwBadState)
    ELSE IF c.stage # "ins" \/ c.inp.st # "done" THEN Refuse(d, SwBadState)
    ELSE IF CapInt(q.ext) = 1 \/ CapInt(q.ext) > MaxPart THEN Refuse(d, SwExtSize)
    ELSE LET v == AddU(c.value, q.val) IN
         IF ~v.ok THEN Refuse(d, SwOverflow)
         ELSE InFrame(d, q, [c EXCEPT !.op = "ins", !.value = v.v,
                                      !.inp = [st |-> "frames", id |-> q.id, fc |-> q.fc, seen |-> 0,
                                               extLeft |-> CapInt(q.ext), ext |-> ""]])

Extension(d, q) ==
    LET c == d.c IN
    IF c.op # "ins" \/ c.stage # "ins" \/ c.inp.st # "ext" THEN Refuse(d, SwBadState)
    ELSE IF BLen(q.data) > c.inp.extLeft THEN Refuse(d, SwTooMuch)
    ELSE LET c1 == [c EXCEPT !.inp.ext = @ \o q.data, !.inp.extLeft = @ - BLen(q.data)] IN
         Keep(d, IF c1.inp.extLeft = 0 THEN InputDone(c1) ELSE c1)

DataInputs(d, q) ==
    LET c == d.c
        all == c.t.datas \o q.ids
    IN IF c.op # "ins" \/ c.stage # "datas" THEN Refuse(d, SwBadState)
       ELSE IF Len(all) > c.ndata \/ (q.part /\ Len(all) = c.ndata) THEN Refuse(d, SwTooManyDatas)
       ELSE IF q.part THEN Refuse(d, SwDataInput)
       ELSE Keep(d, [c EXCEPT !.t.datas = all, !.stage = IF Len(all) = c.ndata THEN "outs" ELSE "datas"])

-----------------------------------------------------------------------------
(* Signing: outputs                                                          *)
TokText(id) == IF Len(id) <= 55 THEN id
               ELSE SubSeq(id, 1, 26) \o "..." \o SubSeq(id, Len(id) - 25, Len(id))
Erg(v) == Fixed(v, 9) \o " ERG"
NonZero(amt) == SelectSeq([i \in 1..Len(amt) |-> i], LAMBDA i : ~IsZero(amt[i]))
TokPages(c, nz, text(_)) ==
    [k \in 1..(2 * Len(nz)) |->
        LET i == nz[(k + 1) \div 2]
            n == DecInt((k + 1) \div 2)
        IN IF k % 2 = 1 THEN Info(<<"Token [" \o n \o "]", TokText(c.table[i])>>)
           ELSE Info(<<"Token [" \o n \o "] Value", text(i)>>)]

Destination(c) ==
    CASE c.kind = "change" -> IF Len(PathText(c.dest)) >= ChangePage
                              THEN [role |-> "err", lines |-> <<>>]
                              ELSE Info(<<"Change", PathText(c.dest)>>)
      [] c.kind = "fee"    -> Info(<<"Fee", "Miners Fee">>)
      [] c.kind = "tree"   ->
            LET s == Classify(c.box.tree) IN
            IF s.kind = "p2pk" THEN Info(<<"Address", "@" \o AddressBytes(c.net, "p2pk", s.v)>>)
            ELSE Info(<<"Script Hash", "@" \o AddressBytes(c.net, "p2sh",
                        IF s.kind = "p2sh" THEN s.v ELSE Sub(HashOf(s.v), 0, 24))>>)

OutputPages(c) ==
    <<Info(<<"Confirm Output">>), Destination(c)>> \o
    (IF c.kind = "change" THEN <<>>
     ELSE <<Info(<<"Output Value", Erg(c.box.value)>>)>> \o
          TokPages(c, NonZero(c.outAmt), LAMBDA i : Dec(c.outAmt[i])))

\* Outputs that need no confirmation: a fee without tokens; change to the path just
\* approved, or near the signing key's own address
OwnChange(c) ==
    /\ c.kind = "change" /\ Len(c.dest) = 5
    /\ \/ c.dest = c.lastChange
       \/ /\ SameAccount(c.dest, c.path) /\ c.dest[4] = c.path[4]
          /\ Lt(c.dest[5], AddU(c.path[5], MaxGap).v)
Silent(c) == OwnChange(c) \/ (c.kind = "fee" /\ NonZero(c.outAmt) = <<>>)

\* The outcome of a box step, applied to the transaction; k: key paths used
Streamed(d, c, x, k) ==
    IF x.err # "" THEN RefuseK(d, x.err, k)
    ELSE LET c1 == [c EXCEPT !.box = x.b] IN
         IF x.b.st # "done" THEN ReplyK([d EXCEPT !.c = c1], "", k)
         ELSE LET c2 == [c1 EXCEPT !.t.outs = Append(@, BoxContent(x.b))]
                  c3 == IF Len(c2.t.outs) < c2.nout THEN c2
                        ELSE [c2 EXCEPT !.stage = "done", !.op = "done"]
              IN IF Silent(c3) THEN ReplyK([d EXCEPT !.c = c3], "", k)
                 ELSE Prompt([d EXCEPT !.c = [c3 EXCEPT !.lastChange = <<>>]], OutputPages(c3),
                             [k |-> "out"], k)

Output(d, q) ==
    LET c == d.c IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF c.op \notin {"ins", "outs"} \/ c.stage # "outs" THEN Refuse(d, SwBadState)
    ELSE IF c.box.st # "done" THEN Refuse(d, SwBadState)
    ELSE IF BoxLimits(q) # "" THEN Refuse(d, BoxLimits(q))
    ELSE Keep(d, [c EXCEPT !.op = "outs", !.box = NewBox(q), !.kind = "", !.dest = "",
                           !.outAmt = [i \in 1..Len(c.table) |-> Zero(AmtW)]])

OutTree(d, q) ==
    LET c == d.c IN
    IF c.op # "outs" THEN Refuse(d, SwBadState)
    ELSE Streamed(d, [c EXCEPT !.kind = "tree"], BoxTree(c.box, q.data), {})

\* change and fee leave the amount the transaction sends; the fee adds up on its own
OutFee(d, q) ==
    LET c == d.c
        x == BoxWholeTree(c.box, FeeTree)
        v == SubU(c.value, c.box.value)
        f == AddU(c.fee, c.box.value)
    IN IF q.perr # "" THEN Refuse(d, q.perr)
       ELSE IF c.op # "outs" \/ c.box.st # "tree" THEN Refuse(d, SwBadState)
       ELSE IF ~v.ok \/ ~f.ok THEN Refuse(d, SwOverflow)
       ELSE IF x.err # "" THEN Refuse(d, x.err)
       ELSE Streamed(d, [c EXCEPT !.kind = "fee", !.value = v.v, !.fee = f.v], x, {})

OutChange(d, q) ==
    LET c == d.c IN
    IF q.perr # "" THEN Refuse(d, q.perr)
    ELSE IF ~AddressPath(q.path) THEN Refuse(d, SwBadPath)
    ELSE LET p == PathHex(q.path) IN
         IF c.op # "outs" THEN RefuseK(d, SwBadState, {p})
         ELSE LET x == BoxWholeTree(c.box, P2pkTree(PubOf(p)))
                  v == SubU(c.value, c.box.value)
              IN IF c.box.st # "tree" THEN RefuseK(d, SwBadState, {p})
                 ELSE IF ~v.ok THEN RefuseK(d, SwOverflow, {p})
                 ELSE IF x.err # "" THEN RefuseK(d, x.err, {p})
                 ELSE Streamed(d, [c EXCEPT !.kind = "change", !.dest = q.path, !.value = v.v], x, {p})

RECURSIVE OutToksR(_, _, _, _)
OutToksR(items, i, tail, x) ==      \* x: [c, err]
    IF x.err # "" THEN x
    ELSE IF i > Len(items)
    THEN IF tail.k = "none" THEN x
         ELSE IF x.c.box.tokLeft = 0 THEN [x EXCEPT !.err = SwTooManyTokens]
         ELSE IF tail.k = "id" \/ tail.ix >= x.c.ntok THEN [x EXCEPT !.err = SwTokenIndex]
         ELSE [x EXCEPT !.err = SwTokenValue]
    ELSE LET it == items[i] c == x.c IN
         OutToksR(items, i + 1, tail,
            IF c.box.tokLeft = 0 THEN [x EXCEPT !.err = SwTooManyTokens]
            ELSE IF it.ix >= c.ntok THEN [x EXCEPT !.err = SwTokenIndex]
            ELSE LET j == IndexOf(c.table, c.table[it.ix + 1])
                     s == SubSU(c.amt[j], it.val)
                 IN IF ~IsZero(c.outAmt[j]) THEN [x EXCEPT !.err = SwTokenValue]
                    ELSE IF ~s.ok THEN [x EXCEPT !.err = SwOverflow]
                    ELSE [x EXCEPT !.c = [c EXCEPT !.amt[j] = s.v, !.outAmt[j] = it.val,
                             !.box.tokLeft = @ - 1,
                             !.box.toks = Append(@, [ref |-> VlqInt(it.ix), val |-> it.val])]])
OutTokens(d, q) ==
    LET c == d.c IN
    IF c.op # "outs" \/ c.box.st # "toks" THEN Refuse(d, SwBadState)
    ELSE LET x == OutToksR(q.items, 1, q.tail, [c |-> c, err |-> ""]) IN
         Streamed(d, x.c, [b |-> IF x.c.box.tokLeft = 0 THEN AfterTokens(x.c.box) ELSE x.c.box,
                           err |-> x.err, fin |-> FALSE], {})

OutRegs(d, q) ==
    IF d.c.op # "outs" THEN Refuse(d, SwBadState)
    ELSE Streamed(d, d.c, BoxRegs(d.c.box, q.data), {})

Delta(v) == (IF IsNeg(v) THEN "Minting: " ELSE "Burning: ") \o Dec(Mag(v))
FinalPages(c) ==
    <<Info(<<"Approve Signing">>), Info(<<"P2PK Path", PathText(c.path)>>),
      Info(<<"Transaction Amount", Erg(c.value)>>), Info(<<"Transaction Fee", Erg(c.fee)>>)>> \o
    TokPages(c, NonZero(c.amt), LAMBDA i : Delta(c.amt[i]))

Confirm(d, q) ==
    IF d.c.op # "done" THEN Refuse(d, SwBadState)
    ELSE Prompt([d EXCEPT !.c.op = "final"], FinalPages(d.c), [k |-> "final"], {})

Sign(d, q, env) ==
    IF q.k = "s.init" THEN SignInit(d, q, env)
    ELSE IF q.k = "s.?" THEN Refuse(d, SwBadSubcommand)
    ELSE IF d.cmd # "sign" THEN Refuse(d, SwBadState)
    ELSE IF q.sess # d.c.sess THEN Refuse(d, SwBadSession)
    ELSE CASE q.k = "s.start"  -> StartTx(d, q)
           [] q.k = "s.toks"   -> TokenIds(d, q)
           [] q.k = "s.frame"  -> InputFrame(d, q)
           [] q.k = "s.ext"    -> Extension(d, q)
           [] q.k = "s.datas"  -> DataInputs(d, q)
           [] q.k = "s.out"    -> Output(d, q)
           [] q.k = "s.tree"   -> OutTree(d, q)
           [] q.k = "s.fee"    -> OutFee(d, q)
           [] q.k = "s.change" -> OutChange(d, q)
           [] q.k = "s.otoks"  -> OutTokens(d, q)
           [] q.k = "s.regs"   -> OutRegs(d, q)
           [] q.k = "s.confirm" -> Confirm(d, q)

-----------------------------------------------------------------------------
(* Requests                                                                  *)
Handle(d, q, env) ==
    CASE q.k = "bad"     -> Ignore(d, q.sw)
      [] q.k = "version" -> Reply(d, VersionReply)
      [] q.k = "name"    -> Reply(d, NameReply)
      [] OTHER ->
         IF Busy(d) THEN Ignore(d, SwBusy)
         ELSE CASE q.k = "epk" -> ExtPubKey(d, q)
                [] q.k = "da"  -> DeriveAddress(d, q)
                [] q.g = "a"   -> Attest(d, q, env)
                [] q.g = "s"   -> Sign(d, q, env)

-----------------------------------------------------------------------------
(* Presses                                                                   *)
Idle(d) == [d EXCEPT !.ui = Main]
SignatureOk(c, env) ==
    LET pre == SignedBytes(PubOf(PathHex(c.path)), env.w, c.t) IN
    /\ BLen(env.sig) = 56
    /\ Sub(HashOf(pre), 0, 24) = Sub(env.sig, 0, 24)
    /\ CheckNonce => env.w \in c.pts

Approve(d, env) ==
    LET a == d.ui.act
        d1 == Idle(d)
    IN CASE a.k = "epk" -> ReplyK([d1 EXCEPT !.app = a.tok], PubOf(a.p) \o ChainOf(a.p), {a.p})
         [] a.k = "da"  -> ReplyK([d1 EXCEPT !.app = a.tok], a.a, {a.p})
         [] a.k \in {"attest", "sign"} ->
              IF SessionOk(env.sid, d.c.prev)
              THEN Reply([d1 EXCEPT !.app = a.tok, !.c.st = "open", !.c.sess = env.sid, !.c.prev = ""], env.sid)
              ELSE Res(d1, <<"bad session id">>, {})
         [] a.k = "out" ->
              Reply([d1 EXCEPT !.c.lastChange = IF d.c.kind = "change" THEN d.c.dest ELSE <<>>], "")
         [] a.k = "final" ->
              IF SignatureOk(d.c, env)
              THEN ReplyK(Ended(d1), env.sig, {PathHex(d.c.path)})
              ELSE Res(Ended(d1), <<"bad signature">>, {PathHex(d.c.path)})

Press(d, b, env) ==
    LET n == Len(d.ui.pages)
        ix == IF b = "right" THEN (d.ui.ix % n) + 1
              ELSE IF b = "left" THEN ((d.ui.ix + n - 2) % n) + 1 ELSE d.ui.ix
        d1 == [d EXCEPT !.ui.ix = ix]
        role == d.ui.pages[d.ui.ix].role
    IN IF b # "both"
       THEN IF d.ui.pages[ix].role = "err" THEN Refuse(Idle(d), SwPathFormat) ELSE Res(d1, <<>>, {})
       ELSE CASE role = "ok"    -> Approve(d, env)
              [] role = "no"    -> Refuse(Idle(d), SwDeny)
              [] role = "about" -> Res([d EXCEPT !.ui = Menu(AboutPages)], <<>>, {})
              [] role = "back"  -> Res(Idle(d), <<>>, {})
              [] role = "quit"  -> Res(Boot(env.skey), <<>>, {})
              [] OTHER          -> Res(d, <<>>, {})
=============================================================================
