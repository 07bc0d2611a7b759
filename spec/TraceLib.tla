------------------------------- MODULE TraceLib -------------------------------
(* Are the recorded operations on the real modules what Queue, Codec, Serial,  *)
(* Paths and Canon allow? Events carry m: the module they belong to.           *)
EXTENDS Serial, Codec, Paths, IOUtils, Json
Qu == INSTANCE Queue

Trace == ndJsonDeserialize(IOEnv.TRACEDIR \o "/trace.ndjson")
Compress(raw) == (IF Nib(raw, Len(raw)) % 2 = 1 THEN "03" ELSE "02") \o Sub(raw, 1, 32)
RawTree(raw) == P2pkTree(Compress(raw))

VARIABLES q, s, l

\* ---------------- serializers: s = [b, i, f, t, prior, tt]
NewSerial(prior) == [b |-> NoBox, i |-> NoInput, f |-> NoTx, t |-> NoTable, prior |-> prior, tt |-> <<>>]
Keep(x, r) == [s |-> x, r |-> r, cbs |-> <<>>, fin |-> FALSE, fed |-> "-"]
OfBox(x, o) == [s |-> [x EXCEPT !.b = o.s], r |-> o.r, cbs |-> o.cbs, fin |-> o.s.st = "done", fed |-> o.s.fed]
OfIn(x, o)  == [s |-> [x EXCEPT !.i = o.s], r |-> o.r, cbs |-> o.cbs, fin |-> o.s.st = "done", fed |-> o.s.fed]
OfTx(x, o)  == [s |-> [x EXCEPT !.f = o.s], r |-> o.r, cbs |-> o.cbs, fin |-> o.s.st = "fin", fed |-> o.s.fed]
Op(x, e) ==
    CASE e.op \in {"fault", "cbfail"} -> Keep(x, "ok")
      [] e.op = "b_init"   -> OfBox(x, BoxInit(e.x, e.n1, e.y, e.n2, e.n3))
      [] e.op = "b_cb"     -> OfBox(x, Out([x.b EXCEPT !.cb = TRUE], "ok", <<>>))
      [] e.op = "b_tree"   -> OfBox(x, BoxTree(x.b, e.h))
      [] e.op = "b_fee"    -> OfBox(x, BoxFee(x.b))
      [] e.op = "b_change" -> OfBox(x, BoxChange(x.b, e.x))
      [] e.op = "b_toks"   -> OfBox(x, BoxToks(x.b, e.h, e.n1 = 1, x.t))
      [] e.op = "b_regs"   -> OfBox(x, BoxRegs(x.b, e.h))
      [] e.op = "b_id"     -> OfBox(x, BoxId(x.b, e.x, e.y))
      [] e.op = "i_init"   -> OfIn(x, InInit(e.x, e.n1, e.n2))
      [] e.op = "i_cb"     -> OfIn(x, Out([x.i EXCEPT !.cb = TRUE], "ok", <<>>))
      [] e.op = "i_toks"   -> OfIn(x, InToks(x.i, e.x, e.n1, e.h))
      [] e.op = "i_ext"    -> OfIn(x, InExt(x.i, e.h))
      [] e.op = "t_init"   -> IF TabOk(e.n1, x.prior) THEN Keep([x EXCEPT !.t = [n |-> e.n1, ids |-> <<>>]], "ok") ELSE Keep(x, "err")
      [] e.op = "t_add"    -> LET a == TabAdd(x.t, e.h) IN [Keep([x EXCEPT !.t = a.t], a.r) EXCEPT !.fin = a.r = "ok"]
      [] e.op = "t_hash"   -> [Keep(x, "ok") EXCEPT !.fed = TabBytes(x.t), !.fin = Len(x.t.ids) = x.t.n]
      [] e.op = "f_init"   -> OfTx(x, TxInit(e.n1, e.n2, e.n3, e.n4, x.prior))
      [] e.op = "f_toks"   -> OfTx(x, TxToks(x.f, e.h))
      [] e.op = "f_in"     -> OfTx(x, TxInput(x.f, e.x, e.n1, e.n2))
      [] e.op = "f_icb"    -> OfTx(x, TxInCb(x.f))
      [] e.op = "f_itoks"  -> OfTx(x, TxInToks(x.f, e.x, e.n1, e.h))
      [] e.op = "f_ext"    -> OfTx(x, TxExt(x.f, e.h))
      [] e.op = "f_datas"  -> OfTx(x, TxDatas(x.f, e.h))
      [] e.op = "f_box"    -> OfTx(x, TxBox(x.f, e.x, e.n1, e.y, e.n2, e.n3))
      [] e.op = "f_bcb"    -> OfTx(x, TxBoxCb(x.f))
      [] e.op = "f_tree"   -> OfTx(x, TxTree(x.f, e.h))
      [] e.op = "f_fee"    -> OfTx(x, TxFee(x.f))
      [] e.op = "f_change" -> OfTx(x, TxChange(x.f, e.x))
      [] e.op = "f_otoks"  -> OfTx(x, TxOutToks(x.f, e.h))
      [] e.op = "f_regs"   -> OfTx(x, TxRegs(x.f, e.h))
\* a failing hash or a refusing caller makes the operation fail
Broken(x, e) == CASE SubSeq(e.op, 1, 1) = "b" -> OfBox(x, Err(x.b)) [] SubSeq(e.op, 1, 1) = "i" -> OfIn(x, Err(x.i))
                  [] SubSeq(e.op, 1, 1) = "f" -> OfTx(x, Err(x.f)) [] OTHER -> Keep(x, "err")
SerialStep(e) == IF e.op = "new" THEN Keep(NewSerial(e.n1), "ok")
                 ELSE IF e.fault = 1 \/ e.cbf = 1 THEN Broken(s, e) ELSE Op(s, e)
\* nothing is compared after a failure but the failure itself
SerialFits(x, e) ==
    /\ e.r = x.r
    /\ x.r # "err" => e.cbs = x.cbs
    /\ x.r # "err" \/ e.op # "t_add" => (e.fin = 1) = x.fin
    /\ (x.fin /\ e.op # "t_add") => e.fed = x.fed
    /\ (e.op = "b_id" /\ x.r = "ok") => e.pre = x.fed /\ e.id = e.dig
    /\ BoxSound(x.s.b) /\ TxSound(x.s.f)
\* the helper that keeps the amounts' tokens
TtStep(e) == LET k == IndexOf(s.tt, e.x) IN
    IF e.op = "tt_find" THEN [s |-> s, idx |-> IF k = 0 THEN 255 ELSE k - 1]
    ELSE IF Len(s.tt) >= MaxTok THEN [s |-> s, idx |-> 255]
    ELSE [s |-> [s EXCEPT !.tt = Append(@, e.x)], idx |-> Len(s.tt)]
TtFits(x, e) == e.idx = x.idx /\ e.count = Len(x.s.tt)

\* ---------------- pure functions
PathKinds(kind, p) ==
    CASE kind = "coin"   -> BasePath(p)
      [] kind = "hard"   -> BasePath(p) /\ \A i \in 3..Len(p) : Hard(p[i])
      [] kind = "acc3"   -> BasePath(p) /\ Len(p) = 3 /\ Hard(p[3])
      [] kind = "accge3" -> AccountPath(p)
      [] kind = "adr5"   -> AddressPath(p) /\ Len(p) = 5
      [] kind = "adrge5" -> AddressPath(p)
\* an address: prefix, payload, the first four bytes of the hash of both
AddressFits(e) ==
    LET valid == e.n1 <= 252
        body == IF e.kind = "sh" THEN AddressHead(e.n1, "p2sh", e.h)
                ELSE AddressHead(e.n1, "p2pk", IF e.kind = "raw" THEN Compress(e.h) ELSE e.h)
    IN IF ~valid \/ e.fault = 1 THEN e.ok = 0
       ELSE /\ e.ok = 1 /\ \E i \in 1..Len(e.hash) : e.hash[i][1] = body /\ e.o = body \o Sub(e.hash[i][2], 0, 4)
TreeFits(e) == LET c == Classify(e.h) IN
    (e.ok = 1) = (c.kind = e.op) /\ (e.ok = 1 => e.o = c.v)
\* the length of the data of a frame, 0 when it is not one
FrameLen(h) == IF BLen(h) < 43 + 16 THEN 0
               ELSE LET n == ByteAt(h, 42) IN IF n > 4 \/ BLen(h) < 43 + 40 * n + 16 THEN 0 ELSE 43 + 40 * n
PureFits(e) ==
    CASE e.op = "path"  -> (e.ok = 1) = PathKinds(e.kind, PathOfHex(e.h))
      [] e.op = "peq"   -> (e.ok = 1) = (e.h = e.g)
      [] e.op = "psame" -> (e.ok = 1) = SameAccount(PathOfHex(e.h), PathOfHex(e.g))
      [] e.op = "addr"  -> AddressFits(e)
      [] e.op \in {"p2pk", "p2sh"} -> TreeFits(e)
      [] e.op = "gen"   -> e.o = RawTree(e.h)
      [] e.op = "fee"   -> e.o = FeeTree
      [] e.op = "frame" -> e.ok = FrameLen(e.h) /\ e.sig = (IF e.ok = 0 THEN -1 ELSE e.ok)

\* ---------------- the walk
QueueStep(e) == IF e.op = "new" THEN Qu!Yes(Qu!New(e.n, e.b), "") ELSE Qu!Apply(q, e.op, e.n, e.b)
Fits(e) ==
    /\ e.crash = ""
    /\ CASE e.m = "q" -> Qu!Agrees(QueueStep(e), e)
         [] e.m = "s" -> SerialFits(SerialStep(e), e)
         [] e.m = "t" -> TtFits(TtStep(e), e)
         [] e.m = "dec" -> DecodeOk(e) [] e.m = "enc" -> EncodeOk(e) [] e.m = "ar" -> ArithOk(e)
         [] e.m = "p" -> PureFits(e)
Expected(e) == CASE e.m = "q" -> QueueStep(e) [] e.m = "s" -> SerialStep(e) [] e.m = "t" -> TtStep(e)
                 [] e.m = "dec" -> Decodings(e.t, e.h) [] e.m = "enc" -> Encode(e.t, e.v)
                 [] e.m = "ar" -> Exact(e.op, e.l, e.r) [] OTHER -> "?"
Init == q = Qu!New(0, "") /\ s = NewSerial(0) /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           IF Fits(e)
           THEN /\ l' = l + 1
                /\ q' = IF e.m = "q" THEN Qu!Adopt(QueueStep(e), e) ELSE q
                /\ s' = IF e.m = "s" THEN SerialStep(e).s ELSE IF e.m = "t" THEN TtStep(e).s ELSE s
                /\ Qu!WellFormed(q')
           ELSE PrintT(<<"REJECT", l, "expected", IF e.crash # "" THEN "no crash" ELSE Expected(e), "got", e>>) /\ FALSE
Spec == Init /\ [][Next]_<<q, s, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
