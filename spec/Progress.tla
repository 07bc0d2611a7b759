------------------------------ MODULE Progress ------------------------------
(* What the protocol permits is carried out (C23).  Permits says, from what  *)
(* was accepted before and nothing else, which requests have to be accepted: *)
(* the step belongs here, it is authentic, it stays within what was announced*)
(* and within the limits, and the amounts remain representable.              *)
EXTENDS Observer

Half == Wide("8" \o Rep("0", AmtW - 1))      \* 2^63
Legible(path) == Len(PathText(path)) < PathPage
SizesOk(q) == q.ntok <= MaxTok /\ q.treeSize <= MaxPart /\ q.regSize <= MaxPart
ChunkOk(left, n) == n <= left /\ (n = left \/ n >= MinChunk)
PermitsInit(o, q) ==
    CASE q.k = "epk" -> q.perr = "" /\ AccountPath(q.path) /\ (ByToken(o, q) \/ Legible(q.path))
      [] q.k = "da"  -> q.perr = "" /\ AddressPath(q.path) /\ q.net <= 252 /\ ((ByToken(o, q) /\ ~q.display) \/ Legible(q.path))
      [] q.k = "a.init" -> q.flag \in {1, 2} /\ q.perr = "" /\ SizesOk(q)
      [] q.k = "s.init" -> q.flag \in {1, 2} /\ q.perr = "" /\ AddressPath(q.path) /\ q.net \in {0, 16} /\ Legible(q.path)
PermitsBox(b, q) ==
    CASE q.k = "a.tree" -> BoxStep(b, "a.tree") /\ ChunkOk(b.q.treeSize - BLen(b.tree), BLen(q.data))
      [] q.k = "a.toks" -> /\ BoxStep(b, "a.toks") /\ q.tail = "none" /\ Len(b.toks) + Len(q.items) <= b.q.ntok
                           /\ LET all == b.toks \o q.items IN Cardinality({all[i].id : i \in 1..Len(all)}) = Len(all)
      [] q.k = "a.regs" -> BoxStep(b, "a.regs") /\ BLen(b.regs) + BLen(q.data) <= b.q.regSize
      [] q.k = "a.frame" -> BoxWhole(b) /\ q.perr = "" /\ q.ix * FrameTok < (IF b.toks = <<>> THEN 1 ELSE Len(b.toks))
      [] OTHER -> FALSE
SeenTokens(c) == {c.ids[i] : i \in 1..Len(c.ids)}
Entries(c) == Len(c.ids) + Cardinality(UNION {{c.ins[i].toks[j].id : j \in 1..Len(c.ins[i].toks)} : i \in 1..Len(c.ins)} \ SeenTokens(c))
PermitsFrame(o, c, q) ==
    /\ q.perr = "" /\ MacOf(o.skey, q.body) = q.mac /\ Belongs(c, q) /\ q.fi < q.fc
    /\ q.fi = 0 => q.ext # "" /\ CapInt(q.ext) # 1 /\ CapInt(q.ext) <= MaxPart
    /\ LET n == Stream(c, q) IN
       /\ Fits64(Sum(n.ins, LAMBDA i : i.val)) /\ Entries(n) <= MaxTok
       /\ \A j \in 1..Len(q.toks) : Lt(TokIn(n, q.toks[j].id), Half)
PermitsTokens(c, b, q) ==
    /\ BoxStep(b, "s.otoks") /\ q.tail.k = "none" /\ Len(b.toks) + Len(q.items) <= b.q.ntok
    /\ \A i \in 1..Len(q.items) : q.items[i].ix < c.ann.ntok
    /\ LET all == b.toks \o q.items n == Stream(c, q) IN
       \A i \in Len(b.toks) + 1..Len(all) :
          LET t == c.ids[all[i].ix + 1] IN
          /\ \A j \in 1..i - 1 : c.ids[all[j].ix + 1] = t => IsZero(all[j].val)
          /\ ~Lt(AddW(TokIn(c, t), Half)[2], TokOut(n, t))
PermitsSign(o, c, q) ==
    CASE q.k = "s.start" -> q.perr = "" /\ Belongs(c, q) /\ q.nin > 0 /\ q.nout > 0 /\ q.ntok <= MaxTok
      [] q.k = "s.toks"  -> Belongs(c, q) /\ ~q.part /\ Len(c.ids) + Len(q.ids) <= c.ann.ntok
      [] q.k = "s.frame" -> PermitsFrame(o, c, q)
      [] q.k = "s.ext"   -> Belongs(c, q) /\ BLen(Last(c.ins).ext) + BLen(q.data) <= Last(c.ins).size
      [] q.k = "s.datas" -> Belongs(c, q) /\ ~q.part /\ Len(c.datas) + Len(q.ids) <= c.ann.ndata
      [] q.k = "s.out"   -> q.perr = "" /\ Belongs(c, q) /\ SizesOk(q)
      [] q.k = "s.tree"  -> Belongs(c, q) /\ ChunkOk(Last(c.outs).q.treeSize - BLen(Last(c.outs).tree), BLen(q.data))
      [] q.k = "s.fee"   -> q.perr = "" /\ Belongs(c, q) /\ Fits64(Total(Stream(c, q)))
      [] q.k = "s.change" -> q.perr = "" /\ AddressPath(q.path) /\ Belongs(c, q) /\ Fits64(Total(Stream(c, q)))
      [] q.k = "s.otoks" -> Belongs(c, q) /\ PermitsTokens(c, Last(c.outs), q)
      [] q.k = "s.regs"  -> Belongs(c, q) /\ BLen(Last(c.outs).regs) + BLen(q.data) <= Last(c.outs).q.regSize
      [] q.k = "s.confirm" -> Belongs(c, q)
      [] OTHER -> FALSE
Permits(o, q) ==
    CASE q.k \in {"version", "name"} -> TRUE
      [] q.k = "bad" \/ o.ask.k # "-" -> FALSE
      [] IsInit(q) -> PermitsInit(o, q)
      [] OTHER -> /\ o.ses.k # "-" /\ q.g = o.ses.k /\ "sess" \in DOMAIN q /\ q.sess = o.ses.sid
                  /\ IF o.ses.k = "a" THEN PermitsBox(o.ses.box, q) ELSE PermitsSign(o, o.ses.c, q)
\* a page that cannot be written: the path of a change output is too long for it
Illegible(o) == OutAsk(o) /\ o.ses.k = "s" /\ LET b == Last(o.ses.c.outs) IN b.kind = "change" /\ Len(PathText(b.dest)) >= ChangePage
P23(o, x) ==
    /\ (x.in = "apdu" /\ Permits(o, x.q)) => IsOk(x) \/ Prompted(x)
    /\ Yes(o, x) => IsOk(x)
    /\ (x.in # "apdu" /\ Broke(o, x)) => Illegible(o)
\* the converse, which C03, C07 and C12 require between them: nothing else is accepted
Only(o, x) == (x.in = "apdu" /\ o.ask.k = "-" /\ (IsOk(x) \/ Prompted(x))) => Permits(o, x.q)

Kept(n, o, x) == IF n = "C23" THEN P23(o, x) ELSE IF n = "only" THEN Only(o, x) ELSE Holds(n, o, x)
AllNames == PropertyNames \cup {"C23", "only"}
=============================================================================
