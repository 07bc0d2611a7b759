------------------------------- MODULE MCLib -------------------------------
(* The specifications of the modules checked by themselves, within small      *)
(* constants: the buffer is a queue, integers round-trip, arithmetic is       *)
(* exact, and the serializers give the canonical bytes of their content.      *)
EXTENDS Serial, Codec
CONSTANTS Part,      \* "queue", "codec", "arith", "box", "tx"
          Size       \* how far to go
Qu == INSTANCE Queue

VARIABLES st, gh
vars == <<st, gh>>
B == {"00", "01", "ff"}
McTree(k) == "0" \o k \o "1"
McFee == "f001f1"

\* ---------------- the queue: gh = [in, out, pure]
QOps == {<<o, 0, b>> : o \in {"w8"}, b \in B} \cup {<<"w16be", 0, "0102">>, <<"w16le", 0, "0102">>}
        \cup {<<"wb", 0, b>> : b \in {"", "0a", "0a0b", "0a0b0c"}} \cup {<<o, 0, "">> : o \in {"r8", "r16be", "r16le", "empty", "shift"}}
        \cup {<<o, n, "">> : o \in {"rb", "cb", "srs", "src", "sre", "sws", "swc", "swe", "cr", "cw"}, n \in -1..(Size + 1)}
Writes == {"w8", "w16be", "w16le", "wb"}
Pure == Writes \cup {"r8", "r16be", "r16le", "rb", "cb", "shift", "cr", "cw"}
QInit == st \in {Qu!New(n, "") : n \in 0..Size} /\ gh = [in |-> "", out |-> "", pure |-> TRUE]
QNext == \E o \in QOps :
    LET r == Qu!Apply(st, o[1], o[2], o[3])
        raw == Sub(st.mem, st.rd, r.q.rd - st.rd)
    IN /\ BLen(gh.in) < Size + 2 \/ o[1] \notin Writes
       /\ st' = [r.q EXCEPT !.mem = IF r.free > 0 THEN Sub(@, 0, Qu!Wr(st)) \o Rep("55", r.free) ELSE @]
       /\ gh' = IF ~gh.pure THEN gh
                ELSE IF o[1] \notin Pure /\ r.ok THEN [in |-> "", out |-> "", pure |-> FALSE]
                ELSE [in |-> gh.in \o (IF o[1] \in Writes /\ r.ok THEN Sub(r.q.mem, Qu!Wr(st), Qu!Wr(r.q) - Qu!Wr(st)) ELSE ""),
                      out |-> gh.out \o (IF o[1] \in Pure \ {"shift"} /\ r.ok THEN raw ELSE ""), pure |-> TRUE]
       /\ r.ok \/ st' = st
QInv == /\ Qu!WellFormed(st)
        /\ gh.pure => gh.in = gh.out \o Qu!Content(st)

\* ---------------- integers: st ranges over values
OneHot(k) == Rep("0", 15 - (k \div 4)) \o <<"1","2","4","8">>[(k % 4) + 1] \o Rep("0", k \div 4)
One == OneHot(0)
Around(h) == {h, AddW(h, One)[2], SubW(h, One)[2], Neg(h), Neg(AddW(h, One)[2]), Neg(SubW(h, One)[2])}
Values == UNION {Around(OneHot(k)) : k \in 0..63} \cup {Rep("0", 12) \o Hex4(n) : n \in 0..Size}
          \cup {Rep("f", 12) \o Hex4(n) : n \in (65535 - Size)..65535}
Fits_(t, v) == LET w == Width[t] \div 4 IN IF Signed(t) THEN SignFill(Low(v, w)) = v ELSE Rep("0", 16 - w) \o Low(v, w) = v
CodecInit == st \in Values /\ gh = 0
CodecInv == \A t \in DOMAIN Width : Fits_(t, st) =>
    LET b == Encode(t, st) IN
    /\ \A x \in {"", "00", "ff"} : Decodings(t, b \o x) = {[ok |-> TRUE, n |-> BLen(b), v |-> st]}
    /\ \A k \in 0..(BLen(b) - 1) : Decodings(t, Sub(b, 0, k)) = {Refused}
    /\ BLen(b) <= 10 /\ (Width[t] > 8 /\ BLen(b) > 1 => Sub(b, BLen(b) - 1, 1) # "00")
\* whatever is decoded fits the type; a value that does not fit is refused
WidthInv == \A t \in DOMAIN Width : Width[t] > 8 =>
    \A d \in Decodings(t, Vlq(st)) : d.ok => Fits_(t, d.v) /\ d.n = BLen(Vlq(st))

\* ---------------- arithmetic on two digits against ordinary numbers
N2(h) == 16 * Nib(h, 1) + Nib(h, 2)
S2(h) == IF N2(h) > 127 THEN N2(h) - 256 ELSE N2(h)
ArithInit == st \in 0..255 /\ gh = 0
ArithInv == \A m \in 0..255 : LET l == Hex2(st) r == Hex2(m) IN
    /\ AddU(l, r).ok = (st + m < 256) /\ (AddU(l, r).ok => N2(AddU(l, r).v) = st + m)
    /\ SubU(l, r).ok = (st >= m) /\ (SubU(l, r).ok => N2(SubU(l, r).v) = st - m)
    /\ AddSU(l, r).ok = (S2(l) + m <= 127) /\ (AddSU(l, r).ok => S2(AddSU(l, r).v) = S2(l) + m)
    /\ SubSU(l, r).ok = (S2(l) - m >= -128) /\ (SubSU(l, r).ok => S2(SubSU(l, r).v) = S2(l) - m)

\* ---------------- a box by itself; gh: what was announced, and an operation has failed
Chunks == {"", "a1", "a1a2", "a1a2a3"}
TokChunks == {"", "aa01", "bb02", "aa01bb02", "aa01bb02cc03", "aa01bb"}
IdxChunks == {"", "0000000001", "0000000105", "00000000010000000105", "00000001", "0000000201"}
Tab == [n |-> 2, ids |-> <<"aa", "bb">>]
BoxInits == {BoxInit(v, t, h, n, r) : v \in {"00", "81"}, t \in {0, 1, 3, MaxPart + 1}, h \in {"00000005"}, n \in {0, 2, MaxTok + 1}, r \in {0, 2}}
BoxSteps(s, byIdx) ==
    {BoxTree(s, c) : c \in Chunks} \cup {BoxFee(s), BoxChange(s, "9")} \cup {BoxRegs(s, c) : c \in Chunks \ {"a1a2a3"}}
    \cup {BoxToks(s, c, byIdx, Tab) : c \in IF byIdx THEN IdxChunks ELSE TokChunks}
    \cup {BoxId(s, "dd", "0003")} \cup {Err(s)}
BoxStart == \E b \in BoxInits, x \in BOOLEAN : st = b.s /\ gh = [ann |-> b.s, byIdx |-> x, dead |-> b.r = "err"]
BoxNext == \E o \in BoxSteps(st, gh.byIdx) :
    st' = o.s /\ gh' = [gh EXCEPT !.dead = gh.dead \/ o.r = "err"]
BoxInv ==
    /\ BoxSound(st)
    /\ gh.dead <=> st.st = "err"
    /\ st.st \in {"done", "final"} =>
         /\ Len(st.o.toks) = gh.ann.ntok /\ BLen(st.o.regs) = gh.ann.regs
         /\ st.type = "tree" => BLen(st.o.tree) = gh.ann.left
         /\ st.type = "fee" => st.o.tree = TheFeeTree
    /\ st.st = "final" => st.fed = BoxIdBytes(st.o, "dd", "0003")
Sticky == [][gh.dead => gh'.dead]_vars

\* ---------------- a transaction
TxInits == {TxInit(i, d, o, t, p) : i \in 0..(IF Size > 0 THEN 2 ELSE 1), d \in 0..(IF Size > 0 THEN 2 ELSE 1), o \in 0..(IF Size > 1 THEN 2 ELSE 1), t \in {0, 2, MaxTok + 1}, p \in {0, 1}}
TxSteps(s) ==
    {TxToks(s, c) : c \in {"", "aa", "bb", "aabb"}} \cup
    {TxInput(s, i, n, e) : i \in {"e1", "e2"}, n \in 1..2, e \in {0, 1, 2}} \cup
    {TxInToks(s, i, n, c) : i \in {"e1", "e2"}, n \in 0..1, c \in {"", "aa01"}} \cup
    {TxExt(s, c) : c \in {"c1", "c1c2"}} \cup {TxDatas(s, c) : c \in {"d1", "d1d2"}} \cup
    {TxBox(s, "81", t, "00000005", n, r) : t \in {1, 3}, n \in {0, 1}, r \in {0, 1}} \cup
    {TxTree(s, c) : c \in {"a1", "a1a2", "a1a2a3"}} \cup {TxFee(s), TxChange(s, "9")} \cup
    {TxOutToks(s, c) : c \in {"0000000001", "0000000201"}} \cup {TxRegs(s, c) : c \in {"", "b1"}} \cup {Err(s)}
TxStart == \E b \in TxInits : st = b.s /\ gh = [ann |-> b.s, dead |-> b.r = "err"]
TxNext == \E o \in TxSteps(st) : st' = o.s /\ gh' = [gh EXCEPT !.dead = gh.dead \/ o.r = "err"]
TxInv ==
    /\ TxSound(st) /\ BoxSound(st.box)
    /\ gh.dead <=> st.st = "err"
    /\ st.st = "fin" => /\ Len(st.o.inputs) = gh.ann.nin /\ Len(st.o.datas) = gh.ann.ndata
                        /\ Len(st.o.outs) = gh.ann.nout /\ Len(st.o.toks) = gh.ann.tab.n

Init == CASE Part = "queue" -> QInit [] Part = "codec" -> CodecInit [] Part = "arith" -> ArithInit
          [] Part = "box" -> BoxStart [] Part = "tx" -> TxStart
Next == CASE Part = "queue" -> QNext [] Part = "box" -> BoxNext [] Part = "tx" -> TxNext [] OTHER -> FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the interesting states exist
Goal == CASE Part = "queue" -> gh.pure /\ gh.in # "" /\ gh.out # "" [] Part = "box" -> st.st = "final" [] Part = "tx" -> st.st = "fin" [] OTHER -> TRUE
Seen == IF Goal THEN TLCSet(7, TRUE) ELSE TRUE
ASSUME TLCSet(7, FALSE)
Holds == /\ CASE Part = "queue" -> QInv [] Part = "codec" -> CodecInv /\ WidthInv [] Part = "arith" -> ArithInv
              [] Part = "box" -> BoxInv [] Part = "tx" -> TxInv
         /\ Seen
\* a failure is for good
Final == [][(Part \in {"box", "tx"} /\ gh.dead) => gh'.dead]_vars
NotVacuous == TLCGet(7)
=============================================================================
