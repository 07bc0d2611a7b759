------------------------------- MODULE Codec -------------------------------
(* Variable-length integers of the Ergo format and checked arithmetic, on     *)
(* 64-bit numbers written as sixteen hex digits.                              *)
EXTENDS Bytes

Width == [u8 |-> 8, i8 |-> 8, u16 |-> 16, i16 |-> 16, u32 |-> 32, i32 |-> 32, u64 |-> 64, i64 |-> 64]
Signed(t) == t \in {"i8", "i16", "i32", "i64"}

Pad(b, n) == [i \in 1..(n - Len(b)) |-> 0] \o b
RECURSIVE HexOf(_)
HexOf(b) == IF b = <<>> THEN "" ELSE HexOf(SubSeq(b, 1, Len(b) - 4)) \o Hex1(BitsInt(SubSeq(b, Len(b) - 3, Len(b))))

\* zigzag, by its bits: the sign goes last, the rest is complemented when negative
Flip(b) == [i \in 1..Len(b) |-> 1 - b[i]]
ZigBits(b) == IF b[1] = 0 THEN Tail(b) \o <<0>> ELSE Flip(Tail(b)) \o <<1>>
ZagBits(b) == LET n == Len(b) m == SubSeq(b, 1, n - 1) IN IF b[n] = 0 THEN <<0>> \o m ELSE <<1>> \o Flip(m)
Zig(h) == HexOf(ZigBits(Bits(h)))
Zag(h) == HexOf(ZagBits(Bits(h)))

\* the number that is written for a value v of type t (v sign- or zero-extended to 64 bits).
\* 32-bit signed numbers are zigzagged in 32 bits, and the result is sign-extended, as in the reference node
Low(h, n) == SubSeq(h, 17 - n, 16)
SignFill(h) == Rep(IF IsNeg(h) THEN "f" ELSE "0", 16 - Len(h)) \o h
Raw(t, v) == CASE t = "i64" -> Zig(v)
               [] t = "i32" -> SignFill(Zig(Low(v, 8)))
               [] t = "i16" -> Rep("0", 8) \o Zig(Low(v, 8))
               [] OTHER -> v
Encode(t, v) == IF t \in {"u8", "i8"} THEN Low(v, 2) ELSE Vlq(Raw(t, v))

\* Decoding: [ok, n: bytes consumed, u: the number read]
Bad == [ok |-> FALSE, n |-> 0, u |-> ""]
RECURSIVE Stop(_, _)
Stop(h, i) == IF i > 10 \/ i > BLen(h) THEN 0 ELSE IF ByteAt(h, i - 1) < 128 THEN i ELSE Stop(h, i + 1)
RECURSIVE Groups(_, _)
Groups(h, i) == IF i = 0 THEN <<>> ELSE Tail(Bits(Sub(h, i - 1, 1))) \o Groups(h, i - 1)
Unsigned(h) ==
    LET n == Stop(h, 1) IN
    IF n = 0 THEN Bad
    ELSE LET b == Strip(Groups(h, n)) IN
         IF Len(b) > 64 THEN Bad ELSE [ok |-> TRUE, n |-> n, u |-> HexOf(Pad(b, 64))]
Z(n) == Rep("0", n)
Low32(u) == Low(u, 8)
\* The results a decoder of type t may give for the bytes h: a set of [ok, n, v]
Refused == [ok |-> FALSE, n |-> 0, v |-> ""]
Decodings(t, h) ==
    IF t \in {"u8", "i8"} THEN
        IF h = "" THEN {Refused}
        ELSE {[ok |-> TRUE, n |-> 1, v |-> IF t = "u8" THEN Z(14) \o Sub(h, 0, 1) ELSE SignFill(Sub(h, 0, 1))]}
    ELSE LET r == Unsigned(h)
             got(v) == [ok |-> TRUE, n |-> r.n, v |-> v]
             z32 == SignFill(Zag(Low32(r.u)))
             small == SubSeq(r.u, 1, 8) = Z(8)
             ext == SubSeq(r.u, 1, 8) = Rep("f", 8) /\ IsNeg(Low32(r.u))
             \* an unextended number above 2^31 is not what any encoder writes: it may be read or refused
             open == small /\ IsNeg(Low32(r.u))
             fits16 == SignFill(Low(z32, 4)) = z32
         IN IF ~r.ok THEN {Refused}
            ELSE CASE t = "u64" -> {got(r.u)}
                   [] t = "i64" -> {got(Zag(r.u))}
                   [] t = "u32" -> {IF small THEN got(r.u) ELSE Refused}
                   [] t = "u16" -> {IF SubSeq(r.u, 1, 12) = Z(12) THEN got(r.u) ELSE Refused}
                   [] t = "i32" -> IF open THEN {got(z32), Refused} ELSE {IF small \/ ext THEN got(z32) ELSE Refused}
                   [] t = "i16" -> {IF (small \/ ext) /\ fits16 THEN got(z32) ELSE Refused}

DecodeOk(e) == LET o == IF e.ok = 1 THEN [ok |-> TRUE, n |-> e.used, v |-> e.val] ELSE Refused
               IN o \in Decodings(e.t, e.h)
\* into a buffer of capacity cap of which used bytes are taken
EncodeOk(e) == LET b == Encode(e.t, e.v) IN
    /\ e.kept = 1 /\ e.rd = 0
    /\ IF BLen(b) <= e.cap - e.used THEN e.ok = 1 /\ e.b = b /\ e.wr = e.used + BLen(b)
       ELSE e.ok = 0 /\ e.wr = e.used

\* checked arithmetic; on failure the old result stays
Exact(op, l, r) == CASE op = "addu" -> AddU(l, r) [] op = "subu" -> SubU(l, r)
                     [] op = "addi" -> AddSU(l, r) [] op = "subi" -> SubSU(l, r)
ArithOk(e) == LET x == Exact(e.op, e.l, e.r) IN
    /\ (e.ok = 1) = x.ok /\ (e.ok2 = 1) = x.ok
    /\ e.o = (IF x.ok THEN x.v ELSE e.old) /\ e.o2 = (IF x.ok THEN x.v ELSE e.l)
=============================================================================
