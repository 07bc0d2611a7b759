------------------------------- MODULE Bytes -------------------------------
(* Byte strings are lower-case hex strings; fixed-width integers are hex    *)
(* strings of a fixed number of digits (16 for u64/i64, 8 for u32), so that *)
(* the same operators work for the 4-bit integers of the small models.      *)
EXTENDS Integers, Sequences, TLC

Digit == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
NibTab == [ c \in {Digit[i] : i \in 1..16} |-> CHOOSE i \in 0..15 : Digit[i + 1] = c ]
Ch(s, i)  == SubSeq(s, i, i)
Nib(s, i) == NibTab[Ch(s, i)]
Hex1(n)   == Digit[n + 1]
Hex2(n)   == Digit[(n \div 16) + 1] \o Digit[(n % 16) + 1]
Hex4(n)   == Hex2(n \div 256) \o Hex2(n % 256)

BLen(h) == Len(h) \div 2
Sub(h, i, n) == SubSeq(h, 2 * i + 1, 2 * (i + n))          \* n bytes from offset i
From(h, i)   == SubSeq(h, 2 * i + 1, Len(h))
ByteAt(h, i) == 16 * Nib(h, 2 * i + 1) + Nib(h, 2 * i + 2)

RECURSIVE Concat(_)
Concat(seq) == IF seq = <<>> THEN "" ELSE IF Len(seq) = 1 THEN seq[1]
               ELSE LET m == Len(seq) \div 2 IN Concat(SubSeq(seq, 1, m)) \o Concat(SubSeq(seq, m + 1, Len(seq)))

Rep(s, n) == Concat([i \in 1..n |-> s])

Nibs(h) == [i \in 1..Len(h) |-> Nib(h, i)]
OfNibs(s) == Concat([i \in 1..Len(s) |-> Hex1(s[i])])

\* value of a hex string known to be small (at most 7 digits)
RECURSIVE IntOf(_)
IntOf(h) == IF h = "" THEN 0 ELSE 16 * IntOf(SubSeq(h, 1, Len(h) - 1)) + Nib(h, Len(h))
\* value of a u32, capped well above every limit the protocol knows
CapInt(h) == IF Len(h) > 5 /\ SubSeq(h, 1, Len(h) - 5) # Rep("0", Len(h) - 5) THEN 1048575
             ELSE IntOf(h)

IsZero(h) == \A i \in 1..Len(h) : Ch(h, i) = "0"
RECURSIVE LtR(_, _, _)
LtR(a, b, i) == IF i > Len(a) THEN FALSE
                ELSE IF Nib(a, i) = Nib(b, i) THEN LtR(a, b, i + 1) ELSE Nib(a, i) < Nib(b, i)
Lt(a, b) == LtR(a, b, 1)                                    \* unsigned, equal widths
Le(a, b) == ~Lt(b, a)

RECURSIVE AddR(_, _, _, _)
AddR(a, b, i, c) == \* digits 1..i of the sum with carry c: <<carry, text>>
    IF i = 0 THEN <<c, "">>
    ELSE LET s == Nib(a, i) + Nib(b, i) + c
             r == AddR(a, b, i - 1, s \div 16)
         IN <<r[1], r[2] \o Hex1(s % 16)>>
AddW(a, b) == AddR(a, b, Len(a), 0)
RECURSIVE SubR(_, _, _, _)
SubR(a, b, i, c) ==
    IF i = 0 THEN <<c, "">>
    ELSE LET s == Nib(a, i) - Nib(b, i) - c
             r == SubR(a, b, i - 1, IF s < 0 THEN 1 ELSE 0)
         IN <<r[1], r[2] \o Hex1((s + 16) % 16)>>
SubW(a, b) == SubR(a, b, Len(a), 0)
Zero(w) == Rep("0", w)
Neg(a) == SubW(Zero(Len(a)), a)[2]
IsNeg(a) == Nib(a, 1) >= 8                                   \* two's complement
\* magnitude of a two's complement number, as an unsigned one of the same width
Mag(a) == IF IsNeg(a) THEN Neg(a) ELSE a

\* Checked arithmetic: [ok, v]
AddU(a, b) == LET r == AddW(a, b) IN [ok |-> r[1] = 0, v |-> r[2]]
SubU(a, b) == LET r == SubW(a, b) IN [ok |-> r[1] = 0, v |-> r[2]]
\* a signed number plus or minus an unsigned one of the same width, exactly
SExt(a) == (IF IsNeg(a) THEN "f" ELSE "0") \o a
Fit(r) == LET v == SubSeq(r, 2, Len(r)) IN [ok |-> SExt(v) = r, v |-> v]
AddSU(a, b) == Fit(AddW(SExt(a), "0" \o b)[2])
SubSU(a, b) == Fit(SubW(SExt(a), "0" \o b)[2])

\* Decimal text of an unsigned number
RECURSIVE DivTen(_, _, _, _)
DivTen(n, i, rem, q) == IF i > Len(n) THEN <<q, rem>>
    ELSE LET t == rem * 16 + n[i] IN DivTen(n, i + 1, t % 10, Append(q, t \div 10))
RECURSIVE DecR(_, _)
DecR(n, acc) == LET d == DivTen(n, 1, 0, <<>>)
                    t == Digit[d[2] + 1] \o acc
                IN IF \A i \in 1..Len(d[1]) : d[1][i] = 0 THEN t ELSE DecR(d[1], t)
Dec(h) == DecR(Nibs(h), "")
\* Fixed point text with d decimals
Fixed(h, d) == LET t == Dec(h) n == Len(t) IN
    IF n <= d THEN "0." \o Rep("0", d - n) \o t
    ELSE SubSeq(t, 1, n - d) \o "." \o SubSeq(t, n - d + 1, n)
DecInt(n) == LET RECURSIVE g(_) 
                 g(k) == IF k < 10 THEN Digit[k + 1] ELSE g(k \div 10) \o Digit[(k % 10) + 1] IN g(n)

\* Bits, most significant first
NibBits == [n \in 0..15 |-> <<n \div 8, (n \div 4) % 2, (n \div 2) % 2, n % 2>>]
RECURSIVE Bits(_)
Bits(h) == IF h = "" THEN <<>> ELSE NibBits[Nib(h, 1)] \o Bits(SubSeq(h, 2, Len(h)))
RECURSIVE Strip(_)
Strip(b) == IF b = <<>> \/ b[1] = 1 THEN b ELSE Strip(Tail(b))
RECURSIVE BitsInt(_)
BitsInt(b) == IF b = <<>> THEN 0 ELSE 2 * BitsInt(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
\* Ergo's variable-length quantity: groups of seven bits, least significant first
RECURSIVE VlqBits(_)
VlqBits(b) == IF Len(b) <= 7 THEN Hex2(BitsInt(b))
              ELSE Hex2(128 + BitsInt(SubSeq(b, Len(b) - 6, Len(b)))) \o VlqBits(SubSeq(b, 1, Len(b) - 7))
Vlq(h) == VlqBits(Strip(Bits(h)))
VlqInt(n) == Vlq(Hex4(n))

Last(s) == s[Len(s)]
Range(s) == {s[i] : i \in 1..Len(s)}
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0
=============================================================================
