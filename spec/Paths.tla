------------------------------- MODULE Paths -------------------------------
(* Derivation paths: sequences of u32 (8 hex digits).                        *)
EXTENDS Bytes
H44 == "8000002c"
H429 == "800001ad"
Hard(e) == IsNeg(e)
BasePath(p) == Len(p) >= 3 /\ p[1] = H44 /\ p[2] = H429
\* a hardened account, or a fully hardened path below it
AccountPath(p) == BasePath(p) /\ \A i \in 3..Len(p) : Hard(p[i])
\* m/44'/429'/account'/chain/index, possibly continued without hardening
AddressPath(p) == /\ BasePath(p) /\ Len(p) >= 5 /\ Hard(p[3])
                  /\ p[4] \in {"00000000", "00000001"}
                  /\ \A i \in 5..Len(p) : ~Hard(p[i])
PathHex(p) == Concat(p)
PathOfHex(h) == [i \in 1..(Len(h) \div 8) |-> SubSeq(h, 8 * (i - 1) + 1, 8 * i)]
Unhard(e) == IF Hard(e) THEN Hex1(Nib(e, 1) - 8) \o SubSeq(e, 2, 8) ELSE e
ElemText(e) == Dec(Unhard(e)) \o (IF Hard(e) THEN "'" ELSE "")
PathText(p) == Concat([i \in 1..Len(p) |-> IF i = Len(p) THEN ElemText(p[i]) ELSE ElemText(p[i]) \o "/"])
SameAccount(a, b) == Len(a) >= 3 /\ Len(b) >= 3 /\ \A i \in 1..3 : a[i] = b[i]
=============================================================================
