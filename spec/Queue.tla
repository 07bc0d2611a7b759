------------------------------- MODULE Queue -------------------------------
(* The read/write buffer as a bounded queue of bytes. A state is              *)
(*   mem: the bytes up to the write position (those before the read position  *)
(*        have been read already), rd: the read position, size: the capacity. *)
(* Counts that no buffer can hold are given as negative numbers.              *)
EXTENDS Bytes

New(size, mem) == [size |-> size, mem |-> mem, rd |-> 0]
Wr(q)    == BLen(q.mem)
Len_(q)  == Wr(q) - q.rd
Space(q) == q.size - Wr(q)
Content(q) == From(q.mem, q.rd)
WellFormed(q) == 0 <= q.rd /\ q.rd <= Wr(q) /\ Wr(q) <= q.size

Yes(q, out)  == [q |-> q, ok |-> TRUE,  out |-> out, free |-> 0]
No(q)        == [q |-> q, ok |-> FALSE, out |-> "",  free |-> 0]
\* free: so many bytes at the end of mem are whatever the storage held
Exposed(q, n) == [q |-> q, ok |-> TRUE, out |-> "", free |-> n]
Test(q, b)   == [q |-> q, ok |-> b, out |-> "", free |-> 0]

RECURSIVE Rev(_)
Rev(h) == IF h = "" THEN "" ELSE Rev(SubSeq(h, 3, Len(h))) \o SubSeq(h, 1, 2)
Can(q, n)  == n >= 0 /\ n <= Len_(q)
Room(q, n) == n >= 0 /\ n <= Space(q)

Peek(q, n) == IF Can(q, n) THEN Yes(q, Sub(q.mem, q.rd, n)) ELSE No(q)
Read(q, n) == IF Can(q, n) THEN Yes([q EXCEPT !.rd = @ + n], Sub(q.mem, q.rd, n)) ELSE No(q)
ReadLe(q, n) == LET r == Read(q, n) IN [r EXCEPT !.out = Rev(@)]
Write(q, b) == IF Room(q, BLen(b)) THEN Yes([q EXCEPT !.mem = @ \o b], "") ELSE No(q)
\* several 32-bit numbers, most significant byte first; at least one and at most ten
ReadPath(q, n) == IF n >= 1 /\ n <= 10 THEN Read(q, 4 * n) ELSE No(q)

SeekRead(q, at) == IF at >= 0 /\ at <= Wr(q) THEN Yes([q EXCEPT !.rd = at], "") ELSE No(q)
\* moving the write position back drops bytes not yet read; moving it on exposes what the storage holds
SeekWrite(q, at) ==
    IF at < q.rd \/ at > q.size THEN No(q)
    ELSE IF at <= Wr(q) THEN Yes([q EXCEPT !.mem = Sub(@, 0, at)], "")
    ELSE Exposed([q EXCEPT !.mem = @ \o Rep("??", at - Wr(q))], at - Wr(q))
Empty(q) == Yes([q EXCEPT !.mem = "", !.rd = 0], "")
Shift(q) == Yes([q EXCEPT !.mem = Content(q), !.rd = 0], "")

Apply(q, op, n, b) ==
    CASE op = "w8" \/ op = "w16be" \/ op = "w32be" \/ op = "w64be" -> Write(q, b)
      [] op = "w16le" \/ op = "w32le" \/ op = "w64le" -> Write(q, Rev(b))
      [] op = "wb"  -> IF n < 0 THEN No(q) ELSE Write(q, b)
      [] op = "r8"  -> Read(q, 1)
      [] op = "r16be" -> Read(q, 2) [] op = "r16le" -> ReadLe(q, 2)
      [] op = "r32be" -> Read(q, 4) [] op = "r32le" -> ReadLe(q, 4)
      [] op = "r64be" -> Read(q, 8) [] op = "r64le" -> ReadLe(q, 8)
      [] op = "rb"  -> Read(q, n) [] op = "cb" -> Peek(q, n) [] op = "bip" -> ReadPath(q, n)
      [] op = "srs" -> SeekRead(q, n)
      [] op = "src" -> IF n < 0 THEN No(q) ELSE SeekRead(q, q.rd + n)
      [] op = "sre" -> IF n < 0 \/ n > Wr(q) THEN No(q) ELSE SeekRead(q, Wr(q) - n)
      [] op = "sws" -> SeekWrite(q, n)
      [] op = "swc" -> IF n < 0 THEN No(q) ELSE SeekWrite(q, Wr(q) + n)
      [] op = "swe" -> IF n < 0 \/ n > q.size THEN No(q) ELSE SeekWrite(q, q.size - n)
      [] op = "cr" -> Test(q, Can(q, n)) [] op = "cw" -> Test(q, Room(q, n))
      [] op = "empty" -> Empty(q) [] op = "shift" -> Shift(q)

\* what is observed after an operation: positions, lengths, the bytes delivered, the bytes kept
Agrees(r, e) ==
    LET k == Wr(r.q) - r.free IN
    /\ r.ok = (e.ok = 1) /\ r.out = e.out
    /\ e.rd = r.q.rd /\ e.wr = Wr(r.q) /\ e.len = Len_(r.q) /\ e.space = Space(r.q)
    /\ e.rp = e.rd /\ e.wp = e.wr
    /\ BLen(e.mem) = Wr(r.q) /\ Sub(e.mem, 0, k) = Sub(r.q.mem, 0, k)
\* the state goes on with the bytes that were exposed
Adopt(r, e) == IF r.free = 0 THEN r.q ELSE [r.q EXCEPT !.mem = e.mem]
=============================================================================
