-------------------------------- MODULE Wire --------------------------------
(* Requests as bytes: what each one asks for, and what is wrong with it.     *)
EXTENDS Device

Has(h, i, n) == BLen(h) >= i + n
\* a path at offset i: [ok, path, next]
PathAt(h, i) ==
    IF ~Has(h, i, 1) THEN [ok |-> FALSE]
    ELSE LET n == ByteAt(h, i) IN
         IF n < 1 \/ n > 10 \/ ~Has(h, i + 1, 4 * n) THEN [ok |-> FALSE]
         ELSE [ok |-> TRUE, path |-> PathOfHex(Sub(h, i + 1, 4 * n)), next |-> i + 1 + 4 * n]
\* an optional application token at the end: [perr, tok]
TokAt(h, i, has) ==
    IF has /\ ~Has(h, i, 4) THEN [perr |-> SwNotEnough, tok |-> NoTok]
    ELSE LET e == IF has THEN i + 4 ELSE i IN
         IF BLen(h) > e THEN [perr |-> SwTooMuch, tok |-> NoTok]
         ELSE [perr |-> "", tok |-> IF has THEN Sub(h, i, 4) ELSE NoTok]

Bad(sw) == [k |-> "bad", sw |-> sw]
ParseEpk(h, has) ==
    LET p == PathAt(h, 0) IN
    IF ~p.ok THEN [k |-> "epk", perr |-> SwNotEnough]
    ELSE LET t == TokAt(h, p.next, has) IN
         [k |-> "epk", perr |-> t.perr, path |-> p.path, tok |-> t.tok]
ParseDa(h, display, has) ==
    LET p == PathAt(h, 1) IN
    IF ~Has(h, 0, 1) \/ ~p.ok THEN [k |-> "da", perr |-> SwNotEnough]
    ELSE LET t == TokAt(h, p.next, has) IN
         [k |-> "da", perr |-> t.perr, path |-> p.path, tok |-> t.tok, net |-> ByteAt(h, 0),
          display |-> display]

ParseBox(h, i) == [value |-> Sub(h, i, 8), treeSize |-> CapInt(Sub(h, i + 8, 4)),
                   height |-> Sub(h, i + 12, 4), ntok |-> ByteAt(h, i + 16),
                   regSize |-> CapInt(Sub(h, i + 17, 4))]
\* items of n bytes, and what is left over
Split(h, n) == [i \in 1..(BLen(h) \div n) |-> Sub(h, n * (i - 1), n)]
Rest(h, n)  == From(h, n * (BLen(h) \div n))

ParseAttest(h, p1, p2) ==
    LET has == p2 = 2
        sess == Hex2(p2)
    IN CASE p1 = 1 -> IF p2 \notin {1, 2} THEN [k |-> "a.init", g |-> "a", flag |-> p2]
                      ELSE IF ~Has(h, 0, 55) THEN [k |-> "a.init", g |-> "a", flag |-> p2, perr |-> SwNotEnough]
                      ELSE LET b == ParseBox(h, 34) t == TokAt(h, 55, has) IN
                           [k |-> "a.init", g |-> "a", flag |-> p2, perr |-> t.perr, tok |-> t.tok,
                            txid |-> Sub(h, 0, 32), idx |-> Sub(h, 32, 2), value |-> b.value,
                            treeSize |-> b.treeSize, height |-> b.height, ntok |-> b.ntok, regSize |-> b.regSize]
         [] p1 = 2 -> [k |-> "a.tree", g |-> "a", sess |-> sess, data |-> h]
         [] p1 = 3 -> LET s == Split(h, 40) r == Rest(h, 40) IN
                      [k |-> "a.toks", g |-> "a", sess |-> sess,
                       items |-> [i \in 1..Len(s) |-> [id |-> Sub(s[i], 0, 32), val |-> From(s[i], 32)]],
                       tail |-> IF r = "" THEN "none" ELSE IF BLen(r) < 32 THEN "id" ELSE "val"]
         [] p1 = 4 -> [k |-> "a.regs", g |-> "a", sess |-> sess, data |-> h]
         [] p1 = 5 -> [k |-> "a.frame", g |-> "a", sess |-> sess,
                       perr |-> IF h = "" THEN SwNotEnough ELSE IF BLen(h) > 1 THEN SwTooMuch ELSE "",
                       ix |-> IF h = "" THEN 0 ELSE ByteAt(h, 0)]
         [] OTHER -> [k |-> "a.?", g |-> "a"]

ParseFrame(h, sess) ==
    LET tc == ByteAt(h, 42)
        n  == 43 + 40 * tc
    IN IF ~Has(h, 0, 43) \/ tc > FrameTok \/ ~Has(h, n, 16)
       THEN [k |-> "s.frame", g |-> "s", sess |-> sess, perr |-> SwNotEnough]
       ELSE LET s == Split(Sub(h, 43, 40 * tc), 40) IN
            [k |-> "s.frame", g |-> "s", sess |-> sess, perr |-> "",
             body |-> Sub(h, 0, n), mac |-> Sub(h, n, 16), id |-> Sub(h, 0, 32),
             fc |-> ByteAt(h, 32), fi |-> ByteAt(h, 33), val |-> Sub(h, 34, 8),
             toks |-> [i \in 1..Len(s) |-> [id |-> Sub(s[i], 0, 32), val |-> From(s[i], 32)]],
             ext |-> IF Has(h, n + 16, 4) THEN Sub(h, n + 16, 4) ELSE ""]

ParseSignInit(h, p2) ==
    LET p == PathAt(h, 1)
        has == p2 = 2
        q == [k |-> "s.init", g |-> "s", flag |-> p2]
    IN IF p2 \notin {1, 2} THEN q
       ELSE IF ~Has(h, 0, 1) THEN [perr |-> SwNotEnough] @@ q
       ELSE IF ~p.ok THEN [perr |-> SwBuffer] @@ q
       ELSE LET t == TokAt(h, p.next, has) IN
            [perr |-> t.perr, tok |-> t.tok, path |-> p.path, net |-> ByteAt(h, 0)] @@ q

Ids(k, h, sess) == [k |-> k, g |-> "s", sess |-> sess, ids |-> Split(h, 32), part |-> Rest(h, 32) # ""]
Blob(k, h, sess) == [k |-> k, g |-> "s", sess |-> sess, data |-> h]

ParseSign(h, p1, p2) ==
    LET sess == Hex2(p2)
        ex(n) == IF BLen(h) < n THEN SwNotEnough ELSE IF BLen(h) > n THEN SwTooMuch ELSE ""
    IN CASE p1 = 1  -> ParseSignInit(h, p2)
         [] p1 = 16 -> IF ex(7) # "" THEN [k |-> "s.start", g |-> "s", sess |-> sess, perr |-> ex(7)]
                       ELSE [k |-> "s.start", g |-> "s", sess |-> sess, perr |-> "",
                             nin |-> IntOf(Sub(h, 0, 2)), ndata |-> IntOf(Sub(h, 2, 2)),
                             ntok |-> ByteAt(h, 4), nout |-> IntOf(Sub(h, 5, 2))]
         [] p1 = 17 -> Ids("s.toks", h, sess)
         [] p1 = 18 -> ParseFrame(h, sess)
         [] p1 = 19 -> Blob("s.ext", h, sess)
         [] p1 = 20 -> Ids("s.datas", h, sess)
         [] p1 = 21 -> IF ex(21) # "" THEN [k |-> "s.out", g |-> "s", sess |-> sess, perr |-> ex(21)]
                       ELSE [k |-> "s.out", g |-> "s", sess |-> sess, perr |-> ""] @@ ParseBox(h, 0)
         [] p1 = 22 -> Blob("s.tree", h, sess)
         [] p1 = 23 -> [k |-> "s.fee", g |-> "s", sess |-> sess, perr |-> IF h = "" THEN "" ELSE SwTooMuch]
         [] p1 = 24 -> LET p == PathAt(h, 0) IN
                       IF ~p.ok THEN [k |-> "s.change", g |-> "s", sess |-> sess, perr |-> SwBuffer]
                       ELSE [k |-> "s.change", g |-> "s", sess |-> sess, perr |-> "", path |-> p.path]
         [] p1 = 25 -> LET s == Split(h, 12) r == Rest(h, 12) IN
                       [k |-> "s.otoks", g |-> "s", sess |-> sess,
                        items |-> [i \in 1..Len(s) |-> [ix |-> CapInt(Sub(s[i], 0, 4)), val |-> From(s[i], 4)]],
                        tail |-> IF r = "" THEN [k |-> "none"] ELSE IF BLen(r) < 4 THEN [k |-> "id"]
                                 ELSE [k |-> "val", ix |-> CapInt(Sub(r, 0, 4))]]
         [] p1 = 26 -> Blob("s.regs", h, sess)
         [] p1 = 32 -> [k |-> "s.confirm", g |-> "s", sess |-> sess]
         [] OTHER   -> [k |-> "s.?", g |-> "s"]

Parse(raw) ==
    IF BLen(raw) < 5 THEN Bad(SwBadLength)
    ELSE IF BLen(raw) # 5 + ByteAt(raw, 4) THEN Bad(SwBadLength)
    ELSE LET cla == ByteAt(raw, 0)
             ins == ByteAt(raw, 1)
             p1  == ByteAt(raw, 2)
             p2  == ByteAt(raw, 3)
             h   == From(raw, 5)
         IN IF cla # 224 THEN Bad(SwBadCla)
            ELSE CASE ins = 1  -> IF p1 # 0 \/ p2 # 0 THEN Bad(SwBadP1P2) ELSE IF h # "" THEN Bad(SwBadLength)
                                  ELSE [k |-> "version"]
                   [] ins = 2  -> IF p1 # 0 \/ p2 # 0 THEN Bad(SwBadP1P2) ELSE IF h # "" THEN Bad(SwBadLength)
                                  ELSE [k |-> "name"]
                   [] ins = 16 -> IF p1 \in {1, 2} /\ p2 = 0 THEN ParseEpk(h, p1 = 2) ELSE Bad(SwBadP1P2)
                   [] ins = 17 -> IF p1 \in {1, 2} /\ p2 \in {1, 2} THEN ParseDa(h, p1 = 2, p2 = 2)
                                  ELSE Bad(SwBadP1P2)
                   [] ins = 32 -> IF p1 # 0 /\ p2 # 0 THEN ParseAttest(h, p1, p2) ELSE Bad(SwBadP1P2)
                   [] ins = 33 -> IF p1 # 0 /\ p2 # 0 THEN ParseSign(h, p1, p2) ELSE Bad(SwBadP1P2)
                   [] OTHER    -> Bad(SwBadIns)
=============================================================================
