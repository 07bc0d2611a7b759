------------------------------- MODULE Canon -------------------------------
(* The canonical bytes of the Ergo format, as functions of the content of a  *)
(* box or transaction: written from the format, independently of how the     *)
(* content reaches the device.                                               *)
EXTENDS Bytes

P2pkPrefix == "0008cd"
P2shPrefix == "00ea02d193b4cbe4e3010e040004300e18"
P2shSuffix == "d40801"
FeeTree == "1005040004000e36100204a00b08cd0279be667ef9dcbbac55a06295ce87" \o
           "0b07029bfcdb2dce28d959f2815b16f81798ea02d192a39a8cc7a70173007301" \o
           "1001020402d19683030193a38cc7b2a57300000193c2b2a57301007473027303" \o
           "830108cdeeac93b1a57304"
P2pkTree(pk) == P2pkPrefix \o pk

\* What a script stands for: a public key, an embedded script hash, or itself
Classify(tree) ==
    IF /\ BLen(tree) = 36 /\ Sub(tree, 0, 3) = P2pkPrefix /\ Sub(tree, 3, 1) \in {"02", "03"}
    THEN [kind |-> "p2pk", v |-> Sub(tree, 3, 33)]
    ELSE IF /\ BLen(tree) = 44 /\ Sub(tree, 0, 17) = P2shPrefix /\ Sub(tree, 41, 3) = P2shSuffix
    THEN [kind |-> "p2sh", v |-> Sub(tree, 17, 24)]
    ELSE [kind |-> "script", v |-> tree]

\* o: [value, tree, height, toks, regs]; toks: sequence of [ref, val] where ref is the
\* canonical reference to the token (its id in a box of its own, its index in a transaction)
BoxBytes(o) ==
    Vlq(o.value) \o o.tree \o Vlq(o.height) \o Hex2(Len(o.toks)) \o
    Concat([i \in 1..Len(o.toks) |-> o.toks[i].ref \o Vlq(o.toks[i].val)]) \o
    (IF o.regs = "" THEN "00" ELSE o.regs)

BoxIdBytes(o, txid, idx) == BoxBytes(o) \o txid \o Vlq(idx)

TxBytes(t) ==
    VlqInt(Len(t.inputs)) \o
    Concat([i \in 1..Len(t.inputs) |->
        t.inputs[i].id \o "00" \o (IF t.inputs[i].ext = "" THEN "00" ELSE t.inputs[i].ext)]) \o
    VlqInt(Len(t.datas)) \o Concat(t.datas) \o
    VlqInt(Len(t.toks)) \o Concat(t.toks) \o
    VlqInt(Len(t.outs)) \o Concat([i \in 1..Len(t.outs) |-> BoxBytes(t.outs[i])])

\* Schnorr proof of knowledge over the transaction: the tree of the proof, then the message
SignedBytes(pk, w, t) == "010027100108cd" \o pk \o "73000021" \o w \o TxBytes(t)

FrameBody(id, fc, fi, val, toks) ==
    id \o Hex2(fc) \o Hex2(fi) \o val \o Hex2(Len(toks)) \o
    Concat([i \in 1..Len(toks) |-> toks[i].id \o toks[i].val])

AddressKind == [p2pk |-> 1, p2sh |-> 2]
AddressHead(net, kind, payload) == Hex2(net + AddressKind[kind]) \o payload
=============================================================================
