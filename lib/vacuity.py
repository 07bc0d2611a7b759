"""Faults put into the model: each must break the property it is meant for, or that property says nothing."""
import os, re, shutil
from . import runner, tour

# property: [(alphabet, what is replaced in Device.tla, by what)]
FAULTS = {
 'C01': [('flow0', 'IF d.c.op # "done" THEN Refuse(d, SwBadState)', 'IF d.c.op \\notin {"done", "outs"} THEN Refuse(d, SwBadState)'),
         ('flow0', 'THEN ReplyK(Ended(d1), env.sig,', 'THEN ReplyK([d1 EXCEPT !.c.op = "done"], env.sig,')],
 'C02': [('flow0', 'BoxContent(b) == [value |-> b.value,', 'BoxContent(b) == [value |-> Zero(AmtW),'),
         ('flow0', '!.t.toks = tab, !.stage', '!.t.toks = <<>>, !.stage'),
         ('outputs0', '!.regs = b.regs \\o chunk', '!.regs = chunk')],
 'C03': [('inputs', 'ELSE IF MacOf(d.skey, q.body) # q.mac THEN', 'ELSE IF FALSE THEN'),
         ('inputs', 'ELSE IF q.fi # c.inp.seen THEN', 'ELSE IF FALSE THEN'),
         ('inputs', 'IF c.stage # "ins" \\/ c.inp.st # "frames" THEN Refuse(d, SwBadState)\n    ELSE IF q.id # c.inp.id THEN', 'IF c.stage # "ins" \\/ c.inp.st # "frames" THEN Refuse(d, SwBadState)\n    ELSE IF FALSE THEN')],
 'C04': [('attest', 'THEN IF d.c.st # "fin" THEN', 'THEN IF d.c.st = "ask" THEN'),
         ('attest', 'ELSE IF \\E j \\in 1..Len(x.toks) : x.toks[j].id = it.id THEN', 'ELSE IF FALSE THEN'),
         ('attest', 'LET lo == i * FrameTok + 1', 'LET lo == i * (FrameTok - 1) + 1')],
 'C05': [('outputs0', 'Silent(c) == OwnChange(c) \\/', 'Silent(c) == c.kind = "change" \\/'),
         ('outputs0', '\\/ /\\ SameAccount(c.dest, c.path) /\\ c.dest[4]', '\\/ /\\ c.dest[4]'),
         ('outputs0', 'TokPages(c, NonZero(c.outAmt), LAMBDA', 'TokPages(c, <<>>, LAMBDA')],
 'C06': [('totals0', '!.kind = "fee", !.value = v.v, !.fee = f.v', '!.kind = "fee", !.value = v.v, !.fee = c.box.value'),
         ('totals0', 'IF ~s.ok THEN [x EXCEPT !.err = SwOverflow]\n                    ELSE [x EXCEPT !.c = [c EXCEPT !.amt[j] = s.v, !.outAmt', 'IF FALSE THEN x\n                    ELSE [x EXCEPT !.c = [c EXCEPT !.amt[j] = s.v, !.outAmt'),
         ('flow0', 'NonZero(c.amt), LAMBDA', '<<>>, LAMBDA')],
 'C07': [('shell', '    ELSE IF d.cmd # "attest" THEN Refuse(d, SwBadState)\n    ELSE IF q.sess # d.c.sess THEN', '    ELSE IF d.cmd # "attest" THEN Refuse(d, SwBadState)\n    ELSE IF FALSE THEN'),
         ('inputs', '    ELSE IF d.cmd # "sign" THEN Refuse(d, SwBadState)\n    ELSE IF q.sess # d.c.sess THEN', '    ELSE IF d.cmd # "sign" THEN Refuse(d, SwBadState)\n    ELSE IF FALSE THEN'),
         ('inputs', 'Refuse(d, sw)     == Res(Ended(d), <<sw>>, {})', 'Refuse(d, sw)     == Res(d, <<sw>>, {})')],
 'C08': [('shell', 'IF Busy(d) THEN Ignore(d, SwBusy)', 'IF Busy(d) /\\ q.k # "epk" THEN Ignore(d, SwBusy)')],
 'C09': [('shell', 'Known(d, tok) == tok # NoTok /\\ tok = d.app', 'Known(d, tok) == tok # NoTok'),
         ('shell', '[] role = "no"    -> Refuse(Idle(d), SwDeny)', '[] role = "no"    -> Refuse([Idle(d) EXCEPT !.app = IF "tok" \\in DOMAIN d.ui.act THEN d.ui.act.tok ELSE @], SwDeny)'),
         ('shell', 'IF Known(d, q.tok) /\\ ~q.display THEN', 'IF Known(d, q.tok) THEN')],
 'C10': [('shell', 'ELSE IF ~AccountPath(q.path) THEN', 'ELSE IF FALSE THEN'),
         ('outputs0', 'ELSE IF ~AddressPath(q.path) THEN Refuse(d, SwBadPath)\n    ELSE LET p == PathHex(q.path) IN\n         IF c.op', 'ELSE IF FALSE THEN Refuse(d, SwBadPath)\n    ELSE LET p == PathHex(q.path) IN\n         IF c.op')],
 'C11': [('shell', 'AddressBytes(q.net, "p2pk", PubOf(p))', 'AddressBytes(q.net + 1, "p2pk", PubOf(p))')],
 'C12': [('attest', 'BoxLimits(q) == IF q.ntok > MaxTok THEN', 'BoxLimits(q) == IF q.ntok > MaxTok + 1 THEN'),
         ('attest', 'ELSE IF BLen(chunk) > b.regLeft THEN', 'ELSE IF FALSE THEN'),
         ('inputs', 'ELSE IF BLen(q.data) > c.inp.extLeft THEN', 'ELSE IF FALSE THEN')],
 'C13': [('shell', 'CASE q.k = "bad"     -> Ignore(d, q.sw)', 'CASE q.k = "bad"     -> Res(d, <<>>, {})'),
         ('shell', 'CASE q.k = "bad"     -> Ignore(d, q.sw)', 'CASE q.k = "bad"     -> Ignore([d EXCEPT !.ui = Main], q.sw)')],
 'C17': [('flow0', 'pts |-> env.pts, op |-> "init"', 'pts |-> {"w1"}, op |-> "init"')],
 'C18': [('outputs0', 'IF s.kind = "p2pk" THEN Info(', 'IF s.kind # "p2sh" THEN Info(')],
 'C20': [('pages', 'role = "ok"    -> Approve(d, env)', 'role \\in {"ok", "info"} /\\ Busy(d) -> Approve(d, env)')],
 'C22': [('shell', 'IN IF Known(d, q.tok)\n            THEN IF SessionOk', 'IN IF Known(d, q.tok) /\\ d.cmd # "sign"\n            THEN IF SessionOk'),
         ('flow0', 'Ended(d) == [d EXCEPT !.cmd = "none", !.c = NoCtx]', 'Ended(d) == [d EXCEPT !.cmd = "none", !.c = NoCtx, !.app = IF d.cmd = "sign" /\\ d.c.sess # "" THEN NoTok ELSE @]'),
         ('attest', 'ELSE IF q.net \\notin {0, 16} THEN Refuse(d, SwNetType)\n    ELSE LET p == PathHex(q.path)\n             c ==', 'ELSE IF q.net \\notin {0, 16} THEN Refuse(d, SwNetType)\n    ELSE IF d.cmd = "attest" /\\ d.c.toks # <<>> THEN Refuse(d, SwBadState)\n    ELSE LET p == PathHex(q.path)\n             c ==')],
 'C23': [('boxes', 'THEN IF d.c.st # "fin" THEN', 'THEN IF d.c.st # "fin" \\/ d.c.toks = <<>> THEN'),
         ('attest', 'ELSE IF BLen(chunk) > b.regLeft THEN', 'ELSE IF BLen(chunk) >= b.regLeft THEN'),
         ('flow0', 'IF d.c.op # "done" THEN Refuse(d, SwBadState)', 'IF d.c.op # "done" \\/ ~IsZero(d.c.fee) THEN Refuse(d, SwBadState)'),
         ('inputs', 'IF BLen(q.data) > c.inp.extLeft THEN', 'IF BLen(q.data) >= c.inp.extLeft THEN')],
 'C21': [('attest', 'Refuse(d, sw)     == Res(Ended(d), <<sw>>, {})', 'Refuse(d, sw)     == Res(Ended(d), <<"00" \\o sw>>, {})')],
}
# property: [(part of MCLib, how far, the module, what is replaced in it, by what)]
LIBRARY = {
 'C14': [('codec', 20, 'Codec', '\\o Flip(m)', '\\o m'),
         ('codec', 20, 'Codec', 'ELSE SignFill(Sub(h, 0, 1))', 'ELSE Z(14) \\o Sub(h, 0, 1)'),
         ('codec', 20, 'Codec', 'i > 10 \\/ i > BLen(h)', 'i > 9 \\/ i > BLen(h)')],
 'C15': [('queue', 2, 'Queue', 'Room(q, n) == n >= 0 /\\ n <= Space(q)', 'Room(q, n) == n >= 0 /\\ n <= Space(q) + 1'),
         ('queue', 2, 'Queue', 'Empty(q) == Yes([q EXCEPT !.mem = "", !.rd = 0], "")', 'Empty(q) == Yes([q EXCEPT !.mem = ""], "")'),
         ('queue', 2, 'Queue', 'IF at < q.rd \\/ at > q.size THEN No(q)', 'IF at > q.size THEN No(q)')],
 'C16': [('arith', 0, 'Bytes', 'AddU(a, b) == LET r == AddW(a, b) IN [ok |-> r[1] = 0', 'AddU(a, b) == LET r == AddW(a, b) IN [ok |-> TRUE'),
         ('arith', 0, 'Bytes', 'SubSU(a, b) == Fit(SubW(SExt(a), "0" \\o b)[2])', 'SubSU(a, b) == Fit(SubW(SExt(a), SExt(b))[2])')],
 'C19': [('box', 1, 'Serial', 'THEN Finish([s EXCEPT !.fed = @ \\o "00"]', 'THEN Finish([s EXCEPT !.fed = @]'),
         ('box', 1, 'Serial', 'IF s.st # "tree" \\/ s.started THEN Err(s)', 'IF s.st # "tree" THEN Err(s)'),
         ('tx', 0, 'Serial', '!.fed = @ \\o id \\o "0000"]', '!.fed = @ \\o id \\o "00"]'),
         ('tx', 0, 'Serial', '!.fed = @ \\o TabBytes(s.tab) \\o VlqInt(s.nout)', '!.fed = @ \\o VlqInt(s.nout)')],
}
def faults(pid): return [('device', i) for i in range(len(FAULTS.get(pid, ())))] + [('library', i) for i in range(len(LIBRARY.get(pid, ())))]
def names(pid): return 'C05' if pid == 'C18' else pid
def breaks(pid, kind, i, work, workers=2, timeout=600):
    """whether a fault put into the model breaks the property: (True/False, what TLC said otherwise)"""
    from . import props
    focus, (size, module), old, new = (FAULTS[pid][i][0], (0, 'Device'), *FAULTS[pid][i][1:]) if kind == 'device' else \
                                      (LIBRARY[pid][i][0], LIBRARY[pid][i][1:3], *LIBRARY[pid][i][3:])
    spec = os.path.join(work, 'spec')
    shutil.copytree(runner.SPEC, spec)
    t = open('%s/%s.tla' % (spec, module)).read()
    if t.count(old) != 1: return False, 'the fault is no part of the model any more: %s' % old
    open('%s/%s.tla' % (spec, module), 'w').write(t.replace(old, new))
    if kind == 'device':
        open(spec + '/Faulty.tla', 'w').write('---- MODULE Faulty ----\nEXTENDS MC\nIntact == %s\n====\n' % ('Forgets' if pid == 'C22' else '"%s" \\notin s.bad' % names(pid)))
        cfg = tour.CFG % (focus, 'FALSE')
        cfg = cfg[:cfg.index('INVARIANT')] + 'INVARIANT Intact\nCHECK_DEADLOCK FALSE\n'
        main, said = 'Faulty', ('Invariant Intact is violated',)
    else:
        main, cfg, said = 'MCLib', props.LIBCFG % (focus, size), ('Invariant Holds is violated', 'property Final is violated')
    rc, out, sec = runner.tlc(main, cfg, work, workers=workers, timeout=timeout, mem='6g', spec=spec)
    shutil.rmtree(spec)
    return (True, '') if any(x in out for x in said) else (False, out[-1500:])
