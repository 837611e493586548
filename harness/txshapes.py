"""transaction shapes shared by the transaction-level harnesses"""
E_, N_, C_ = 'explicit', 'null', 'commitment'
EXPL = (E_, E_, N_)
CONF = (C_, C_, C_)
FEE = dict(kinds=EXPL, script=0)

W_STACK = (0, 0, (1,), ())
W_PEGIN = (0, 0, (), (1,))
W_APROOF = (1, 0, (), ())
W_KPROOF = (0, 1, (), ())
W_FULL = (1, 2, (2, 0), (1,))

IN_KINDS = [
    dict(), dict(script=2), dict(coinbase=True, script=3), dict(coinbase=True, iss=(E_, N_)),
    dict(iss=(E_, N_)), dict(iss=(E_, E_)), dict(iss=(C_, C_), wit=(2, 1, (), ())), dict(iss=(N_, E_)),
    dict(iss=(C_, N_)), dict(iss=(N_, C_)), dict(iss=(E_, C_)),
    dict(wit=W_STACK), dict(wit=W_PEGIN), dict(wit=W_APROOF), dict(wit=W_KPROOF), dict(wit=W_FULL, script=1),
    dict(coinbase=True, wit=W_STACK),
]
OUT_KINDS = [
    dict(), FEE, dict(kinds=CONF, wit=(2, 3)), dict(kinds=CONF), dict(kinds=(N_, N_, N_), script=0),
    dict(kinds=(E_, C_, C_), wit=(0, 1)), dict(kinds=(C_, E_, E_), wit=(1, 0)), dict(script=3),
]


def shapes(tier):
    """(name, ins, outs)"""
    out = [('empty', [], [])]
    for k, i in enumerate(IN_KINDS):
        out.append(('i%d' % k, [i], []))
        out.append(('i%d-o0' % k, [i], [dict()]))
        out.append(('i%d-o2' % k, [i], [OUT_KINDS[2]]))
    for k, o in enumerate(OUT_KINDS):
        out.append(('o%d' % k, [], [o]))
        out.append(('i0-oo%d' % k, [dict()], [o]))
        out.append(('i11-oo%d' % k, [IN_KINDS[11]], [o, OUT_KINDS[(k + 1) % len(OUT_KINDS)]]))
    pairs = [(0, 0), (0, 5), (11, 0), (0, 11), (6, 12), (5, 13), (14, 4), (1, 15)]
    if tier == 'thorough':
        pairs = [(a, b) for a in range(len(IN_KINDS)) for b in range(len(IN_KINDS))]
    for a, b in pairs:
        out.append(('i%d-i%d-two' % (a, b), [IN_KINDS[a], IN_KINDS[b]], [OUT_KINDS[2], OUT_KINDS[1]]))
    if tier == 'thorough':
        for a in range(len(OUT_KINDS)):
            for b in range(len(OUT_KINDS)):
                out.append(('o%d-o%d-two' % (a, b), [IN_KINDS[0], IN_KINDS[11]], [OUT_KINDS[a], OUT_KINDS[b]]))
        out.append(('three', [IN_KINDS[5], IN_KINDS[0], IN_KINDS[15]], [OUT_KINDS[2], OUT_KINDS[0], OUT_KINDS[1]]))
        out.append(('three-b', [IN_KINDS[0]] * 3, [OUT_KINDS[0]] * 3))
    return out
