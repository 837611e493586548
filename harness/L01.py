"""L01: arrays handed to the proof library hold exactly the given fixed-size items"""
from elementstx.core.secp256k1 import build_aligned_data_array

BOUNDS = ('item sizes 32 and 64; lists of 0..2 items of every length 0..2*size+1, lists of 3 items (thorough: 4) with '
          'lengths from {0,1,size-1,size,size+1,2*size}; all contents symbolic')
ASSUMPTIONS = ['list lengths beyond the bound and item sizes other than 32 and 64 (the only ones used) are outside']


def jobs(tier):
    out = []
    for e in (32, 64):
        for k in range(0, 3):
            out.append({'name': 'size%d-items%d-all' % (e, k), 'k': k, 'e': e, 'lens': list(range(2 * e + 2)),
                        'reach': ['accepted', 'refused'] if k else ['accepted']})
        for k in range(3, 4 if tier == 'quick' else 6):
            out.append({'name': 'size%d-items%d-edge' % (e, k), 'k': k, 'e': e,
                        'lens': sorted({0, 1, e - 32, e - 1, e, e + 1, e + 32, 2 * e})})
    return out


def run(env, job):
    k, e = job['k'], job['e']
    items = []
    for i in range(k):
        ln = env.choose('len', job['lens'])
        items.append(env.bytes('item', ln))
    ok = all([len(x) == e for x in items])
    try:
        r = build_aligned_data_array(items, e)
    except Exception:
        env.check(not ok, 'refused-although-all-items-fit')
        env.reach('refused')
        return
    env.check(ok, 'accepted-with-wrong-item-length')
    env.check(bytes(r) == b''.join(items), 'not-the-concatenation')
    env.reach('accepted')
