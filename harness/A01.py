"""A01: asset entropy, asset id and reissuance token"""
from harness.lib import (CElementsOutPoint, CElementsMutableOutPoint, Uint256, dsha)
from harness import refsha
from elementstx.core import (generate_asset_entropy, calculate_asset, calculate_reissuance_token, CAsset)

BOUNDS = ('every outpoint (hash and index), every contract hash and entropy, given as bytes, bytearray or Uint256, mutable '
          'and immutable outpoints; wrong sizes 0..64 other than 32 with every content')
ASSUMPTIONS = ['the SHA-256 compression function of bitcointx is the SHA-256 compression function; it and SHA-256 have no '
               'collisions']


def jobs(tier):
    out = [{'name': 'derive', 'op': 'derive', 'reach': ['derive']}, {'name': 'pairs', 'op': 'pairs', 'reach': ['pairs']},
           {'name': 'types', 'op': 'types', 'reach': ['types']}]
    for n in range(65 if tier == 'thorough' else 65):
        if n != 32:
            out.append({'name': 'size-%d' % n, 'op': 'size', 'n': n, 'reach': ['size']})
    return out


def give(env, d, name):
    f = env.choose(name, ['bytes', 'bytearray', 'Uint256'])
    if f == 'bytes':
        return d
    if f == 'bytearray':
        return bytearray(d)
    return Uint256(d)


def run(env, job):
    op = job['op']
    if op == 'derive':
        h, n = env.bytes('hash', 32), env.int('n', 0, 0xffffffff)
        c = env.bytes('contract', 32)
        cls = env.choose('cls', [CElementsOutPoint, CElementsMutableOutPoint])
        e = generate_asset_entropy(cls(h, n), give(env, c, 'contract-form'))
        env.check(isinstance(e, Uint256), 'entropy-class')
        env.check(e.data == refsha.midstate(dsha(h + n.to_bytes(4, 'little')) + c), 'entropy')
        x = env.bytes('entropy', 32)
        g = give(env, x, 'entropy-form')
        a = calculate_asset(g)
        env.check(isinstance(a, CAsset), 'asset-class')
        env.check(a.data == refsha.midstate(x + bytes(32)), 'asset')
        for conf in (False, True):
            t = calculate_reissuance_token(g, conf)
            env.check(isinstance(t, CAsset), 'token-class')
            env.check(t.data == refsha.midstate(x + bytes([2 if conf else 1]) + bytes(31)), 'token')
        env.check(calculate_asset(e).data == refsha.midstate(e.data + bytes(32)), 'asset-of-entropy')
        env.reach('derive')
    elif op == 'pairs':
        h1, n1, c1 = env.bytes('hash1', 32), env.int('n1', 0, 0xffffffff), env.bytes('contract1', 32)
        h2, n2, c2 = env.bytes('hash2', 32), env.int('n2', 0, 0xffffffff), env.bytes('contract2', 32)
        e1 = generate_asset_entropy(CElementsOutPoint(h1, n1), c1)
        e2 = generate_asset_entropy(CElementsOutPoint(h2, n2), Uint256(c2))
        same = (h1 == h2) & (n1 == n2) & (c1 == c2)
        env.check((e1.data == e2.data) == same, 'entropy-injective')
        ids1 = [calculate_asset(e1).data, calculate_reissuance_token(e1, False).data, calculate_reissuance_token(e1, True).data]
        ids2 = [calculate_asset(e2).data, calculate_reissuance_token(e2, False).data, calculate_reissuance_token(e2, True).data]
        for i in range(3):
            for j in range(3):
                if i == j:
                    env.check((ids1[i] == ids2[j]) == same, 'ids-injective')
                else:
                    env.check(ids1[i] != ids2[j], 'ids-of-different-kind-differ')
                    env.check(ids1[i] != ids1[j], 'ids-of-one-entropy-differ')
        env.reach('pairs')
    elif op == 'size':
        d = env.bytes('data', job['n'])
        if env.choose('array', [False, True]):
            d = bytearray(d)
        o = CElementsOutPoint(env.bytes('hash', 32), 1)
        for fn in (lambda: generate_asset_entropy(o, d), lambda: calculate_asset(d),
                   lambda: calculate_reissuance_token(d, False), lambda: calculate_reissuance_token(d, True)):
            try:
                fn()
            except (ValueError, AssertionError):
                continue
            env.fail('wrong-size-accepted')
        env.reach('size')
    else:
        d = env.bytes('data', 32)
        o = CElementsOutPoint(env.bytes('hash', 32), 1)
        for fn in (lambda: generate_asset_entropy(d, d), lambda: generate_asset_entropy(o, 'a' * 32),
                   lambda: generate_asset_entropy(o, 7), lambda: calculate_asset('a' * 32), lambda: calculate_asset(None),
                   lambda: calculate_reissuance_token([0] * 32, True), lambda: calculate_reissuance_token(d, 1),
                   lambda: calculate_reissuance_token(d, None)):
            try:
                fn()
            except TypeError:
                continue
            env.fail('wrong-type-accepted')
        env.reach('types')
