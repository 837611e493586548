"""B08: blinding and unblinding results cannot be misread"""
from harness.lib import Uint256
from elementstx.core import (BlindingSuccess, BlindingFailure, UnblindingSuccess, UnblindingFailure, CAsset,
                             BlindingInputDescriptor)
from bitcointx import select_chain_params

MAX = 2100000000000000
BOUNDS = ('error texts of 0..8 characters (thorough: 0..40); every asset, factor and amount of a signed 70-bit integer; factor lists '
          'of 0..6 entries, built by position and by keyword; every wrong field type of a fixed list')
ASSUMPTIONS = ['assertions are enabled']


def jobs(tier):
    out = []
    for n in range(41 if tier == 'thorough' else 9):
        for cls in ('BlindingFailure', 'UnblindingFailure'):
            out.append({'name': 'failure-%s-%d' % (cls, n), 'op': 'failure', 'cls': cls, 'n': n, 'reach': ['done']})
    for n in range(13 if tier == 'thorough' else 7):
        out.append({'name': 'success-%d' % n, 'op': 'success', 'n': n, 'reach': ['done']})
    out.append({'name': 'unblinding', 'op': 'unblinding', 'reach': ['done', 'refused']})
    out.append({'name': 'types', 'op': 'types', 'reach': ['done']})
    return out


def no_truth(env, r):
    for f in (bool, lambda x: not x, lambda x: 1 if x else 0, lambda x: x and 1, lambda x: x or 1):
        try:
            f(r)
        except TypeError:
            continue
        env.fail('usable-as-truth-value')


def judge(env, r, ok, text):
    env.check(r.ok is ok, 'ok')
    env.check(isinstance(r.error, str), 'error-type')
    env.check(r.error == text, 'error-text')
    no_truth(env, r)


def run(env, job):
    select_chain_params('elements')
    op = job['op']
    if op == 'failure':
        cls = {'BlindingFailure': BlindingFailure, 'UnblindingFailure': UnblindingFailure}[job['cls']]
        t = env.str('text', job['n'])
        if job['n'] == 0:
            for bad in ('', None, 5, b'text'):
                try:
                    cls(bad)
                except (AssertionError, TypeError, ValueError):
                    continue
                env.fail('failure-without-text')
        else:
            judge(env, cls(t), False, t)
            judge(env, cls(error_msg=t), False, t)
            env.check(t in str(cls(t)), 'text-is-shown')
        env.reach('done')
    elif op == 'success':
        n = job['n']
        bf = [Uint256(env.bytes('bf', 32)) for dummy in range(n)]
        ab = [Uint256(env.bytes('ab', 32)) for dummy in range(n)]
        k = env.int('count', 0, 2**40)
        for r in (BlindingSuccess(k, bf, ab),
                  BlindingSuccess(num_successfully_blinded=k, blinding_factors=bf, asset_blinding_factors=ab)):
            judge(env, r, True, '')
            env.check(r.num_successfully_blinded == k, 'count')
            env.check(len(r.blinding_factors) == n and len(r.asset_blinding_factors) == n, 'lengths')
            for i in range(n):
                env.check((r.blinding_factors[i] == bf[i]) & (r.asset_blinding_factors[i] == ab[i]), 'factors')
        env.reach('done')
    elif op == 'unblinding':
        a = CAsset(env.bytes('asset', 32))
        v = env.int('amount', -2**69, 2**69)
        b, c = Uint256(env.bytes('bf', 32)), Uint256(env.bytes('ab', 32))
        kw = env.choose('keywords', [False, True])
        inside = (v >= 0) & (v <= MAX)
        try:
            if kw:
                r = UnblindingSuccess(amount=v, asset=a, blinding_factor=b, asset_blinding_factor=c)
            else:
                r = UnblindingSuccess(a, v, b, c)
        except (AssertionError, ValueError):
            env.check(inside == False, 'refused-only-outside-the-money-range')  # noqa
            env.reach('refused')
            return
        env.check(inside, 'inside-the-money-range')
        judge(env, r, True, '')
        d = r.get_descriptor()
        env.check(isinstance(d, BlindingInputDescriptor), 'descriptor-type')
        for x in (r, d):
            env.check((x.amount == v) & (x.asset == a) & (x.asset.data == a.data) & (x.blinding_factor == b)
                      & (x.asset_blinding_factor == c), 'fields')
            env.check(isinstance(x.asset, CAsset) and isinstance(x.blinding_factor, Uint256)
                      and isinstance(x.asset_blinding_factor, Uint256), 'field-types')
        env.reach('done')
    else:
        u, a = Uint256(env.bytes('bf', 32)), CAsset(env.bytes('asset', 32))
        raw = env.bytes('raw', 32)
        for bad in (raw, None, 7, 'x', a.data, [u]):
            for build in (lambda: BlindingSuccess(bad if not isinstance(bad, int) else None, [u], [u]),
                          lambda: BlindingSuccess(1, [u, bad], [u, u]), lambda: BlindingSuccess(1, [u, u], [bad, u]),
                          lambda: UnblindingSuccess(asset=bad, amount=1, blinding_factor=u, asset_blinding_factor=u),
                          lambda: UnblindingSuccess(asset=u, amount=1, blinding_factor=u, asset_blinding_factor=u),
                          lambda: UnblindingSuccess(asset=a, amount=bad if not isinstance(bad, int) else None, blinding_factor=u,
                                                    asset_blinding_factor=u),
                          lambda: UnblindingSuccess(asset=a, amount=1, blinding_factor=bad, asset_blinding_factor=u),
                          lambda: UnblindingSuccess(asset=a, amount=1, blinding_factor=u, asset_blinding_factor=bad)):
                try:
                    build()
                except (AssertionError, TypeError, ValueError, AttributeError):
                    continue
                env.fail('wrong-type-accepted')
        env.reach('done')
