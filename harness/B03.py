"""B03: blinding reports what it did and touches only what it was asked to"""
from harness import zkp
from harness.blindlib import scene, blind, requested, shape_jobs, SHAPES, ZERO, explicit, scalar
from harness.lib import Spec, mk_tx, same_tx, same_list, Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import BlindingFailure, BlindingSuccess, BlindingInputDescriptor, CAsset, CElementsMutableTxOutWitness, blind_transaction
from bitcointx import select_chain_params

MORE = [
    (['b'], ['K', 'B0r', 'C', 'B0'], None),
    (['b', 'p'], ['B1', 'C', 'K', 'F', 'B0'], None),
    (['b'], ['B0', 'K', 'K', 'F', 'C'], None),
]
# which outputs are blinded although the request cannot be met completely
PARTIAL = [
    # inputs, outputs, auxiliary, blinded in non-strict mode, factors that are not zero
    (['p'], ['B0'], None, 0, []),
    (['p', 'p'], ['K', 'B1', 'F'], None, 0, []),
    (['p/nA'], ['B0', 'K'], None, 0, []),
    (['b'], ['B', 'B0'], None, 1, [0, 1]),
    (['b'], ['B0', 'B'], None, 1, [0, 1]),
    (['b'], ['B'], None, 0, [0]),
    (['p'], ['B', 'B0', 'K', 'B'], None, 1, [0, 1, 3]),
    (['u', 'p'], ['B', 'B1'], 0, 1, [0, 1]),
    (['p/nAa'], ['K'], None, 0, []),
    (['b/nTt'], ['K', 'F'], None, 0, []),
    (['b/nATat'], ['K'], None, 1, []),
    (['p/nAa', 'b/nAa'], ['K'], None, 1, []),
]
SCENES = {
    'plain': (['b', 'p'], ['B0', 'K', 'B1'], None),
    'aux': (['b', 'p'], ['B0', 'B1'], 1),
    'issue': (['b/nATat', 'p'], ['B0', 'B1'], None),
    'issue2': (['p', 'p/nATat'], ['B2', 'B0'], None),
    'reissue': (['b/rAa', 'p/nA'], ['B0', 'B1'], None),
}
OUT_DEFECTS = ['fee', 'conf-value', 'null-value', 'bad-value', 'long-bad-value', 'conf-asset', 'null-asset', 'bad-asset', 'invalid-key',
               'short-key', 'long-key', 'surjection', 'rangeproof', 'both-proofs']
IN_DEFECTS = ['negative', 'no-data', 'key-amount', 'key-token']
ISS_DEFECTS = ['conf-amount', 'conf-keys', 'bad-amount', 'bad-keys', 'null-amount', 'null-keys', 'amount-proof', 'keys-proof', 'both-proofs']
REQUEST_DEFECTS = ['extra-pub', 'extra-empty-pub', 'extra-amount-key', 'extra-token-key', 'few-descriptors', 'many-descriptors',
                   'immutable', 'pub-type', 'amount-key-type', 'token-key-type', 'asset-type', 'amount-type', 'factor-type',
                   'asset-factor-type']
AUX_DEFECTS = ['aux-few', 'aux-size', 'aux-type', 'aux-extra-invalid', 'aux-invalid']
BOUNDS = ('reports and frame: transactions of %d shapes with up to 6 inputs and 6 outputs (thorough: also every pair of input kinds), %d '
          'requests that cannot be met completely, the zero last factor; refusals: %d transaction shapes with every inadmissible '
          'request of %d kinds at every position; witness records present for all, some or no inputs and outputs; amounts, assets, factors, prevouts, scripts, keys, witnesses and random values symbolic'
          % (len(SHAPES) + len(MORE), len(PARTIAL), len(SCENES),
             len(OUT_DEFECTS + IN_DEFECTS + ISS_DEFECTS + REQUEST_DEFECTS + AUX_DEFECTS) + 1))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py)',
               'scalars are below ff00.. and do not end in a zero byte; inputs carry pairwise different assets',
               'outputs that are blinded to spendable scripts have a positive amount']


def jobs(tier):
    out = shape_jobs(tier, ['blinded'], MORE)
    for k, (i, o, a, n, f) in enumerate(PARTIAL):
        for strict in (False, True):
            out.append({'name': 'partial-%d-%d' % (k, strict), 'op': 'partial', 'ins': i, 'outs': o, 'aux': a, 'n': n, 'f': f,
                        'strict': strict, 'reach': ['failed' if strict else 'partial']})
    for k, (i, o) in enumerate([(['b'], ['B0']), (['p'], ['B0', 'B0', 'F']), (['b', 'p/nAa'], ['K', 'B0', 'C', 'B1'])]):
        for strict in (False, True):
            out.append({'name': 'zero-last-%d-%d' % (k, strict), 'op': 'zero', 'ins': i, 'outs': o, 'aux': None, 'strict': strict,
                        'reach': ['zero']})

    def refuse(sc, defect, pos):
        i, o, a = SCENES[sc]
        out.append({'name': 'refuse-%s-%s-%s' % (sc, defect, pos), 'op': 'refuse', 'ins': i, 'outs': o, 'aux': a, 'defect': defect,
                    'pos': pos, 'reach': ['refused']})
    for sc, (ins, outs, aux) in SCENES.items():
        for k, w in enumerate(outs):
            if w[0] == 'B':
                for d in OUT_DEFECTS:
                    refuse(sc, d, k)
        for k, w in enumerate(ins):
            for d in IN_DEFECTS:
                if (d in ('key-amount', 'key-token') and '/' in w) or (d == 'negative' and w[0] == 'p') or (d == 'no-data' and aux is not None):
                    continue
                refuse(sc, d, k)
            for d in ISS_DEFECTS:
                iss = w.partition('/')[2]
                need = {'conf-amount': 'A', 'conf-keys': 'T', 'bad-amount': 'a', 'bad-keys': 't', 'null-amount': 'a', 'null-keys': 't',
                        'amount-proof': 'a', 'keys-proof': 't', 'both-proofs': 'a'}[d]
                if need in iss[1:]:
                    refuse(sc, 'iss-' + d, k)
            if '/r' in w:
                refuse(sc, 'iss-reissue-keys', k)
        for d in REQUEST_DEFECTS:
            if not (d.endswith('key-type') and 'issue' not in sc):
                refuse(sc, d, 0)
        if aux is not None:
            for d in AUX_DEFECTS:
                for k in range(len(ins)):
                    refuse(sc, d, k)
    return out


def judge_result(env, s, r, count, factors):
    """lists per output, zero exactly where nothing was blinded"""
    env.check(isinstance(r, BlindingSuccess) and r.ok is True and r.error == '', 'success')
    env.check(r.num_successfully_blinded == count, 'count')
    env.check(len(r.blinding_factors) == len(s.outs) and len(r.asset_blinding_factors) == len(s.outs), 'one-factor-per-output')
    for k in range(len(s.outs)):
        b, a = r.blinding_factors[k], r.asset_blinding_factors[k]
        env.check(isinstance(b, Uint256) and isinstance(a, Uint256), 'factor-type')
        if k in factors:
            env.check((b.data != ZERO) & (a.data != ZERO), 'factors-of-a-blinded-output')
        else:
            env.check((b.data == ZERO) & (a.data == ZERO), 'zero-factors')


def judge_frame(env, s, done, proved, issued):
    """done: outputs that may have got commitments; proved: those with proofs; issued: (input, letter) that were blinded"""
    x, t = s.tx, s.t
    env.check((x.nVersion == t.version) & (x.nLockTime == t.locktime), 'version-and-lock-time')
    env.check(len(x.vin) == len(t.vin) and len(x.vout) == len(t.vout), 'shape')
    for k, (a, i) in enumerate(zip(x.vin, t.vin)):

        env.check((a.prevout.hash == i.hash) & (a.prevout.n == i.n), 'prevout')
        env.check((a.scriptSig == i.script) & (a.nSequence == i.seq) & (a.is_pegin == i.pegin), 'input')
        y = a.assetIssuance
        env.check((y.assetBlindingNonce.data == i.iss.blinding_nonce) & (y.assetEntropy.data == i.iss.entropy), 'issuance')
        for letter, f, d in (('a', y.nAmount, i.iss.amount), ('t', y.nInflationKeys, i.iss.keys)):
            if (k, letter) in issued:
                env.check(f.is_commitment(), 'issuance-blinded')
            else:
                env.check(len(f.commitment) == len(d) and f.commitment == d, 'issuance-kept')
        v = t.inwit[k]
        env.check(k < len(x.wit.vtxinwit) or not (v.stack or v.pegin_stack or (k, 'a') in issued or (k, 't') in issued), 'input-witness-there')
        if k < len(x.wit.vtxinwit):
            w = x.wit.vtxinwit[k]
            env.check(same_list(list(w.scriptWitness.stack), v.stack) & same_list(list(w.pegin_witness.stack), v.pegin_stack), 'input-witness')
            env.check((len(w.issuanceAmountRangeproof) != 0) == ((k, 'a') in issued), 'amount-proof')
            env.check((len(w.inflationKeysRangeproof) != 0) == ((k, 't') in issued), 'keys-proof')
    for k, (a, o) in enumerate(zip(x.vout, t.vout)):
        env.check(len(a.scriptPubKey) == len(o.script) and a.scriptPubKey == o.script, 'script')
        w = x.wit.vtxoutwit[k] if k < len(x.wit.vtxoutwit) else None
        if k in done:
            env.check(a.nValue.is_commitment() and a.nAsset.is_commitment() and a.nNonce.is_commitment(), 'commitments')
        else:
            for f, d in ((a.nValue, o.value), (a.nAsset, o.asset), (a.nNonce, o.nonce)):
                env.check(len(f.commitment) == len(d) and f.commitment == d, 'output-kept')
        if k in proved:
            env.check(w is not None and len(w.surjectionproof) != 0 and len(w.rangeproof) != 0, 'proofs')
        else:
            v = t.outwit[k]
            a, b = (w.surjectionproof, w.rangeproof) if w is not None else (b'', b'')
            env.check(len(a) == len(v.surjection) and a == v.surjection and len(b) == len(v.rangeproof) and b == v.rangeproof, 'proofs-kept')


def run(env, job):
    select_chain_params('elements')
    op = job.get('op')
    if op == 'refuse':
        refuse(env, job)
        return
    lib = zkp.install(env, zero_last=op == 'zero')
    s = scene(env, job['ins'], job['outs'], job['aux'], wit=env.choose('wit', [False, True]))
    want = [k for k, o in enumerate(s.outs) if o.kind == 'B']
    issued = [(k, c) for k, i in enumerate(s.ins) for c in 'at' if c in i.iss[1:]]
    if op is None:
        for k, o in enumerate(s.outs):
            if o.kind == 'C':
                # blinded before
                s.t.outwit[k] = Spec(surjection=env.bytes('old-surjection', 2), rangeproof=env.bytes('old-rangeproof', 3))
                s.tx.wit.vtxoutwit[k] = CElementsMutableTxOutWitness(s.t.outwit[k].surjection, s.t.outwit[k].rangeproof)
        records = env.choose('witness records', ['all', 'none', 'some'] if len(s.ins) + len(s.outs) > 2 else ['all', 'none'])
        if records != 'all':
            n, m = (0, 0) if records == 'none' else ((len(s.ins) + 1) // 2, len(s.outs) // 2)
            s.t.inwit[n:] = [Spec(amount_proof=b'', keys_proof=b'', stack=[], pegin_stack=[]) for dummy in s.ins[n:]]
            s.t.outwit[m:] = [Spec(surjection=b'', rangeproof=b'') for dummy in s.outs[m:]]
            del s.tx.wit.vtxinwit[n:]
            del s.tx.wit.vtxoutwit[m:]
        r = blind(env, s, trim=env.choose('trim', [False, True]), is_blind_success_strict=env.choose('strict', [True, False]))
        if r.error != '':
            env.check(False, 'blinding-refused:' + r.error)
        judge_result(env, s, r, requested(s), want)
        judge_frame(env, s, want, want, issued)
        env.reach('blinded')
    elif op == 'partial':
        r = blind(env, s, is_blind_success_strict=job['strict'])
        if job['strict']:
            env.check(isinstance(r, BlindingFailure) and r.ok is False and len(r.error) != 0, 'strict-failure')
            env.reach('failed')
        else:
            judge_result(env, s, r, job['n'], job['f'])
            proved = [k for k in job['f'] if s.outs[k].target is not None]
            # the issuance that would be the last blinded thing stays explicit
            judge_frame(env, s, job['f'], proved, issued if job['f'] else issued[:-1])
            env.reach('partial')
    else:
        r = blind(env, s, is_blind_success_strict=job['strict'])
        env.check(len(lib.sums) == 1, 'balanced')
        judge_result(env, s, r, requested(s), want[:-1])
        judge_frame(env, s, want[:-1], want[:-1], issued)
        env.reach('zero')


def outside(env, name, n, bad):
    d = env.bytes(name, n)
    for b in bad:
        env.assume(d[0] != b)
    return d


def refuse(env, job):
    d, k = job['defect'], job['pos']
    zkp.install(env, pubs_valid=False)
    s = scene(env, job['ins'], job['outs'], job['aux'], wit=True)
    t, kw, direct = s.t, {}, None
    clear = False
    if d == 'fee':
        t.vout[k].script = b''
    elif d == 'conf-value':
        t.vout[k].value = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('commit', 32)
    elif d == 'null-value':
        t.vout[k].value = b''
    elif d == 'bad-value':
        t.vout[k].value = outside(env, 'value', 9, [1])
    elif d == 'long-bad-value':
        t.vout[k].value = env.bytes('value', 33)
    elif d == 'conf-asset':
        t.vout[k].asset = bytes([10 | env.int('parity', 0, 1)]) + env.bytes('commit', 32)
    elif d == 'null-asset':
        t.vout[k].asset = b''
    elif d == 'bad-asset':
        t.vout[k].asset = outside(env, 'asset', 33, [1])
    elif d == 'invalid-key':
        s.pubs[k] = CPubKey(env.bytes('pub', 33))
        clear = True
    elif d == 'short-key':
        s.pubs[k] = CPubKey(env.bytes('pub', env.choose('len', [1, 32])))
    elif d == 'long-key':
        s.pubs[k] = CPubKey(env.bytes('pub', env.choose('len', [34, 64, 65])))
    elif d == 'surjection':
        t.outwit[k].surjection = env.bytes('proof', 3)
    elif d == 'rangeproof':
        t.outwit[k].rangeproof = env.bytes('proof', 3)
    elif d == 'both-proofs':
        t.outwit[k].surjection, t.outwit[k].rangeproof = env.bytes('proof', 1), env.bytes('proof', 2)
    elif d == 'negative':
        i = s.desc[k]
        s.desc[k] = BlindingInputDescriptor(asset=i.asset, amount=env.int('amount', -2**63, -1), blinding_factor=i.blinding_factor,
                                            asset_blinding_factor=i.asset_blinding_factor)
    elif d == 'no-data':
        i = s.desc[k]
        s.desc[k] = BlindingInputDescriptor(asset=CAsset(), amount=i.amount, blinding_factor=i.blinding_factor,
                                            asset_blinding_factor=i.asset_blinding_factor)
    elif d == 'key-amount':
        s.akeys[k] = CKey(scalar(env, 'akey'))
    elif d == 'key-token':
        s.tkeys[k] = CKey(scalar(env, 'tkey'))
    elif d.startswith('iss-'):
        i, w = t.vin[k].iss, t.inwit[k]
        if d == 'iss-conf-amount':
            i.amount = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('commit', 32)
        elif d == 'iss-conf-keys':
            i.keys = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('commit', 32)
        elif d == 'iss-bad-amount':
            i.amount = outside(env, 'value', 9, [1])
        elif d == 'iss-bad-keys':
            i.keys = outside(env, 'value', 9, [1])
        elif d == 'iss-null-amount':
            i.amount = b''
        elif d == 'iss-null-keys':
            i.keys = b''
        elif d == 'iss-reissue-keys':
            i.keys = explicit(env.int('keys', 0, 2**50))
        if d in ('iss-amount-proof', 'iss-both-proofs'):
            w.amount_proof = env.bytes('proof', 2)
        if d in ('iss-keys-proof', 'iss-both-proofs'):
            w.keys_proof = env.bytes('proof', 2)
    elif d == 'extra-pub':
        kw['output_pubkeys'] = s.pubs + [CKey(scalar(env, 'extra')).pub]
    elif d == 'extra-empty-pub':
        kw['output_pubkeys'] = s.pubs + [CPubKey()]
    elif d == 'extra-amount-key':
        kw['blind_issuance_asset_keys'] = s.akeys + [CKey(scalar(env, 'extra'))]
    elif d == 'extra-token-key':
        kw['blind_issuance_token_keys'] = s.tkeys + [CKey(scalar(env, 'extra'))]
    elif d == 'few-descriptors':
        kw['input_descriptors'] = s.desc[:-1]
    elif d == 'many-descriptors':
        kw['input_descriptors'] = s.desc + s.desc[:1]
    elif d == 'pub-type':
        kw['output_pubkeys'] = [bytes(p) for p in s.pubs]
    elif d == 'amount-key-type':
        kw['blind_issuance_asset_keys'] = [x and x.secret_bytes for x in s.akeys]
    elif d == 'token-key-type':
        kw['blind_issuance_token_keys'] = [b'key' for x in s.tkeys]
    elif d.endswith('-type') and d != 'aux-type':
        i = s.desc[0]
        f = dict(asset=i.asset, amount=i.amount, blinding_factor=i.blinding_factor, asset_blinding_factor=i.asset_blinding_factor)
        name = {'asset-type': 'asset', 'amount-type': 'amount', 'factor-type': 'blinding_factor',
                'asset-factor-type': 'asset_blinding_factor'}[d]
        f[name] = env.bytes('raw', 32)
        s.desc[0] = BlindingInputDescriptor(**f)
    elif d == 'aux-few':
        kw['auxiliary_generators'] = s.aux[:k] or s.aux[:1]
    elif d == 'aux-size':
        s.aux[k] = s.aux[k] + b'\x00' if env.choose('longer', [False, True]) else s.aux[k][:32]
    elif d == 'aux-type':
        s.aux[k] = env.choose('aux', ['x' * 33, 5])
    elif d == 'aux-extra-invalid':
        s.aux[len(s.ins)] = outside(env, 'generator', 33, [10, 11])
    elif d == 'aux-invalid':
        i = s.desc[k]
        s.desc[k] = BlindingInputDescriptor(asset=CAsset(), amount=i.amount, blinding_factor=i.blinding_factor,
                                            asset_blinding_factor=i.asset_blinding_factor)
        s.aux[k] = outside(env, 'generator', 33, [10, 11])
    s.tx = mk_tx(t, mutable=True)
    if clear and env.choose('no witness records', [False, True]):
        t.inwit = [Spec(amount_proof=b'', keys_proof=b'', stack=[], pegin_stack=[]) for dummy in s.ins]
        s.tx.wit.vtxinwit.clear()
        s.tx.wit.vtxoutwit.clear()
    if d == 'immutable':
        s.tx = s.tx.to_immutable()
        direct = dict(input_descriptors=s.desc, output_pubkeys=s.pubs, blind_issuance_asset_keys=s.akeys,
                      blind_issuance_token_keys=s.tkeys, auxiliary_generators=s.aux)
    strict = env.choose('strict', [True, False])
    try:
        if direct is not None:
            r = blind_transaction(s.tx, **direct)
        else:
            r = blind(env, s, is_blind_success_strict=strict, **kw)
    except (ValueError, TypeError) as e:
        env.check(type(e).__module__ == 'builtins', 'kind-of-exception')
    else:
        env.check(isinstance(r, BlindingFailure) and r.ok is False and isinstance(r.error, str) and len(r.error) != 0, 'refused')
    env.check(same_tx(s.tx, t, norm=lambda i: i), 'unchanged')
    env.check(len(s.rand) == 0, 'nothing-drawn')
    env.reach('refused')
