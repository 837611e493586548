"""M01: calls of the proof library pass memory and integers the way the C functions take them"""
import ctypes
from harness import zkp
from harness.blindlib import scene, blind, requested, SHAPES, ZERO
from harness.lib import CElementsScript
from bitcointx.core.key import CKey
from elementstx.core import (CAsset, CConfidentialAsset, CConfidentialNonce, CConfidentialValue, CElementsMutableTxOutWitness,
                             CElementsTxOutWitness, unblind_confidential_pair)
from bitcointx import select_chain_params

# what the functions of the C library take: in:N reads N bytes, in:@k reads as many bytes as argument k says, in:M@k reads M times
# argument k bytes, opt:@k the same but may be null when argument k is 0, out:N writes N bytes, out:@k writes up to *argument k
# bytes, *T an integer of type T behind a pointer, arr:T@k an array of argument k integers, ptrs:N@k an array of argument k pointers
# to N readable bytes (ptrsw: the last one is written to), obj / *obj a proof object / its address
PROTOTYPES = {
    'rangeproof_info': 'ctx *int *int *u64 *u64 in:@6 size',
    'generator_parse': 'ctx out:64 in:33',
    'generator_generate': 'ctx out:64 in:32',
    'generator_generate_blinded': 'ctx out:64 in:32 in:32',
    'generator_serialize': 'ctx out:33 in:64',
    'pedersen_commit': 'ctx out:64 in:32 u64 in:64',
    'pedersen_commitment_serialize': 'ctx out:33 in:64',
    'pedersen_commitment_parse': 'ctx out:64 in:33',
    'pedersen_blind_generator_blind_sum': 'ctx arr:u64@4 ptrs:32@4 ptrsw:32@4 size size',
    'rangeproof_sign': 'ctx out:@2 *size u64 in:64 in:32 in:32 int int u64 in:@11 size opt:@13 size in:64',
    'rangeproof_rewind': 'ctx out:32 *u64 out:@4 *size in:32 *u64 *u64 in:64 in:@10 size opt:@12 size in:64',
    'surjectionproof_allocate_initialized': 'ctx *obj *size in:32@4 size size in:32 size in:32',
    'surjectionproof_destroy': 'obj',
    'surjectionproof_generate': 'ctx obj in:64@3 size in:64 size in:32 in:32',
    'surjectionproof_verify': 'ctx obj in:64@3 size in:64',
    'surjectionproof_serialized_size': 'ctx obj',
    'surjectionproof_serialize': 'ctx out:@2 *size obj',
    'ec_pubkey_serialize': 'ctx out:@2 *size in:64 int',
}
WIDTH = {'int': 4, 'u64': 8, 'size': 8}
MORE = [
    (['b'], ['B0r', 'B0o', 'B0'], None),
    (['p', 'b/nATat'], ['B0o', 'B2r', 'B1', 'C', 'K'], None),
]
ALL = SHAPES + MORE
CHOSEN = [len(SHAPES), len(SHAPES) + 1, 0, 3, 6, 8, 11, 12, 15, 18, 20, 21, 22, 27]
BOUNDS = ('every call of the %d functions of the proof modules while blinding %d shapes (thorough: all %d, '
          'each with all sizes) with range proofs of 37 and 5134 bytes, surjection proofs of 67 and 8226 bytes and output scripts of 1, 3 and 40 bytes, '
          'while unblinding outputs with explicit, committed and null asset, any answer of the rewinding and scripts of 0, 1 and 40 bytes, '
          'while inspecting range proofs of 0..5134 bytes and while committing to an asset; data and amounts symbolic'
          % (len(PROTOTYPES), len(CHOSEN), len(ALL)))
ASSUMPTIONS = ['the C prototypes of libsecp256k1-zkp are transcribed by hand (harness/M01.py)', 'the LP64 data model: 4 byte int, 8 byte '
               'size_t and pointers', 'the functions of the base library that bitcointx calls are not examined']


def jobs(tier):
    out = []
    for k in (CHOSEN if tier == 'quick' else range(len(ALL))):
        i, o, a = ALL[k]
        for m, (proof, surj, script) in enumerate([(37, 67, 3), (5134, 8226, 1), (100, 131, 40)]):
            if tier == 'quick' and m != k % 3 and k > 6:
                continue
            out.append({'name': 'blind-%d-%d' % (k, m), 'op': 'blind', 'ins': i, 'outs': o, 'aux': a, 'proof': proof, 'surj': surj,
                        'script': script, 'reach': ['blinded', 'amount sent whole']})
    for asset in ('explicit', 'committed', 'null'):
        for nonce in (0, 33):
            for script, proof in ((0, 1), (1, 5134), (40, 70)):
                out.append({'name': 'unblind-%s-%d-%d' % (asset, nonce, script), 'op': 'unblind', 'asset': asset, 'nonce': nonce,
                            'script': script, 'proof': proof, 'reach': ['rewound']})
    for n in (0, 1, 5, 64, 5134):
        for kind in ('bytes', 'bytearray', 'mutable', 'field'):
            out.append({'name': 'info-%d-%s' % (n, kind), 'op': 'info', 'n': n, 'kind': kind, 'reach': ['info']})
    out.append({'name': 'asset', 'op': 'asset', 'reach': ['asset']})
    return out


class Examiner:
    def __init__(self, env):
        self.env = env
        self.seen = []

    def num(self, x):
        x = getattr(x, '_obj', x)
        v = getattr(x, 'value', x)
        return v

    def room(self, x):
        """(bytes that may be read, whether they may be written)"""
        if isinstance(x, bytes):
            return len(x), False
        x = getattr(x, '_obj', x)
        if isinstance(x, bytes):
            return len(x), False
        if isinstance(x, ctypes.Array):
            return ctypes.sizeof(x), True
        return None, False

    def integer(self, name, t, a, width):
        env = self.env
        env.check(any(t is i for i in zkp.INTS) and ctypes.sizeof(t) == width, name + ':integer-width')
        if any(t is i for i in zkp.INTS) and not hasattr(a, 'value'):
            # nothing is lost when the Python integer is handed over
            bits = 8 * width
            env.check((a >= -(1 << (bits - 1))) & (a < (1 << bits)), name + ':integer-range')

    def __call__(self, f, args):
        env, name = self.env, f.name
        spec = PROTOTYPES.get(name)
        if spec is None:
            return
        self.seen.append((name, args))
        spec = spec.split()
        if name == 'surjectionproof_destroy':
            env.check(f.restype is None or f.restype is ctypes.c_int, name + ':result')
        else:
            env.check(f.restype is ctypes.c_int, name + ':result')
        env.check(len(spec) == len(args), name + ':arguments')
        for s, t, a in zip(spec, f.argtypes, args):
            if s in WIDTH:
                self.integer(name, t, a, WIDTH[s])
                continue
            # everything else is a pointer
            env.check(not any(t is i for i in zkp.INTS), name + ':pointer-declared-as-integer')
            if s == 'ctx' or s == 'obj':
                v = getattr(a, 'value', a)
                env.check(v is not None and v != 0, name + ':null')
                continue
            if s[0] == '*':
                env.check(a is not None, name + ':null')
                x = getattr(a, '_obj', a)
                if s == '*obj':
                    env.check(isinstance(x, ctypes.c_void_p), name + ':pointee')
                else:
                    env.check(any(type(x) is i for i in zkp.INTS) and ctypes.sizeof(x) == WIDTH[s[1:]], name + ':pointee')
                continue
            kind, _, size = s.partition(':')
            unit, at, ref = size.partition('@')
            if kind in ('arr', 'ptrs', 'ptrsw'):
                n = self.num(args[int(ref)])
                env.check(isinstance(a, ctypes.Array) and len(a) >= n, name + ':array')
                if kind == 'arr':
                    el = getattr(a, 'el', None) or a._type_
                    env.check(any(el is i for i in zkp.INTS) and ctypes.sizeof(el) == WIDTH[unit], name + ':elements')
                    continue
                for j in range(n):
                    p = zkp.pointee(a, j)
                    have, writable = self.room(p)
                    env.check(have is not None, name + ':null')
                    env.check(have >= int(unit), name + ':too-short')
                    if kind == 'ptrsw' and j == n - 1:
                        env.check(writable, name + ':write-to-immutable')
                continue
            need = int(unit) if unit else 1
            if at:
                need = need * self.num(args[int(ref)])
            if a is None:
                env.check(kind == 'opt' and need == 0, name + ':null')
                continue
            have, writable = self.room(a)
            env.check(have is not None, name + ':pointer')
            env.check(have >= need, name + ':too-short')
            if kind == 'out':
                env.check(writable, name + ':write-to-immutable')


def run(env, job):
    select_chain_params('elements')
    globals()['run_' + job['op']](env, job)


def run_blind(env, job):
    x = Examiner(env)
    lib = zkp.install(env, inspect=x, proof_len=job['proof'], surj_len=job['surj'])
    s = scene(env, job['ins'], job['outs'], job['aux'], script=job['script'])
    r = blind(env, s)
    if not r.ok:
        env.reach('refused')
        return
    env.reach('blinded')
    env.check(all(p['destroyed'] for p in lib.surj), 'proofs-released')
    for w in s.tx.wit.vtxoutwit:
        if not w.is_null():
            # the proofs are stored whole, without what is beyond them in the buffers
            env.check((len(w.rangeproof) == job['proof']) & (len(w.surjectionproof) == job['surj']), 'proof-length')
    # the amounts reach the library whole
    committed = [c[1] for c in lib.commits]
    want = [o.amount for o in s.outs if o.kind == 'B']
    want = [i.iamount for i in s.ins if 'a' in i.iss[1:]] + [i.tamount for i in s.ins if 't' in i.iss[1:]] + want
    env.check(len(committed) == len(want), 'commitments')
    for v in want:
        env.check(any(env.certain(c == v) for c in committed), 'amount-committed')
    env.reach('amount sent whole')


def run_unblind(env, job):
    x = Examiner(env)

    def rewind(**kw):
        return {'blind': env.bytes('rewound-factor', 32), 'value': env.int('rewound-amount', 0, 2**64 - 1),
                'msg': env.bytes('rewound-message', 64), 'outlen': env.int('rewound-length', 0, 4096),
                'min': env.int('rewound-min', 0, 2**64 - 1), 'max': env.int('rewound-max', 0, 2**64 - 1)}
    zkp.install(env, rewind=rewind, inspect=x, parse_fails=True, generate_fails=True)
    key = env.bytes('key', 32)
    env.assume((key[0] != 0xff) & (key[31] != 0))
    value = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('value', 32)
    asset = {'explicit': b'\x01', 'committed': bytes([10 | env.int('parity', 0, 1)]), 'null': b''}[job['asset']]
    if asset:
        asset = asset + env.bytes('asset', 32)
    nonce = bytes([2 | env.int('parity', 0, 1)]) + env.bytes('nonce', 32) if job['nonce'] else b''
    proof = env.bytes('proof', min(job['proof'], 40)) + bytes(max(0, job['proof'] - 40))
    if env.choose('bytearray', [False, True]):
        proof = bytearray(proof)
    r = unblind_confidential_pair(
        blinding_key=CKey(key), confValue=CConfidentialValue(value), confAsset=CConfidentialAsset(asset),
        confNonce=CConfidentialNonce(nonce), committedScript=CElementsScript(env.bytes('script', job['script'])), rangeproof=proof)
    if any(n == 'rangeproof_rewind' for n, a in x.seen):
        env.reach('rewound')
        n, a = [c for c in x.seen if c[0] == 'rangeproof_rewind'][0]
        # the whole proof is examined
        env.check((len(a[9]) == job['proof']) & (a[10] == job['proof']), 'whole-proof')
    if r.ok:
        env.check((r.amount >= 0) & (r.amount <= 21000000 * 100000000), 'amount-range')


def run_info(env, job):
    x = Examiner(env)
    n = job['n']
    given = env.bytes('proof', min(n, 40)) + bytes(max(0, n - 40))

    def info(proof):
        env.check(len(proof) == n and bytes(proof) == given, 'info-proof')
        if not env.choose('valid', [True, False]):
            return None
        return {'exp': env.int('exp', -1, 18), 'mantissa': env.int('mantissa', 0, 64), 'min': env.int('min', 0, 2**64 - 1),
                'max': env.int('max', 0, 2**64 - 1)}
    zkp.install(env, info=info, inspect=x)
    if job['kind'] == 'bytes':
        w = CElementsTxOutWitness(b'', given)
    elif job['kind'] == 'bytearray':
        w = CElementsTxOutWitness(rangeproof=bytearray(given))
    elif job['kind'] == 'mutable':
        w = CElementsMutableTxOutWitness(b'\x01', given)
    else:
        w = CElementsMutableTxOutWitness()
        w.rangeproof = given
    r = w.get_rangeproof_info()
    env.check(len(x.seen) <= 1, 'calls')
    if r is not None:
        env.reach('info')


def run_asset(env, job):
    x = Examiner(env)
    zkp.install(env, inspect=x, generate_fails=True)
    d = env.bytes('asset', 32)
    try:
        c = CAsset(d).to_comm_secp256k1itment()
    except ValueError:
        return
    env.check(isinstance(c, bytes) and len(c) == 33, 'commitment-length')
    env.check(zkp.is_gen(c, zkp.gen64(d, ZERO)), 'commitment')
    env.reach('asset')
