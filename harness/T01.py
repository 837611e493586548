"""T01: taproot outputs built for Elements chains can be spent by Elements consensus rules"""
from harness import zkp
from harness.refhash import tagged
from harness.lib import CElementsScript, ref_var, dsha
from bitcointx.core.key import XOnlyPubKey, CPubKey, tap_tweak_pubkey, check_tap_tweak, compute_tap_tweak_hash
from bitcointx.core.script import TaprootScriptTree, CScript
from elementstx.core.script import TaprootElementsScriptTree
import elementstx.wallet as w
from bitcointx.wallet import P2TRCoinAddress, CCoinAddress
from bitcointx import select_chain_params
import elementstx.core

CHAINS = {'el': ('elements', 'Elements'), 'lq': ('elements/liquidv1', 'ElementsLiquidV1')}
# a tree is a list of leaf names (with script size) and subtrees; a dict also sets the leaf version
TREES = {
    'one': ['A3'],
    'two': ['A3', 'B0'],
    'three': ['A1', 'B2', 'C3'],
    'four': ['A1', 'B1', 'C1', 'D1'],
    'nested': ['A1', ['B2', 'C0'], 'D1'],
    'deep': [['A1', ['B1', 'C1']], 'D1'],
    'version': {'version': 0xc6, 'leaves': ['A2', 'B1']},
    'mixed': [{'version': 0x7e, 'leaves': ['A2']}, 'B1', {'version': 0xfe, 'leaves': ['C1', 'D2']}],
    'long': ['A252', 'B253'],
    'single-in-two': [{'version': 0xc4, 'leaves': ['A2']}, 'B2'],
    'lone-version': {'version': 0xc0, 'leaves': ['A34']},
}
MORE = {
    'five': ['A1', 'B1', 'C1', 'D1', 'E1'],
    'six': ['A1', 'B1', 'C1', 'D1', 'E1', 'F1'],
    'seven': ['A1', 'B1', 'C1', ['D1', 'E1'], 'F1', {'version': 0x66, 'leaves': ['G1']}],
    'chain': [[[[['A1', 'B1'], 'C1'], 'D1'], 'E1'], 'F1'],
    'pairs': [['A1', 'B1'], ['C1', 'D1'], ['E1', 'F1']],
    'huge': ['A600', 'B10000'],
}
BOUNDS = ('script trees of %d shapes with up to 4 leaves (thorough: %d shapes with up to 7 leaves), flat, nested and with other leaf versions, '
          'scripts of 0..3, 34, 252 and 253 (thorough: up to 10000) bytes, all script contents, all valid internal keys, every order of the '
          'branch hashes, both Elements chains; key-path outputs for all internal keys' % (len(TREES), len(TREES) + len(MORE)))
ASSUMPTIONS = ['equality and order of SHA-256 values are those of abstract injective values',
               'tweaking is an abstract injective function of key and tweak; which byte strings are keys is left open',
               'sibling subtrees of a tree are not identical']


def jobs(tier):
    out = []
    for chain in CHAINS:
        for n, t in list(TREES.items()) + (list(MORE.items()) if tier == 'thorough' else []):
            out.append({'name': 'tree-%s-%s' % (chain, n), 'op': 'tree', 'chain': chain, 'tree': t, 'reach': ['spent']})
        out.append({'name': 'key-%s' % chain, 'op': 'key', 'chain': chain, 'reach': ['paid', 'refused']})
        out.append({'name': 'params-%s' % chain, 'op': 'params', 'chain': chain, 'reach': ['checked']})
    return out


def leaf_hash(script, version):
    return tagged(b'TapLeaf/elements', bytes([version]) + ref_var(script))


def branch(env, a, b):
    env.assume((a < b) | (b < a))
    return tagged(b'TapBranch/elements', a + b if a < b else b + a)


def tweak(x, root=b''):
    return tagged(b'TapTweak/elements', x + root)


def build(env, chain, t, leaves, inherited=None):
    """the tree object; leaves: name -> (script, version)"""
    version, items = (t['version'], t['leaves']) if isinstance(t, dict) else (None, t)
    subs = []
    for x in items:
        if isinstance(x, str):
            s = CElementsScript(env.bytes('script', int(x[1:])), name=x[0])
            leaves[x[0]] = (s, 0xc4 if version is None else version)
            subs.append(s)
        else:
            subs.append(build(env, chain, x, leaves))
    cls = TaprootScriptTree if env.tree_cls == 'generic' else TaprootElementsScriptTree
    r = cls(subs) if version is None else cls(subs, leaf_version=version)
    env.check(type(r) is TaprootElementsScriptTree, 'tree-class')
    return r


def judge_spend(env, script, version, control, x, parity, want_script, want_version):
    """the consensus rules for a script path spend of the output with key x"""
    env.check(len(script) == len(want_script) and bytes(script) == bytes(want_script), 'leaf-script')
    env.check(isinstance(script, CElementsScript), 'leaf-script-class')
    env.check(len(control) >= 33 and (len(control) - 33) % 32 == 0 and len(control) <= 33 + 32 * 128, 'control-block-size')
    env.check((control[0] & 0xfe) == want_version, 'leaf-version')
    p = control[1:33]
    k = leaf_hash(script, control[0] & 0xfe)
    for i in range(33, len(control), 32):
        k = branch(env, k, control[i:i + 32])
    q = zkp.tweak64(p, tweak(p, k))
    env.check(q[:32] == x, 'output-key')
    env.check((control[0] & 1) == q[32], 'parity')


def run(env, job):
    chain, name = CHAINS[job['chain']]
    select_chain_params(chain)
    if job['op'] == 'params':
        c = elementstx.core.CoreElementsParams
        data = env.bytes('data', 65)
        for f, tag in ((c.taptweak_hasher, b'TapTweak/elements'), (c.tapleaf_hasher, b'TapLeaf/elements'),
                       (c.tapbranch_hasher, b'TapBranch/elements'), (c.tap_sighash_hasher, b'TapSighash/elements')):
            for k in (0, 1, 32, 64, 65):
                env.check(f(data[:k]) == tagged(tag, data[:k]), 'hasher')
        env.check(c.TAPROOT_LEAF_TAPSCRIPT == 0xc4, 'leaf-version')
        env.reach('checked')
        return
    lib = zkp.install(env, xonly=True)
    internal = env.bytes('internal-key', 32)
    p2tr = getattr(w, 'P2TR%sAddress' % name)
    pub = XOnlyPubKey(internal)
    if job['op'] == 'key':
        if not pub.is_fullyvalid():
            for f in (lambda: p2tr.from_xonly_pubkey(pub), lambda: p2tr.from_pubkey(pub), lambda: P2TRCoinAddress.from_pubkey(pub),
                      lambda: tap_tweak_pubkey(pub), lambda: p2tr.from_xonly_output_pubkey(pub)):
                try:
                    f()
                except (ValueError, w.CCoinAddressError):
                    continue
                env.fail('invalid-key-accepted')
            env.reach('refused')
            return
        want = zkp.tweak64(internal, tweak(internal))
        for a in (p2tr.from_xonly_pubkey(pub), p2tr.from_pubkey(pub), P2TRCoinAddress.from_pubkey(pub), p2tr.from_xonly_pubkey(internal)):
            env.check(type(a) is p2tr, 'address-class')
            env.check(bytes(a) == want[:32], 'key-path-output')
            env.check(bytes(a.to_scriptPubKey()) == b'\x51\x20' + want[:32], 'key-path-script')
        env.check(compute_tap_tweak_hash(pub) == tweak(internal), 'tweak')
        out, parity = tap_tweak_pubkey(pub)
        env.check((bytes(out) == want[:32]) & (parity == (want[32] == 1)), 'tweaked-key')
        env.check(bytes(p2tr.from_xonly_output_pubkey(pub)) == internal, 'output-key-as-given')
        env.reach('paid')
        return
    if not pub.is_fullyvalid():
        return
    env.tree_cls = env.choose('class', ['generic', 'elements'])
    leaves = {}
    tree = build(env, chain, job['tree'], leaves)
    env.check(tree.internal_pubkey is None and tree.output_pubkey is None, 'no-key-yet')
    try:
        tree.get_script_with_control_block('A')
        env.fail('control-block-without-key')
    except ValueError:
        pass
    tree.set_internal_pubkey(pub)
    x = bytes(tree.output_pubkey)
    for n, (script, version) in leaves.items():
        s, control = tree.get_script_with_control_block(n)
        judge_spend(env, s, version, control, x, tree.parity, script, version)
        env.check(bytes(control[1:33]) == internal, 'internal-key')
        env.check(bytes(tree.get_script(n)) == bytes(script) and tree.get_script_leaf_version(n) == version, 'leaf-found')
        env.check(tree.get_script_path(n) == control[33:], 'path')
    env.check(tree.get_script_with_control_block('Z') is None and tree.get_script('Z') is None, 'unknown-leaf')
    for a in (p2tr.from_script_tree(tree), P2TRCoinAddress.from_script_tree(tree)):
        env.check(type(a) is p2tr and bytes(a) == x, 'address-of-tree')
        env.check(bytes(a.to_scriptPubKey()) == b'\x51\x20' + x, 'script-of-tree')
    env.check(check_tap_tweak(tree.output_pubkey, pub, merkle_root=tree.merkle_root, parity=tree.parity), 'tweak-checks')
    env.reach('spent')
