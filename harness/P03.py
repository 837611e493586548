"""P03: Elements opcodes have the consensus numbers"""
import elementstx.core.script as es
from bitcointx.core.script import CScriptOp, OP_RETURN
from harness.lib import CElementsScript

BOUNDS = ('every Elements opcode constant of the module, in scripts of the opcode between two pushes of 0..3 (thorough also 75, '
          '76, 255, 256) bytes of any content, and next to a small integer of any value 0..16')
ASSUMPTIONS = ['an opcode lookup with a symbolic byte returns the table entry of that byte (CScriptOp of bitcointx)']

TABLE = {
    'DETERMINISTICRANDOM': 0xc0, 'CHECKSIGFROMSTACK': 0xc1, 'CHECKSIGFROMSTACKVERIFY': 0xc2, 'SUBSTR_LAZY': 0xc3,
    'SHA256INITIALIZE': 0xc4, 'SHA256UPDATE': 0xc5, 'SHA256FINALIZE': 0xc6,
    'INSPECTINPUTOUTPOINT': 0xc7, 'INSPECTINPUTASSET': 0xc8, 'INSPECTINPUTVALUE': 0xc9, 'INSPECTINPUTSCRIPTPUBKEY': 0xca,
    'INSPECTINPUTSEQUENCE': 0xcb, 'INSPECTINPUTISSUANCE': 0xcc, 'PUSHCURRENTINPUTINDEX': 0xcd,
    'INSPECTOUTPUTASSET': 0xce, 'INSPECTOUTPUTVALUE': 0xcf, 'INSPECTOUTPUTNONCE': 0xd0, 'INSPECTOUTPUTSCRIPTPUBKEY': 0xd1,
    'INSPECTVERSION': 0xd2, 'INSPECTLOCKTIME': 0xd3, 'INSPECTNUMINPUTS': 0xd4, 'INSPECTNUMOUTPUTS': 0xd5, 'TXWEIGHT': 0xd6,
    'ADD64': 0xd7, 'SUB64': 0xd8, 'MUL64': 0xd9, 'DIV64': 0xda, 'NEG64': 0xdb, 'LESSTHAN64': 0xdc,
    'LESSTHANOREQUAL64': 0xdd, 'GREATERTHAN64': 0xde, 'GREATERTHANOREQUAL64': 0xdf,
    'SCRIPTNUMTOLE64': 0xe0, 'LE64TOSCRIPTNUM': 0xe1, 'LE32TOLE64': 0xe2, 'ECMULSCALARVERIFY': 0xe3, 'TWEAKVERIFY': 0xe4,
}


def jobs(tier):
    return [{'name': n, 'op': n, 'reach': ['op']} for n in TABLE] + [{'name': 'table', 'op': '', 'reach': ['table']}]


def run(env, job):
    if not job['op']:
        seen = {}
        for n, v in vars(es).items():
            if n.startswith('OP_') and isinstance(v, int):
                if int(v) > 0xba:
                    env.check(int(v) not in seen, 'distinct-numbers %s' % n)
                    seen[int(v)] = n
                    env.check(n[3:] in TABLE and TABLE[n[3:]] == int(v), 'known-opcode %s' % n)
        env.reach('table')
        return
    op = getattr(es, 'OP_' + job['op'])
    num = TABLE[job['op']]
    env.check(isinstance(op, CScriptOp) and int(op) == num, 'number')
    th = env.tier == 'thorough'
    sizes = [0, 1, 2, 3] + ([75, 76, 255, 256] if th else [])
    a = env.bytes('a', env.choose('na', sizes))
    b = env.bytes('b', env.choose('nb', sizes))
    k = env.int('k', 0, 16)

    def push(d):
        if len(d) < 76:
            return bytes([len(d)]) + d
        if len(d) < 256:
            return b'\x4c' + bytes([len(d)]) + d
        return b'\x4d' + len(d).to_bytes(2, 'little') + d

    def back(d):
        return d if len(d) else 0
    s = CElementsScript([a, op, b])
    env.check(s == push(a) + bytes([num]) + push(b), 'script-bytes')
    it = list(s)
    env.check(len(it) == 3, 'element-count')
    env.check(it[1] == op and isinstance(it[1], CScriptOp) and int(it[1]) == num, 'opcode-iterates-back')
    env.check(it[0] == back(a) and it[2] == back(b), 'data-around')
    raw = list(s.raw_iter())
    env.check(raw[1][0] == num and raw[1][1] is None and raw[1][2] == len(push(a)), 'raw-iteration')
    env.check(CElementsScript() + op == bytes([num]), 'append')
    q = CElementsScript([k, op])
    env.check(len(q) == 2 and q[1] == num, 'after-small-int')
    env.reach('op')
