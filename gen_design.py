"""write DESIGN.md from design_head.md, the properties, the harnesses' bounds and assumptions, the last evidence and bug_results.txt"""
import importlib, json, os, re, sys, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
HOW = {}
exec(open(os.path.join(ROOT, 'design_how.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
results = {}
if os.path.exists(os.path.join(ROOT, 'bug_results.txt')):
    for l in open(os.path.join(ROOT, 'bug_results.txt')):
        w = l.split()
        results[w[0]] = (w[1], w[2])


def consts(i):
    """BOUNDS and ASSUMPTIONS of a harness, read without the engine"""
    import ast
    src = open(os.path.join(ROOT, 'harness', i + '.py')).read()
    ns = {}
    ev = os.path.join(ROOT, 'evidence', i + '.json')
    if os.path.exists(ev):
        d = json.load(open(ev))
        return d['coverage']['bounds'], d['assumptions'], d
    return '(see the harness)', [], None


out = [open(os.path.join(ROOT, 'design_head.md')).read().rstrip(), '', '## The properties', '']
for p in props:
    i = p['id']
    b, a, d = consts(i)
    out += ['### %s %s' % (i, p['title']), '', '**Property.** ' + p['statement'], '', '**How it is decided.** ' + HOW[i], '',
            '**Bounds.** ' + b[0].upper() + b[1:] + '.', '']
    if a:
        out += ['**Assumed.** ' + '; '.join(a) + '.', '']
    out += ['**Why beyond the tests.** ' + p['why_tests_cant'], '']
    if d and d['tier'] == 'quick':
        c = d['coverage']
        out += ['**Cost (quick, 8 cores).** %.0f s, %d jobs, %d paths, %d solver queries.' % (
            d['wall_s'], c['jobs'], c['states'], c['solver_queries']), '']
    bugs = sorted(os.path.basename(os.path.dirname(m)) for m in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))
                  if json.load(open(m))['property'] == i)
    if bugs:
        out += ['**Planted bugs.** ' + ', '.join('%s%s' % (x, {'rc=1': '', None: ' (not run)'}.get(results.get(x, (0, None))[1],
                ' (MISSED)')) for x in bugs) + ('.' if len(bugs) else '') + ' Unmarked ones are caught by this check.', '']
tail = os.path.join(ROOT, 'design_tail.md')
out += [open(tail).read().rstrip().replace('%(n)d', str(len(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))))), '']
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
