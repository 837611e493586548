"""decide one property: python3-vt -m engine.check <ID>"""
import hashlib
import json
import os
import resource
import subprocess
import sys
import time
from . import concrete

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALPY = os.environ.get('VP_REALPY', '/opt/venv/bin/python')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                # known: property=ID label=<label> <what>
                rest = line.split(' ', 2)[2]
                label, what = rest.split(' ', 1)
                out.append((label[len('label='):], what))
    return out


def replay_env():
    e = dict(os.environ)
    e['PYTHONPATH'] = ROOT
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    return e


def run_replay(path):
    try:
        r = subprocess.run([REALPY, os.path.join(ROOT, 'engine', 'concrete.py'), path], env=replay_env(), cwd='/',
                           capture_output=True, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    if r.returncode == 1 and 'REPRODUCED' in r.stdout and 'NOT-REPRODUCED' not in r.stdout:
        return 'reproduced', r.stdout
    return 'no', r.stdout + r.stderr


def to_doc(prop, tier, job, inputs, label):
    return {'property': prop, 'tier': tier, 'job': job, 'label': label,
            'inputs': {k: concrete.enc(v) for k, v in inputs.items()}}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    only = [a[5:] for a in sys.argv if a.startswith('-job=')]
    verbose = '-v' in sys.argv
    t0 = time.time()
    from . import explore, sym
    budget = float(os.environ.get('VP_BUDGET', '780' if tier == 'quick' else '10000'))
    try:
        mod = explore.load(prop)
        jobs = mod.jobs(tier)
    except Exception as e:
        # the code does not even import / set up: not a verdict
        import traceback
        traceback.print_exc()
        print('ERROR property=%s cannot load the code under check: %r' % (prop, e))
        return 2
    if only:
        jobs = [j for j in jobs if any(j['name'].startswith(o) for o in only)]
    names = [j['name'] for j in jobs]
    assert len(set(names)) == len(names), 'duplicate job names'
    wdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(wdir, exist_ok=True)
    known = known_findings(prop)
    confirmed = []
    known_hit = {}
    unconfirmed = []
    tried = {}

    def confirm(v):
        """replays a counterexample on the real code; True when it is one that no known finding covers"""
        kind = v['label'].split(' ')[0]
        for k, inputs in enumerate(v['models']):
            tried[kind] = tried.get(kind, 0) + 1
            if tried[kind] > 24 or sum(tried.values()) > 120:
                unconfirmed.append((v, '', 'not replayed'))
                return False
            doc = to_doc(prop, tier, v['job'], inputs, v['label'])
            s = json.dumps(doc, indent=1, sort_keys=True)
            path = os.path.join(wdir, '%s-%s.json' % (prop, hashlib.sha256(s.encode()).hexdigest()[:12]))
            with open(path, 'w') as f:
                f.write(s)
            st, out = run_replay(path)
            if st == 'reproduced':
                kf = [w for l, w in known if l == kind]
                if kf:
                    known_hit[kf[0]] = path
                    return False
                confirmed.append((v, path, out))
                return True
            if verbose or k == len(v['models']) - 1:
                unconfirmed.append((v, path, out))
            else:
                os.remove(path)
        return False

    total, complete = explore.explore(mod, jobs, tier, seed, t0 + budget, confirm=confirm)
    # validate sampled paths against the implementation
    validated = 0
    diverged = 0
    mism = []
    samples = total.samples[:400]
    if samples and not confirmed:
        tmp = os.path.join(wdir, '%s-batch.jsonl' % prop)
        with open(tmp, 'w') as f:
            for s in samples:
                f.write(json.dumps(to_doc(prop, tier, s['job'], s['inputs'], '')) + '\n')
        r = subprocess.run([REALPY, os.path.join(ROOT, 'engine', 'concrete.py'), '--batch', tmp], env=replay_env(),
                           cwd='/', capture_output=True, text=True)
        lines = r.stdout.splitlines()
        os.remove(tmp)
        for s, l in zip(samples, lines):
            st, labels, msg = json.loads(l)
            if st == 'violation':
                mism.append((s, msg))
            elif st == 'ok' and labels == s['labels']:
                validated += 1
            else:
                diverged += 1
                if verbose:
                    print('diverged', s['job']['name'], s['inputs'], s['labels'], st, labels, msg)
        if len(lines) != len(samples):
            total.errors.append(('error', 'batch', r.stderr[-2000:]))
    for s, msg in mism[:1]:
        doc = to_doc(prop, tier, s['job'], s['inputs'], 'sampled-path')
        js = json.dumps(doc, indent=1, sort_keys=True)
        path = os.path.join(wdir, '%s-%s.json' % (prop, hashlib.sha256(js.encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            f.write(js)
        total.errors.append(('encoding-mismatch', s['job']['name'],
                             'the encoding accepts a path that the real code fails: %s %s' % (path, msg)))

    need = set()
    for j in jobs:
        need |= set(j.get('reach', ()))
    missing = sorted(need - set(total.labels))
    status = 'ok'
    if confirmed:
        status = 'violation'
    elif total.errors or unconfirmed or not complete or missing or total.paths == 0:
        status = 'inconclusive'
    wall = time.time() - t0
    mx = resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
    st = total.stats
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.paths,
            'transitions': total.forks,
            'traces_validated_against_impl': validated,
            'samples': [concrete_sample(s) for s in samples[:3]] or ['none'],
            'symbolic_paths_completed': total.paths,
            'paths_cut_by_assumptions': total.aborted,
            'jobs': len(jobs), 'time_per_job_s': total.perjob,
            'assertions_checked_per_label': total.checks,
            'assertions_closed_structurally': total.trivial,
            'solver_queries': st.get('queries', 0), 'solver_cache_hits': st.get('cache_hits', 0),
            'solver_time_s': round(st.get('solver_time', 0), 2), 'solver_unknown': st.get('unknown', 0),
            'closed_by_linear_algebra': st.get('linear', 0),
            'functions_encoded': sorted(total.funcs),
            'bounds': getattr(mod, 'BOUNDS', ''),
            'reached_labels': total.labels,
            'samples_diverged_on_abstract_hash_values': diverged,
            'complete': complete, 'outcome': status,
            'worker_peak_rss_mb': mx // 1024,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s %s: %d paths, %d aborted, %d forks, %d queries, %.1fs solver, %d validated, %d diverged, %.1fs wall (%s)'
          % (prop, tier, total.paths, total.aborted, total.forks, st.get('queries', 0), st.get('solver_time', 0),
             validated, diverged, wall, status))
    if verbose:
        print('labels', total.labels)
        print('checks', total.checks)
        for k, w in sorted(total.perjob.items(), key=lambda x: -x[1])[:15]:
            print('  %7.1fs %s' % (w, k))
    for w, p in known_hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for v, path, out in confirmed:
        print('counterexample for %r in job %s' % (v['label'], v['job'].get('name')))
        print(out[-3000:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if status == 'violation':
        return 1
    if status == 'inconclusive':
        for e in total.errors[:6]:
            print('INCONCLUSIVE', e[0], e[1], e[2])
        for v, path, out in unconfirmed[:4]:
            print('UNCONFIRMED counterexample', v['label'], v['job'].get('name'), path, out[-1500:], v['trace'][-1500:])
        if missing:
            print('VACUOUS: labels never reached:', missing)
        if not complete:
            print('INCOMPLETE: the exploration did not finish')
        return 2
    return 0


def concrete_sample(s):
    return {'job': s['job'].get('name'), 'labels': s['labels'],
            'inputs': {k: (v.hex() if isinstance(v, bytes) else v) for k, v in s['inputs'].items()}}


if __name__ == '__main__':
    sys.exit(main())
