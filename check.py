#!/usr/bin/env python3
"""Decides one property: builds the symbolic IR of /repo's current tree, runs the property's harness
cases through the symbolic executor, replays every counterexample against the native build.
usage: check.py <property> [--tier quick|thorough] [--jobs N] [--only entry[:case]] [--keep]"""
import json, os, sys, resource, time, subprocess, fcntl, re, shutil, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
Z3_OLD = '/usr/lib/x86_64-linux-gnu/libz3.so'
T0 = time.time()

def arg(name, d=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else d

PID = sys.argv[1]
TIER = arg('--tier') or os.environ.get('VERIF_TIER') or 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
JOBS = int(arg('--jobs', str(min(8, os.cpu_count() or 8))))
B = arg('--build') or os.path.join(V, 'build')
QUIET = '--quiet' in sys.argv

def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run([os.path.join(V, 'build.sh'), B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            print('ERROR: the framework does not build against the current tree')
            sys.exit(2)

def known():
    d = {}
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m: d.setdefault(m[1], {})[m[2]] = m[3].strip()
    return d.get(PID, {})

def replay(entry, case, rows):
    """native outcome of each row of values"""
    with tempfile.NamedTemporaryFile('w', dir=B, suffix='.nd', delete=False) as f:
        f.write('\n'.join(','.join(str(x) for x in r) or ',' for r in rows) + '\n')
    try:
        r = subprocess.run([os.path.join(B, 'vhn'), entry, str(case), f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
        out = r.stdout.splitlines()
        while len(out) < len(rows): out.append('CRASH rc=%d %s' % (r.returncode, r.stderr[-200:].replace('\n', ' ')))
        return out
    except subprocess.TimeoutExpired:
        return ['CRASH timeout'] * len(rows)
    finally:
        os.unlink(f.name)

def skipped(entry, case, label): return {'entry': entry, 'case': case, 'label': label, 'skipped': True, 'inconclusive': [], 'violations': [], 'samples': [], 'reach': {}, 'validated': 0, 'mismatch': []}
STOP = threading.Event()     # quick tier: a violation reproduced natively, nothing more to learn
LIMIT = 800 if TIER == 'quick' else 1e9
def engine(cmd):
    """runs the engine; None if stopped"""
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    while True:
        try:
            return p.returncode, p.communicate(timeout=0.5)[1]
        except subprocess.TimeoutExpired:
            if STOP.is_set():
                p.kill()
                p.communicate()
                return None

def run(job):
    entry, case, opts, label = job
    if STOP.is_set(): return skipped(entry, case, label)
    out = os.path.join(B, 'out', '%s.%s.%s%s.json' % (PID, entry, case, label))
    cmd = [os.path.join(B, 'rsym'), '--ir', os.path.join(B, 'vh.ll'), '--entry', entry, '--case', str(case), '--out', out]
    o = {'wall': '780' if TIER == 'quick' else '3000', 'timeout-ms': '30000' if TIER == 'quick' else '120000', 'grace': '20' if TIER == 'quick' else '300'}
    o.update(opts)
    o['wall'] = max(20, int(min(float(o['wall']), LIMIT - (time.time() - T0))))
    for k, v in o.items(): cmd += ['--' + k, str(v)]
    if os.path.exists(out): os.unlink(out)
    t = time.time()
    r = engine(cmd)
    if r is None: return skipped(entry, case, label)
    try:
        j = json.load(open(out))
    except Exception:
        j = {'entry': entry, 'case': case, 'inconclusive': ['engine failed rc=%s: %s' % (r[0], r[1][-400:])], 'violations': [], 'samples': [], 'reach': {}}
    j['label'] = label
    # translator validation: the sampled path models must behave natively as the engine predicted
    j['validated'] = 0
    j['mismatch'] = []
    s = j['samples']
    if s:
        for smp, line in zip(s, replay(entry, case, [[v for _, v in x['nd']] for x in s])):
            want = 'obs ' + ','.join(str(x) for x in smp['obs'])
            if line.split(' | ')[0] in ('OK', 'EXPPANIC') and line.split(' | ')[-1] == want: j['validated'] += 1
            else: j['mismatch'].append({'nd': [v for _, v in smp['nd']], 'engine': want, 'native': line})
    if s and j['violations']:
        # a sampled path may carry a reported violation natively; that is not a mismatch
        j['mismatch'] = [m for m in j['mismatch'] if not m['native'].startswith(('VIOLATED', 'PANIC', 'CRASH'))]
    skip = [x for x in str(opts.get('skip', '')).split('|') if x]
    if skip: j['mismatch'] = [m for m in j['mismatch'] if not (m['native'].startswith('VIOLATED') and any(x in m['native'] for x in skip))]
    for v in j['violations']:
        line = replay(entry, case, [[x for _, x in v['nd']]])[0]
        v['native'] = line
        head = line.split(' | ')[0]
        if v['kind'] == 'assert': v['ok'] = head.startswith('VIOLATED') and v['msg'] in head
        elif v['kind'] == 'panic': v['ok'] = head.startswith('PANIC') or (head.startswith('VIOLATED') and 'PANIC' in line) or (v['msg'].startswith('allocation failure') and head.startswith('CRASH'))
        else: v['ok'] = head.startswith(('CRASH', 'PANIC', 'VIOLATED'))
        if v['ok'] and TIER == 'quick' and not v['msg'].startswith('kf:') and '--all' not in sys.argv: STOP.set()
    if not QUIET:
        print('%-22s case %-6s%s paths %d (%d pruned) queries %d unknown %d solver %.1fs wall %.1fs validated %d/%d%s%s' % (
            entry, case, label, j.get('paths_ok', 0) + j.get('paths_panic', 0), j.get('paths_pruned', 0), j.get('queries', 0), j.get('unknown', 0), j.get('solver_s', 0), time.time() - t,
            j['validated'], len(s), ' VIOLATIONS %d' % len(j['violations']) if j['violations'] else '', ' INCONCLUSIVE %d' % len(j['inconclusive']) if j['inconclusive'] else ''), flush=True)
    return j

def main():
    P = props.CHECKS[PID]
    if '--nobuild' not in sys.argv: build()
    os.makedirs(os.path.join(B, 'out'), exist_ok=True)
    jobs, need = [], {}
    for r in P['runs']:
        cases = r.get('cases', [0])
        if TIER == 'thorough': cases = list(cases) + [c for c in r.get('thorough', []) if c not in cases]
        for c in cases: jobs.append((r['entry'], c, dict(r.get('opts', {})), ''))
        need.setdefault(r['entry'], set()).update(r.get('reach', []))
        if TIER == 'thorough':
            for c in r.get('cases', [0]):
                o = dict(r.get('opts', {})); o.update({'z3': Z3_OLD, 'lia': 0, 'wall': 600})
                jobs.append((r['entry'], c, o, ' [bv,z3-4.8]'))
    only = arg('--only')
    if only:
        e, _, c = only.partition(':')
        jobs = [j for j in jobs if j[0] == e and (not c or j[1] == int(c))]
        need = {e: need.get(e, set())} if not c else {}
    with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(run, jobs))
    kf = known()
    viol, kfs, bad = [], {}, []
    for j in res:
        main_run = j['label'] == ''
        for v in j['violations']:
            m = re.match(r'kf:(\S+) ', v['msg'])
            if m and m[1] in kf:
                if v['ok']: kfs.setdefault(m[1], []).append((j, v))
                else: bad.append('%s case %s: known finding %s did not reproduce natively: %s' % (j['entry'], j['case'], m[1], v['native']))
            elif v['ok']: viol.append((j, v))
            else: bad.append('%s case %s: counterexample for "%s: %s" did not reproduce natively: %s' % (j['entry'], j['case'], v['kind'], v['msg'], v['native']))
        if main_run:
            for i in j['inconclusive']: bad.append('%s case %s: %s' % (j['entry'], j['case'], i))
            for m in j['mismatch'][:3]: bad.append('%s case %s: translator mismatch %s' % (j['entry'], j['case'], json.dumps(m)))
            if j.get('unknown', 0): bad.append('%s case %s: %d solver queries without an answer' % (j['entry'], j['case'], j['unknown']))
    reached = {}
    for j in res:
        for k, n in j['reach'].items(): reached[(j['entry'], k)] = reached.get((j['entry'], k), 0) + n
    if not viol:
        for e, labels in need.items():
            for l in labels:
                if not reached.get((e, l)): bad.append('%s: "%s" was never reached (vacuous)' % (e, l))
    for k, text in kf.items():
        if k in kfs: print('KNOWN-FINDING: property=%s %s' % (PID, text))
        elif not only and not viol: print('note: listed finding %s did not occur' % k)
    seen = set()
    rd = os.path.join(B, 'replays')
    os.makedirs(rd, exist_ok=True)
    for j, v in viol:
        key = (v['kind'], v['msg'])
        if key in seen: continue
        seen.add(key)
        f = os.path.join(rd, '%s-%d.json' % (PID, len(seen)))
        vals = [x for _, x in v['nd']]
        json.dump({'property': PID, 'harness': j['entry'], 'case': j['case'], 'values': vals, 'kind': v['kind'], 'message': v['msg'], 'native': v['native'], 'stack': v['stack'],
                   'how': 'echo %s > /tmp/nd && %s/vhn %s %s /tmp/nd' % (','.join(map(str, vals)), B, j['entry'], j['case'])}, open(f, 'w'), indent=1)
        print('%s case %s: %s: %s' % (j['entry'], j['case'], v['kind'], v['msg']))
        print('  values %s' % (','.join(map(str, vals))[:400]))
        print('  native: %s' % v['native'][:300])
        print('VIOLATION property=%s replay=%s' % (PID, f))
    for b in bad: print('INCONCLUSIVE: ' + b[:600])
    tot = lambda k: sum(j.get(k, 0) or 0 for j in res)
    fns = sorted({f for j in res for f in j.get('fns', [])})
    lines = {}
    for j in res:
        for k, n in j.get('lines', {}).items(): lines.setdefault(k, set()).update(n)
    ev = {
        'property': PID, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
        'assumptions': P.get('assumes', []) + props.COMMON,
        'coverage': {
            'states': tot('paths_ok') + tot('paths_panic') + tot('paths_pruned') + tot('forks'),
            'transitions': tot('steps'),
            'traces_validated_against_impl': tot('validated') + sum(1 for _, v in viol if v['ok']) + sum(len(x) for x in kfs.values()),
            'samples': [dict(harness=j['entry'], case=j['case'], values=[v for _, v in x['nd']][:64], observed=x['obs'][:32]) for j in res for x in j['samples'][:2]][:12]
                       or [dict(harness=j['entry'], case=j['case'], reached=j['reach']) for j in res][:4],
            'units': 'states: symbolic paths and fork points; transitions: IR instructions executed symbolically; traces: path models replayed natively with equal observations',
            'bounds': P['bounds'],
            'functions_encoded': fns,
            'repo_lines_executed': {os.path.relpath(k, '/repo'): len(v) for k, v in sorted(lines.items())},
            'paths_completed': tot('paths_ok'), 'paths_expected_panic': tot('paths_panic'), 'paths_pruned_by_assumption': tot('paths_pruned'),
            'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
            'solver_s': round(tot('solver_s'), 2), 'slowest_query_s': max([j.get('solver_max_s', 0) or 0 for j in res] or [0]),
            'solvers': sorted({j.get('solver', '') for j in res}),
            'assertions_checked': tot('asserts'), 'assertions_decided_by_solver': tot('asserts_symbolic'),
            'decided_by_interval': tot('by_range'),
            'reached': {'%s:%s' % k: n for k, n in sorted(reached.items())},
            'runs': [dict(harness=j['entry'], case=j['case'], solver=j['label'].strip() or 'default', paths=j.get('paths_ok', 0), queries=j.get('queries', 0), wall_s=j.get('wall_s')) for j in res],
            'runs_not_needed_after_a_violation': ['%s:%s' % (j['entry'], j['case']) for j in res if j.get('skipped')],
            'known_findings_seen': sorted(kfs), 'inconclusive': bad[:20],
            'cross_check': [dict(harness=j['entry'], case=j['case'], agreed=not j['violations'], unanswered=len(j['inconclusive']) + (j.get('unknown') or 0)) for j in res if j['label']],
        },
    }
    if not only:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', PID + '.json'), 'w'), indent=1)
    print('%s %s: %d harness runs, %d paths, %d queries (%d unknown), solver %.1f s, %d traces replayed, wall %.1f s' % (PID, TIER, len(res), ev['coverage']['paths_completed'], tot('queries'), tot('unknown'), tot('solver_s'), ev['coverage']['traces_validated_against_impl'], time.time() - T0))
    sys.exit(1 if viol else 2 if bad else 0)
main()
