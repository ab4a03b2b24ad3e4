#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough]: decide one property on /repo's current tree by symbolic execution."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from props import PROPS

ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--job'); ap.add_argument('-v', action='store_true'); ap.add_argument('--nonative', action='store_true')
A = ap.parse_args(); SEED = int(os.environ.get('VERIF_SEED', '1') or 1); THOROUGH = A.tier == 'thorough'
ID = A.property; P = PROPS[ID]; T0 = time.time()
EVID = os.environ.get('BNL_EVID', os.path.join(vlib.ROOT, 'evidence')); os.makedirs(EVID, exist_ok=True)
REPLAY = os.path.join(vlib.BUILD, 'replay'); os.makedirs(REPLAY, exist_ok=True)
DEADLINE = T0 + (7200 if THOROUGH else 780)

def known():
    p = os.path.join(vlib.ROOT, 'known_findings.json')
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == ID] if os.path.exists(p) else []

def matches(k, j, v): return k.get('entry') in (None, j['entry']) and k.get('kind') in (None, v['kind']) and re.search(k.get('msg', ''), v['msg']) and re.search(k.get('stack', ''), v['stack'])

try: SYMX = vlib.engine(); B = vlib.Build()
except Exception as e: print('ERROR: cannot build: %s' % e); sys.exit(2)

def expand(j):
    """A job may list several parameter values: one sub-job each."""
    p = dict(j.get('p', {}));
    if THOROUGH: p.update(j.get('tp', {}))
    out = [{}]
    for k, v in p.items():
        vs = list(v) if isinstance(v, (list, tuple, range)) else [v]
        out = [dict(o, **{k: x}) for o in out for x in vs]
    return out

JOBS = []
for j in P['jobs']:
    if j.get('thorough_only') and not THOROUGH: continue
    for pr in expand(j):
        if A.job and A.job not in j['entry']: continue
        JOBS.append(dict(j, params=pr, name=j['entry'] + ''.join('.%s%s' % kv for kv in sorted(pr.items()))))

def run_native(exe, j, inputs, valgrind=False, timeout=120):
    f = tempfile.NamedTemporaryFile('w', suffix='.hex', delete=False); f.write('\n'.join(i if i else '-' for i in inputs) + '\n'); f.close()
    cmd = [exe, '-entry', j['entry']] + sum((['-p', '%s=%d' % kv] for kv in j['params'].items()), []) + (['-single'] if valgrind else []) + [f.name]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99', '--track-origins=no'] + cmd
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=2048', UBSAN_OPTIONS='abort_on_error=1')
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env); out, err, rc = r.stdout.decode('latin1'), r.stderr.decode('latin1'), r.returncode
    except subprocess.TimeoutExpired as e: out, err, rc = (e.stdout or b'').decode('latin1') + '\nCRASH timeout\n', '', -1
    os.unlink(f.name); runs = []
    for l in out.splitlines():
        if l.startswith('RUN '): runs.append({'trace': [], 'checks': [], 'crash': None, 'end': False, 'pruned': False})
        elif not runs: continue
        elif l.startswith('T '): runs[-1]['trace'].append(l[2:])
        elif l.startswith('CHECK '): runs[-1]['checks'].append(l[6:])
        elif l.startswith('CRASH'): runs[-1]['crash'] = l
        elif l == 'END': runs[-1]['end'] = True
        elif l == 'PRUNED': runs[-1]['pruned'] = True
        elif l.startswith('UNDEFINED'): runs[-1]['crash'] = l
    return runs, err, rc

STOP = threading.Event() # set once a violation is confirmed: what is left to explore cannot change the answer
def skipped(j): return dict(name=j['name'], skipped=True)

def do_job(j):
    if STOP.is_set(): return skipped(j)
    t = time.time(); lib = j.get('lib', 'http3')
    bc = B.ir(j['h'], lib)
    work = tempfile.mkdtemp(prefix='symx-'); out = os.path.join(work, 'o.json')
    budget = j.get('ttime' if THOROUGH else 'time', 900 if THOROUGH else 240); budget = max(5, min(budget, DEADLINE - time.time()))
    cmd = [SYMX, bc, '-entry', j['entry'], '-o', out, '-time', str(budget), '-seed', str(SEED), '-samples', str(j.get('samples', 24)), '-maxviol', str(j.get('maxviol', 6)), '-instr', str(j.get('instr', 6000000)), '-qtimeout', '60000']
    for kv in j['params'].items(): cmd += ['-p', '%s=%d' % kv]
    if THOROUGH: cmd += ['-dump', work, '-dumpevery', '50']
    if not known(): cmd += ['-violtime', '15'] # the rest of a job that failed is explored only briefly
    r = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); r.stdout_ = None
    while r.stdout_ is None:
        try: r.stdout_ = r.communicate(timeout=0.25 if time.time() - t < 5 else 1)[0]
        except subprocess.TimeoutExpired:
            if STOP.is_set(): r.kill(); r.communicate(); shutil.rmtree(work); return skipped(j)
    r = subprocess.CompletedProcess(cmd, r.returncode, r.stdout_)
    if r.returncode or not os.path.exists(out): shutil.rmtree(work); return dict(name=j['name'], error='executor failed (%d): %s' % (r.returncode, r.stdout[-1500:]))
    res = json.load(open(out)); res['name'] = j['name']; res['stderr'] = r.stdout[-800:]
    # cross-check dumped queries with a second solver
    if THOROUGH:
        ok = bad = unk = 0
        for q in sorted(glob.glob(os.path.join(work, '*.smt2'))):
            want = open(q + '.res').read().strip() if os.path.exists(q + '.res') else 'unknown'
            try: got = subprocess.run(['cvc5', '--tlimit=60000', q], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=90).stdout.strip().split('\n')[0]
            except subprocess.TimeoutExpired: got = 'unknown'
            if got not in ('sat', 'unsat') or want == 'unknown': unk += 1
            elif got == want: ok += 1
            else: bad += 1
        res['cross'] = dict(agree=ok, disagree=bad, unknown=unk)
    shutil.rmtree(work)
    # encoding validation: replay sampled inputs on the natively compiled code
    res['confirmed'] = []; res['unconfirmed'] = []; res['mismatch'] = []; res['validated'] = 0
    if not A.nonative:
        exe = B.native(j['h'], lib, 'asan')
        sm = res['samples']
        if sm:
            runs, err, rc = run_native(exe, j, [s['in'] for s in sm])
            for s, n in zip(sm, runs):
                if n['crash']: res['violations'].append(dict(kind='native-crash', msg='the native build fails (%s) on an input whose symbolic path ends normally' % n['crash'], stack=err[-1500:], input=s['in'], syms=[], notes=[]))
                elif n['checks']: res['violations'].append(dict(kind='check', msg=n['checks'][0], stack='(native)', input=s['in'], syms=[], notes=[]))
                elif n['trace'] != s['trace'] or not n['end']: res['mismatch'].append(dict(input=s['in'], symbolic=s['trace'], native=n['trace'], end=n['end'], pruned=n['pruned']))
                else: res['validated'] += 1
            if len(runs) != len(sm): res['mismatch'].append(dict(error='native run incomplete', stderr=err[-500:]))
        for v in res['violations']:
            runs, err, rc = run_native(exe, j, [v['input']]); n = runs[0] if runs else dict(crash='no output', checks=[])
            if v['kind'] == 'uninit' and not (n['crash'] or n['checks']):
                pl = B.native(j['h'], lib, 'plain'); runs, err, rc = run_native(pl, j, [v['input']], valgrind=True)
                if rc == 99 or any(x['crash'] for x in runs): n = dict(crash='valgrind reports use of uninitialised memory', checks=[])
            if v['kind'] == 'check' and v['msg'] in n['checks']: v['native'] = 'CHECK ' + v['msg']; res['confirmed'].append(v)
            elif n['crash'] or n['checks']: v['native'] = n['crash'] or 'CHECK ' + n['checks'][0]; v['native_err'] = err[-1500:]; res['confirmed'].append(v)
            else: res['unconfirmed'].append(v)
    else: res['confirmed'] = res['violations']
    res['wall'] = time.time() - t
    if any(not any(matches(k, j, v) for k in known()) for v in res['confirmed']): STOP.set()
    return res

def _safe(j):
    try: return do_job(j)
    except Exception as e: return dict(name=j['name'], error=str(e)[-3000:])
order = sorted(range(len(JOBS)), key=lambda i: -JOBS[i].get('weight', 1))
with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
    fut = {i: ex.submit(_safe, JOBS[i]) for i in order}; results = [(JOBS[i], fut[i].result()) for i in range(len(JOBS))]

rc = 0; kf = known(); errors = []; viol = []; reach = {}; inc = {}; fns = {}; tot = {}
for j, r in results:
    if r.get('skipped'): inc.setdefault(r['name'], {})['skipped-after-violation'] = 1; continue
    if 'error' in r: errors.append('%s: %s' % (r['name'], r['error'])); continue
    for k in ('paths', 'pruned', 'forks', 'instructions', 'branches', 'symbolic_branches', 'asserts_discharged', 'safety_conditions', 'queries', 'solver_calls', 'sat', 'unsat', 'unknown', 'cache_hits', 'model_hits', 'solver_s', 'validated'): tot[k] = tot.get(k, 0) + r[k]
    tot['max_query_s'] = max(tot.get('max_query_s', 0), r['max_query_s']); tot['max_symbolic_bytes'] = max(tot.get('max_symbolic_bytes', 0), r['max_symbolic_bytes'])
    for k, v in r['reach'].items(): reach[j['entry'] + ':' + k] = reach.get(j['entry'] + ':' + k, 0) + v
    for k, v in r['incomplete'].items(): inc.setdefault(r['name'], {})[k] = v
    for n, c, t in r['functions']: fns[n] = [max(c, fns.get(n, [0, 0])[0]), t]
    for v in r['confirmed']: viol.append((j, r, v))
    for m in r['mismatch']: errors.append('%s: encoding mismatch: %s' % (r['name'], json.dumps(m)[:600]))
    if r.get('cross', {}).get('disagree'): errors.append('%s: a second solver disagrees on %d queries' % (r['name'], r['cross']['disagree']))
    if 'ENGINE' in r.get('stderr', ''): errors.append(r['name'] + ': ' + r['stderr'])

seen_known = set(); reported = set()
for j, r, v in viol:
    k = next((k for k in kf if matches(k, j, v)), None)
    if k:
        if k['id'] not in seen_known: print('KNOWN-FINDING: property=%s %s' % (ID, k['what'])); seen_known.add(k['id'])
        continue
    key = (v['kind'], v['msg'], j['entry'])
    rp = os.path.join(REPLAY, '%s-%s-%d.json' % (ID, re.sub(r'\W+', '_', j['name'])[:80], len(reported)))
    json.dump(dict(property=ID, harness=j['h'], entry=j['entry'], params=j['params'], input=v['input'], symbols=v['syms'], kind=v['kind'], message=v['msg'], stack=v['stack'], notes=v['notes'], native=v.get('native')), open(rp, 'w'), indent=1)
    if key in reported: continue
    reported.add(key); rc = 1
    print('VIOLATION property=%s replay=%s' % (ID, rp)); print('  job %s: %s: %s\n  input %s  notes %s\n  native: %s\n%s' % (j['name'], v['kind'], v['msg'], v['input'], v['notes'], v.get('native'), v['stack']))
    if A.v: print(v.get('native_err', ''))
unconf = [(r['name'], v) for j, r in results if 'violations' in r for v in r['unconfirmed']]
for n, v in unconf: print('NOTE: counterexample not reproduced natively, not reported: %s %s: %s input %s\n%s' % (n, v['kind'], v['msg'], v['input'], v['stack']))
missing = []
for j in P['jobs']:
    if j.get('thorough_only') and not THOROUGH or (A.job and A.job not in j['entry']): continue
    for l in j.get('reach', []):
        if not reach.get(j['entry'] + ':' + l): missing.append(j['entry'] + ':' + l)
if missing and not rc:
    print('NOTE: witness not reached: %s' % ', '.join(missing))
    if not inc: errors.append('vacuous: nothing reaches ' + ', '.join(missing))
seen = set()
for e in errors:
    m = e.split(': ', 1)[-1]
    if m not in seen and len(seen) < 8: print('ERROR: ' + e[:1800])
    seen.add(m)
if errors and rc == 0: rc = 2
for n, d in inc.items(): print('NOTE: %s: bounded exploration incomplete: %s' % (n, d))

wall = time.time() - T0
repo_fns = {n: c for n, c in fns.items()}
cov = dict(states=tot.get('forks', 0) + len(JOBS), transitions=tot.get('symbolic_branches', 0), traces_validated_against_impl=tot.get('validated', 0),
  samples=[dict(job=r['name'], paths=r['paths'], input=s['in'], observed=s['trace'][:32]) for j, r in results if 'violations' in r for s in r['samples'][:1]][:12],
  exhaustive=not inc and not errors, explanation='states: symbolic states (forks); transitions: symbolic branch decisions settled by the solver; traces: sampled path inputs whose observable trace was reproduced by the natively compiled code',
  jobs=[dict(job=r['name'], paths=r.get('paths'), queries=r.get('queries'), solver_s=r.get('solver_s'), wall_s=round(r.get('wall', 0), 1), incomplete=r.get('incomplete'), cross_checked=r.get('cross')) for j, r in results],
  functions_encoded={n: '%d/%d blocks' % tuple(c) for n, c in sorted(repo_fns.items())}, bounds=P['bounds'], outside_bounds=P.get('outside', ''), totals=tot, reach=reach, incomplete=inc, unconfirmed=len(unconf), known_findings=sorted(seen_known), errors=errors)
json.dump(dict(property=ID, tier=A.tier, seed=SEED, level='model_checking', coverage=cov, wall_s=round(wall, 2)), open(os.path.join(EVID, ID + '.json'), 'w'), indent=1)
print('%s %s: %d jobs, %d paths, %d queries (%d solver calls, %.1fs), %d assertions discharged, %d traces validated, %.1fs wall%s' % (ID, {0: 'holds within bounds', 1: 'VIOLATED', 2: 'no answer'}[rc], len(JOBS), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_calls', 0), tot.get('solver_s', 0), tot.get('asserts_discharged', 0), tot.get('validated', 0), wall, '' if not inc else ' (INCOMPLETE)'))
sys.exit(rc)
