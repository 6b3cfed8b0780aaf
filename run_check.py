#!/opt/venv/bin/python
"""run_check.py <property> [--tier quick|thorough] [--case NAME] [--replay FILE]

Decides one property of /repo's current working tree.  Exit 0: held on everything explored; 1: violated (a VIOLATION line);
2: the check could not decide."""
import argparse
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OMP_NUM_THREADS', '1')
T0 = time.time()

from vlib import boot  # noqa: E402
from vlib import core, harness, session, tfsem, npsym  # noqa: E402,F401
from vlib.core import STATS  # noqa: E402

MODULES = ['c_ops', 'c_types', 'c_models', 'c_pitf', 'c_data', 'c_life']


def load(prop):
    for m in MODULES:
        if not os.path.exists(os.path.join(boot.VERIF, 'checks', m + '.py')):
            continue
        mod = importlib.import_module('checks.' + m)
        if prop in mod.PROPS:
            return mod.PROPS[prop]
    raise SystemExit('unknown property %s' % prop)


def watch_functions():
    """Records which functions of the code under test were executed symbolically."""
    mon = sys.monitoring
    seen = STATS.functions
    root = os.path.join(boot.REPO, 'tensorD')

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add('%s:%s' % (os.path.relpath(code.co_filename, boot.REPO), code.co_qualname))
        return mon.DISABLE
    try:
        mon.use_tool_id(2, 'vcheck')
        mon.register_callback(2, mon.events.PY_START, start)
        mon.set_events(2, mon.events.PY_START)
    except ValueError:
        pass


def worker(case, seed, wfd):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30)) if False else None
    watch_functions()
    try:
        out = harness.run_case(case, seed, deadline=time.time() + case.timeout * 0.85)
    except MemoryError:
        out = harness.Outcome()
        out.inconclusive.append('out of memory')
    except BaseException as e:
        out = harness.Outcome()
        out.inconclusive.append('internal error: %s' % traceback.format_exc()[-1500:])
        if isinstance(e, KeyboardInterrupt):
            raise
    res = dict(out=out.__dict__, stats={k: v for k, v in STATS.__dict__.items()})
    data = pickle.dumps(res)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)


def run_pool(cases, seed, jobs, budget):
    """Each case in its own forked process."""
    pending = sorted(cases, key=lambda c: -c.weight)
    running, results = {}, []
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            c = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    os.setpgid(0, 0)
                    worker(c, seed, w)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(w)
            running[r] = (pid, c, time.time(), bytearray())
        if stop and not running:
            break
        rd, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for fd in rd:
            pid, c, t, buf = running[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buf.extend(chunk)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            if buf:
                d = pickle.loads(bytes(buf))
                results.append((c, d['out'], d['stats'], now - t))
                if d['out']['violation']:
                    stop = True
            else:
                results.append((c, None, None, now - t))
        for fd in list(running):
            pid, c, t, buf = running[fd]
            if now - t > c.timeout or (stop and now - t > 20) or now - T0 > budget:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                del running[fd]
                if not stop:
                    results.append((c, None, None, now - t))
        if now - T0 > budget:
            for c in pending:
                results.append((c, None, None, 0))
            pending = []
        if stop:
            pending = []
    return results


def known(prop):
    out = []
    p = os.path.join(boot.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                d = dict(x.split('=', 1) for x in line.split(' | ')[1:])
                out.append((d.get('case'), d.get('obligation'), line.split(' | ')[0]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = load(a.prop)
    cases = spec['cases'](a.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    if a.replay:
        d = json.load(open(a.replay))
        c = [c for c in cases if c.name == d['case']][0]
        h = harness.replay_once(c, d['values'], d['seed'], d.get('deep', 0), d.get('edges', ()), dict(c.params, **{k: tuple(v) if isinstance(v, list) else v for k, v in d['params'].items()}) if d.get('params') else None, d.get('style'))
        print('case %s, obligation: %s' % (d['case'], d['obligation']))
        for f in (h.failures if h else ['?']):
            print('  ' + f)
        return 1 if h and h.failures else 0
    budget = 830 if a.tier == 'quick' else 6 * 3600
    if a.tier == 'thorough':
        for c in cases:
            c.timeout *= 4
            c.qtime *= 3
    results = run_pool(cases, seed, a.jobs, budget)
    tot = dict(obligations=0, discharged=0, paths=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, ops=0, states=0,
               validated=0, vacuity=0, race_pairs=0, schedule_queries=0, forks=0, feas=0)
    ops, functions, samples, inconclusive, violations, quietly = {}, set(), [], [], [], []
    kn = known(a.prop)
    for c, out, st, dt in sorted(results, key=lambda r: r[0].name):
        if out is None:
            inconclusive.append('%s: no answer within %.0f s' % (c.name, dt))
            continue
        for k in ('obligations', 'discharged', 'paths', 'validated', 'vacuity'):
            tot[k] += out[k]
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'ops', 'forks', 'feas'):
            tot[k] += st[k]
        tot['states'] += st.get('states', 0)
        tot['race_pairs'] += st.get('race_pairs', 0)
        tot['schedule_queries'] += st.get('schedule_queries', 0)
        for k, v in st['op_types'].items():
            ops[k] = ops.get(k, 0) + v
        functions |= st['functions']
        if out['violation']:
            v = out['violation']
            hit = [x for x in kn if x[0] == v['case'] and x[1] == v['obligation']]
            if hit:
                quietly.append(hit[0][2])
            else:
                violations.append((c, v))
        for s in out['inconclusive']:
            inconclusive.append('%s: %s' % (c.name, s))
        if out['sample'] and len(samples) < 6:
            samples.append('%s: %s (unsat: holds for all values)' % (c.name, out['sample']))
        if a.v:
            print('%-60s %5.1fs ob=%d/%d paths=%d val=%d q=%d %s' % (c.name, dt, out['discharged'], out['obligations'], out['paths'],
                                                                    out['validated'], st['queries'], 'VIOL' if out['violation'] else ''))
    wall = time.time() - T0
    ev = dict(property=a.prop, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
              coverage=dict(states=tot['paths'], transitions=tot['ops'], traces_validated_against_impl=tot['validated'],
                            samples=samples or ['none'], exhaustive=False,
                            obligations=tot['obligations'], discharged=tot['discharged'],
                            cases=[c.name for c in cases][:400],
                            bounds=spec['bounds'], outside=spec.get('outside', ''),
                            functions_encoded=sorted(functions), operation_types=dict(sorted(ops.items())),
                            solver=dict(name='z3 %s' % boot.z3.get_version_string(), queries=tot['queries'], unsat=tot['unsat'],
                                        sat=tot['sat'], unknown=tot['unknown'], seconds=round(tot['solver_s'], 2)),
                            symbolic_session_runs=tot['states'], path_forks=tot['forks'], feasibility_queries=tot['feas'],
                            reachability_witnesses=tot['vacuity'], variable_access_pairs=tot['race_pairs'], schedule_queries=tot['schedule_queries'],
                            inconclusive=inconclusive[:20]),
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(boot.VERIF, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for q in sorted(set(quietly)):
        print('KNOWN-FINDING: ' + q.split('finding: ', 1)[1])
    if violations:
        c, v = violations[0]
        path = os.path.join(boot.VERIF, 'evidence', 'replay', '%s.json' % a.prop)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('case %s\nobligation: %s (solver: %s)' % (v['case'], v['obligation'], v['verdict']))
        for x in v['failures']:
            print('  real code: ' + x)
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s' % a.prop)
        for x in inconclusive[:20]:
            print('  ' + x)
        return 2
    print('OK property=%s: %d obligations in %d cases, %d paths, %d queries (%.1f s solver), %d validated, %.1f s' % (
        a.prop, tot['obligations'], len(cases), tot['paths'], tot['queries'], tot['solver_s'], tot['validated'], wall))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
