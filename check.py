#!/usr/bin/env python3
"""Decide one property of /repo by solver-based symbolic execution.

  check.py C03              run the check (tier from VERIF_TIER, default quick)
  check.py C03 --replay F   run one counterexample file against the real code

The property's harness (harness/<id>.py) is run by Jython, the interpreter the
repository runs under, in several worker processes that share its cases.  A
suspected violation is reported only after a fresh Jython process, with no
proxies and no stubs beyond the missing third-party packages, has reproduced
it on the real code.
"""
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MAIN = os.path.join(HERE, 'harness', 'main.py')
JYTHON = '/opt/py2/bin/jython'

# id -> (workers, quick seconds, thorough seconds)
CFG = {
    'default': (6, 150, 1500),
}


def cfg(pid):
    c = dict(CFG)
    f = os.path.join(HERE, 'harness', 'cfg.json')
    if os.path.exists(f):
        c.update(json.load(open(f)))
    return c.get(pid, c['default'])


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['JYTHONPATH'] = '/opt/py2/lib'
    e.setdefault('VERIF_REPO', '/repo')
    e['JAVA_TOOL_OPTIONS'] = '-Xmx3g -Xss32m -XX:+UseSerialGC'
    return e


def jython(args, cwd, log):
    return subprocess.Popen([JYTHON, MAIN] + args, cwd=cwd,
                            env=env(), stdin=subprocess.DEVNULL,
                            stdout=log, stderr=log, start_new_session=True)


def end(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def replay(mod, cexfile, scratch, seconds=180):
    cwd = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(cwd, 'replay.out')
    with open(os.path.join(cwd, 'log'), 'wb') as log:
        p = jython([mod, 'replay', cexfile, out], cwd, log)
        try:
            p.wait(seconds)
        except subprocess.TimeoutExpired:
            end(p)
            return {'violated': None, 'observed': 'replay process timed out'}
        end(p)
    if not os.path.exists(out):
        return {'violated': None, 'observed': 'replay process failed: ' +
                open(os.path.join(cwd, 'log'), errors='replace').read()[-2000:]}
    return json.load(open(out))


def known(pid):
    f = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line and not line.startswith('#'):
                k = json.loads(line)
                if k.get('property') == pid and k.get('status') == 'known':
                    r.append(k)
    return r


def selftest():
    """The tools the checks need are here and answer."""
    r = subprocess.run(['z3-new', '-in'], input='(declare-fun x () Real)(assert (= (* x x) 2))(check-sat)',
                       stdout=subprocess.PIPE, universal_newlines=True)
    if r.stdout.strip() != 'sat':
        sys.stderr.write('z3-new does not answer: %r\n' % r.stdout)
        return 2
    r = subprocess.run([JYTHON, '-c', 'import sympy, z3rcf; print 6 * 7'], env=env(), stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, universal_newlines=True, cwd=tempfile.gettempdir())
    if '42' not in r.stdout:
        sys.stderr.write('jython does not answer: %r\n' % r.stdout)
        return 2
    print('ready')
    return 0


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        return selftest()
    mod = pid.lower()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            r = replay(mod, os.path.abspath(sys.argv[3]), scratch)
            print(json.dumps(r, indent=1))
            return 1 if r.get('violated') else 0
        return check(pid, mod, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, mod, tier, seed, t0, scratch):
    nw, q, th = cfg(pid)
    nw = max(1, min(nw, os.cpu_count() or 2))
    secs = q if tier == 'quick' else th
    procs = []
    os.mkdir(os.path.join(scratch, 'claims'))
    for k in range(nw):
        cwd = os.path.join(scratch, 'w%d' % k)
        os.mkdir(cwd)
        spec = {'tier': tier, 'seed': seed, 'claims': os.path.join(scratch, 'claims'),
                'deadline': t0 + secs, 'out': os.path.join(scratch, 'out%d.jsonl' % k)}
        sf = os.path.join(cwd, 'spec.json')
        json.dump(spec, open(sf, 'w'))
        log = open(os.path.join(scratch, 'log%d' % k), 'wb')
        procs.append(jython([mod, 'run', sf], cwd, log))
    # ---- counterexamples
    cexdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(cexdir, exist_ok=True)
    for f in glob.glob(os.path.join(cexdir, pid + '_*.json')):
        os.remove(f)
    violations, findings = [], []
    kn = known(pid)
    tried = {}

    def confirm(b, n):
        path = os.path.join(cexdir, '%s_%d.json' % (pid, n))
        json.dump(b, open(path, 'w'), indent=1)
        r = replay(mod, path, scratch, 400 if 'earlier' in b else 180)
        if not r.get('violated'):
            sys.stderr.write('not reproduced in a fresh process: %s -> %s\n' % (path, str(r)[:600]))
            return False
        hit = [k for k in kn if k.get('sig') and k['sig'] == r.get('sig')]
        if hit:
            findings.append(hit[0])
        else:
            violations.append((path, r))
        return True

    hard = t0 + secs + 150

    def outputs(k):
        f = os.path.join(scratch, 'out%d.jsonl' % k)
        if os.path.exists(f):
            for line in open(f):
                try:
                    yield json.loads(line)
                except ValueError:
                    continue

    def sig_of(b):
        return (b.get('replay') or {}).get('sig') or json.dumps(b.get('inputs'))

    try:
        # stop as soon as one violation is confirmed
        while time.time() < hard and not violations and [p for p in procs if p.poll() is None]:
            time.sleep(1)
            new = [b for k in range(nw) for r in outputs(k) for b in r.get('bad', [])
                   if sig_of(b) not in tried and not [x for x in kn if x.get('sig') == sig_of(b)]]
            if new and len(tried) < 3:
                alone = dict(new[0])
                alone.pop('earlier', None)
                tried[sig_of(alone)] = confirm(alone, len(tried) + 1)
    finally:
        for p in procs:
            end(p)
            p.wait()
    meta, recs, cases = {}, [], 0
    ran = {}
    for k in range(nw):
        for r in outputs(k):
            if 'meta' in r:
                meta = r['meta']
                cases = r['cases']
            elif 'functions' in r:
                meta.setdefault('executed', [])
                meta['executed'] = sorted(set(meta['executed']) | set(r['functions']))
            else:
                ran.setdefault(k, []).extend([r['id'], i] for i in r.pop('ran', []))
                for b in r.get('bad', []):
                    b['worker'] = k
                recs.append(r)
    if not recs:
        sys.stderr.write('no worker produced a result\n')
        for k in range(nw):
            f = os.path.join(scratch, 'log%d' % k)
            sys.stderr.write(open(f, errors='replace').read()[-3000:])
        return 2

    # inputs that carry their own history first
    bad = [b for r in recs for b in r.get('bad', [])]
    seen = set()
    nonrepro = len([1 for v in tried.values() if not v])
    bad.sort(key=lambda b: not (b.get('inputs') or {}).get('before'))
    todo = []
    for b in bad:
        sig = sig_of(b)
        if sig in seen:
            continue
        seen.add(sig)
        hit = [k for k in kn if k.get('sig') and k['sig'] == sig]
        if hit:
            findings.append(hit[0])
        else:
            todo.append(b)
    n = len(tried)
    for b in [] if violations else [b for b in todo if sig_of(b) not in tried][:4]:
        n += 1
        alone = dict(b)
        alone.pop('earlier', None)
        if not confirm(alone, n):
            nonrepro += 1
        if violations:
            break
    # it failed in a worker but not alone: does it fail after what that worker ran before?
    for b in [] if violations or findings else todo[:2]:
        n += 1
        with_history = dict(b, earlier=ran.get(b['worker'], [])[:b.get('earlier', 0)])
        if with_history['earlier'] and confirm(with_history, n):
            break

    # ---- evidence
    def tot(k):
        return sum(r.get(k, 0) or 0 for r in recs)

    def stat(k):
        return sum((r.get('stats') or {}).get(k, 0) for r in recs)
    done = [r for r in recs if 'paths' in r]
    errors = [r for r in recs if 'error' in r]
    skipped = [r['id'] for r in recs if r.get('skipped')]
    seen_ids = set(r['id'] for r in recs)
    cut = [r['id'] for r in done if r.get('cut')]
    unres = [{'case': r['id'], 'paths': r['unresolved'], 'why': r['unresolved_why'][:2]}
             for r in done if r.get('unresolved')]
    cov = {
        'states': tot('paths'),
        'transitions': stat('branches'),
        'traces_validated_against_impl': tot('validated'),
        'samples': [dict(case=r['id'], **(r['sample'] or {})) for r in done if r.get('sample')][:6],
        'explanation': 'states = symbolic paths of the real code, each covering every value of the '
                       'symbolic inputs that satisfies its path condition; transitions = branch '
                       'decisions put to the solver',
        'functions_encoded': meta.get('functions', []),
        'functions_executed_symbolically': meta.get('executed', []),
        'bounds': meta.get('bounds', {}).get(tier, meta.get('bounds')),
        'outside_the_claim': meta.get('outside', []),
        'cases': cases,
        'cases_finished': len(done) - len(cut),
        'cases_cut_by_time': cut,
        'cases_without_a_path': [r['id'] for r in done if not r.get('paths') and not r.get('validated')],
        'cases_not_started': skipped + ['%d unclaimed' % (cases - len(seen_ids))] * (cases > len(seen_ids)),
        'paths_decided': tot('ok'),
        'paths_unresolved': tot('unresolved'),
        'unresolved': unres[:10],
        'not_reproduced': tot('nonrepro') + nonrepro,
        'pruned_infeasible': stat('pruned'),
        'branches_decided_without_solver': stat('memo'),
        'solver': 'z3-new (z3 5.3.2), SMT-LIB2 over a pipe',
        'solver_queries': stat('queries'),
        'solver_sat': stat('sat'), 'solver_unsat': stat('unsat'),
        'solver_unknown': stat('unknown'),
        'solver_s': round(stat('solver_s'), 2),
        'harness_errors': [{'case': r['id'], 'error': r['error'], 'tb': r['tb'][-800:]} for r in errors][:5],
        'known_findings': [k['text'] for k in findings],
        'exhaustive': False,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': cov, 'assumptions': meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))

    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    for r in errors[:3]:
        sys.stderr.write('harness error in case %s: %s\n%s\n' % (r['id'], r['error'], r['tb'][-1500:]))
    print('%s %s: %d/%d cases, %d paths (%d decided, %d unresolved), %d queries (%d unknown), '
          '%d models replayed, %.1f s' %
          (pid, tier, cov['cases_finished'], cases, cov['states'], cov['paths_decided'],
           cov['paths_unresolved'], cov['solver_queries'], cov['solver_unknown'],
           cov['traces_validated_against_impl'], ev['wall_s']))
    if violations:
        path, r = violations[0]
        print('observed: %s' % str(r.get('observed'))[:1500])
        print('expected: %s' % str(r.get('expected'))[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if cov['paths_decided'] == 0 and cov['traces_validated_against_impl'] == 0:
        sys.stderr.write('nothing was decided\n')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
