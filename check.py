#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]: decide one property on the current /repo tree.

exit 0: every obligation generated from the current source was discharged;
exit 1: VIOLATION line; anything else is an error of the check."""
import argparse, importlib, json, multiprocessing as mp, os, queue, random, resource, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from engine import verify, solver, astload, jy
from engine.jy import REPO, server

NPROC = int(os.environ.get('VERIF_PROCS', '8'))


def child(fn, args, conn):
    def go():
        try:
            jy.server.p = None
            jy.server.link = None
            r = ('ok', fn(*args))
        except BaseException:
            r = ('err', traceback.format_exc())
        try:
            conn.send(r)
        except Exception:
            conn.send(('err', 'result could not be sent: %s' % traceback.format_exc()))
        conn.close()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        jy.server.stop()
    except Exception:
        pass
    os._exit(0)


def pool(jobs, limit, stop=None, deadline=None):
    """jobs: list of (key, fn, args, timeout). -> {key: result}; stop(key, result) ends early,
    and so does the deadline (a time)"""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    run = {}
    out = {}
    done = False
    while (todo and not done) or run:
        while todo and not done and len(run) < limit:
            k, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(fn, args, b))
            p.start()
            b.close()
            run[k] = (p, a, time.time() + to)
        mp.connection.wait([v[1] for v in run.values()], 0.5)
        if deadline is not None and time.time() > deadline:
            for q in list(run):
                kill_tree(run[q][0].pid)
                run[q][0].join()
                out[q] = ('err', 'stopped: the time for this check is used up')
            for k, fn, args, to in todo:
                out[k] = ('err', 'not started: the time for this check is used up')
            return out
        for k, (p, a, dl) in list(run.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = ('err', 'worker ended without a result')
            elif time.time() > dl:
                r = ('err', 'worker timed out')
            if r is not None:
                if p.is_alive():
                    p.join(3)
                    if p.is_alive():
                        kill_tree(p.pid)
                        p.join()
                a.close()
                del run[k]
                out[k] = r
                if stop and stop(k, r):
                    done = True
                    for q in list(run):
                        kill_tree(run[q][0].pid)
                        run[q][0].join()
                    return out
    return out


def kill_tree(pid):
    import signal, subprocess
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], capture_output=True, text=True).stdout.split()
    except Exception:
        kids = []
    for k in kids + [str(pid)]:
        try:
            os.kill(int(k), signal.SIGKILL)
        except Exception:
            pass


def load_prop(pid):
    name = None
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            name = f[:-3]
    if name is None:
        raise SystemExit('no contract file for %s' % pid)
    return importlib.import_module('contracts.' + name)


def files_of(mod):
    return [os.path.join(REPO, f) for f in mod.FILES]


def job_prove(modname, hname, enabled, tier):
    mod = importlib.import_module(modname)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    h = {x.name: x for x in mod.HARNESSES}[hname]
    E = verify.Engine(mod.MODULES)
    if hasattr(mod, 'setup'):
        mod.setup(E)
    sums = {}
    for x in mod.HARNESSES:
        if x.name in enabled and x.summary is not None and x.name != hname:
            sums[x.qual] = x.summary
    budget = h.budget * (4 if tier == 'thorough' else 1)
    r = E.prove(h.fn, h.name, budget=budget, summaries=sums, solver_timeout=h.solver_timeout, unroll_while=h.unroll, maxpaths=h.maxpaths)
    return {'ok': r.ok, 'time': r.time, 'paths': r.paths, 'functions': sorted(r.functions), 'undecided': r.undecided[:20],
            'obls': [(o.name, o.ok, o.why, o.model) for o in r.obls], 'stats': dict(solver.stats),
            'termination': [(q, ln, ok) for (q, ln), ok in sorted(r.termination.items())]}


def job_conform(modname, seed, tier):
    """the real code against the contracts on a few concrete inputs, and the interpreter against the contracts on the same"""
    mod = importlib.import_module(modname)
    consts = verify.source_consts(files_of(mod))
    out = []
    E = None
    for h in mod.HARNESSES:
        if h.real and h.conf:
            n = h.conf * (8 if tier == 'thorough' else 1)
            bad, ran = verify.fuzz(h.fn, '%s/%s/conf' % (seed, h.name), seconds=(90 if tier == 'thorough' else 20), count=n, consts=consts, size=h.size, timeout=h.timeout)
            out.append((h.name, ran, bad))
        if h.selftest and h.prove:
            if E is None:
                E = verify.Engine(mod.MODULES)
                if hasattr(mod, 'setup'):
                    mod.setup(E)
            k = 0
            tries = 0
            while k < h.selftest and tries < 30:
                tries += 1
                rng = random.Random('%s/%s/self/%d' % (seed, h.name, tries))
                g = verify.Random(rng, consts, h.size)
                try:
                    obls = E.concrete(h.fn, g)
                except verify.Skip:
                    continue
                except verify.PathEnd:
                    continue
                except verify.PyRaise as e:
                    out.append((h.name + ':interpreter', k, (g.used, 'no-exception', 'the interpreter raises %s %r' % (e.name, e.value))))
                    break
                except (verify.Unsupported, verify.Budget) as e:
                    out.append((h.name + ':interpreter', -1, None))
                    break
                k += 1
                b = [o for o in obls if not o.ok]
                if b:
                    out.append((h.name + ':interpreter', k, (g.used, b[0].name, 'in the interpreter: %s' % b[0].why)))
                    break
            else:
                out.append((h.name + ':interpreter', k, None))
    return out


def job_search(modname, hname, seed, seconds, first):
    mod = importlib.import_module(modname)
    h = {x.name: x for x in mod.HARNESSES}[hname]
    consts = verify.source_consts(files_of(mod))
    return verify.fuzz(h.fn, seed, seconds=seconds, consts=consts, size=h.size, timeout=h.timeout, first=first)


def jenc(v):
    if isinstance(v, (bytes, bytearray)):
        return {'hex': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [jenc(x) for x in v]
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 2 ** 53:
        return {'int': str(v)}
    return v


def jdec(v):
    if isinstance(v, dict) and 'hex' in v:
        return bytes.fromhex(v['hex'])
    if isinstance(v, dict) and 'int' in v:
        return int(v['int'])
    if isinstance(v, list):
        return [jdec(x) for x in v]
    return v


def write_replay(pid, n, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.json' % (pid, n))
    json.dump(data, open(p, 'w'), indent=1, default=str)
    return p


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: ') and 'property=%s ' % pid in line:
                out.append(line[len('known: '):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = load_prop(a.prop)
    pid = a.prop
    if a.only:
        mod.HARNESSES = [h for h in mod.HARNESSES if h.name in a.only.split(',') or h.summary is not None]
    if a.replay:
        d = json.load(open(a.replay))
        h = {x.name: x for x in mod.HARNESSES}[d['harness']]
        r = verify.run_real(h.fn, verify.Given({k: jdec(v) for k, v in d['inputs'].items()}), h.timeout)
        print('replay of %s: %s' % (d['harness'], 'holds' if r is None else r))
        sys.exit(0 if r is None else 1)
    modname = mod.__name__
    # parse the current sources once; workers inherit the trees
    for m in mod.MODULES:
        fm = astload.find_module(m, '')
        if fm:
            astload.parse(fm[1])
    try:
        verify.Engine(mod.MODULES)     # loads (and parses) what the modules import
    except verify.PyRaise as e:
        print('the modules under verification do not load: %s %s' % (e.name, e.value))
    except Exception as e:
        print('module level outside the supported subset: %s' % e)
    server.stop()
    tier = a.tier
    provable = [h for h in mod.HARNESSES if h.prove]
    # contracts that other proofs rely on first
    deps = [h for h in provable if h.summary is not None]
    rest = [h for h in provable if h.summary is None]
    enabled = set()
    results = {}
    # contracts whose proofs use other contracts come after those
    stage = []
    left = list(deps)
    while left:
        wave = [h for h in left if not any(n in [x.name for x in left] for n in h.needs if n != h.name)]
        wave = wave or left
        stage.append(wave)
        left = [h for h in left if h not in wave]
    stage.append(rest)
    lean = getattr(mod, 'LEAN', ())

    def proof_job(h, names):
        b = h.budget * (4 if tier == 'thorough' else 1)
        return (h.name, job_prove, (modname, h.name, sorted(names), tier), b * 1.5 + 60)

    def broken(k, r):
        """the conformance runs found inputs on which the real code breaks a contract: the rest can be left"""
        return k == '#conf' and r[0] == 'ok' and any(bad and not nm.endswith(':interpreter') for nm, ran, bad in r[1])

    def proved(r):
        return r[0] == 'ok' and r[1]['ok']
    for si, hs in enumerate(stage):
        jobs = []
        if si == 0:
            if lean:
                jobs.append(('#lean', job_lean, (list(lean),), 800))
            jobs.append(('#conf', job_conform, (modname, seed, tier), 400 if tier == 'quick' else 2000))
        for h in sorted(hs, key=lambda h: -h.weight):
            jobs.append(proof_job(h, enabled))
        r = pool(jobs, NPROC, broken, t0 + (430 if tier == 'quick' else 36000))
        results.update(r)
        if '#conf' in results and broken('#conf', results['#conf']):
            break
        for h in hs:
            if h.summary is not None and proved(r[h.name]):
                enabled.add(h.name)
    if enabled:
        # what fails against the contracts of the callees may still hold against their bodies
        again = [h for h in rest if h.name in results and not proved(results[h.name])]
        if again and not broken('#conf', results['#conf']) and (tier != 'quick' or time.time() - t0 < 420):
            for k, r in pool([proof_job(h, ()) for h in again], NPROC, None, t0 + (560 if tier == 'quick' else 60000)).items():
                if proved(r):
                    results[k] = r
    # ---- collect
    conf = results.pop('#conf')
    leanr = results.pop('#lean', None)
    nobl = ndis = 0
    failed = []
    functions = set()
    stats = {'queries': 0, 'time': 0.0, 'unknown': 0}
    per = []
    term = {}
    for h in provable:
        st, r = results.get(h.name, ('err', 'not attempted: the real code breaks a contract'))
        if st == 'err':
            nobl += 1
            failed.append((h, h.name + ':engine', [], r.strip().splitlines()[-1], r))
            per.append({'contract': h.name, 'error': r[-600:]})
            continue
        k = len(r['obls'])
        good = sum(1 for o in r['obls'] if o[1])
        optional = h.summary is not None and h.name not in getattr(mod, 'REQUIRED', ())
        und = r['undecided']
        if not r['ok'] and optional:
            per.append({'contract': h.name, 'what': h.doc, 'not_used': True, 'why': str(([o for o in r['obls'] if not o[1]] or und)[:1])[:300]})
            continue
        nobl += k + len(und)
        ndis += good
        if k == 0:
            nobl += 1
            failed.append((h, h.name + ':vacuous', [], 'no obligation was reached', ''))
        functions |= set(r['functions'])
        for q in ('queries', 'time', 'unknown'):
            stats[q] += r['stats'][q]
        for q, ln, ok in r['termination']:
            term['%s:%s' % (q, ln)] = term.get('%s:%s' % (q, ln), True) and ok
        names = {}
        for o in r['obls']:
            names.setdefault(o[0], [0, 0])
            names[o[0]][0] += 1
            names[o[0]][1] += bool(o[1])
        per.append({'contract': h.name, 'what': h.doc, 'paths': r['paths'], 'obligations': {n: '%d/%d' % (v[1], v[0]) for n, v in names.items()}, 'time': round(r['time'], 2),
                    **({'bounded': h.bounded} if h.bounded else {})})
        bad = [o for o in r['obls'] if not o[1]]
        if bad or und:
            models = [o[3] for o in bad if o[3]]
            why = '; '.join(['%s: %s' % (o[0], o[2]) for o in bad[:3]] + ['%s: %s' % (u[0], u[1]) for u in und[:3]])
            nm = h.name + ':' + (bad[0][0] if bad else 'undecided')
            failed.append((h, nm, models, why, json.dumps([[o[0], o[2]] for o in bad[:20]] + [list(u) for u in und[:20]])))
        if a.v:
            print('  %-40s %s paths=%d obl=%d/%d %.1fs %s' % (h.name, 'ok' if r['ok'] else 'FAILED', r['paths'], good, k + len(und), r['time'], '' if r['ok'] else failed[-1][3][:600]))
    lean_thms = []
    if leanr is not None and broken('#conf', conf):
        pass
    elif leanr is not None:
        if leanr[0] == 'ok' and leanr[1][0]:
            lean_thms = leanr[1][1]
            nobl += len(lean_thms)
            ndis += len(lean_thms)
        else:
            print('lean: %s' % (leanr[1],))
            sys.exit(3)
    conf_runs = 0
    conf_bad = []
    conf_list = []
    if conf[0] == 'ok':
        for nm, ran, bad in conf[1]:
            conf_runs += max(ran, 0)
            conf_list.append({'contract': nm, 'runs': ran})
            if bad:
                conf_bad.append((nm, bad))
            if a.v:
                print('  conformance %-36s runs=%d %s' % (nm, ran, bad or ''))
    else:
        print('conformance step failed: %s' % conf[1][-1500:])
    violations = []
    by = {h.name: h for h in mod.HARNESSES}
    nrep = 0
    for nm, bad in conf_bad:
        inp, clause, detail = bad
        hn = nm.split(':')[0]
        if nm.endswith(':interpreter'):
            # only believed when the real code fails too
            r = verify.run_real(by[hn].fn, verify.Given(dict(inp)), by[hn].timeout)
            if r is None or r[0] == 'skip':
                if not failed:
                    print('INTERNAL: interpreter and real code disagree on %s %s %s' % (nm, clause, detail))
                continue
            clause, detail = r
        nrep += 1
        p = write_replay(pid, nrep, {'property': pid, 'harness': hn, 'obligation': '%s:%s' % (hn, clause), 'detail': detail, 'inputs': {k: jenc(v) for k, v in inp.items()}, 'real_code': True})
        violations.append((p, '%s:%s' % (hn, clause), detail, True))
    if failed and not violations:
        secs = float(os.environ.get('VERIF_SEARCH', '100' if tier == 'quick' else '300'))
        jobs = []
        fh = [f for f in failed if f[0].real]
        names = []
        for f in fh:
            if f[0].name not in names:
                names.append(f[0].name)
        others = [h.name for h in mod.HARNESSES if h.real and h.name not in names]
        i = 0
        for f in fh:
            jobs.append((('m', f[0].name, i), job_search, (modname, f[0].name, '%s/m%d' % (seed, i), secs, f[2]), secs + 120))
            i += 1
        while len(jobs) < NPROC and names:
            jobs.append((('r', i), job_search, (modname, names[i % len(names)], '%s/r%d' % (seed, i), secs, []), secs + 120))
            i += 1
        for n in others[:8]:
            jobs.append((('o', n), job_search, (modname, n, '%s/o' % seed, min(secs, 25), []), secs + 60))
        jobs = jobs[:24]
        hit = []

        def stop(k, r):
            if r[0] == 'ok' and r[1][0] is not None:
                hit.append((k, r[1][0]))
                return True
            return False
        pool(jobs, NPROC, stop, t0 + (820 if tier == 'quick' else 80000))
        jobmap = {j[0]: j[2][1] for j in jobs}
        for k, (inp, clause, detail) in hit:
            nrep += 1
            hn = jobmap[k]
            p = write_replay(pid, nrep, {'property': pid, 'harness': hn, 'obligation': '%s:%s' % (hn, clause), 'detail': detail, 'failed_obligations': [f[1] for f in failed],
                                         'inputs': {k2: jenc(v) for k2, v in inp.items()}, 'real_code': True})
            violations.append((p, '%s:%s' % (hn, clause), detail, True))
        if not hit:
            f = failed[0]
            nrep += 1
            p = write_replay(pid, nrep, {'property': pid, 'harness': f[0].name, 'obligation': f[1], 'detail': f[3], 'verifier_output': [[x[1], x[3], x[4]] for x in failed], 'inputs': {}, 'real_code': False})
            violations.append((p, f[1], f[3], False))
    # termination obligations of cut loops
    nterm = sum(1 for v in term.values() if v)
    probes = []
    for kf, fn in getattr(mod, 'KNOWN', ()):
        probes.append((kf, fn))
    kn = known_findings(pid)
    for kf, fn in probes:
        r = verify.run_real(fn, verify.Given({}), 30)
        if r is not None:
            line = [x for x in kn if kf in x]
            if line:
                print('KNOWN-FINDING: %s' % line[0])
            else:
                nrep += 1
                p = write_replay(pid, nrep, {'property': pid, 'harness': kf, 'obligation': kf, 'detail': str(r), 'inputs': {}, 'real_code': True})
                violations.append((p, kf, str(r), True))
    server.stop()
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
          'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
                       'trusted_base': list(getattr(mod, 'TRUSTED', ())) + TRUSTED,
                       'functions_under_contract': sorted(f for f in functions if '<module' not in f),
                       'contracts': per, 'contracts_used_at_call_sites': sorted(enabled),
                       'back_ends': {'z3_queries': stats['queries'], 'z3_seconds': round(stats['time'], 2), 'z3_unknown': stats['unknown'],
                                     'rest': 'discharged by term normalisation, polynomial reduction and sequence matching',
                                     'lean_theorems': lean_thms},
                       'loops_with_termination_proved': nterm, 'loops_cut': len(term), 'termination': term,
                       'conformance_runs_of_real_code': conf_runs, 'conformance': conf_list,
                       'files': mod.FILES},
          'assumptions': list(getattr(mod, 'ASSUME', ())), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if violations:
        for p, ob, detail, real in violations[:3]:
            print('obligation %s failed: %s' % (ob, str(detail)[:700]))
            print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(p, HERE), '' if real else ' no-failing-input-found'))
        sys.stdout.flush()
        os._exit(1)
    print('%s: %d obligations, %d discharged, %d functions, %d real runs, %.1fs' % (pid, nobl, ndis, len(functions), conf_runs, time.time() - t0))
    sys.stdout.flush()
    if ndis != nobl or nobl == 0:
        print('internal: obligations not discharged')
        os._exit(3)
    os._exit(0)


TRUSTED = [
    'engine/interp.py, builtins2.py, loops.py: the symbolic semantics of the Python 2 subset (cross-checked on every run against Jython on concrete inputs)',
    'engine/ir.py, seqs.py, algebra.py: term normalisation and sequence matching (self-test engine/selftest_ir.py)',
    'z3 4.x (SMT), Jython 2.7.3 (parser of the sources, runs of the real code)',
]


def job_lean(files):
    import subprocess
    thms = []
    for f in files:
        p = subprocess.run(['lean', os.path.join(HERE, 'lean', f)], capture_output=True, text=True, timeout=780)
        if p.returncode != 0 or 'sorry' in p.stdout or 'error' in p.stdout:
            return (False, (p.stdout + p.stderr)[:2000])
        for line in open(os.path.join(HERE, 'lean', f)):
            if line.startswith('theorem '):
                thms.append(f + ':' + line.split()[1].rstrip(':'))
    return (True, thms)


if __name__ == '__main__':
    t = threading.Thread(target=main)
    rc = []

    def run():
        try:
            main()
            rc.append(0)
        except SystemExit as e:
            rc.append(e.code or 0)
        except BaseException:
            traceback.print_exc()
            rc.append(3)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    try:
        server.stop()
    except Exception:
        pass
    os._exit(rc[0] if rc else 3)
