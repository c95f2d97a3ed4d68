#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--case NAME] [-v]

Decides one property by symbolic execution of /repo's current sources.
Exit 0: no violation found; exit 1: VIOLATION line printed (counterexample
reproduced on the real code); exit 2: nothing could be decided.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

PY = sys.executable


def load(prop):
    return importlib.import_module('harness.' + prop.lower())


def same(a, b):
    if a != a and b != b:
        return True
    return abs(a - b) <= 1e-6 + 1e-6 * max(abs(a), abs(b))


def worker(prop, cname, fn, params, opts, q):
    """Explore one case; send a plain-data result."""
    res = dict(case=cname, cands=[], err=None)
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        if not opts.get('verbose'):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
        sys.setrecursionlimit(20000)
        from symx import core, concrete
        h = load(prop)
        f = getattr(h, fn)
        E = core.Engine(f, params, deadline=t0 + opts['budget'],
                        max_paths=opts.get('max_paths', 20000),
                        obl_timeout=opts.get('obl_timeout', 20000))
        E.explore()
        st = E.stats
        for c in E.cands:
            res['cands'].append((c.label, c.model, c.detail))
        # paths the encoding could not follow: run the real code on a model
        for m in E.limit_models[:8]:
            c = concrete.Engine(f, params, m).run()
            for lab, det in c.failures[:1]:
                res['cands'].append((lab, m, 'concretely followed path'))
        mism = []
        for m, obs in E.traces:
            c = concrete.Engine(f, params, m).run()
            if c.stopped and c.err:
                mism.append('harness error in replay: ' + c.err[-600:])
                continue
            if c.stopped:
                continue
            st.validated += 1
            if c.failures:
                # symbolic proof and concrete run disagree: trust the real run
                res['cands'].append((c.failures[0][0], m,
                                     'found while validating'))
                mism.append('concrete failure: %s %s' % c.failures[0])
            for k, v in obs.items():
                if k in c.observed and not same(v, float(c.observed[k])):
                    mism.append('%s: encoded %r, real %r'
                                % (k, v, c.observed[k]))
                    break
            if len(st.samples) < 2:
                st.samples.append({'case': cname, 'inputs': {
                    a: b for a, b in list(m.items())[:12]}})
        st.validate_mismatch += len(mism)
        res.update(stats=st, mism=mism[:4], unknown=E.unknown[:10],
                   errors=E.errors[:4], herrors=E.herrors[:3],
                   inapplicable=E.inapplicable)
    except BaseException:
        res['err'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    q.put(res)


def run_cases(prop, cases, opts, jobs, total):
    """`total`: wall seconds for all cases together."""
    end = time.time() + total
    ctx = mp.get_context('fork')
    todo = list(enumerate(cases))
    running = {}
    out = [None] * len(cases)
    hit = 0
    while todo or running:
        while todo and len(running) < jobs and hit < 3:
            i, (cname, fn, params, extra) = todo.pop(0)
            o = dict(opts, **extra)
            o['budget'] = min(o['budget'], end - time.time())
            if o['budget'] < 3:
                out[i] = dict(case=cname, cands=[],
                              err='not run: overall time limit')
                continue
            q = ctx.Queue()
            p = ctx.Process(target=worker,
                            args=(prop, cname, fn, params, o, q))
            p.start()
            running[i] = (p, q, time.time(), o)
        if hit >= 3 and todo:
            todo = []
        for i in list(running):
            p, q, t, o = running[i]
            r = None
            try:
                r = q.get(timeout=0.02)
            except queue.Empty:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except queue.Empty:
                        r = dict(case=cases[i][0], cands=[],
                                 err='worker died (%s)' % p.exitcode)
                elif time.time() - t > o['budget'] + 60:
                    p.kill()
                    r = dict(case=cases[i][0], cands=[],
                             err='killed: time limit')
            if r is not None:
                out[i] = r
                p.join(2)
                if p.is_alive():
                    p.kill()
                del running[i]
                if r['cands']:
                    hit += 1
    return [r for r in out if r is not None]


def replay_path(prop, n):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{prop}-{n}.json')


def confirm(prop, n, case, fn, params, label, model, detail):
    """Replay in a fresh interpreter. -> (path, failures) or None"""
    path = replay_path(prop, n)
    with open(path, 'w') as f:
        json.dump(dict(property=prop, case=case, fn=fn, params=params,
                       label=label, model=model, detail=detail), f, indent=1,
                  default=str)
    try:
        r = subprocess.run(
            [PY, os.path.join(HERE, 'replay.py'), path, '--json'],
            capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    for line in r.stdout.splitlines():
        if line.startswith('RESULT '):
            d = json.loads(line[7:])
            if d['failures']:
                return path, d['failures']
    os.remove(path)
    return None


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get('property') == prop and k.get('status') == 'known':
                out.append(k)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    h = load(a.prop)
    cases = []
    json.dumps(h.cases(tier))      # replays are written as JSON
    for c in h.cases(tier):
        cname, fn, params = c[:3]
        cases.append((cname, fn, params, c[3] if len(c) > 3 else {}))
    if a.case:
        cases = [c for c in cases if a.case in c[0]]
    opts = dict(budget=getattr(h, 'BUDGET', {}).get(
        tier, 120 if tier == 'quick' else 600), verbose=a.v)
    from symx import symenv, concrete  # noqa: F401  (import before fork)
    symenv.shims_symbolic()
    import fitsio  # noqa: F401
    res = run_cases(a.prop, cases, opts, a.jobs,
                    600 if tier == 'quick' else 7200)
    from symx import core
    tot = core.Stats()
    byname = {c[0]: c for c in cases}
    viol, unrepro, known = [], [], []
    known_list = known_findings(a.prop)
    n = 0
    seen = set()
    for r in res:
        if r.get('stats'):
            tot.merge(r['stats'])
        cname, fn, params, _ = byname[r['case']]
        tried = 0
        for label, model, detail in r['cands']:
            key = (fn, label.split('[')[0])
            if len(viol) >= 5 or tried >= 4:
                break
            tried += 1
            n += 1
            c = confirm(a.prop, n, r['case'], fn, params, label, model,
                        detail)
            if c is None:
                unrepro.append(dict(case=r['case'], label=label,
                                    detail=detail, model={
                                        k: v for k, v in list(
                                            model.items())[:20]}))
                continue
            path, fails = c
            k = next((k for k in known_list
                      if all(any(f[0].startswith(pat) for pat in k['labels'])
                             for f in fails)
                      and k.get('case', '') in r['case']), None)
            if k is not None:
                known.append((k, path))
                continue
            if key in seen:
                continue
            seen.add(key)
            viol.append((path, r['case'], fails))
    wall = time.time() - t0
    errs = [dict(case=r['case'], err=r['err']) for r in res if r.get('err')]
    herr = [dict(case=r['case'], err=r['herrors']) for r in res
            if r.get('herrors')]
    inappl = [dict(case=r['case'], why=r['inapplicable']) for r in res
              if r.get('inapplicable')]
    mism = [dict(case=r['case'], what=r['mism']) for r in res
            if r.get('mism')]
    unk = [dict(case=r['case'], labels=r['unknown']) for r in res
           if r.get('unknown')]
    incomplete = [dict(case=r['case'], why=r['errors']) for r in res
                  if r.get('errors')]
    ev = dict(
        property=a.prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=max(1, tot.paths), transitions=max(1, tot.forks),
            traces_validated_against_impl=tot.validated,
            samples=tot.samples[:10],
            technique='bounded symbolic execution of /repo sources; SMT '
                      'verdict (z3 %s) per path' % core.z3.get_version_string(),
            bounds=getattr(h, 'BOUNDS', {}).get(
                tier, getattr(h, 'BOUNDS', {}).get('quick', '')),
            outside=getattr(h, 'OUTSIDE', ''),
            cases=[dict(name=r['case'], wall_s=round(r.get('wall', 0), 2),
                        paths=r['stats'].paths if r.get('stats') else 0,
                        obligations=r['stats'].obligations
                        if r.get('stats') else 0) for r in res],
            functions_encoded=sorted(tot.functions),
            paths=tot.paths, infeasible_paths=tot.paths_infeasible,
            queries=dict(feasibility=tot.feas_queries,
                         obligation=tot.obl_queries),
            obligations=dict(total=tot.obligations,
                             discharged=tot.discharged,
                             discharged_within_tolerance=tot.tol_discharged,
                             syntactically_equal=tot.trivial,
                             unknown=tot.unknown),
            solver_s=round(tot.solver_s, 2),
            reached=tot.reached,
            realised=dict(count=tot.realised, what=tot.realised_what),
            engine_limit=dict(count=tot.engine_limit, what=tot.limit_what),
            incomplete=incomplete, unknown=unk,
            encoding_mismatches=mism, unreproduced=unrepro[:10],
            harness_errors=herr, worker_errors=errs, inapplicable=inappl),
        wall_s=round(wall, 2),
        assumptions=getattr(h, 'ASSUMPTIONS', []),
        violations=[dict(replay=p, case=c, fails=f) for p, c, f in viol])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.case:
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d obligations (%d discharged, %d '
          'unknown), %d+%d queries, solver %.1fs, %d traces validated, '
          'wall %.1fs' % (
              a.prop, tier, len(res), tot.paths, tot.obligations,
              tot.discharged, tot.unknown, tot.feas_queries, tot.obl_queries,
              tot.solver_s, tot.validated, wall))
    for what, lst in (('incomplete', incomplete), ('unknown', unk),
                      ('encoding mismatch', mism), ('unreproduced', unrepro),
                      ('harness error', herr), ('worker error', errs),
                      ('inapplicable', inappl)):
        for x in lst[:6]:
            print(f'  note: {what}: {json.dumps(x, default=str)[:1500]}')
    if tot.engine_limit or tot.realised:
        print('  note: engine limits', tot.limit_what, 'realised',
              tot.realised_what)
    if a.v:
        for r in res:
            print('   case', r['case'], '%.1fs' % r.get('wall', 0),
                  'paths', r['stats'].paths if r.get('stats') else '-')
        print('  reached', tot.reached)
    done = set()
    for k, path in known:
        if k['id'] in done:
            continue
        done.add(k['id'])
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    if viol:
        for path, case, fails in viol:
            print(f"  {case}: {fails[0][0]} {fails[0][1][:400]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if tot.obligations == 0:
        print('  nothing decided')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
