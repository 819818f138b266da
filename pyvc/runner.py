"""Runs the contracts of one property: prove, replay, bounded search, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import core, contract as C, loops

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(x):
    from fractions import Fraction
    if isinstance(x, Fraction):
        return str(x) if x.denominator != 1 else x.numerator
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def run_concrete(con, values, rng, tier):
    """-> ('ok'|'discard'|'fail'|'error', detail, inputs, n_checks)"""
    v = C.ConV(values, rng, tier, con.tol)
    loops.SPECS.clear()
    core.ENG = None
    try:
        con.fn(v)
        r = ('ok', '', v.used, v.n_checks)
    except C.Discard:
        r = ('discard', '', v.used, v.n_checks)
    except core.PathEnd:
        r = ('discard', '', v.used, v.n_checks)
    except C.CheckFailed as ex:
        r = ('fail', '%s %s' % (ex.name, ex.detail), v.used, v.n_checks)
    except core.Unsupported as ex:
        r = ('unsupported', str(ex), v.used, v.n_checks)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as ex:
        r = ('error', '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-3000:]), v.used, v.n_checks)
    finally:
        v.undo()
    return r


def search(con, seed, n, seconds, tier):
    """bounded random search on the real code"""
    rng = random.Random(seed)
    t0 = time.time()
    ran = 0
    distinct = set()
    uns = 0
    for i in range(n * 10):
        if ran >= n or time.time() - t0 > seconds:
            break
        st, det, used, nc = run_concrete(con, None, rng, tier)
        if st == 'discard':
            continue
        if st == 'unsupported':
            uns += 1
            if uns > 3:
                break
            continue
        ran += 1
        distinct.add(repr(sorted((k, str(x)[:60]) for k, x in used.items()))[:2000])
        if st in ('fail', 'error'):
            return ran, len(distinct), (st, det, used)
    return ran, len(distinct), None


def job(con, tier, seed, outq, fallback=None):
    t0 = time.time()
    res = dict(name=con.name, targets=con.targets, kind=con.kind, note=con.note, obligations=[], problems=[], violations=[],
               paths=0, samples=0, distinct=0, solver_time=0.0, undecided=[], covers={}, queries=0, bounded=con.bounded)
    try:
        scale = 1.0 if tier == 'quick' else 3.0
        if con.setup is not None:
            con.setup()
        confirmed = None
        if fallback:                 # the symbolic run did not end: concrete search for a failing input only
            res['crash'] = fallback
            ran, dist, bad = search(con, seed, int(300 * scale), 40 * scale, tier)
            res['samples'], res['distinct'] = ran, dist
            if bad:
                res['violations'].append(dict(obligation=bad[1].splitlines()[0][:120], input=jsonable(bad[2]), model=None, detail=bad[1], replayed=True))
        elif con.kind == 'sym':
            e = core.Engine(max_paths=int(con.max_paths * scale), deadline=time.time() + con.budget * scale,
                            ob_timeout=15000 if tier == 'quick' else 60000)

            def body():
                v = C.SymV(tier)
                try:
                    con.fn(v)
                finally:
                    v.undo()
                    loops.SPECS.clear()
            loops.DROPPED.clear()
            for _ in range(12):
                loops.CHANGED[0] = False
                e.explore(body)
                if not loops.CHANGED[0]:
                    break
                e = core.Engine(max_paths=e.max_paths, deadline=e.deadline, ob_timeout=e.ob_timeout)
            res['paths'], res['solver_time'], res['queries'] = e.paths, e.solver_time, e.queries
            res['covers'] = {k: bool(x) for k, x in e.covers.items()}
            for o in e.obligations:
                res['obligations'].append((o.name, o.status, o.backend, round(o.time, 4)))
            failed = {}
            for o in e.obligations:
                if o.status == 'failed':
                    failed.setdefault(o.name, []).append(o)
            todo = []
            for name, obs in failed.items():
                done = False
                for o in obs[:6]:
                    st, det, used, nc = run_concrete(con, o.model, random.Random(seed), tier)
                    if st in ('fail', 'error'):
                        res['violations'].append(dict(obligation=name, input=jsonable(used), model=jsonable(o.model), detail=det,
                                                      replayed=True))
                        done = True
                        break
                if not done:
                    todo.append((name, obs[0]))
            excs = {}
            for kind, msg, model in e.problems:
                key = (kind, msg.splitlines()[0][:200])
                excs.setdefault(key, (msg, []))[1].append(model)
            for (kind, head), (msg, models) in excs.items():
                done = False
                if kind == 'exception':
                    for m in [m for m in models if m is not None][:4]:
                        st, det, used, nc = run_concrete(con, m, random.Random(seed), tier)
                        if st in ('fail', 'error'):
                            res['violations'].append(dict(obligation='no unexpected exception', input=jsonable(used),
                                                          model=jsonable(m), detail=det, replayed=True))
                            done = True
                            break
                if not done:
                    res['problems'].append((kind, msg[-1500:], len(models)))
            unknown = sorted({o.name for o in e.obligations if o.status == 'unknown'})
            res['undecided'] = unknown
            if todo or unknown or res['problems']:
                ran, dist, bad = search(con, seed, int(300 * scale), 25 * scale, tier)
                res['samples'] += ran
                res['distinct'] += dist
                if bad:
                    for name, o in todo:
                        pass
                    res['violations'].append(dict(obligation=(todo[0][0] if todo else bad[1].splitlines()[0][:100]), input=jsonable(bad[2]), model=None,
                                                  detail=bad[1], replayed=True))
                    todo = []
            for name, o in todo:
                res['violations'].append(dict(obligation=name, input=None, model=jsonable(o.model),
                                              detail='obligation refuted by %s; model does not replay: %s' % (o.backend, o.detail),
                                              replayed=False, smt=_smt(o)))
        # CPython cross-check / bounded stand-in
        n = int(con.samples * (1 if tier == 'quick' else 10))
        if n and not res['violations'] and not fallback:
            ran, dist, bad = search(con, seed + 17, n, (30 if con.kind == 'sym' else con.budget) * scale, tier)
            res['samples'] += ran
            res['distinct'] += dist
            if bad:
                res['violations'].append(dict(obligation=bad[1].splitlines()[0][:120], input=jsonable(bad[2]), model=None, detail=bad[1],
                                              replayed=True))
    except BaseException as ex:
        res['crash'] = '%s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-3000:])
    res['wall'] = time.time() - t0
    try:
        json.dumps(res)
    except (TypeError, ValueError):
        res = json.loads(json.dumps(jsonable(res)))
    outq.put(json.dumps(res))
    outq.close()
    outq.join_thread()
    os._exit(0)


def _smt(o):
    try:
        return o.smt.to_smt2()[:20000]
    except Exception:
        return ''


def run_all(cons, tier, seed, workers=7):
    ctx = mp.get_context('fork')
    pend = sorted(cons, key=lambda c: -c.budget)
    act = []
    out = []
    begun = time.time()
    scale = 1.0 if tier == 'quick' else 3.0
    while pend or act:
        while pend and len(act) < workers:
            c = pend.pop(0)
            q = ctx.Queue()
            sys.stdout.flush()
            sys.stderr.flush()
            late = 'over the time limit of the check' if time.time() - begun > 400 * scale else None
            p = ctx.Process(target=_quiet, args=(c, tier, seed, q, late))
            p.start()
            act.append((p, q, c, time.time(), late))
        time.sleep(0.02)
        for a in list(act):
            p, q, c, t, fb = a
            r = again = None
            try:
                r = json.loads(q.get_nowait())
            except Exception:
                pass
            limit = 70 * scale if fb else max(10, min(c.budget * 1.5 + 60, 400 - (t - begun))) * scale
            if r is None and not p.is_alive():
                time.sleep(0.2)
                try:
                    r = json.loads(q.get(timeout=1))
                except Exception:
                    r = dict(name=c.name, targets=c.targets, kind=c.kind, note=c.note, crash='worker died (exit %s)' % p.exitcode)
            if r is None and time.time() - t > limit:
                r = dict(name=c.name, targets=c.targets, kind=c.kind, note=c.note, crash='worker over its time limit')
            if r is not None and str(r.get('crash', '')).startswith('worker') and not fb and c.kind == 'sym':
                again = r['crash']
            if r is not None:
                try:
                    p.terminate()
                    p.join(2)
                    if p.is_alive():
                        os.kill(p.pid, signal.SIGKILL)
                except Exception:
                    pass
                act.remove(a)
                if again:
                    q2 = ctx.Queue()
                    p2 = ctx.Process(target=_quiet, args=(c, tier, seed, q2, again))
                    p2.start()
                    act.append((p2, q2, c, time.time(), again))
                else:
                    out.append(r)
    out.sort(key=lambda r: r['name'])
    return out


def _quiet(c, tier, seed, q, fallback=None):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    if not os.environ.get('PYVC_VERBOSE'):
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    job(c, tier, seed, q, fallback)


TRUSTED = ['CPython semantics of the executed code (the code under contract runs natively on proxy values)',
           'z3 5.x / cvc5 soundness; PyVC proxies and the exact rational-function normaliser (pyvc/ring.py)',
           'machine arithmetic treated as mathematical (floats as reals, int64 as integers)']


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('contracts.' + a.prop.lower())
    cons = C.REGISTRY.get(a.prop, [])
    if a.only:
        cons = [c for c in cons if a.only in c.name]
    if a.replay:
        rec = json.load(open(a.replay))
        con = [c for c in cons if c.name == rec['contract']][0]
        if con.setup:
            con.setup()
        vals = rec['violation'].get('input') or {}
        from fractions import Fraction
        vals = {k: (Fraction(x) if isinstance(x, str) and '/' in x else x) for k, x in vals.items() if not (isinstance(x, str) and '/' not in x)}
        print(run_concrete(con, vals, random.Random(seed), tier)[:2])
        return 0
    import thetis
    assert os.path.realpath(thetis.__file__).startswith(os.environ.get('PYVC_TREE', '/repo') + '/'), thetis.__file__
    results = run_all(cons, tier, seed)
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    known = load_known(a.prop)
    nob = nd = 0
    bob = [0, 0]
    backends = {}
    viol = []
    kn = []
    bounded = []
    funcs = {}
    rep = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rep, exist_ok=True)
    solver = 0.0
    samples = dist = 0
    for r in results:
        for tg in r['targets']:
            funcs.setdefault(tg, []).append(r['name'])
        obs = r.get('obligations', [])
        isb = bool(r.get('bounded'))
        bob[0] += len(obs) * isb
        nob += len(obs) * (not isb)
        for name, st, be, tm in obs:
            if st == 'proved':
                nd += not isb
                bob[1] += isb
                backends[be] = backends.get(be, 0) + 1
        solver += r.get('solver_time', 0)
        samples += r.get('samples', 0)
        dist += r.get('distinct', 0)
        und = []
        if r.get('crash'):
            und.append('crash: ' + r['crash'])
        und += ['%s x%d: %s' % (k, n, m.splitlines()[0] + ' ... ' + m.splitlines()[-1]) for k, m, n in r.get('problems', [])]
        und += ['unknown: ' + u for u in r.get('undecided', [])]
        if r['kind'] == 'sym' and not obs and not r.get('violations'):
            und.append('vacuous: no obligation generated')
        und += ['not reached: ' + k for k, x in r.get('covers', {}).items() if not x]
        if r['kind'] == 'concrete':
            bounded.append(dict(contract=r['name'], samples=r.get('samples', 0), why=r.get('note', '')))
        elif und:
            bounded.append(dict(contract=r['name'], samples=r.get('samples', 0), why='undischarged: ' + '; '.join(und)[:1500]))
        if r.get('bounded'):
            bounded.append(dict(contract=r['name'], why='bound: ' + r['bounded']))
        seen = set()
        for x in r.get('violations', []):
            if x['obligation'] in seen:
                continue
            seen.add(x['obligation'])
            k = match_known(known, r['name'], x)
            if k:
                kn.append(k)
                continue
            f = os.path.join(rep, '%s-%s-%d.json' % (a.prop, r['name'], len(viol)))
            json.dump(dict(property=a.prop, contract=r['name'], targets=r['targets'], violation=x,
                           how='bash /verif/check.sh %s --replay %s' % (a.prop, f)), open(f, 'w'), indent=1, default=str)
            viol.append((f, x, r['name']))
        if a.v:
            st = {}
            for o in obs:
                st[o[1]] = st.get(o[1], 0) + 1
            print('%-46s paths %4s obs %s wall %.1f solver %.1f samples %s' % (r['name'], r.get('paths'), st, r.get('wall', 0), r.get('solver_time', 0), r.get('samples')))
            for u in und:
                print('     !!', u)
            for k, m, n in r.get('problems', []):
                print('     problem', k, n, m)
            for x in r.get('violations', []):
                print('     VIOL', x['obligation'], 'replayed' if x['replayed'] else 'not replayed', str(x['input'])[:600], '\n       ', x['detail'][-1500:])
    bnames = {r['name'] for r in results if r.get('bounded') or r['kind'] == 'concrete'}
    ev = dict(property=a.prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=nob, discharged=nd, checker_cmd='bash /verif/check.sh %s' % a.prop,
                            trusted_base=TRUSTED + list(getattr(mod, 'TRUSTED', [])),
                            backends=backends, solver_seconds=round(solver, 2), paths=sum(r.get('paths', 0) for r in results),
                            solver_queries=sum(r.get('queries', 0) for r in results),
                            functions_under_contract=sorted(t for t, ns in funcs.items() if any(n not in bnames for n in ns)), contracts=len(results),
                            bounded_not_proved=bounded, bounded_obligations=bob[0], bounded_obligations_discharged=bob[1],
                            functions_in_bounded_checks_only=sorted(t for t, ns in funcs.items() if all(n in bnames for n in ns)),
                            evaluations=samples, distinct_nontrivial=dist,
                            rule='CPython cross-check: the same contracts evaluated with ordinary random values on the real code',
                            samples=[dict(contract=r['name'], obligations=[o[0] for o in r.get('obligations', [])][:6]) for r in results][:60]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)
    for k in sorted({k['what'] for k in kn}):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    print('%s: %d contracts on %d functions, %d/%d obligations discharged, bounded checks %d/%d, %d cross-check samples, %.1fs' % (
        a.prop, len(results), len(funcs), nd, nob, bob[1], bob[0], samples, time.time() - t0))
    for b in bounded:
        print('  bounded/undischarged:', b['contract'], b['why'][:300])
    # replayed ones first; one line per property is enough but all are listed
    viol.sort(key=lambda x: not x[1]['replayed'])
    anyrep = any(x['replayed'] for _, x, _ in viol)
    for f, x, name in viol:
        if anyrep and not x['replayed']:
            continue
        print('failed obligation: %s / %s: %s' % (name, x['obligation'], (x['detail'] or '').strip().splitlines()[0][:300] if x['detail'] else ''))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, f, '' if x['replayed'] else ' no-failing-input-found'))
    sys.stdout.flush()
    return 1 if viol else 0


def load_known(prop):
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get('findings', []) if k['property'] == prop]


def match_known(known, cname, x):
    for k in known:
        if k['contract'] == cname and k['obligation'] in (x['obligation'], '*') and \
                (not k.get('detail') or k['detail'] in (x['detail'] or '')):
            return k
    return None
