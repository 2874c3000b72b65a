"""Runs the harnesses of a property: exploration, replay of counterexamples on the unpatched code, evidence."""
import os, sys, time, json, traceback, argparse, importlib, hashlib
import concurrent.futures as cf
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from . import core, loader
from .core import z3, Engine, Steer, PathEnd, Unsupported, BudgetOut
from .ctx import SymCtx, ConcCtx, ReplayInvalid

HARNESSES = {}      # property -> list of Harness


class Harness(object):
    def __init__(self, prop, fn, jobs, thorough, known, opts):
        self.prop, self.fn, self.jobs, self.thorough, self.known, self.opts = prop, fn, jobs, thorough, known, opts
        self.name = fn.__name__


def harness(prop, jobs=None, thorough=None, known=None, **opts):
    """jobs: list of parameter dictionaries (quick tier); thorough: additional ones (thorough tier only).
    known: id of a known finding this probe demonstrates."""
    def dec(fn):
        HARNESSES.setdefault(prop, []).append(Harness(prop, fn, jobs or [{}], thorough or [], known, opts))
        return fn
    return dec


# ---------------------------------------------------------------------------------------------
class Functions(object):
    """which GPyOpt functions ran on symbolic values (sys.monitoring)"""
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            return
        m.register_callback(self.TOOL, m.events.PY_START, self._cb)
        m.set_events(self.TOOL, m.events.PY_START)

    def _cb(self, code, off):
        f = code.co_filename
        if '/GPyOpt/' in f and not code.co_name.startswith('<'):
            self.seen.add(f.split('/GPyOpt/', 1)[1][:-3].replace('/', '.') + ':' + code.co_qualname)
        return sys.monitoring.DISABLE

    def stop(self):
        m = sys.monitoring
        try:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
        except ValueError:
            pass


def run_concrete(fn, params, values):
    ctx = ConcCtx(values)
    exc = None
    try:
        fn(ctx, **params)
    except ReplayInvalid:
        # assertions that failed before the assumption was made count, as they do symbolically
        return ctx, 'ran' if ctx.failed else 'invalid'
    except Steer as e:
        return ctx, 'steer:%r' % (e,)
    except Exception as e:
        exc = 'exception:%s' % type(e).__name__
        ctx.exc = traceback.format_exc()
        ctx.failed.append(exc)
    finally:
        ctx.unpatch()
    return ctx, 'ran'


def explore(h, params, tier, deadline, seed=1):
    from .lift import Lift
    o = h.opts
    eng = Engine(timeout_ms=o.get('timeout_ms', 10000 if tier == 'quick' else 60000), deadline=deadline, nice=o.get('nice', True))
    core._ENGINE = eng
    st = eng.stats
    max_paths = o.get('max_paths', 3000) * (1 if tier == 'quick' else 10)
    res = dict(harness=h.name, params=repr(params), violations=[], diverged=[], undecided=[], samples=[], validated=0,
               replays=0, unreproduced=[], complete=True, functions=[], harness_errors=[])
    stack = [([], None)]
    seen_v = set()
    replay_budget = o.get('replays', 60)
    fns = Functions()
    unsup = {}
    unrep = {}
    t_start = core._now()
    while stack:
        if st.paths >= max_paths:
            res['complete'] = False
            res['undecided'].append('path limit %d reached' % max_paths)
            break
        if core._now() > deadline:
            res['complete'] = False
            res['undecided'].append('time budget reached after %d paths' % st.paths)
            break
        prefix, model = stack.pop()
        eng.begin_path(prefix, model)
        ctx = SymCtx(eng)
        outcome = 'done'
        err = None
        lift = Lift()
        fns.start()
        try:
            with lift:
                try:
                    h.fn(ctx, **params)
                finally:
                    ctx.unpatch()
            if eng.dead is not None:
                raise eng.dead
        except PathEnd:
            outcome = 'infeasible'
        except Unsupported as e:
            outcome = 'unsupported'
            err = str(e)
        except BudgetOut:
            outcome = 'budget'
        except Steer as e:
            outcome = 'unsupported'
            err = repr(e)
        except Exception as e:
            if isinstance(eng.dead, BudgetOut):
                outcome = 'budget'
            elif isinstance(eng.dead, PathEnd):
                outcome = 'infeasible'
            elif eng.dead is not None:
                outcome, err = 'unsupported', str(eng.dead)
            else:
                outcome = 'exception'
                err = e
                tb = traceback.format_exc()
        finally:
            fns.stop()
        stack.extend(eng.pending)
        if outcome == 'infeasible':
            st.infeasible += 1
            continue
        if outcome == 'budget':
            res['complete'] = False
            res['undecided'].append('time budget reached after %d paths' % st.paths)
            break
        st.paths += 1
        failures = list(eng.failures)
        path_model = None
        try:
            want = st.paths <= replay_budget or outcome != 'done' or failures
            if want:
                eng.deadline = None
                m = None
                if outcome != 'exception' and not failures and o.get('nice_traces', True) and st.paths <= 25:
                    m = (eng.nice_model(generic=True) if st.paths <= 6 else None) or eng.nice_model()
                m = m or eng.get_model()
                path_model = eng.assignment(m) if m is not None else None
        except Steer:
            path_model = None
        finally:
            eng.deadline = deadline
        if outcome == 'exception':
            label = 'exception:%s' % type(err).__name__
            cands = []
            try:
                nm = eng.nice_model()
                if nm is not None:
                    cands.append(eng.assignment(nm))
            except Steer:
                pass
            if path_model is not None:
                cands.append(path_model)
            failures.append((label, cands))
        replay_done = False
        for label, cands in failures:
            if (label in seen_v):
                replay_done = True
                continue
            rep = False
            for c in cands:
                cctx, how = run_concrete(h.fn, params, c)
                res['replays'] += 1
                if how == 'ran' and cctx.failed:
                    rep = True
                    lab = label if label in cctx.failed else cctx.failed[0]
                    seen_v.add(label)
                    if lab not in [v['label'] for v in res['violations']]:
                        res['violations'].append(dict(harness=h.name, params=params, label=lab, symbolic_label=label, values=c,
                                                      failed=sorted(set(cctx.failed)), exc=getattr(cctx, 'exc', None), notes=[str(n) for n in cctx.notes]))
                    break
            if not rep:
                unrep[label] = unrep.get(label, 0) + 1
                if unrep[label] == 1:
                    res['unreproduced'].append(dict(label=label, values=cands[:1], tb=tb if outcome == 'exception' and label.startswith('exception:') else None))
            replay_done |= rep
        if outcome == 'unsupported':
            unsup[err] = unsup.get(err, 0) + 1
        if not replay_done and path_model is not None:
            # validation of the trace: the unpatched code, run on a model of this path, satisfies the same checks
            cctx, how = run_concrete(h.fn, params, path_model)
            res['replays'] += 1
            if how == 'ran':
                if cctx.failed:
                    if not set(cctx.failed) <= seen_v:
                        seen_v |= set(cctx.failed)
                        res['violations'].append(dict(harness=h.name, params=params, label=cctx.failed[0], symbolic_label='trace replay', values=path_model,
                                                      failed=sorted(set(cctx.failed)), exc=getattr(cctx, 'exc', None), notes=[str(n) for n in cctx.notes]))
                elif outcome == 'done':
                    res['validated'] += 1
            elif how.startswith('steer'):
                res['harness_errors'].append(how)
            if len(res['samples']) < 2:
                res['samples'].append(dict(harness=h.name, params=repr(params), outcome=outcome, inputs={k: v for k, v in list(path_model.items())[:40]}))
        if len(res['violations']) >= o.get('max_violations', 3):
            res['complete'] = False
            break
    core._ENGINE = None
    for k, v in unsup.items():
        res['undecided'].append('%d path(s): not encodable: %s' % (v, k))
    for k, v in unrep.items():
        res['undecided'].append('%d counterexample(s) to %r did not reproduce on the real code' % (v, k))
    for k, v in st.undecided.items():
        res['undecided'].append('%d solver answer(s) unknown for %r' % (v, k))
    res.update(paths=st.paths, decisions=st.decisions, queries=st.queries, solver_s=st.solver_s, infeasible=st.infeasible,
               checks={k: list(v) for k, v in st.checks.items()}, functions=sorted(fns.seen), wall=core._now() - t_start,
               unsup=sum(unsup.values()), unrep=sum(unrep.values()))
    return res


def _job(args):
    prop, idx, params, tier, deadline = args
    h = HARNESSES[prop][idx]
    import io, contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return explore(h, params, tier, deadline)
    except Exception:
        core._ENGINE = None
        return dict(harness=h.name, params=repr(params), error=traceback.format_exc())


def load_known():
    path = os.path.join(ROOT, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if 'id' in d:
                    out[d['id']] = d
    return out


def jdefault(o):
    try:
        return float(o)
    except Exception:
        return repr(o)


def _follow(parent):
    """a worker ends with the check"""
    try:
        import ctypes
        import signal
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        if os.getppid() != parent:
            os._exit(1)
    except Exception:
        pass


def run(prop, tier, only=None, verbose=False, serial=False):
    t0 = core._now()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    loader.load()
    importlib.import_module('checks.' + prop.lower())
    hs = HARNESSES[prop]
    budget = 420 if tier == 'quick' else 3000
    deadline = t0 + budget
    jobs = []
    for i, h in enumerate(hs):
        if only and not h.name.startswith(only):
            continue
        plist = list(h.jobs) + (list(h.thorough) if tier == 'thorough' else [])
        for p in plist:
            jobs.append((prop, i, p, tier, deadline - 20))
    jobs.sort(key=lambda j: -HARNESSES[prop][j[1]].opts.get('weight', 1))
    results = []
    if serial or len(jobs) == 1:
        for j in jobs:
            results.append((j, _job(j)))
    else:
        nw = min(8, os.cpu_count() or 4, len(jobs))
        ex = cf.ProcessPoolExecutor(nw, mp_context=mp.get_context('fork'), initializer=_follow, initargs=(os.getpid(),))
        futs = {ex.submit(_job, j): j for j in jobs}
        pending, end = set(futs), deadline + 60
        while pending:
            done, pending = cf.wait(pending, timeout=max(1, end - core._now()), return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    r = f.result()
                except Exception as e:
                    r = dict(harness=hs[futs[f][1]].name, params=repr(futs[f][2]), error='worker died: %r' % (e,))
                results.append((futs[f], r))
                # a confirmed violation decides the check: what takes long besides is not waited for
                if r.get('violations') and not hs[futs[f][1]].known:
                    end = min(end, core._now() + 60)
            if not done or core._now() >= end:
                for f in pending:
                    results.append((futs[f], dict(harness=hs[futs[f][1]].name, params=repr(futs[f][2]), error='hard timeout')))
                break
        # whatever happened, no worker outlives the check (it would hold the check's output open)
        workers = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in workers:
            p.kill()
    known = load_known()
    violations, known_hits, errors = [], [], []
    labels = {}
    tot = dict(paths=0, decisions=0, queries=0, solver_s=0.0, infeasible=0, validated=0, replays=0, unsup=0, unrep=0)
    funcs, undecided, samples, perh = set(), [], [], {}
    for j, r in results:
        h = hs[j[1]]
        if 'error' in r:
            errors.append(r)
            continue
        for k in tot:
            tot[k] += r[k]
        funcs |= set(r['functions'])
        for u in r['undecided']:
            undecided.append('%s%s: %s' % (r['harness'], r['params'] if r['params'] != '{}' else '', u))
        if len(samples) < 8 and r['samples']:
            samples.append(r['samples'][0])
        for lab, (d, triv) in r['checks'].items():
            e = labels.setdefault(lab, [0, 0])
            e[0] += d
            e[1] += triv
        p = perh.setdefault(h.name, dict(jobs=0, paths=0, queries=0, solver_s=0.0, wall_s=0.0, incomplete=0, doc=(h.fn.__doc__ or '').strip()))
        p['jobs'] += 1
        p['paths'] += r['paths']
        p['queries'] += r['queries']
        p['solver_s'] = round(p['solver_s'] + r['solver_s'], 3)
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
        p['incomplete'] += 0 if r['complete'] else 1
        for v in r['violations']:
            if h.known:
                known_hits.append((h.known, v))
            else:
                violations.append(v)
        if verbose and (r['wall'] > 3 or r['undecided'] or not r['complete'] or verbose > 1):
            print('  %-40s %-60s paths=%d inf=%d dec=%d q=%d solver=%.1fs wall=%.1fs val=%d %s' % (
                r['harness'], r['params'][:60], r['paths'], r['infeasible'], r['decisions'], r['queries'], r['solver_s'], r['wall'], r['validated'],
                '' if r['complete'] else 'INCOMPLETE'))
            for u in r['undecided']:
                print('      undecided:', u)
            for u in r['unreproduced']:
                print('      unreproduced:', u['label'], json.dumps(u['values'], default=jdefault)[:600])
                if u.get('tb'):
                    print(u['tb'])
            for u in r['harness_errors'][:2]:
                print('      harness error:', u)
    # known findings: a probe that fails in the listed way is reported as known; anything else is a violation
    kf_lines = []
    for kid, v in known_hits:
        d = known.get(kid)
        if d is None or d.get('property') != prop or not set(v['failed']) <= set(d.get('labels', [])):
            violations.append(v)
        else:
            line = 'KNOWN-FINDING: property=%s %s: %s' % (prop, kid, d['what'])
            if line not in kf_lines:
                kf_lines.append(line)
    outdir = os.path.join(ROOT, 'evidence', 'replay')
    vlines = []
    if violations:
        os.makedirs(outdir, exist_ok=True)
    for n, v in enumerate(violations[:10]):
        path = os.path.join(outdir, '%s-%d.json' % (prop, n))
        v = dict(v, property=prop)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=jdefault)
        vlines.append('VIOLATION property=%s replay=%s' % (prop, path))
    expected = set()
    for lab in labels:
        expected.add(lab)
    cov = dict(states=tot['paths'], transitions=tot['decisions'], traces_validated_against_impl=tot['validated'], samples=samples,
               queries_discharged=tot['queries'], solver_time_s=round(tot['solver_s'], 2), infeasible_paths=tot['infeasible'],
               concrete_replays=tot['replays'], paths_not_encodable=tot['unsup'], counterexamples_not_reproduced=tot['unrep'],
               assertions={k: dict(discharged=v[0], by_simplification=v[1]) for k, v in sorted(labels.items())},
               functions_encoded=sorted(funcs), harnesses=perh, undecided=undecided[:60],
               job_errors=[e['error'][-400:] for e in errors], known_findings=kf_lines,
               repo_hash=tree_hash())
    mod = sys.modules['checks.' + prop.lower()]
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + list(getattr(mod, 'BOUNDS', [])), wall_s=round(core._now() - t0, 2),
              violations=[dict(label=v['label'], harness=v['harness'], params=repr(v['params'])) for v in violations])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=jdefault)
    decided = sum(v[0] for v in labels.values())
    print('%s tier=%s harnesses=%d jobs=%d paths=%d decisions=%d queries=%d solver=%.1fs assertions=%d traces-replayed=%d undecided=%d errors=%d wall=%.1fs' % (
        prop, tier, len(perh), len(jobs), tot['paths'], tot['decisions'], tot['queries'], tot['solver_s'], decided, tot['validated'],
        len(undecided), len(errors), core._now() - t0))
    for u in undecided[:12]:
        print('INCONCLUSIVE:', u[:400])
    for e in errors[:5]:
        print('JOB-ERROR: %s %s\n%s' % (e['harness'], e['params'], e['error'][-1500:]))
    for l in kf_lines:
        print(l)
    for n, v in enumerate(violations[:10]):
        print('violated: %s in %s%s (failed: %s)%s' % (v['label'], v['harness'], v['params'], v['failed'], ('\n' + v['exc'][-1200:]) if v.get('exc') else ''))
        print('   inputs: %s' % json.dumps(v['values'], default=jdefault)[:1500])
    for l in vlines:
        print(l)
    sys.stdout.flush()
    if violations:
        return 1
    if decided == 0 or (errors and len(errors) == len(jobs)):
        print('nothing was decided')
        return 2
    return 0


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(loader.REPO, 'GPyOpt')):
        ds.sort()
        if 'testing' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def replay(path):
    d = json.load(open(path))
    loader.load()
    prop = d['property']
    importlib.import_module('checks.' + prop.lower())
    for h in HARNESSES[prop]:
        if h.name == d['harness']:
            ctx, how = run_concrete(h.fn, d['params'], d['values'])
            print(how, 'failed checks:', ctx.failed)
            for n in ctx.notes:
                print('  ', n)
            if getattr(ctx, 'exc', None):
                print(ctx.exc)
            return 1 if ctx.failed else 0
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--serial', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    return run(a.prop, a.tier, a.only, a.v, a.serial)
