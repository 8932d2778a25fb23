"""Runs gen.GPolicy over harness entries: inductive proof first, exact loop following
(bounded number of arrivals) to confirm what the proof could not establish."""
import multiprocessing, os, time, traceback, re
import harness as H, gen
from interp import Module, Imprecise, Violation

MODS = {}
LIMIT = float(os.environ.get('SA_LIMIT', 0)) or None    # seconds for all the entries of a run
END = [None]


def attempt(e, witness, opt, max_paths, max_steps, deadline):
    P = gen.GPolicy(witness=witness)
    for k, v in opt.get('policy', {}).items():
        setattr(P, k, v)
    P.deadline = min(time.time() + deadline, END[0] or 1e18)
    err = None
    try:
        P.run_entry(MODS[e[0]], e[1], lambda I, st, fn: [], max_paths=max_paths, max_steps=max_steps)
    except Violation as v:
        err = 'unreported violation: %s' % v.msg
    except Exception as x:
        err = '%s: %s' % (type(x).__name__, str(x)[:300])
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    return P, err


def one(e):
    """e = (module name, entry, options)"""
    t0 = time.time()
    opt = e[2]
    thorough = opt.get('thorough')
    r = dict(module=e[0], entry=e[1])
    if END[0] and t0 > END[0]:
        return dict(r, verdict='undecided', findings=[], note='the time limit of the whole check', stats={}, t=0)
    if opt.get('proof', True):
        P, err = attempt(e, 0, opt, opt.get('paths', 20000), opt.get('steps', 200000), opt.get('deadline', 120))
        r.update(stats=P.stats, fns=sorted(getattr(P, 'visited', ())))
        if not err and not P.findings:
            r.update(verdict='proved', findings=[], t=time.time() - t0)
            return r
        r['note'] = err or '%s (%s)' % (P.findings[0]['msg'], P.findings[0]['where'])
    last = None
    for w in opt.get('witness', (2, 3, 4) if not thorough else (2, 3, 4, 5, 6)):
        P, err = attempt(e, w, opt, opt.get('wpaths', 6000), 200000, opt.get('wdeadline', 40))
        r.setdefault('stats', P.stats)
        r['stats'] = P.stats
        r.setdefault('fns', sorted(getattr(P, 'visited', ())))
        ex = [f for f in P.findings if f['exact']]
        if ex:
            r.update(verdict='violation', findings=ex, t=time.time() - t0)
            return r
        if not err and not P.truncated and not P.findings:
            r.update(verdict='proved', findings=[], t=time.time() - t0)
            return r
        if err:
            r['note'] = (r.get('note') or '') + ' / ' + err
            break
        last = w
    r.update(verdict='bounded' if last else 'undecided', bound=last, findings=[], t=time.time() - t0)
    return r


def run(rep, entries, accept, explanation, exact_only=True):
    """accept(entry name, finding) -> bool: does this finding break the property"""
    res = []
    END[0] = time.time() + (LIMIT or (20000 if rep.tier == 'thorough' else 760))
    if entries:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, len(entries))) as p:
            res = list(p.imap_unordered(one, entries, chunksize=1))
    cnt, fns, tot = {}, set(), {}
    per = {}
    other = 0
    for r in sorted(res, key=lambda r: (r['module'], r['entry'])):
        cnt[r['verdict']] = cnt.get(r['verdict'], 0) + 1
        per[r['entry']] = r['verdict']
        fns |= set(r.get('fns', ()))
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        rep.obligations += 1
        if r['verdict'] == 'proved':
            rep.discharged += 1
        elif r['verdict'] == 'violation':
            hit = False
            for f in r['findings']:
                if accept(r['entry'], f):
                    hit = True
                    rep.violation('%s/%s/%s' % (r['entry'], f['kind'], re.sub(r'[^A-Za-z]+', '-', f['msg'] if f['kind'] == 'assert' else '')[:60]),
                                  '%s: %s' % (r['entry'], f['msg']), '%s in %s' % (f['where'], f['fn']),
                                  'reached through %s with %s' % (' > '.join(f['chain']), f['cell']))
            if not hit:
                other += 1
                rep.discharged += 1
        else:
            rep.undecided.append('%s: not proved (%s)%s' % (r['entry'], r.get('note'),
                                 '; exact analysis of every path with up to %s arrivals at a loop header found no failure' % r['bound'] if r.get('bound') else ''))
    rep.coverage.update(explanation=explanation, functions_analysed=len({f for f, _ in fns}), blocks_analysed=len(fns), entries=len(entries),
                        verdicts=cnt, per_entry=per, findings_of_other_properties=other,
                        loops_with_inferred_invariants=tot.get('loops', 0), invariant_rounds=tot.get('rounds', 0),
                        assertion_instances=tot.get('asserts', 0), path_segments=tot.get('paths', 0), abstract_steps=tot.get('steps', 0))
    return res


def load(name, text, extra=(), passes=None):
    MODS[name] = Module(H.compile_ir(name, text, extra, passes))
    return MODS[name]
