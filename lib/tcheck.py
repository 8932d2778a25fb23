"""Checks over the transcoding functions."""
import time, multiprocessing, os, sys, traceback
import harness as H, charsets, tcode
from interp import Module, Imprecise, Interp

M = None
CFG = {}


def one(task):
    """-> dict(task, verdict, findings, stats)"""
    entry, (s, d, sc, dc), kind, notif, bL, bR, budget = task
    mode = 'sz' if kind.endswith('sz') else 'tr'
    unsafe = kind[0] == 'u'
    t0 = time.time()

    def pol(dev=None):
        src = charsets.get(s)
        if dev:
            src.dev = dev
        return tcode.TPolicy(src, charsets.get(d), H.WIDTH[sc], H.WIDTH[dc], mode, unsafe, notif, {}, 'csz' in kind)
    r = dict(entry=entry, notif=notif, kind=kind, combo=(s, d, sc, dc))
    P = pol()
    note = None
    try:
        f = P.run(M, entry)
    except Exception as e:
        f = None
        note = '%s: %s' % (type(e).__name__, str(e)[:200])
    r['stats'] = dict(P.stats)
    r['fns'] = sorted(getattr(P, 'visited', ()))
    if f == []:
        r.update(verdict='all-lengths', findings=[], t=time.time() - t0)
        return r
    if unsafe and mode == 'sz' and s == 'utf8':
        P2 = pol()
        P2.stepwise = True
        try:
            f2 = P2.run(M, entry)
        except Exception:
            f2 = None
        if f2 == []:
            r.update(verdict='all-lengths', findings=[], t=time.time() - t0)
            r['stats'] = dict(P2.stats)
            r['fns'] = sorted(getattr(P2, 'visited', ()))
            return r
    dev = None
    if s == 'utf32' and not d.startswith('utf') and not unsafe and 'csz' not in kind:
        # known deviation: strict mode takes U+E000..U+FFFF for surrogates
        P2 = pol(mode)
        try:
            f2 = P2.run(M, entry)
        except Exception:
            f2 = None
        if f2 == []:
            r.update(verdict='known', findings=[], key='%s/utf32_sbcs/E000-FFFF' % kind, t=time.time() - t0, note=f and (f[0]['msg'], f[0]['cell']))
            r['stats'] = dict(P2.stats)
            r['fns'] = sorted(getattr(P2, 'visited', ()))
            return r
    P3 = pol()
    try:
        fb, done = P3.run_bounded(M, entry, bL, bR, budget)
        st = dict(P3.stats)
        r['stats'] = st
        if fb:
            r.update(verdict='violation', findings=fb[:12], t=time.time() - t0)
        else:
            r.update(verdict='bounded', findings=[], bound='%d of %d length/room pairs up to (%d,%d)' % (len(done), (bL + 1) * (bR + 1), bL, bR),
                     note=note or (f and f[0]['msg']), t=time.time() - t0)
    except Exception as e:
        r.update(verdict='undecided', findings=[], note='%s: %s' % (type(e).__name__, str(e)[:200]), t=time.time() - t0)
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    return r


def load(combos, source=None):
    global M
    M = Module(H.compile_ir('tc', (source or H.transcoder_source)(combos)))


def pool_map(fn, tasks, procs=8):
    if not tasks:
        return []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as p:
        return list(p.imap_unordered(fn, tasks, chunksize=1))


def run(rep, combos, kinds, notifs, accept, explanation, source=None):
    """kinds: which of tr/sz/utr/usz; accept: finding kinds that count for this property"""
    thorough = rep.tier == 'thorough'
    load(combos, source)
    tasks = []
    for c in combos:
        for k in kinds:
            e = '%s_%s' % (k, H.combo_name(c))
            if e not in M.funcs:
                raise H.ToolError('entry %s vanished' % e)
            for n in (notifs if k.endswith('tr') else (False,)):
                tasks.append((e, c, k, n, 6 if thorough else 5, 10 if thorough else 8, 200.0 if thorough else 40.0))
    res = pool_map(one, tasks)
    cnt = {}
    fns = set()
    tot = {}
    other = 0
    for r in sorted(res, key=lambda r: (r['entry'], r['notif'])):
        cnt[r['verdict']] = cnt.get(r['verdict'], 0) + 1
        fns |= set(r.get('fns', ()))
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        what = '%s %s->%s (%s to %s)' % ({'csz': 'count_codepoints', 'ucsz': 'count_codepoints_fast', 'tr': 'transcode', 'sz': 'transcode_size', 'utr': 'unsafe_transcode', 'usz': 'unsafe_transcode_size'}[r['kind']],
                                         r['combo'][0], r['combo'][1], r['combo'][2], r['combo'][3])
        rep.obligations += 1
        if r['verdict'] == 'all-lengths':
            rep.discharged += 1
        elif r['verdict'] == 'bounded':
            rep.undecided.append('%s: relational invariant not established (%s); exact analysis found no difference for %s' % (what, r.get('note'), r.get('bound')))
        elif r['verdict'] == 'known':
            rep.discharged += 1
            if accept is None or accept & {'result', 'notify', 'output', 'cursor'}:
                rep.violation(r['key'], 'transcoding from UTF-32 to single-byte charsets takes U+E000..U+FFFF for surrogates', what, r['note'])
        elif r['verdict'] == 'undecided':
            rep.undecided.append('%s: %s' % (what, r.get('note')))
        else:
            hit = False
            for f in r['findings']:
                if accept is None or f['kind'] in accept:
                    hit = True
                    rep.violation('%s/%s' % (r['kind'], '_'.join((r['combo'][0], r['combo'][1]))),
                                  '%s: %s' % (what, f['msg']), '%s in %s' % (f['where'], f['fn']), f['cell'])
            if not hit:
                other += 1
    rep.coverage.update(explanation=explanation, functions_analysed=len(fns), entries=len(tasks), verdicts=cnt,
                        mismatches_of_other_properties=other,
                        path_segments=tot.get('segments', 0), value_cells_returns=tot.get('returns', 0),
                        output_units_compared=tot.get('writes', 0), notifications_compared=tot.get('events', 0), abstract_steps=tot.get('steps', 0))
