"""Property id -> analysis."""
import sys, traceback
import harness as H
from report import Report

TECH_T = ('Abstract interpretation of the compiler IR (clang -O1, optimisation passes off) of every instantiation of the listed '
          'operations, in lock-step with a specification automaton written from the Unicode standard and docs/ref_charset.adoc. '
          'The domain is relational (linear forms over "source units left"/"room left", intervals and value partitions over code units); '
          'loops are cut at their headers where the cursors must be inductively related to the specification state, so the verdict '
          '"all-lengths" covers inputs and buffers of every length. Entries for which no inductive relation is found are '
          'analysed exactly for all contents up to a bounded length and are counted as "bounded", not as proved.')


def T01(rep):
    import tcheck
    tcheck.run(rep, H.utf_combos(rep.tier == 'thorough'), ('tr',), (False, True) if rep.tier == 'thorough' else (False,),
               {'output', 'cursor', 'result'}, TECH_T)


def T02(rep):
    import tcheck
    th = rep.tier == 'thorough'
    sb = [c for c in H.sbcs_combos(th) if th or (c[0] in ('ascii', 'iso_8859_3', 'windows_1252') or c[1] in ('ascii', 'iso_8859_3', 'windows_1252'))]
    tcheck.run(rep, H.utf_combos(th) + sb, ('tr', 'sz', 'utr', 'usz'), (False, True) if th else (True,),
               {'bounds', 'null', 'const-write'}, TECH_T)


def T03(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.utf_combos(th) + H.sbcs_combos(th), ('sz',), (False,), None, TECH_T)


def T04(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.utf_combos(th) + H.sbcs_combos(th), ('utr', 'usz'), (False, True), None, TECH_T)


def T05(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.utf_combos(th) + H.sbcs_combos(th), ('tr', 'utr'), (False, True), {'notify', 'null'}, TECH_T)


def T06(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.utf_combos(th) + H.sbcs_combos(th), ('tr',), (False,), {'result', 'cursor'}, TECH_T)


def T07(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.sbcs_combos(th), ('tr',), (False,), None, TECH_T)


def T09(rep):
    import tcheck
    th = rep.tier == 'thorough'
    tcheck.run(rep, H.count_combos(th), ('csz', 'ucsz'), (False,), None, TECH_T, H.count_source)


TECH_G = ('Abstract interpretation of the compiler IR (clang, optimisation passes off) of client programs written against the public interface: '
          'nondeterministic histories of operations, of any length, with arguments of any length and content and an environment (files, stream buffers, '
          'strings, other destinations) that answers arbitrarily; every assertion, every access to the caller\'s memory and every read of the written text is an obligation. '
          'Loops are cut at their headers with inferred linear invariants, so "proved" covers histories of every length. '
          'Where the proof fails, all paths with a bounded number of loop arrivals are followed exactly to confirm a violation; if none is found the entry is reported as undecided.')


def dest(rep, rx, accept):
    import gcheck, dest as D, re
    M = gcheck.load('dest', D.SRC)
    ents = D.entries(M)
    gcheck.run(rep, [('dest', e, {'thorough': rep.tier == 'thorough'}) for e in ents if re.match(rx, e)], accept, TECH_G)


def D01(rep):
    dest(rep, r'bounded_', lambda e, f: f['kind'] != 'assert' or f['msg'].startswith('[bounded]'))


def D02(rep):
    dest(rep, r'', lambda e, f: f['kind'] != 'assert' or f['msg'].startswith('[space]'))


def D03(rep):
    dest(rep, r'stream_', lambda e, f: f['kind'] == 'assert' and f['msg'].startswith('[delivery]'))


TECH_P = ('Abstract interpretation of the compiler IR (clang, optimisation passes off) of a program that prints a value and compares the destination with a '
          'reference layout written from the documentation, character by character. The value is abstract: every digit is an independent unknown (a set of digits), so an entry '
          'covers all values; number of digits, format options and punctuation are partitioned (finite sets, see lib/pint.py). '
          'Every store, every comparison and the advance size are obligations; nothing of the library is executed and no solver is used.')


def pint_run(rep, accept):
    import gcheck, pint
    ents = pint.entries(rep.tier == 'thorough')
    gcheck.load('pint', pint.source(ents), passes=H.MERGE)
    gcheck.run(rep, [('pint', n, dict(pint.OPT)) for n, _ in ents], accept, TECH_P)


def I01(rep):
    pint_run(rep, lambda e, f: f['kind'] != 'assert' or not f['msg'].startswith('[size]'))


TECH_F = ('Abstract interpretation of the compiler IR (clang, optimisation passes off) of a program that calls the listed functions with abstract arguments '
          '(characters are unknowns in ranges, split only where the code distinguishes them; counts, room and groupings are taken from the finite partitions in the harness) and '
          'compares the results with a reference written from the documentation. Every assertion and memory access on every path is an obligation; nothing of the library is executed, no solver is used.')


def T08(rep):
    import gcheck, pch
    ents = pch.entries(rep.tier == 'thorough')
    gcheck.load('pch', pch.source(ents), passes=pch.PASSES)
    gcheck.run(rep, [('pch', n, dict(pch.OPT)) for n, _ in ents], lambda e, f: True, TECH_F)


def N01(rep):
    import gcheck, pnp
    M = gcheck.load('pnp', pnp.SRC, passes=pnp.PASSES)
    ents = sorted(n for n, f in M.funcs.items() if not f.decl and not n.startswith('_') and (rep.tier == 'thorough' or n not in pnp.SLOW))
    gcheck.run(rep, [('pnp', n, dict(pnp.OPT)) for n in ents], lambda e, f: True, TECH_F)


def pfl_run(rep, sel):
    import gcheck, pfl
    ents = getattr(pfl, sel)(rep.tier == 'thorough')
    gcheck.load('pfl', pfl.source(ents), passes=H.MERGE)
    return [('pfl', n, dict(pfl.OPT)) for n, _ in ents]


def pjn_run(rep, rx=''):
    import gcheck, pjn, re
    ents = [e for e in pjn.entries(rep.tier == 'thorough') if re.search(rx, e[0])]
    gcheck.load('pjn', pjn.source(ents), passes=pjn.PASSES)
    return [('pjn', n, dict(pjn.OPT)) for n, _ in ents]


def ptr_run(rep, rx=''):
    import gcheck, ptr, re
    th = rep.tier == 'thorough'
    ents = [e for e in ptr.entries(th) if re.search(rx, e[0])]
    gcheck.load('ptr', ptr.source(ents, 5 if th else 4), passes=ptr.PASSES)
    return [('ptr', n, dict(ptr.OPT)) for n, _ in ents]


def F01(rep):
    import gcheck
    gcheck.run(rep, pfl_run(rep, 'decimal'), lambda e, f: True, TECH_P)


def F02(rep):
    import gcheck
    gcheck.run(rep, pfl_run(rep, 'formatted'), lambda e, f: True, TECH_P)


def J01(rep):
    import gcheck
    gcheck.run(rep, pjn_run(rep), lambda e, f: True, TECH_F)


def P01(rep):
    import gcheck, pint
    ents = pint.chunk_entries(rep.tier == 'thorough')
    gcheck.load('pint', pint.source(ents), passes=H.MERGE)
    gcheck.run(rep, pfl_run(rep, 'chunk_entries') + ptxt_run(rep, '', True) + pjn_run(rep, '_pieces$') + ptr_run(rep, '_pieces') + [('pint', n, dict(pint.OPT)) for n, _ in ents], lambda e, f: True, TECH_P)


def P02(rep):
    import gcheck, pint
    ents = pint.entries(rep.tier == 'thorough')
    gcheck.load('pint', pint.source(ents), passes=H.MERGE)
    gcheck.run(rep, pfl_run(rep, 'sizes') + ptxt_run(rep, '') + pjn_run(rep, '_(calc|measure)$') + ptr_run(rep, '_(calc|printable)') + [('pint', n, dict(pint.OPT)) for n, _ in ents], lambda e, f: f['kind'] == 'assert' and f['msg'].startswith('[size]'), TECH_P)


def D04(rep):
    import gcheck, prn
    M = gcheck.load('prn', prn.SRC)
    ents = sorted(n for n, f in M.funcs.items() if not f.decl)
    gcheck.run(rep, [('prn', e, {'thorough': rep.tier == 'thorough'}) for e in ents if e.startswith('raw_')] +
               [('prn', e, dict(prn.OPTX)) for e in ents if e.startswith('txt_')], lambda e, f: True, TECH_G)


def ptxt_run(rep, rx, chunk=False):
    import gcheck, ptxt, re
    ents = [e for e in (ptxt.chunk_entries if chunk else ptxt.entries)(rep.tier == 'thorough') if re.match(rx, e[0])]
    gcheck.load('ptxt', ptxt.source(ents), passes=ptxt.PASSES)
    return [('ptxt', n, dict(ptxt.OPT)) for n, _ in ents]


def X01(rep):
    import gcheck
    gcheck.run(rep, ptxt_run(rep, r'f?char_|f?ch32_|bool_'), lambda e, f: f['kind'] != 'assert' or f['msg'].startswith('[text]'), TECH_F)


def S01(rep):
    import gcheck
    gcheck.run(rep, ptxt_run(rep, r'str_'), lambda e, f: f['kind'] != 'assert' or not f['msg'].startswith('[size]'), TECH_F)


def R01(rep):
    import gcheck
    gcheck.run(rep, ptr_run(rep), lambda e, f: True, TECH_F)


def C01(rep):
    import cwit
    cwit.run(rep, rep.tier == 'thorough')


def main(pid):
    import json, os
    m = json.load(open(os.path.join(H.VERIF, 'MANIFEST.json')))
    rep = Report(pid, [c['level'] for c in m['checks'] if c['property'] == pid][0])
    try:
        globals()[pid](rep)
        return rep.finish()
    except H.ToolError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        H.cleanup()
