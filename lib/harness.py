"""Generation and compilation of the analysis harness: one extern "C" entry per public
operation of the library.  The harness is only compiled to LLVM IR, never run."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
from interp import Module
import charsets

REPO = os.environ.get('STRF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ['clang++', '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only',
       '-DNDEBUG', '-Wno-return-type-c-linkage', '-Wno-everything', '-emit-llvm', '-c', '-I' + REPO + '/include']


class ToolError(Exception):
    pass


_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='strfsa_')
    return _work


def cleanup():
    global _work
    if _work and os.path.isdir(_work):
        shutil.rmtree(_work, ignore_errors=True)
    _work = None


def irdump():
    """the IR reader: built by setup_cmd, rebuilt here when absent or stale"""
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'irdump-' + h)
    if os.path.exists(out):
        return out
    try:
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
    except OSError:
        tmp = out = os.path.join(workdir(), 'irdump')
    cfg = subprocess.run(['llvm-config-18', '--cxxflags', '--ldflags', '--libs', 'core', 'irreader', 'passes', 'support',
                          'demangle', '--system-libs'], capture_output=True, text=True, check=True).stdout.split()
    r = subprocess.run(['clang++', '-O1', '-fno-rtti', '-std=c++17', src, '-o', tmp] + cfg, capture_output=True, text=True)
    if r.returncode:
        raise ToolError('cannot build irdump:\n' + r.stderr[-2000:])
    if tmp != out:
        os.rename(tmp, out)
    return out


MERGE = 'function(sroa<modify-cfg>,mem2reg,instsimplify,adce,simplifycfg<bonus-inst-threshold=4;no-switch-to-lookup;keep-loops>,instsimplify)'


def compile_ir(name, text, extra=(), passes=None):
    """C++ text -> Module"""
    d = workdir()
    c = os.path.join(d, name + '.cpp')
    with open(c, 'w') as f:
        f.write(text)
    r = subprocess.run(CXX + list(extra) + [c, '-o', c[:-4] + '.bc'], capture_output=True, text=True)
    if r.returncode:
        raise ToolError('harness %s does not compile:\n%s' % (name, r.stderr[-3000:]))
    r = subprocess.run([irdump(), c[:-4] + '.bc', c[:-4] + '.json'] + ([passes] if passes else []), capture_output=True, text=True)
    if r.returncode:
        raise ToolError('irdump failed on %s:\n%s' % (name, r.stderr[-2000:]))
    return c[:-4] + '.json'


# ------------------------------------------------------------------ transcoders
UTF_CT = {'utf8': ('char', 'char8_t'), 'utf16': ('char16_t',), 'utf32': ('char32_t', 'wchar_t')}
SHORT = {'char': 'c', 'char8_t': 'c8', 'char16_t': 'c16', 'char32_t': 'c32', 'wchar_t': 'w'}
WIDTH = {'char': 1, 'char8_t': 1, 'char16_t': 2, 'char32_t': 4, 'wchar_t': 4}


def utf_combos(thorough):
    o = []
    for s in UTF_CT:
        for d in UTF_CT:
            for sc in UTF_CT[s]:
                for dc in UTF_CT[d]:
                    prim = sc in ('char', 'char16_t', 'char32_t') and dc in ('char', 'char16_t', 'char32_t')
                    w = 'wchar_t' in (sc, dc)
                    if not (prim or thorough or (w and 'char8_t' not in (sc, dc))):
                        continue
                    o.append((s, d, sc, dc))
    return o


def sbcs_combos(thorough):
    o = []
    for k in sorted(charsets.SBCS_NAMES):
        for uc in ('char32_t', 'wchar_t'):
            for c in ('char', 'char8_t'):
                if not thorough and (c == 'char8_t' or (uc == 'wchar_t' and k not in ('ascii', 'iso_8859_3', 'windows_1252'))):
                    continue
                o.append((k, 'utf32', c, uc))
                o.append(('utf32', k, uc, c))
        for a in ('char', 'char8_t'):
            for b in ('char', 'char8_t'):
                if not thorough and (a, b) != ('char', 'char'):
                    continue
                o.append((k, k, a, b))
    return o


def combo_name(c):
    return '%s_%s_%s_%s' % (c[0], SHORT[c[2]], c[1], SHORT[c[3]])


TC_HEAD = '''#include <strf.hpp>
#define T(NAME,S,D,SI,DI) \\
extern "C" strf::transcode_result<S,D> tr_##NAME(const S*s,const S*e,D*d,D*de,strf::transcoding_error_notifier*n,strf::transcode_flags f){ \\
  const strf::static_transcoder<S,D,strf::csid_##SI,strf::csid_##DI> t; return t.transcode_func()(s,e,d,de,n,f);} \\
extern "C" strf::transcode_size_result<S> sz_##NAME(const S*s,const S*e,std::ptrdiff_t lim,strf::transcode_flags f){ \\
  const strf::static_transcoder<S,D,strf::csid_##SI,strf::csid_##DI> t; return t.transcode_size_func()(s,e,lim,f);} \\
extern "C" strf::transcode_result<S,D> utr_##NAME(const S*s,const S*e,D*d,D*de,strf::transcoding_error_notifier*n,strf::transcode_flags f){ \\
  const strf::static_transcoder<S,D,strf::csid_##SI,strf::csid_##DI> t; return t.unsafe_transcode_func()(s,e,d,de,n,f);} \\
extern "C" strf::transcode_size_result<S> usz_##NAME(const S*s,const S*e,std::ptrdiff_t lim,strf::transcode_flags f){ \\
  const strf::static_transcoder<S,D,strf::csid_##SI,strf::csid_##DI> t; return t.unsafe_transcode_size_func()(s,e,lim,f);}
'''


def transcoder_source(combos):
    o = [TC_HEAD]
    for c in combos:
        o.append('T(%s,%s,%s,%s,%s)' % (combo_name(c), c[2], c[3], c[0], c[1]))
    return '\n'.join(o) + '\n'


# counting codepoints: the size of the transcoding to UTF-32, whatever the character type
CC_HEAD = '''#include <strf.hpp>
template<class S> static strf::transcode_size_result<S> res(strf::count_codepoints_result<S> r,const S*e){
  return {r.count,r.ptr,r.ptr==e?strf::transcode_stop_reason::completed:strf::transcode_stop_reason::insufficient_output_space}; }
#define T(NAME,S,SI) \\
extern "C" strf::transcode_size_result<S> csz_##NAME(const S*s,const S*e,std::ptrdiff_t lim,strf::transcode_flags){ \\
  return res<S>(strf::static_charset<S,strf::csid_##SI>::count_codepoints(s,e,lim),e);} \\
extern "C" strf::transcode_size_result<S> ucsz_##NAME(const S*s,const S*e,std::ptrdiff_t lim,strf::transcode_flags){ \\
  return res<S>(strf::static_charset<S,strf::csid_##SI>::count_codepoints_fast(s,e,lim),e);}
'''


def count_combos(thorough):
    o = [(s, 'utf32', c, 'char32_t') for s in UTF_CT for c in UTF_CT[s]]
    for k in sorted(charsets.SBCS_NAMES):
        for c in ('char', 'char8_t'):
            if thorough or c == 'char':
                o.append((k, 'utf32', c, 'char32_t'))
    return o


def count_source(combos):
    return CC_HEAD + '\n'.join('T(%s,%s,%s)' % (combo_name(c), c[2], c[0]) for c in combos) + '\n'
