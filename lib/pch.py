"""Character sets: the per-character functions, through the static and the dynamic objects."""
import hprelude, harness, charsets
from chunk import CHUNK

HEAD = hprelude.PRELUDE + CHUNK + r'''
static char32_t any(int k){ switch(k){ case 0: return (char32_t)sa_unit(0,0x7f); case 1: return (char32_t)sa_unit(0x80,0x7ff); case 2: return (char32_t)sa_unit(0x800,0xd7ff);
  case 3: return (char32_t)sa_unit(0xd800,0xdfff); case 4: return (char32_t)sa_unit(0xe000,0xffff); case 5: return (char32_t)sa_unit(0x10000,0x10ffff); case 6: return (char32_t)sa_nd(0x110000,0xffffffffL); } return 0; }
// the units of a codepoint in UTF-8, UTF-16 or UTF-32, not sanitised; 0 when it has none
template<class C> static int units(C* o,char32_t c){
  if constexpr(sizeof(C)==1){
    if(c<0x80){ o[0]=(C)c; return 1; }
    if(c<0x800){ o[0]=(C)(0xC0+c/64); o[1]=(C)(0x80+c%64); return 2; }
    if(c<0x10000){ o[0]=(C)(0xE0+c/4096); o[1]=(C)(0x80+c/64%64); o[2]=(C)(0x80+c%64); return 3; }
    if(c<0x110000){ o[0]=(C)(0xF0+c/262144); o[1]=(C)(0x80+c/4096%64); o[2]=(C)(0x80+c/64%64); o[3]=(C)(0x80+c%64); return 4; }
    return 0;
  } else if constexpr(sizeof(C)==2){
    if(c<0x10000){ o[0]=(C)c; return 1; }
    if(c<0x110000){ o[0]=(C)(0xD800+(c-0x10000)/1024); o[1]=(C)(0xDC00+(c-0x10000)%1024); return 2; }
    return 0;
  } else { o[0]=(C)c; return 1; }
}
template<class C> static int repl(C* o,bool utf){ if(utf) return units<C>(o,0xFFFD); o[0]=(C)'?'; return 1; }
// reference for single byte charsets: what transcoding one character gives (decided against the published tables by T07)
template<class C,class T> static int viatr(const T& t,C* o,char32_t c,bool& valid){
  const char32_t s[1]={c}; o[0]=(C)0; o[1]=(C)0;
  const auto r=t.transcode(s,s+1,o,o+1,nullptr,strf::transcode_flags::none);
  const auto v=t.transcode(s,s+1,o+1,o+2,nullptr,strf::transcode_flags::stop_on_invalid_sequence|strf::transcode_flags::stop_on_unsupported_codepoint);
  valid = v.stop_reason==strf::transcode_stop_reason::completed;
  return (int)(r.dst_ptr-o);
}
template<bool UTF,class CS> static void one(const CS& cs,char32_t c){
  using C=typename CS::code_unit;
  C ref[5], out[5]; int n; bool valid;
  if constexpr(UTF){ n=units<C>(ref,c); valid=n>0 && c<0x110000 && (c<0xD800 || c>=0xE000); if(n==0) n=repl<C>(ref,true); }
  else n=viatr<C>(cs.from_u32(),ref,c,valid);
  sa_assert(cs.encoded_char_size(c)==n,"[size] encoded_char_size() is the number of units of the character");
  C* e=cs.encode_char(out,c);
  sa_assert(e==out+n,"[encode] encode_char() returns the end of what it wrote");
  for(int i=0;i<n;++i) sa_assert(out[i]==ref[i],"[encode] encode_char() writes the character");
  if(UTF || c!=0xFFFD) sa_assert(cs.validate(c)==(valid?n:-1),"[validate] validate() gives the size of valid supported characters only");
  C out2[5]; e=cs.encode_char_func()(out2,c);
  sa_assert(e==out2+n && out2[0]==ref[0] && out2[n-1]==ref[n-1],"[encode] encode_char_func() is encode_char()");
  sa_assert(cs.validate_func()(c)==cs.validate(c),"[validate] validate_func() is validate()");
}
template<bool UTF,class CS> static void fill(const CS& cs,char32_t c,bool func){
  using C=typename CS::code_unit;
  C ref[5]; int n; bool valid;
  if constexpr(UTF){ n=units<C>(ref,c); if(n==0) n=repl<C>(ref,true); } else n=viatr<C>(cs.from_u32(),ref,c,valid);
  C b[520]; const int k=sa_pick(0,4); const int f=k==0?0:k==1?1:k==2?3:k==3?64:70;
  Chunky<C> d(b,f,64);
  const int j=sa_pick(0,4); const int cnt=j==0?0:j==1?1:j==2?3:j==3?21:65;
  strf::transcode_dst<C>& td=d;
  if(func) cs.encode_fill_func()(td,cnt,c); else cs.encode_fill(td,cnt,c);
  const int m=cnt;
  sa_assert(d.finish()==n*m,"[fill] encode_fill() writes the character as many times as requested");
  for(int i=0;i<m;++i) for(int x=0;x<n;++x) sa_assert(b[i*n+x]==ref[x],"[fill] encode_fill() writes the character");
}
template<bool UTF,class CS> static void replacement(const CS& cs){
  using C=typename CS::code_unit;
  C ref[5]; const int n=repl<C>(ref,UTF);
  sa_assert(cs.replacement_char()==(UTF?U'\xFFFD':U'?'),"[replacement] replacement_char()");
  sa_assert(cs.replacement_char_size()==n,"[replacement] replacement_char_size()");
  C b[140]; const int k=sa_pick(0,3); Chunky<C> d(b,k,64); strf::transcode_dst<C>& td=d;
  if(sa_pick(0,1)) cs.write_replacement_char(td); else cs.write_replacement_char_func()(td);
  sa_assert(d.finish()==n,"[replacement] write_replacement_char() writes replacement_char_size() units");
  for(int i=0;i<n;++i) sa_assert(b[i]==ref[i],"[replacement] write_replacement_char() writes the replacement character");
}
template<bool UTF,class CS> static void unit(const CS& cs){
  using C=typename CS::code_unit;
  if constexpr(UTF && sizeof(C)==4){ const C u=(C)sa_nd(0,0x10ffff); sa_assert(cs.decode_unit(u)==(char32_t)u,"[decode] decode_unit() gives the codepoint of a unit"); }
  else if constexpr(UTF && sizeof(C)==2){ const C u=(C)sa_unit(0,0xffff); sa_assert(cs.decode_unit(u)==(char32_t)u,"[decode] decode_unit() gives the codepoint of a unit"); }
  else {
    const int v=sa_pick(0,1)?sa_unit(0,0x7f):sa_unit(0x80,0xff); const C u=(C)v;
    char32_t r;
    if constexpr(UTF) r=v<0x80?(char32_t)v:U'\xFFFD';
    else { const C s[1]={u}; char32_t o[1]={0}; cs.to_u32().transcode(s,s+1,o,o+1,nullptr,strf::transcode_flags::none); r=o[0]; }
    sa_assert(cs.decode_unit(u)==r,"[decode] decode_unit() gives the codepoint of a unit");
  }
}
// the dynamic object gives the same transcoders and identification
template<class T,class U> static bool sametr(const T& a,const U& b){
  return a.transcode_func()==b.transcode_func() && a.transcode_size_func()==b.transcode_size_func() && a.unsafe_transcode_func()==b.unsafe_transcode_func() && a.unsafe_transcode_size_func()==b.unsafe_transcode_size_func();
}
static const strf::charset_id IDS[]={strf::csid_utf8,strf::csid_utf16,strf::csid_utf32,%(ids)s};
template<class CS,class D,class O> static void find(const CS& cs,const D& d){
  const strf::charset_id id=IDS[sa_pick(0,(int)(sizeof(IDS)/sizeof(*IDS))-1)];
  sa_assert(sametr(cs.find_transcoder_to(strf::tag<O>{},id),d.find_transcoder_to(strf::tag<O>{},id)),"[dynamic] find_transcoder_to() agrees");
  sa_assert(sametr(cs.find_transcoder_from(strf::tag<O>{},id),d.find_transcoder_from(strf::tag<O>{},id)),"[dynamic] find_transcoder_from() agrees");
}
template<class CS> static void dynamic(const CS& cs){
  const auto d=cs.to_dynamic();
  sa_assert(d.id()==cs.id() && d.name()==cs.name(),"[dynamic] id() and name() agree");
  sa_assert(d.replacement_char()==cs.replacement_char() && d.replacement_char_size()==cs.replacement_char_size(),"[dynamic] replacement_char() agrees");
  sa_assert(sametr(d.sanitizer(),cs.sanitizer()),"[dynamic] sanitizer() agrees");
  sa_assert(sametr(d.from_u32(),cs.from_u32()),"[dynamic] from_u32() agrees");
  sa_assert(sametr(d.to_u32(),cs.to_u32()),"[dynamic] to_u32() agrees");
  const auto e=cs.to_dynamic(); sa_assert(d==e && !(d!=e),"[dynamic] dynamic charsets of the same encoding are equal");
}
'''

HAS = {'utf8': ('char', 'char8_t', 'char16_t', 'wchar_t'), 'utf16': ('char', 'char8_t', 'char16_t', 'wchar_t'), 'utf32': ('char', 'char8_t', 'char16_t', 'wchar_t')}
S = harness.SHORT
CLS = range(7)


def entries(thorough):
    o = []
    sets = [(k, c) for k in harness.UTF_CT for c in harness.UTF_CT[k]] + [(k, c) for k in sorted(charsets.SBCS_NAMES) for c in (('char', 'char8_t') if thorough else ('char',))]
    for k, c in sets:
        utf = k.startswith('utf')
        n = k + '_' + S[c]
        u = 'true' if utf else 'false'
        cs = 'strf::static_charset<%s,strf::csid_%s>{}' % (c, k)
        for dyn in (False, True):
            x = cs + ('.to_dynamic()' if dyn else '')
            p = ('d_' if dyn else 's_') + n
            if utf or not dyn or thorough or k in ('ascii', 'windows_1252', 'iso_8859_3'):
                o.append((p + '_char', 'one<%s>(%s,any(sa_pick(0,6)))' % (u, x)))
                o.append((p + '_repl', 'replacement<%s>(%s)' % (u, x)))
                o.append((p + '_unit', 'unit<%s>(%s)' % (u, x)))
            if utf or thorough or (not dyn and k in ('ascii', 'windows_1252', 'iso_8859_3')):
                o.append((p + '_fill', 'fill<%s>(%s,any(sa_pick(0,6)),%s)' % (u, x, 'true' if dyn else 'false')))
        o.append(('x_' + n, 'dynamic(%s)' % cs))
        for t in HAS.get(k, ('char', 'char8_t', 'wchar_t')):
            o.append(('f_%s_%s' % (n, S[t]), 'auto a=%s; auto b=a.to_dynamic(); find<decltype(a),decltype(b),%s>(a,b)' % (cs, t)))
    return o


def source(ents):
    ids = ','.join('strf::csid_' + k for k in sorted(charsets.SBCS_NAMES))
    return HEAD.replace('%(ids)s', ids) + '\n'.join('extern "C" void %s(){ %s; }' % e for e in ents) + '\n'


PASSES = None
OPT = dict(proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=200)
SRC = source(entries(False))
