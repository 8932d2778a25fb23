"""Integer printing: the exact text, for every value.  Values are given by their digits
(independent symbols), the reference text is laid out from the documentation."""
import re
import hprelude, gcheck, harness
from chunk import CHUNK

HEAD = hprelude.PRELUDE + r'''
#include <string.h>
// a destination over a sufficiently large array; remembers the size it was created with
template<class C> struct Big final : strf::destination<C> {
  C* b; long size;
  Big(C* p, long n, long s) noexcept : strf::destination<C>(p,p+n), b(p), size(s) {}
  void recycle() noexcept override { sa_assert(false,"[text] more text than specified"); }
  long finish() noexcept { return this->buffer_ptr()-b; }
};
template<class C> struct BigCr {
  using char_type=C; using destination_type=Big<C>; using sized_destination_type=Big<C>; using finish_type=long;
  C* b; long n; long* ps;
  Big<C> create() const noexcept { return Big<C>{b,n,-1}; }
  Big<C> create(std::size_t s) const noexcept { *ps=(long)s; return Big<C>{b,n,(long)s}; }
};
'''+CHUNK+r'''
template<class C,int N> struct Out { C b[N]; long len; long size; };
template<class C, int N, class FP, class A> inline void prt(Out<C,N>& o, const FP& fp, const A& a){
  o.size=-1;
  o.len=strf::make_printing_syntax(BigCr<C>{o.b,N,&o.size}).with(fp).reserve_calc()(a);
}
// the destination hands out its space in pieces
template<class C, int N, class FP, class A> inline void prtc(Out<C,N>& o, const FP& fp, const A& a){
  const int k=sa_pick(0,4); const int first=k==0?0:k==1?1:k==2?2:k==3?7:64;
  o.len=strf::make_printing_syntax(ChunkyCr<C>{o.b,first,64}).with(fp)(a); o.size=o.len;
}
struct Ref { int t[520]; int n; };
static inline void ap(Ref& r,int c){ r.t[r.n++]=c; }
static inline int encw(int unit, char32_t c){ // number of units of a fill/separator used here
  if(unit==1) return c<0x80?1:c<0x800?2:c<0x10000?3:4;
  if(unit==2) return c<0x10000?1:2;
  return 1;
}
static inline void apenc(Ref& r,int unit,char32_t c){
  if(unit==1){ if(c<0x80) ap(r,c);
    else if(c<0x800){ ap(r,0xC0|(c>>6)); ap(r,0x80|(c&63)); }
    else if(c<0x10000){ ap(r,0xE0|(c>>12)); ap(r,0x80|((c>>6)&63)); ap(r,0x80|(c&63)); }
    else { ap(r,0xF0|(c>>18)); ap(r,0x80|((c>>12)&63)); ap(r,0x80|((c>>6)&63)); ap(r,0x80|(c&63)); } }
  else if(unit==2 && c>=0x10000){ c-=0x10000; ap(r,0xD800|(c>>10)); ap(r,0xDC00|(c&0x3ff)); }
  else ap(r,(int)c);
}
struct Spec {
  int base, n; bool neg, isigned, showbase; int sign; int prec, pad0; int lc; int width, align; char32_t fill;
  int ng, g[6]; bool rep; char32_t sep;
};
// is there a separator before the i-th digit (counted from the right, 0 = rightmost) ... i.e. after i digits from the right
static inline bool sepat(const Spec& s,int i){
  if(i<=0) return false;
  int k=0, acc=0;
  while(k<s.ng){ acc+=s.g[k]; if(acc==i) return true; if(acc>i) return false; ++k; }
  if(s.ng==0 || !s.rep) return false;
  const int g=s.g[s.ng-1];
  while(acc<i) acc+=g;
  return acc==i;
}
static inline void layout(Ref& r,const Spec& s,int unit){
  r.n=0; const int a10=(s.lc==0?'a':'A')-10;
  const bool zero = s.n==1 && sa_digit(0)==0;
  const bool signch = s.base==10 && (s.neg || (s.isigned && s.sign=='+'));
  const bool signfill = s.base==10 && s.isigned && !s.neg && s.sign==' ';
  int pre = s.base==10 ? (signch||signfill) : s.base==8 ? (s.showbase && !zero) : s.showbase?2:0;
  int prec = s.prec - (s.base==8 && pre && s.prec>0);
  int seps=0; for(int i=1;i<s.n;++i) seps+=sepat(s,i);
  int z=prec>s.n?prec-s.n:0; const int z2=s.pad0-(s.n+seps+pre); if(z2>z) z=z2;
  const int content=z+s.n+seps+pre;
  const int f=s.width>content?s.width-content:0;
  const int left = s.align==0?0 : s.align==1?f : f/2;   // left, right, center
  for(int i=0;i<left;++i) apenc(r,unit,s.fill);
  if(signfill) apenc(r,unit,s.fill); else if(signch) ap(r,s.neg?'-':'+');
  if(s.base!=10 && pre){ ap(r,'0'); if(s.base==16) ap(r,s.lc==2?'X':'x'); if(s.base==2) ap(r,s.lc==2?'B':'b'); }
  for(int i=0;i<z;++i) ap(r,'0');
  for(int i=s.n-1;i>=0;--i){ const int d=sa_digit(i); const int hi=a10+d; const int ch=d<10?'0'+d:hi; ap(r,ch); if(sepat(s,i)) apenc(r,unit,s.sep); }
  for(int i=left;i<f;++i) apenc(r,unit,s.fill);
}
template<class C,int N> static inline void check(const Out<C,N>& o,const Ref& r){
  sa_assert(o.len==r.n,"[text] length of the text");
  sa_assert(o.size==o.len,"[size] the size calculated in advance is the size printed");
  for(int i=0;i<r.n;++i){ sa_assert(o.b[i]==(C)r.t[i],"[text] character of the text"); }
}
template<class I> static inline I value(Spec& s,int maxn){
  using U=std::make_unsigned_t<I>;
  s.isigned=std::is_signed_v<I>;
  const U top=(U)-1;
  if(s.base==10 && std::is_signed_v<I>){
    s.neg=sa_pick(0,1);
    const U u=(U)sa_num(10,s.n,(unsigned long)(top/2)+(s.neg?1:0));
    if(s.neg){ sa_assume(u!=0); return (I)(U)(0-u); }
    return (I)u;
  }
  s.neg=false;
  return (I)(U)sa_num(s.base,s.n,(unsigned long)top);
}
static inline Spec spec(int base){ Spec s; s.base=base; s.neg=false; s.showbase=false; s.sign='-'; s.prec=0; s.pad0=0; s.lc=0; s.width=0; s.align=1; s.fill=' '; s.ng=0; s.rep=false; s.sep=','; return s; }
template<class I,int B> constexpr int maxdig(){ return B==10? (sizeof(I)==1?3:sizeof(I)==2?5:sizeof(I)==4?10:std::is_signed_v<I>?19:20) : B==16? 2*sizeof(I) : B==8? (8*sizeof(I)+2)/3 : 8*sizeof(I); }
template<class I,int B> static inline int digits(){ return sa_pick(1,maxdig<I,B>()); }
// few digit counts, all values of each
template<class I,int B> static inline int few(){ constexpr int m=maxdig<I,B>(); const int k=sa_pick(0,3); return k==0?1:k==1?2:k==2?(m+1)/2:m; }
static inline void pickalign(Spec& s){ s.align=sa_pick(0,2); }
static inline strf::text_alignment ta(int a){ return a==0?strf::text_alignment::left:a==1?strf::text_alignment::right:strf::text_alignment::center; }
static inline strf::alignment_format af(const Spec& s){ return strf::alignment_format{s.fill,strf::width_t((std::int16_t)s.width),ta(s.align)}; }
static inline strf::lettercase lcase(int k){ return k==0?strf::lowercase:k==1?strf::mixedcase:strf::uppercase; }
static inline strf::showsign ss(int c){ return c=='+'?strf::showsign::positive_also:c==' '?strf::showsign::fill_instead_of_positive:strf::showsign::negative_only; }
template<int B,class I> auto inbase(I x){ if constexpr(B==2) return strf::bin(x); else if constexpr(B==8) return strf::oct(x); else if constexpr(B==16) return strf::hex(x); else return strf::dec(x); }
#define NOFP strf::pack()
'''

TESTS = r'''
// plain
template<class I,class C> void t_plain(){
  Spec s=spec(10); s.n=digits<I,10>(); const I x=value<I>(s,0);
  Out<C,520> o; prt(o,NOFP,x); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
// plain with alignment
template<class I,class C> void t_aligned(){
  Spec s=spec(10); s.n=few<I,10>(); const I x=value<I>(s,0);
  s.width=s.n+sa_pick(-2,4); s.align=sa_pick(0,2); const int k=sa_pick(0,3); s.fill=k==0?U'*':k==1?(char32_t)0xB7:k==2?(char32_t)0x2014:(char32_t)0x10FFFE;
  Out<C,520> o; prt(o,NOFP,strf::fmt(x).set_alignment_format(af(s))); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
// base, prefix or sign, lettercase: no padding
template<class I,int B,class C> void t_nopad(){
  Spec s=spec(B); s.n=digits<I,B>(); const I x=value<I>(s,0);
  if(B==16||B==2) s.lc=sa_pick(0,2);
  Out<C,520> o; Ref r;
  const int k=sa_pick(0,B==10?2:1);
  const auto fp=strf::pack(lcase(s.lc));
  if constexpr(B==10){
    if(k==0) prt(o,fp,strf::dec(x)); else if(k==1){ s.sign='+'; prt(o,fp,+strf::dec(x)); } else { s.sign=' '; prt(o,fp,~strf::dec(x)); }
  } else { if(k==0) prt(o,fp,inbase<B>(x)); else { s.showbase=true; prt(o,fp,*inbase<B>(x)); } }
  layout(r,s,sizeof(C)); check(o,r);
}
template<class I,int B> static inline void pickfmt(Spec& s,bool far){
  const int k=sa_pick(0,B==10?2:1);
  if(B==10) s.sign=k==0?'-':k==1?'+':' '; else s.showbase=k;
  const int p=sa_pick(0,2); s.prec=p==0?0:p==1?s.n:s.n+2;
  const int z=sa_pick(0,3); s.pad0=z==0?0:s.n+(z==1?1:z==2?2:5);
}
// precision and pad0, no alignment
template<class I,int B,class C> void t_pad(){
  Spec s=spec(B); s.n=few<I,B>(); const I x=value<I>(s,0);
  pickfmt<I,B>(s,true); s.prec+=sa_pick(-1,1);
  strf::int_format_static_base_and_punct<B,false> f; f.precision=s.prec; f.pad0width=s.pad0; f.sign=ss(s.sign); f.showbase=s.showbase;
  Out<C,520> o; prt(o,NOFP,strf::fmt(x).set_int_format(f)); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
// the same with alignment
template<class I,int B,class C> void t_padalign(){
  Spec s=spec(B); s.n=sa_pick(1,2); const I x=value<I>(s,0);
  pickfmt<I,B>(s,false);
  s.width=s.n+sa_pick(0,6); s.align=sa_pick(0,2); s.fill=s.align==0?(char32_t)0xB7:s.align==1?U'*':(char32_t)0x10FFFE;
  strf::int_format_static_base_and_punct<B,false> f; f.precision=s.prec; f.pad0width=s.pad0; f.sign=ss(s.sign); f.showbase=s.showbase;
  Out<C,520> o; prt(o,NOFP,strf::fmt(x).set_int_format(f).set_alignment_format(af(s))); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
template<class C> static inline void pickgroups(Spec& s){
  const int k=sa_pick(0,6);
  s.rep=true; s.ng=1; s.g[0]=3; for(int i=1;i<6;++i) s.g[i]=0;
  if(k==0){ s.ng=0; s.rep=false; } else if(k==2){ s.g[0]=1; } else if(k==3){ s.ng=3; s.g[0]=2; s.g[1]=1; s.g[2]=4; }
  else if(k==4){ s.ng=2; s.g[0]=3; s.g[1]=2; s.rep=false; } else if(k==5){ s.ng=1; s.g[0]=4; s.rep=false; } else if(k==6){ s.ng=6; s.g[0]=1; s.g[1]=2; s.g[2]=1; s.g[3]=3; s.g[4]=1; s.g[5]=2; }
}
static inline strf::digits_grouping grouping(const Spec& s){
  strf::digits_grouping_creator c; for(int i=0;i<s.ng;++i) c.push_high(s.g[i]);
  return s.rep ? c.finish() : c.finish_no_more_sep();
}
template<int B> static inline strf::numpunct<B> np(const Spec& s){ strf::numpunct<B> n{grouping(s)}; n.thousands_sep(s.sep); return n; }
template<class C> static inline void picksep(Spec& s){ const int k=sa_pick(0,2); s.sep=k==0?U',':k==1?(char32_t)0x2019:(char32_t)0x10FFFE; }
// punctuation
template<class I,int B,class C> void t_punct(){
  Spec s=spec(B); s.n=digits<I,B>(); const I x=value<I>(s,0); pickgroups<C>(s); picksep<C>(s);
  s.showbase = B!=10 && sizeof(I)==8;
  strf::int_format_static_base_and_punct<B,true> f; f.showbase=s.showbase;
  Out<C,520> o; prt(o,strf::pack(np<B>(s)),strf::fmt(x).set_int_format(f)); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
template<class I,int B,class C> void t_punctpad(){
  Spec s=spec(B); s.n=sa_pick(3,5); const I x=value<I>(s,0); s.ng=1; s.g[0]=2; s.rep=true; { const int k=sa_pick(0,2); s.sep=k==0?U':':k==1?(char32_t)0xB7:(char32_t)0x110000; }
  const strf::numpunct<B> punct=np<B>(s); if(s.sep==0x110000) s.ng=0; // a separator that cannot be encoded is left out
  const int k=sa_pick(0,B==10?2:1);
  if(B==10) s.sign=k==0?'-':k==1?'+':' '; else s.showbase=k;
  const int p=sa_pick(0,3); s.prec=p==0?0:p==1?s.n+2:0; s.pad0=p==2?s.n+4:p==3?s.n+2:0;
  s.width=s.n+sa_pick(1,7); s.align=sa_pick(0,2); s.fill=s.align==0?(char32_t)0xB7:s.align==1?U'*':(char32_t)0x10FFFE;
  strf::int_format_static_base_and_punct<B,true> f; f.precision=s.prec; f.pad0width=s.pad0; f.sign=ss(s.sign); f.showbase=s.showbase;
  Out<C,520> o; prt(o,strf::pack(punct),strf::fmt(x).set_int_format(f).set_alignment_format(af(s))); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
// everything chosen at run time
template<class I,int B,class C> void t_dyn(){
  Spec s=spec(B); s.n=sa_pick(1,4); const I x=value<I>(s,0); const bool pu=sa_pick(0,1); if(pu){ s.ng=1; s.g[0]=2; s.rep=true; s.sep=U'\''; }
  const int k=sa_pick(0,B==10?2:1);
  if(B==10) s.sign=k==0?'-':k==1?'+':' '; else s.showbase=k;
  const int p=sa_pick(0,2); s.prec=p==1?s.n+2:0; s.pad0=p==2?s.n+4:0;
  strf::int_format_full_dynamic f; f.base=B; f.precision=s.prec; f.pad0width=s.pad0; f.sign=ss(s.sign); f.showbase=s.showbase; f.punctuate=pu;
  const int al=sa_pick(0,3);
  Out<C,520> o; Ref r;
  const auto fp=strf::pack(np<B>(s),strf::mixedcase); s.lc=1;
  if(al==3) prt(o,fp,strf::fmt(x).set_int_format(f));
  else { s.align=al; s.width=s.n+sa_pick(3,8); s.fill=s.align==0?(char32_t)0xB7:s.align==1?U'*':(char32_t)0x10FFFE; prt(o,fp,strf::fmt(x).set_int_format(f).set_alignment_format(af(s))); }
  layout(r,s,sizeof(C)); check(o,r);
}
// through a destination that hands out its space in pieces
template<class I,int B,class C> void c_nopad(){
  Spec s=spec(B); s.n=few<I,B>(); const I x=value<I>(s,0);
  if(B==10) s.sign=sa_pick(0,1)?'+':'-'; else s.showbase=sa_pick(0,1);
  strf::int_format_static_base_and_punct<B,false> f; f.sign=ss(s.sign); f.showbase=s.showbase;
  Out<C,520> o; prtc(o,NOFP,strf::fmt(x).set_int_format(f)); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
template<class I,int B,class C> void c_pad(){
  Spec s=spec(B); s.n=sa_pick(0,1)?2:maxdig<I,B>()-1; const I x=value<I>(s,0);
  if(B==10) s.sign='+'; else s.showbase=true;
  s.prec=sa_pick(0,1)?70:0; s.width=sa_pick(0,1)?75:140; s.align=sa_pick(0,2); s.fill=sa_pick(0,1)?U'*':(char32_t)0x2014;
  strf::int_format_static_base_and_punct<B,false> f; f.sign=ss(s.sign); f.showbase=s.showbase; f.precision=s.prec;
  Out<C,520> o; prtc(o,NOFP,strf::fmt(x).set_int_format(f).set_alignment_format(af(s))); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
template<class I,int B,class C> void c_punct(){
  Spec s=spec(B); s.n=few<I,B>(); const I x=value<I>(s,0);
  const int k=sa_pick(0,2); s.rep=true; s.ng=1; s.g[0]=k==0?1:k==1?3:30; if(k==2){ s.ng=2; s.g[1]=2; }
  s.sep=sa_pick(0,1)?U',':(char32_t)0x10FFFE;
  strf::int_format_static_base_and_punct<B,true> f;
  Out<C,520> o; prtc(o,strf::pack(np<B>(s)),strf::fmt(x).set_int_format(f)); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
template<class C> void c_plain(){
  Spec s=spec(10); s.n=few<long,10>(); const long x=value<long>(s,0);
  Out<C,520> o; prtc(o,NOFP,x); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
// pointers
template<class C> void t_ptr(){
  Spec s=spec(16); s.n=digits<unsigned long,16>(); s.showbase=true; const unsigned long v=value<unsigned long>(s,0);
  s.lc=sa_pick(0,2);
  Out<C,520> o; prt(o,strf::pack(lcase(s.lc)),(const void*)v); Ref r; layout(r,s,sizeof(C)); check(o,r);
}
'''

INTS = {'schar': 'signed char', 'uchar': 'unsigned char', 'short': 'short', 'ushort': 'unsigned short', 'int': 'int', 'uint': 'unsigned',
        'long': 'long', 'ulong': 'unsigned long', 'llong': 'long long', 'ullong': 'unsigned long long'}
CH = {'c': 'char', 'c8': 'char8_t', 'c16': 'char16_t', 'c32': 'char32_t', 'w': 'wchar_t'}


def entries(thorough):
    o = []
    for i in INTS:
        for c in CH:
            if thorough or c in ('c', 'c16') or i in ('int', 'ulong'):
                o.append(('plain_%s_%s' % (i, c), 't_plain<%s,%s>' % (INTS[i], CH[c])))
    for i in INTS if thorough else ('int', 'ulong', 'schar'):
        for c in CH if thorough else ('c', 'c16'):
            o.append(('aligned_%s_%s' % (i, c), 't_aligned<%s,%s>' % (INTS[i], CH[c])))
    for b in (2, 8, 10, 16):
        for i in INTS:
            if thorough or i in ('long', 'ulong', 'int', 'ushort', 'schar'):
                o.append(('nopad%d_%s_c' % (b, i), 't_nopad<%s,%d,char>' % (INTS[i], b)))
        for i in INTS if thorough else ('int', 'ulong'):
            for c in CH if thorough else ('c',):
                o.append(('pad%d_%s_%s' % (b, i, c), 't_pad<%s,%d,%s>' % (INTS[i], b, CH[c])))
                o.append(('padalign%d_%s_%s' % (b, i, c), 't_padalign<%s,%d,%s>' % (INTS[i], b, CH[c])))
        for c in CH if thorough else ('c', 'c16'):
            o.append(('punct%d_ulong_%s' % (b, c), 't_punct<unsigned long,%d,%s>' % (b, CH[c])))
            o.append(('punctpad%d_int_%s' % (b, c), 't_punctpad<int,%d,%s>' % (b, CH[c])))
        o.append(('dyn%d_int_c' % b, 't_dyn<int,%d,char>' % b))
        if thorough:
            o.append(('punct%d_int_c' % b, 't_punct<int,%d,char>' % b))
            o.append(('dyn%d_ulong_c16' % b, 't_dyn<unsigned long,%d,char16_t>' % b))
    o.append(('ptr_c', 't_ptr<char>'))
    return o


def chunk_entries(thorough):
    o = []
    for c in CH if thorough else ('c', 'c16'):
        o.append(('chunk_plain_' + c, 'c_plain<%s>' % CH[c]))
        for b in (2, 8, 10, 16):
            for i in ('ulong', 'int'):
                if thorough or i == 'ulong':
                    for k in ('nopad', 'pad', 'punct'):
                        o.append(('chunk_%s%d_%s_%s' % (k, b, i, c), 'c_%s<%s,%d,%s>' % (k, INTS[i], b, CH[c])))
    return o


def source(ents):
    return HEAD + TESTS + '\n'.join('extern "C" void %s(){ %s(); }' % e for e in ents) + '\n'


OPT = dict(policy=dict(symbool=True), proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=200)
SRC = source(entries(False) + chunk_entries(False))
