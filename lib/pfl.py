"""Floating-point printing: the text for every decimal (digits are unknowns) the shortest-decimal
algorithm may deliver; that algorithm is replaced by its specification (some digits, some exponent)."""
import re
import hprelude, pint

HEAD = pint.HEAD.replace('t[520]', 't[NMAX]').replace('Ref {', 'Ref {', 1).replace('struct Ref', 'constexpr int NMAX=700;\nstruct Ref') + r'''
#include <string.h>
static unsigned long DM; static int DE;
// the shortest decimal: any significand without trailing zeros, any exponent (to_decimal is analysed apart)
extern "C" auto m_dec64(int, std::int64_t) { decltype(strf::detail::jkj::dragonbox::to_decimal<double>(0,0)) r; r.significand=DM; r.exponent=DE; return r; }
extern "C" auto m_dec32(int, std::int32_t) { decltype(strf::detail::jkj::dragonbox::to_decimal<float>(0,0)) r; r.significand=(unsigned)DM; r.exponent=DE; return r; }
void use_dec(){ (void)m_dec64(0,0); (void)m_dec32(0,0); }
template<class F> static inline F frombits(unsigned long b){ F f; if constexpr(sizeof(F)==8) memcpy(&f,&b,8); else { unsigned u=(unsigned)b; memcpy(&f,&u,4); } return f; }
template<class F> static inline F finite(bool neg){ return frombits<F>(sizeof(F)==8 ? (neg?0xBFF0000000000001ul:0x3FF0000000000001ul) : (neg?0xBF800001ul:0x3F800001ul)); }
struct FSpec { int n,e10; bool neg; int notation; int prec; bool alt; int sign; int pad0; int lc; int width, align; char32_t fill;
  int ng, g[6]; bool rep; char32_t sep, point; bool zero; int sepu, pointu; bool quirk; };
enum { GEN, FIX, SCI };
static inline FSpec fspec(){ FSpec s; s.n=1; s.e10=0; s.neg=false; s.notation=GEN; s.prec=-1; s.alt=false; s.sign='-'; s.pad0=0; s.lc=0; s.width=0; s.align=1; s.fill=U' '; s.ng=0; s.rep=false; s.sep=U','; s.point=U'.'; s.zero=false; s.sepu=-1; s.pointu=-1; s.quirk=true; for(int i=0;i<6;++i) s.g[i]=0; return s; }
template<class F> static inline F fvalue(FSpec& s){
  DE=s.e10; DM=sa_num(10,s.n,99999999999999999ul);
  sa_assume(s.n==1 ? sa_digit(0)!=0 : sa_digit(0)!=0);
  return finite<F>(s.neg);
}
struct Dec { int d[24]; int n; int e; }; // digits, most significant first; the last one has weight 10^e
static inline bool fsepat(const FSpec& s,int i){ Spec p; p.ng=s.ng; p.rep=s.rep; for(int k=0;k<6;++k) p.g[k]=s.g[k]; return sepat(p,i); }
// keep the digits of weight >= 10^w, rounding half to even
static inline void roundat(Dec& x,int w){
  if(x.e>=w) return;
  const int drop=w-x.e; // number of digits dropped
  if(drop>x.n){ x.d[0]=0; x.n=1; x.e=w; return; }
  const int k=x.n-drop; // digits kept
  // compare the dropped part with one half
  const int h=x.d[k]; bool up;
  if(h>5) up=true; else if(h<5) up=false;
  else { bool rest=false; for(int i=k+1;i<x.n;++i) if(x.d[i]!=0){ rest=true; break; }
    up = rest || (k>0 && ((x.d[k-1]&1)!=0)); }
  x.n=k; x.e=w;
  if(up){
    int i=k-1;
    while(i>=0 && x.d[i]==9){ x.d[i]=0; --i; }
    if(i>=0) x.d[i]=x.d[i]+1;
    else { for(int j=x.n;j>0;--j) x.d[j]=x.d[j-1]; x.d[0]=1; ++x.n; }
  }
  if(x.n==0){ x.d[0]=0; x.n=1; }
}
static inline void fixdigits(const FSpec& s,const Dec& x,int& ints,int& seps){ ints = x.n+x.e>0 ? x.n+x.e : 1; seps=0; for(int i=1;i<ints;++i) seps+=fsepat(s,i); }
// digit of weight 10^w
static inline int digitat(const Dec& x,int w){ const int i=x.n-1-(w-x.e); return i<0||i>=x.n?0:x.d[i]; }
static inline void appoint(Ref& r,const FSpec& s,int unit){ if(s.pointu>=0) ap(r,s.pointu); else apenc(r,unit,s.point>0x10FFFF?(char32_t)0xFFFD:s.point); }
static inline void flayout(Ref& r,const FSpec& s,int unit){
  r.n=0;
  Dec x; x.n=s.n; x.e=s.e10; for(int i=0;i<s.n;++i) x.d[i]= s.zero?0:sa_digit(s.n-1-i);
  bool sci=s.notation==SCI; int frac; // number of fractional digits
  if(s.notation==FIX){ if(s.prec>=0){ roundat(x,-s.prec); frac=s.prec; } else frac=x.e<0?-x.e:0; }
  else if(s.notation==SCI){ if(s.prec>=0){ roundat(x,x.n+x.e-1-s.prec); frac=s.prec; } else frac=x.n-1; }
  else if(s.prec>=0){
    const int P=s.prec==0?1:s.prec;
    roundat(x,x.n+x.e-P);
    const int X=x.n+x.e-1; // leading digit is not zero unless the value is zero
    sci = !(P>X && X>=-4);
    frac = sci ? P-1 : P-1-X;
    // zeros left by rounding are removed even with showpoint: a known finding, shown by f_altzeros
    if(!s.alt || (s.quirk && P<s.n && x.n<=P)){ const int lead=sci?X:0; // remove trailing zeros of the fraction
      while(frac>0 && digitat(x,lead-frac)==0) --frac; }
  } else {
    int ints,seps; fixdigits(s,x,ints,seps); frac=x.e<0?-x.e:0;
    const int X=x.n+x.e-1; const int ax=X<0?-X:X;
    const int fl=ints+seps+(frac>0||s.alt)+frac, sl=x.n+(x.n>1||s.alt)+2+(ax>=100?3:2);
    sci = sl<fl; if(sci) frac=x.n-1;
  }
  const bool point=frac>0||s.alt;
  int ints,seps; fixdigits(s,x,ints,seps);
  const int X=x.n+x.e-1; const int ax=X<0?-X:X;
  const int body = sci ? 1+point+frac+2+(ax>=100?3:2) : ints+seps+point+frac;
  const bool signch=s.neg||s.sign=='+', signfill=!s.neg&&s.sign==' ';
  int z=s.pad0-(body+(signch||signfill)); if(z<0) z=0;
  const int content=z+body+(signch||signfill);
  const int f=s.width>content?s.width-content:0;
  const int left = s.align==0?0 : s.align==1?f : f/2;
  for(int i=0;i<left;++i) apenc(r,unit,s.fill);
  if(signfill) apenc(r,unit,s.fill); else if(signch) ap(r,s.neg?'-':'+');
  for(int i=0;i<z;++i) ap(r,'0');
  if(sci){
    for(int i=0;i<=frac;++i){ ap(r,'0'+digitat(x,X-i)); if(i==0&&point) appoint(r,s,unit); }
    ap(r,s.lc==2?'E':'e'); ap(r,X<0?'-':'+'); if(ax>=100) ap(r,'0'+ax/100); ap(r,'0'+ax/10%10); ap(r,'0'+ax%10);
  } else {
    for(int i=ints-1;i>=0;--i){ ap(r,'0'+digitat(x,i)); if(fsepat(s,i)){ if(s.sepu>=0) ap(r,s.sepu); else apenc(r,unit,s.sep); } }
    if(point) appoint(r,s,unit);
    for(int i=1;i<=frac;++i) ap(r,'0'+digitat(x,-i));
  }
  for(int i=left;i<f;++i) apenc(r,unit,s.fill);
}
static inline strf::alignment_format faf(const FSpec& s){ return strf::alignment_format{s.fill,strf::width_t((std::int16_t)s.width),ta(s.align)}; }
static inline strf::float_notation fnot(int k){ return k==GEN?strf::float_notation::general:k==FIX?strf::float_notation::fixed:strf::float_notation::scientific; }
static inline strf::float_format ffmt(const FSpec& s){ strf::float_format f; f.precision=s.prec; f.pad0width=s.pad0; f.notation=fnot(s.notation); f.sign=ss(s.sign); f.showpoint=s.alt; f.punctuate=false; return f; }

static inline strf::float_format fdyn(const FSpec& s){ strf::float_format f=ffmt(s); f.punctuate=true; return f; }
static inline strf::numpunct<10> fnp(const FSpec& s){ strf::digits_grouping_creator c; for(int i=0;i<s.ng;++i) c.push_high(s.g[i]); strf::numpunct<10> n{s.rep ? c.finish() : c.finish_no_more_sep()}; n.thousands_sep(s.sep); n.decimal_point(s.point); return n; }
// not a number and infinities
static inline void nlayout(Ref& r,const FSpec& s,int unit,bool nan){
  r.n=0;
  const bool signch=s.neg||s.sign=='+', signfill=!s.neg&&s.sign==' ';
  const int content=3+(signch||signfill); const int w=s.width>s.pad0?s.width:s.pad0;
  const int f=w>content?w-content:0; const int left = s.align==0?0 : s.align==1?f : f/2;
  for(int i=0;i<left;++i) apenc(r,unit,s.fill);
  if(signfill) apenc(r,unit,s.fill); else if(signch) ap(r,s.neg?'-':'+');
  const char* t = nan ? (s.lc==0?"nan":s.lc==1?"NaN":"NAN") : (s.lc==0?"inf":s.lc==1?"Inf":"INF");
  for(int i=0;i<3;++i) ap(r,t[i]);
  for(int i=left;i<f;++i) apenc(r,unit,s.fill);
}
// hexadecimal: h[0..12] are the hexadecimal digits of the fraction, most significant first
struct HSpec : FSpec { bool sub; int x; };
static inline void hlayout(Ref& r,const HSpec& s,int unit,const int* dig){
  r.n=0; int d[14]; for(int i=0;i<13;++i) d[i]=dig[i];
  int lead = s.sub?0:1, frac=13; const int exp=s.x;
  while(frac>0 && d[frac-1]==0) --frac;
  if(s.prec>=0 && s.prec<frac){
    const int k=s.prec; const int h=d[k]; bool up;
    if(h>8) up=true; else if(h<8) up=false;
    else { bool rest=false; for(int i=k+1;i<13;++i) if(d[i]!=0){ rest=true; break; } 
      if(!rest) sa_assume(k>0); // a tie of the leading digit alone may go either way
      up = rest || (d[k-1]&1)!=0; }
    if(up){ int i=k-1; while(i>=0 && d[i]==15){ d[i]=0; --i; } if(i>=0) d[i]=d[i]+1; else ++lead; }
    frac=k;
  }
  const int zeros = s.prec>frac?s.prec-frac:0;
  const bool point=frac+zeros>0||s.alt;
  const int ax=exp<0?-exp:exp; const int xd=ax>=1000?4:ax>=100?3:ax>=10?2:1;
  const int body=2+1+point+frac+zeros+2+xd;
  const bool signch=s.neg||s.sign=='+', signfill=!s.neg&&s.sign==' ';
  int z=s.pad0-(body+(signch||signfill)); if(z<0) z=0;
  const int content=z+body+(signch||signfill);
  const int f=s.width>content?s.width-content:0;
  const int left = s.align==0?0 : s.align==1?f : f/2;
  for(int i=0;i<left;++i) apenc(r,unit,s.fill);
  if(signfill) apenc(r,unit,s.fill); else if(signch) ap(r,s.neg?'-':'+');
  ap(r,'0'); ap(r,s.lc==2?'X':'x');
  for(int i=0;i<z;++i) ap(r,'0');
  ap(r,'0'+lead); if(point) appoint(r,s,unit);
  const int a10=(s.lc==0?'a':'A')-10;
  for(int i=0;i<frac;++i){ const int v=d[i]; const int hi=a10+v; const int ch=v<10?'0'+v:hi; ap(r,ch); }
  for(int i=0;i<zeros;++i) ap(r,'0');
  ap(r,s.lc==2?'P':'p'); ap(r,exp<0?'-':'+');
  if(ax>=1000) ap(r,'0'+ax/1000); if(ax>=100) ap(r,'0'+ax/100%10); if(ax>=10) ap(r,'0'+ax/10%10); ap(r,'0'+ax%10);
  for(int i=left;i<f;++i) apenc(r,unit,s.fill);
}
// the value with k significant hexadecimal digits in the fraction (the last of them not zero)
template<class F,int BE=-1> static inline F hvalue(HSpec& s,int k,int* dig){
  constexpr int bits=sizeof(F)==8?52:23, bias=sizeof(F)==8?1023:127, full=sizeof(F)==8?13:6;
  for(int i=0;i<13;++i) dig[i]=0;
  unsigned long m=0;
  if(k>0){
    const unsigned long u=sa_num(16,k,~0ul>>1);
    for(int i=0;i<k;++i) dig[i]=sa_digit(k-1-i);
    sa_assume(dig[k-1]!=0);
    int sh=(full-k)*4; m=u; for(int i=0;i<sh;++i) m=m+m;
  }
  const int be=BE<0?sa_pick(0,5):BE; const int e = be==0?0:be==1?1:be==2?bias:be==3?bias+9:be==4?bias-10:2*bias;
  s.sub=e==0; s.x=e-bias+(e==0); if(e==0&&k==0) s.x=0;
  unsigned long b=m; b+=(unsigned long)e<<bits; if(s.neg) b+=1ul<<(sizeof(F)*8-1);
  if(sizeof(F)==4 && k>0){ /* 23 bits: the digits are those of the fraction shifted left by one */ }
  return frombits<F>(b);
}
#define NOFP strf::pack()
'''

TESTS = r'''
// plain double, all notations the fast printer chooses
template<class F,class C> void t_fast(int n){
  FSpec s=fspec(); s.n=n; s.neg=sa_pick(0,1);
  const int k=sa_pick(0,9); const int top=sizeof(F)==8?308:38, low=sizeof(F)==8?-324:-45;
  s.e10 = k==0?0:k==1?5:k==2?6:k==3?-n-3:k==4?-n-2:k==5?-n:k==6?-n+1:k==7?-n-1:k==8?top-n:low;
  const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(),x); check(o,r);
}
template<class F,class C> void t_fastlow(int n){
  FSpec s=fspec(); s.n=n; s.neg=false; s.e10=sa_pick(-n-8,8); const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(),x); check(o,r);
}
// notation, precision, point
template<class F,int NOT,class C> void t_prec(int n,int lo,int hi){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=sa_pick(lo,hi); s.alt=sa_pick(0,1); s.prec=sa_pick(0,n+2); s.sign=sa_pick(0,1)?'+':'-';
  const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(),strf::fmt(x).set_float_format(ffmt(s))); check(o,r);
}
// many digits, selected precisions
template<class F,int NOT,class C> void t_precbig(int n){
  FSpec s=fspec(); s.n=n; s.notation=NOT; const int e=sa_pick(0,2); s.e10=e==0?-n-2:e==1?-1:-n/2; s.alt=sa_pick(0,1); const int k=sa_pick(0,3); s.prec=k==0?0:k==1?1:k==2?n-2:n; s.sign=s.alt?'+':'-';
  const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(),strf::fmt(x).set_float_format(ffmt(s))); check(o,r);
}
// the zeros that rounding leaves are kept with showpoint
template<class F,class C> void t_altzeros(){
  FSpec s=fspec(); s.n=4; s.e10=sa_pick(-6,1); s.alt=true; s.prec=sa_pick(2,3); const F x=fvalue<F>(s);
  Out<C,NMAX> o; prt(o,strf::pack(),*strf::gen(x,s.prec)); Ref r; s.quirk=false; flayout(r,s,sizeof(C));
  sa_assert(o.len==r.n,"trailing zeros of general notation with showpoint");
}
template<class F,int NOT,class C> void t_noprec(int n,int lo,int hi){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=sa_pick(lo,hi); s.alt=sa_pick(0,1); s.sign=sa_pick(0,1)?'+':'-';
  const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(),strf::fmt(x).set_float_format(ffmt(s))); check(o,r);
}

// alignment, signs, pad0, fill
template<class F,int NOT,class C,bool Q> void t_align(int n,int e10,int prec){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=e10; s.prec=prec; s.alt=sa_pick(0,1); const int k=sa_pick(0,3); s.sign=k==0?'+':k==1?' ':'-'; s.neg=k==3;
  const F x=fvalue<F>(s);
  s.align=sa_pick(0,2);
  if(Q){ const int z=sa_pick(0,1); s.pad0=z==0?0:n+9; s.width=n+(sa_pick(0,1)?4+s.align:12); const int q=(k+z+s.align)%3; s.fill=q==0?U' ':q==1?(char32_t)0xB7:(char32_t)0x2014; }
  else { const int z=sa_pick(0,2); s.pad0=z==0?0:z==1?n+4:n+9; s.width=sa_pick(0,1)?sa_pick(n+1,n+7):n+12; const int q=sa_pick(0,2); s.fill=q==0?U' ':q==1?(char32_t)0xB7:(char32_t)0x2014; }
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,NOFP,strf::fmt(x).set_float_format(ffmt(s)).set_alignment_format(faf(s))); check(o,r);
}
static inline void fgroups(FSpec& s){
  const int k=sa_pick(0,5);
  s.rep=true; s.ng=1; s.g[0]=3; for(int i=1;i<6;++i) s.g[i]=0;
  if(k==0){ s.ng=0; s.rep=false; } else if(k==2){ s.g[0]=1; } else if(k==3){ s.ng=3; s.g[0]=2; s.g[1]=1; s.g[2]=4; }
  else if(k==4){ s.ng=2; s.g[0]=3; s.g[1]=2; s.rep=false; } else if(k==5){ s.ng=2; s.g[0]=4; s.g[1]=1; }
}
// punctuation
template<class F,int NOT,class C,bool Q> void t_punct(int n,int lo,int hi){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=Q?lo+(hi-lo)*sa_pick(0,4)/4:sa_pick(lo,hi); s.sign=sa_pick(0,1)?'+':'-';
  const int p=sa_pick(0,3); s.prec=p==0?-1:p==1?0:p==2?1:n+1; s.alt=Q?s.sign=='-':sa_pick(0,1);
  const F x=fvalue<F>(s);
  fgroups(s); const int q=Q?(s.ng+s.prec+s.g[0]+2)%3:sa_pick(0,2); s.sep=q==0?U',':q==1?(char32_t)0x2019:(char32_t)0x10FFFE; s.point=q==0?U'.':q==1?(char32_t)0xB7:(char32_t)0x110000;
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(fnp(s)),strf::fmt(x).set_float_format(fdyn(s))); check(o,r);
}
template<class F,int NOT,class C,bool Q> void t_punctalign(int n,int e10){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=e10; const int k=sa_pick(0,3); s.sign=k==0?'+':k==1?' ':'-'; s.neg=k==3;
  const int p=sa_pick(0,1); s.prec=p==0?-1:2; s.alt=sa_pick(0,1);
  const F x=fvalue<F>(s);
  s.ng=1; s.g[0]=2; s.rep=true; const int q=sa_pick(0,2); s.sep=q==0?U',':q==1?(char32_t)0x2019:(char32_t)0x110000; s.point=q==0?(char32_t)0x10FFFE:q==1?(char32_t)0xB7:U',';
  const auto punct=fnp(s); if(q==2) s.ng=0;
  s.pad0=sa_pick(0,1)?n+9:0; s.align=sa_pick(0,2); s.width=n+e10+(Q?(sa_pick(0,1)?5+s.align:12):sa_pick(3,14)); s.fill=U'*';
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,strf::pack(punct),strf::fmt(x).set_float_format(fdyn(s)).set_alignment_format(faf(s))); check(o,r);
}
// separators and points of a single byte character set
template<int NOT> void t_sbc(int n,int lo,int hi){
  FSpec s=fspec(); s.n=n; s.notation=NOT; s.e10=sa_pick(lo,hi); s.ng=1; s.g[0]=2; s.rep=true;
  const int q=sa_pick(0,2); s.sep=q==0?(char32_t)0x2019:q==1?(char32_t)0xB7:U','; s.sepu=q==0?0x92:q==1?0xB7:','; s.point=q==0?(char32_t)0x201A:(char32_t)0x110000; s.pointu=q==0?0x82:'?'; s.alt=sa_pick(0,1);
  const double x=fvalue<double>(s);
  Out<char,NMAX> o; prt(o,strf::pack(fnp(s),strf::windows_1252<char>),strf::fmt(x).set_float_format(fdyn(s))); Ref r; flayout(r,s,1); check(o,r);
}
// the named functions give the same as the format object
template<class C> void t_named(int n,int e10){
  FSpec s=fspec(); s.n=n; s.e10=e10; s.lc=sa_pick(0,2); const auto fp=strf::pack(lcase(s.lc));
  const int k=sa_pick(0,11); s.notation = k==1||k==4||k==7?FIX:k==2||k==5?SCI:GEN; if(k>=3&&k<=5) s.prec=sa_pick(0,n+1);
  if(k==6) s.alt=true; if(k==7) s.sign='+'; if(k==8) s.sign=' '; if(k==9) s.pad0=n+8;
  if(k==10){ s.ng=1; s.g[0]=3; s.rep=true; s.point=U';'; } if(k==11){ s.width=n+9; s.fill=U'~'; s.align=2; }
  const double x=fvalue<double>(s); Out<C,NMAX> o;
  if(k==0) prt(o,fp,strf::gen(x)); else if(k==1) prt(o,fp,strf::fixed(x)); else if(k==2) prt(o,fp,strf::sci(x));
  else if(k==3) prt(o,fp,strf::gen(x,s.prec)); else if(k==4) prt(o,fp,strf::fixed(x,s.prec)); else if(k==5) prt(o,fp,strf::sci(x,s.prec));
  else if(k==6) prt(o,fp,*strf::gen(x)); else if(k==7) prt(o,fp,+strf::fixed(x)); else if(k==8) prt(o,fp,~strf::fmt(x)); else if(k==9) prt(o,fp,strf::pad0(x,s.pad0));
  else if(k==10) prt(o,strf::pack(lcase(s.lc),fnp(s)),strf::punct(x)); else prt(o,fp,strf::center(x,s.width,U'~'));
  Ref r; flayout(r,s,sizeof(C)); check(o,r);
}
// in pieces
template<int NOT,class C> void t_chunk(int n,int lo,int hi,bool pu){
  FSpec s=fspec(); s.n=n; s.notation=NOT; const int e=sa_pick(0,3); s.e10=e==0?lo:e==1?lo+(hi-lo)/2:e==2?hi-1:hi; s.sign='+'; const int p=sa_pick(0,2); s.prec=p==0?-1:p==1?n+1:70; s.alt=true;
  s.pad0=sa_pick(0,1)?n+75:0;
  if(pu){ s.rep=true; s.ng=1; s.g[0]=sa_pick(0,1)?3:30; const int q=sa_pick(0,1); s.sep=q==0?U',':(char32_t)0x10FFFE; s.point=q==0?U'.':(char32_t)0xFFE8; }
  const double x=fvalue<double>(s);
  strf::float_format f=ffmt(s); f.punctuate=pu; const int a=sa_pick(0,1);
  Out<C,NMAX> o; Ref r;
  if(a==0) prtc(o,strf::pack(fnp(s)),strf::fmt(x).set_float_format(f));
  else { s.width=n+hi+90; s.align=2; s.fill=(char32_t)0x2014; prtc(o,strf::pack(fnp(s)),strf::fmt(x).set_float_format(f).set_alignment_format(faf(s))); }
  flayout(r,s,sizeof(C)); check(o,r);
}
template<class F,class C> void t_fastchunk(int n){
  FSpec s=fspec(); s.n=n; s.neg=sa_pick(0,1);
  const int k=sa_pick(0,7); s.e10 = k==0?0:k==1?5:k==2?6:k==3?-n-3:k==4?-n-2:k==5?-n:k==6?-n+1:20;
  const F x=fvalue<F>(s);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prtc(o,NOFP,x); check(o,r);
}
// zero
template<class F,class C> void t_zero(){
  FSpec s=fspec(); s.zero=true; s.neg=sa_pick(0,1); s.notation=sa_pick(0,2); s.alt=sa_pick(0,1); s.sign=sa_pick(0,1)?'+':'-'; const int p=sa_pick(0,4); s.prec=p-1; s.width=sa_pick(0,1)?12:0; s.pad0=sa_pick(0,1)?5:0;
  const F x=frombits<F>(s.neg?1ul<<(sizeof(F)*8-1):0);
  Ref r; flayout(r,s,sizeof(C)); Out<C,NMAX> o; prt(o,NOFP,strf::fmt(x).set_float_format(ffmt(s)).set_alignment_format(faf(s))); check(o,r);
  FSpec z=fspec(); z.zero=true; z.neg=s.neg; prt(o,NOFP,x); flayout(r,z,sizeof(C)); check(o,r);
}
// nan, infinity
template<class F,class C,bool Q=false> void t_nan(){
  FSpec s=fspec(); const bool nan=sa_pick(0,1); s.lc=sa_pick(0,2); const int k=sa_pick(0,3); s.sign=k==0?'+':k==1?' ':'-'; s.neg=k==3;
  constexpr int bits=sizeof(F)==8?52:23; unsigned long b=(sizeof(F)==8?0x7FFul:0xFFul)<<bits; if(nan) b+=(unsigned long)sa_nd(1,(1l<<bits)-1); if(s.neg) b+=1ul<<(sizeof(F)*8-1);
  const F x=frombits<F>(b); const int nt=Q?k:sa_pick(0,3); Out<C,NMAX> o; Ref r;
  if(k>=2){ FSpec q=s; prt(o,strf::pack(lcase(s.lc)),x); nlayout(r,q,sizeof(C),nan); check(o,r); }
  const int z=sa_pick(0,2); s.pad0=z==0?0:z==1?4:9; s.align=sa_pick(0,2); s.width=Q?3+sa_pick(0,1)*(1+s.align):sa_pick(2,7); s.fill=(Q?z&1:sa_pick(0,1))?(char32_t)0xB7:(char32_t)0x2014;
  strf::float_format f=ffmt(s); f.notation = nt==3?strf::float_notation::hex:fnot(nt); f.precision=sa_pick(0,1)?-1:3;
  prt(o,strf::pack(lcase(s.lc)),strf::fmt(x).set_float_format(f).set_alignment_format(faf(s))); nlayout(r,s,sizeof(C),nan); check(o,r);
}
// hexadecimal
template<class F,class C> void t_hex(int k,int plo,int phi){
  HSpec s; (FSpec&)s=fspec(); s.neg=false; int dig[14]; s.prec=sa_pick(plo,phi); s.alt=sa_pick(0,1); const F x=hvalue<F>(s,k,dig);
  strf::float_format f=ffmt(s); f.notation=strf::float_notation::hex;
  Ref r; hlayout(r,s,sizeof(C),dig); Out<C,NMAX> o; prt(o,NOFP,strf::fmt(x).set_float_format(f)); check(o,r);
}
template<class F,class C,int BE> void t_hexalign(int k,int prec){
  HSpec s; (FSpec&)s=fspec(); int dig[14]; s.prec=prec; s.alt=sa_pick(0,1); s.lc=prec==-1?sa_pick(0,2):1;
  const int g=sa_pick(0,3); s.sign=g==0?'+':g==1?' ':'-'; s.neg=g==3; const F x=hvalue<F,BE>(s,k,dig);
  const int q=sa_pick(0,1); s.point=q==0?U'.':(char32_t)0x2019;
  const int z=sa_pick(0,1); s.pad0=z==0?0:14; s.width=sa_pick(0,1)?9:17; s.align=sa_pick(0,2); s.fill=sa_pick(0,1)?U'*':(char32_t)0x2014;
  strf::float_format f=ffmt(s); f.notation=strf::float_notation::hex; f.punctuate=true;
  strf::numpunct<16> n{3}; n.decimal_point(s.point);
  Ref r; hlayout(r,s,sizeof(C),dig); Out<C,NMAX> o; prt(o,strf::pack(n,lcase(s.lc)),strf::fmt(x).set_float_format(f).set_alignment_format(faf(s))); check(o,r);
}
template<class C> void t_hexchunk(int k){
  HSpec s; (FSpec&)s=fspec(); int dig[14]; s.prec=sa_pick(0,1)?-1:90; s.alt=true; s.sign='+'; const double x=hvalue<double>(s,k,dig);
  s.point=sa_pick(0,1)?U'.':(char32_t)0x2019; s.pad0=sa_pick(0,1)?0:120;
  strf::float_format f=ffmt(s); f.notation=strf::float_notation::hex; f.punctuate=true;
  strf::numpunct<16> n{3}; n.decimal_point(s.point);
  Ref r; hlayout(r,s,sizeof(C),dig); Out<C,NMAX> o; prtc(o,strf::pack(n),strf::fmt(x).set_float_format(f)); check(o,r);
}
'''

ENT = []
DEEP = []
for n in (1, 2, 3, 5, 9, 16, 17):
    ENT.append(('f_fast%d' % n, 't_fast<double,char>(%d)' % n))
for n in (1, 2, 3):
    ENT.append(('f_fastlow%d' % n, 't_fastlow<double,char>(%d)' % n))
for k in ('GEN', 'FIX', 'SCI'):
    for n in (1, 2, 3):
        ENT.append(('f_prec_%s%d' % (k, n), 't_prec<double,%s,char>(%d,%d,%d)' % (k, n, -n - 5, 5)))
        ENT.append(('f_noprec_%s%d' % (k, n), 't_noprec<double,%s,char>(%d,%d,%d)' % (k, n, -n - 8, 8)))

for n in (5, 7, 9, 17):
    for k in ('GEN', 'FIX', 'SCI'):
        (ENT if n < 9 else DEEP).append(('f_precbig_%s%d' % (k, n), 't_precbig<double,%s,char>(%d)' % (k, n)))
    DEEP.append(('f_prec_big%d' % n, 't_prec<double,GEN,char>(%d,%d,%d)' % (n, -n - 1, -n + 3)))
    DEEP.append(('f_prec_bigfix%d' % n, 't_prec<double,FIX,char>(%d,%d,%d)' % (n, -n - 1, -n + 3)))
    DEEP.append(('f_prec_bigsci%d' % n, 't_prec<double,SCI,char>(%d,%d,%d)' % (n, -n - 1, -n + 1)))
for k in ('GEN', 'FIX', 'SCI'):
    ENT.append(('f_far_%s_hi' % k, 't_prec<double,%s,char>(2,306,307)' % k))
    ENT.append(('f_far_%s_lo' % k, 't_prec<double,%s,char>(2,-324,-322)' % k))
    ENT.append(('f_far_%s_100' % k, 't_prec<double,%s,char>(2,-102,-97)' % k))
    ENT.append(('f_far_%s_p100' % k, 't_prec<double,%s,char>(2,96,100)' % k))
    ENT.append(('f_farn_%s_hi' % k, 't_noprec<double,%s,char>(2,304,307)' % k))
    ENT.append(('f_farn_%s_lo' % k, 't_noprec<double,%s,char>(2,-324,-321)' % k))
    ENT.append(('f_farn_%s_100' % k, 't_noprec<double,%s,char>(2,-102,-97)' % k))
    ENT.append(('f_farn_%s_p100' % k, 't_noprec<double,%s,char>(2,96,100)' % k))
    for c, C in (('c', 'char'), ('c16', 'char16_t')):
        for a, (n, e, p) in dict(a=(2, 1, -1), b=(3, -1, 1), c=(3, -4, 3), d=(2, 7, 2)).items():
            ENT.append(('f_align_%s_%s_%s' % (k, a, c), 't_align<double,%s,%s,true>(%d,%d,%d)' % (k, C, n, e, p)))
            DEEP.append(('f_alignx_%s_%s_%s' % (k, a, c), 't_align<double,%s,%s,false>(%d,%d,%d)' % (k, C, n, e, p)))
        for n, lo, hi in ((1, -3, 9), (3, -6, 9), (7, -9, 4)):
            ENT.append(('f_punct_%s%d_%s' % (k, n, c), 't_punct<double,%s,%s,true>(%d,%d,%d)' % (k, C, n, lo, hi)))
            DEEP.append(('f_punctx_%s%d_%s' % (k, n, c), 't_punct<double,%s,%s,false>(%d,%d,%d)' % (k, C, n, lo, hi)))
        for a, (n, e) in dict(a=(2, 3), b=(5, -2), c=(3, -4)).items():
            ENT.append(('f_punctalign_%s_%s_%s' % (k, a, c), 't_punctalign<double,%s,%s,true>(%d,%d)' % (k, C, n, e)))
            DEEP.append(('f_punctalignx_%s_%s_%s' % (k, a, c), 't_punctalign<double,%s,%s,false>(%d,%d)' % (k, C, n, e)))
    ENT.append(('f_sbc_%s' % k, 't_sbc<%s>(5,-6,4)' % k))
for c, C in (('c', 'char'), ('c8', 'char8_t'), ('c16', 'char16_t'), ('c32', 'char32_t'), ('w', 'wchar_t')):
    ENT.append(('f_named_%s' % c, 't_named<%s>(3,-1)' % C))
    ENT.append(('f_namedx_%s' % c, 't_named<%s>(2,9)' % C))
    ENT.append(('f_zero_%s' % c, 't_zero<double,%s>()' % C))
    ENT.append(('f_nan_%s' % c, 't_nan<double,%s,true>()' % C))
    DEEP.append(('f_nanx_%s' % c, 't_nan<double,%s>()' % C))
    if c != 'c':
        ENT.append(('f_fast3_%s' % c, 't_fast<double,%s>(3)' % C))
        ENT.append(('f_fast17_%s' % c, 't_fast<double,%s>(17)' % C))
for n in (1, 2, 5, 9):
    ENT.append(('f_float_fast%d' % n, 't_fast<float,char>(%d)' % n))
ENT.append(('f_float_zero', 't_zero<float,char>()'))
ENT.append(('f_float_nan', 't_nan<float,char,true>()'))
ENT.append(('f_altzeros', 't_altzeros<double,char>()'))
for k in ('GEN', 'FIX', 'SCI'):
    ENT.append(('f_float_prec_%s' % k, 't_prec<float,%s,char>(3,-6,3)' % k))
    ENT.append(('f_float_noprec_%s' % k, 't_noprec<float,%s,char>(3,-6,3)' % k))
CHK = []
for c, C in (('c', 'char'), ('c16', 'char16_t')):
    for k in ('GEN', 'FIX', 'SCI'):
        for n, lo, hi in ((1, -80, 70), (9, -12, 70), (17, -30, 4)):
            for pu in (0, 1):
                CHK.append(('chunk_float_%s%d_%s_%s' % (k, n, 'np'[pu], c), 't_chunk<%s,%s>(%d,%d,%d,%d)' % (k, C, n, lo, hi, pu)))
    for n in (1, 3, 17):
        CHK.append(('chunk_floatfast%d_%s' % (n, c), 't_fastchunk<double,%s>(%d)' % (C, n)))
    for k in (0, 3, 13):
        CHK.append(('chunk_floathex%d_%s' % (k, c), 't_hexchunk<%s>(%d)' % (C, k)))
HEX = []
for k in (0, 1, 2, 3, 12, 13):
    HEX.append(('f_hex%d' % k, 't_hex<double,char>(%d,%d,%d)' % (k, -1, min(k + 2, 14))))
HEX.append(('f_hexalign0_c', 't_hexalign<double,char,3>(0,-1)'))
HEX.append(('f_hexalign2_c', 't_hexalign<double,char,3>(2,-1)'))
HEX.append(('f_hexalign2p_c', 't_hexalign<double,char,3>(2,4)'))
HEX.append(('f_hexalign2q_c16', 't_hexalign<double,char16_t,0>(2,1)'))
ENT += HEX
ALL = ENT + DEEP + CHK


DECIMAL = r'f_(fast|prec|noprec|far|named|zero|nan|altz|float_)'


def entries(thorough):
    return ENT + DEEP if thorough else list(ENT)


def decimal(thorough):
    return [e for e in entries(thorough) if re.match(DECIMAL, e[0])]


def formatted(thorough):
    return [e for e in entries(thorough) if not re.match(DECIMAL, e[0])]


def sizes(thorough):
    return [e for e in entries(thorough) if thorough or not re.search(r'punctalign_.*_c16|punctalign_(GEN|SCI)_b|hexalign2|_hi$|_p100$|bigfix|precbig_...7|f_hex1[23]|punct_.*[37]_c16', e[0])]


def chunk_entries(thorough):
    return [e for e in CHK if thorough or not re.search(r'(FIX|GEN)(9|17)_p|1_p_c16|FIX17_n_c16', e[0])]


def source(ents):
    return HEAD + TESTS + '\n'.join('extern "C" void %s(){ %s; }' % e for e in ents) + '\n'


OPT = dict(policy=dict(symbool=True, redirect=[(re.compile(r'to_decimal<double'), 'm_dec64'), (re.compile(r'to_decimal<float'), 'm_dec32')]), proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=200)
SRC = source(ALL)
PASSES = None
