"""Digit grouping: the same separators whoever asks, however the grouping was built."""
import hprelude

SRC = hprelude.PRELUDE + r'''
struct G { int n; int g[7]; bool rep; };
static int size1(){ const int k=sa_pick(0,5); return k==0?1:k==1?2:k==2?3:k==3?4:k==4?7:31; }
static int count(){ const int k=sa_pick(0,14); return k<10?k+1:k==10?31:k==11?32:k==12?33:k==13?63:64; }
static void some(G& s,int n){ s.n=n; s.rep=sa_pick(0,1); for(int i=0;i<7;++i) s.g[i]=i<n?size1():0; if(n==0) s.rep=false; }
static void patterns(G& s){
  s.n=sa_pick(4,6); s.rep=sa_pick(0,1); const int p=sa_pick(0,5);
  for(int i=0;i<7;++i) s.g[i]=i>=s.n?0:p==0?1:p==1?i+1:p==2?s.n-i:p==3?(i&1?1:2):p==4?31:(i<3?2:1);
}
// is there a separator between the i lowest digits and the others
static bool sepat(const G& s,int i){
  int k=0, acc=0;
  while(k<s.n){ acc+=s.g[k]; if(acc==i) return true; if(acc>i) return false; ++k; }
  if(s.n==0 || !s.rep) return false;
  const int g=s.g[s.n-1];
  while(acc<i) acc+=g;
  return acc==i;
}
static strf::digits_grouping byctor(const G& s){
  using D=strf::digits_grouping; const int*g=s.g;
  if(s.rep) switch(s.n){ case 0: return D(); case 1: return D(g[0]); case 2: return D(g[0],g[1]); case 3: return D(g[0],g[1],g[2]); case 4: return D(g[0],g[1],g[2],g[3]);
    case 5: return D(g[0],g[1],g[2],g[3],g[4]); default: return D(g[0],g[1],g[2],g[3],g[4],g[5]); }
  switch(s.n){ case 0: return D(-1); case 1: return D(g[0],-1); case 2: return D(g[0],g[1],-1); case 3: return D(g[0],g[1],g[2],-1); case 4: return D(g[0],g[1],g[2],g[3],-1);
    case 5: return D(g[0],g[1],g[2],g[3],g[4],-1); default: return D(g[0],g[1],g[2],g[3],g[4],g[5],-1); }
}
static strf::digits_grouping bycreator(const G& s){
  strf::digits_grouping_creator c; for(int i=0;i<s.n;++i) if(i&1) c.push_high(s.g[i]); else c.push_high((unsigned)s.g[i]);
  sa_assert(!c.failed(),"[make] a valid sequence of groups is not a failure");
  return s.rep ? c.finish() : c.finish_no_more_sep();
}
static strf::digits_grouping bystring(const G& s){
  char t[8]; int k=0; for(int i=0;i<s.n;++i) t[k++]=(char)s.g[i]; if(!s.rep && s.n) t[k++]='\xff'; t[k]=0;
  return strf::digits_grouping((const char*)t);
}
template<class D> void same(const G& s,const D& d,int dc,const strf::digits_distribution& dist){
  int n=0; for(int i=1;i<dc;++i) n+=sepat(s,i);
  // forwards: the distribution, from the highest digit down
  sa_assert(dist.highest_group>0,"[distribute] the highest group is not empty");
  sa_assert(dist.middle_groups_count==0 || !dist.low_groups.empty(),"[distribute] middle groups have a size");
  int left=dc-dist.highest_group, seps=0;
  auto low=dist.low_groups;
  for(int i=left+1;i<dc;++i) sa_assert(!sepat(s,i),"[distribute] a separator is missing inside the highest group");
  if(dist.middle_groups_count){
    for(int m=dist.middle_groups_count;m>0;--m){
      sa_assert(left>0 && sepat(s,left),"[distribute] a group starts where there is no separator"); ++seps; left-=low.highest_group();
    }
    low.pop_high();
  }
  while(!low.empty()){ sa_assert(left>0 && sepat(s,left),"[distribute] a group starts where there is no separator"); ++seps; left-=low.highest_group(); low.pop_high(); }
  sa_assert(left==0,"[distribute] the groups add up to the digits");
  sa_assert(seps==n,"[distribute] as many groups as there are separators");
}
static void all(const G& s,const strf::digits_grouping& d){
  const int dc=count();
  int n=0; for(int i=1;i<dc;++i) n+=sepat(s,i);
  sa_assert(d.empty()==(s.n==0),"[count] empty() tells whether there is any group");
  sa_assert(d.separators_count(dc)==n,"[count] separators_count() counts the separators");
  sa_assert(d.any_separator(dc)==(n!=0),"[count] any_separator() tells whether there is one");
  same(s,d,dc,d.distribute(dc));
  strf::numpunct<10> p{d};
  sa_assert(p.grouping()==d,"[numpunct] numpunct keeps the grouping");
  sa_assert(p.thousands_sep_count(dc)==n,"[numpunct] thousands_sep_count() counts the separators");
  sa_assert(p.any_group_separation(dc)==(n!=0),"[numpunct] any_group_separation() tells whether there is one");
  same(s,p,dc,p.distribute(dc));
  // backwards: the iterator
  auto it=d.get_iterator(); int at=0;
  sa_assert(it.ended()==(s.n==0),"[iterator] ended() tells whether there are more groups");
  if(!it.ended()) for(;;){
    at+=it.current();
    if(at>=dc) break;
    sa_assert(sepat(s,at),"[iterator] a group ends where there is no separator");
    if(it.is_final()){ sa_assert(it.is_last(),"[iterator] the final group is the last one"); for(int i=at+1;i<dc;++i) sa_assert(!sepat(s,i),"[iterator] a separator above the final group"); break; }
    if(it.shall_repeat_current()){ sa_assert(it.is_last(),"[iterator] the repeated group is the last one"); for(int i=at+1;i<dc;++i) sa_assert(sepat(s,i)==((i-at)%it.current()==0),"[iterator] the last group repeats"); break; }
    sa_assert(!it.is_last(),"[iterator] is_last() exactly for the last group");
    it.advance();
    sa_assert(!it.ended(),"[iterator] ended() only after the last group");
  }
}
// the iterator gives back the groups, whatever their sizes
extern "C" void sizes(){
  G s; s.n=2; for(int i=0;i<7;++i) s.g[i]=0; s.rep=sa_pick(0,1); s.g[0]=sa_pick(1,31); s.g[1]=sa_pick(1,31);
  const auto d=bycreator(s);
  sa_assert((d==byctor(s))==(s.g[0]!=s.g[1]||!s.rep),"[make] the creator and the constructor agree");
  sa_assert(d==bystring(s),"[make] the creator and the string agree");
  auto it=d.get_iterator();
  sa_assert(it.current()==s.g[0],"[iterator] the first group");
  sa_assert(d.any_separator(s.g[0]+1) && !d.any_separator(s.g[0]),"[count] any_separator() above the first group");
  sa_assert(d.separators_count(s.g[0]+1)==1 && d.separators_count(s.g[0])==0,"[count] one separator above the first group");
  if(s.rep && s.g[0]==s.g[1]){ sa_assert(it.shall_repeat_current(),"[iterator] equal groups repeat"); return; }
  sa_assert(!it.is_last() && !it.is_final() && !it.shall_repeat_current(),"[iterator] is_last() exactly for the last group");
  it.advance();
  sa_assert(it.current()==s.g[1] && it.is_last() && it.is_final()==!s.rep && it.shall_repeat_current()==s.rep,"[iterator] the second group");
  sa_assert(d.separators_count(s.g[0]+s.g[1]+1)==2 && d.separators_count(s.g[0]+s.g[1])==1,"[count] two separators above the second group");
  sa_assert(d.separators_count(s.g[0]+2*s.g[1]+1)==(s.rep?3:2) && d.separators_count(s.g[0]+2*s.g[1])==2,"[count] three separators if the second group is repeated");
  const int n=s.g[0]+s.g[1]; const auto x=d.distribute(n);
  sa_assert(x.highest_group==s.g[1] && x.middle_groups_count==0,"[distribute] the highest group is full");
}
extern "C" void nothing(){ G s; some(s,0); all(s,sa_pick(0,1)?strf::digits_grouping():byctor(s)); }
extern "C" void ctor1(){ G s; some(s,1); all(s,byctor(s)); }
extern "C" void ctor2(){ G s; some(s,2); all(s,byctor(s)); }
extern "C" void ctor3(){ G s; some(s,3); all(s,byctor(s)); }
extern "C" void ctor456(){ G s; patterns(s); all(s,byctor(s)); }
extern "C" void creator01(){ G s; some(s,sa_pick(0,1)); all(s,bycreator(s)); }
extern "C" void creator2(){ G s; some(s,2); all(s,bycreator(s)); }
extern "C" void creator3(){ G s; some(s,3); all(s,bycreator(s)); }
extern "C" void creator456(){ G s; patterns(s); all(s,bycreator(s)); }
extern "C" void string01(){ G s; some(s,sa_pick(0,1)); all(s,bystring(s)); }
extern "C" void string2(){ G s; some(s,2); all(s,bystring(s)); }
extern "C" void string456(){ G s; patterns(s); all(s,bystring(s)); }
extern "C" void string_ff(){ G s; some(s,0); all(s,strf::digits_grouping("\xff")); }
// what is not a grouping
extern "C" void invalid(){
  strf::digits_grouping_creator c;
  const int lo=sa_pick(0,1)?3:1; const int n=sa_pick(1,8), bad=sa_pick(-1,7), how=sa_pick(0,3); const bool u=sa_pick(0,1);
  for(int i=0;i<n;++i){
    const int g=i!=bad?lo+i%2:how==0?0:how==1?32:how==2?-1:65;
    if(u) c.push_high((unsigned)g); else c.push_high(g);
    sa_assert(c.failed()==(i>=6 || (bad>=0 && i>=bad)),"[make] failed() exactly after an invalid group or too many");
  }
  const bool f=n>6 || (bad>=0 && bad<n);
  const strf::digits_grouping d=sa_pick(0,1)?c.finish():c.finish_no_more_sep();
  sa_assert(d.empty()==f,"[make] a failed creator gives the empty grouping");
  sa_assert(!f || d==strf::digits_grouping{},"[make] a failed creator gives the empty grouping");
}
// repeating a group that is equal to the last one changes nothing
extern "C" void equal(){
  G s; some(s,2); G t=s; sa_assume(s.rep); t.n=3; t.g[2]=t.g[1];
  const int dc=count();
  const auto a=bycreator(s), b=bycreator(t), c=byctor(t);
  sa_assert(a==b && !(a!=b),"[make] groups repeated explicitly are the repeated group");
  sa_assert(a.separators_count(dc)==c.separators_count(dc),"[count] groups repeated explicitly are the repeated group");
}
// facets
template<class F> void twochars(F f){
  const char32_t p=(char32_t)sa_unit(0,0xffff);
  switch(sa_pick(0,2)){ case 0: f(p,p,true); return; case 1: f(p,(char32_t)sa_unit(0x10000,0x10ffff),false); return; }
  const char32_t q=0x1F123; f(q,q^((char32_t)1<<sa_pick(0,20)),false);
}
template<class N> void point(char32_t p,char32_t q,bool eq){
  N n; sa_assert(n.decimal_point()==U'.' && n.thousands_sep()==U',',"[numpunct] the default decimal point and separator");
  n.decimal_point(p); sa_assert(n.decimal_point()==p,"[numpunct] the decimal point that was set");
  N m=N{}.decimal_point(q); sa_assert(m.decimal_point()==q,"[numpunct] the decimal point that was set");
  sa_assert(n.thousands_sep()==U',',"[numpunct] setting the decimal point leaves the separator");
  sa_assert((n==m)==eq && (n!=m)==!eq,"[numpunct] equality compares the decimal point");
}
template<int B> void separator(char32_t p,char32_t q,bool eq){
  strf::numpunct<B> n(3), m(3);
  n.thousands_sep(p); sa_assert(n.thousands_sep()==p && n.decimal_point()==U'.' && n.grouping()==strf::digits_grouping(3),"[numpunct] the separator that was set");
  m=strf::numpunct<B>(3).thousands_sep(q); sa_assert(m.thousands_sep()==q,"[numpunct] the separator that was set");
  sa_assert((n==m)==eq,"[numpunct] equality compares the separator");
  n.grouping(strf::digits_grouping(2)); sa_assert(n.grouping()==strf::digits_grouping(2) && n.thousands_sep()==p,"[numpunct] the grouping that was set");
}
template<int B> void facets(){
  switch(sa_pick(0,2)){ case 0: twochars(point<strf::numpunct<B>>); return; case 1: twochars(point<strf::no_grouping<B>>); return; }
  if(sa_pick(0,1)){ twochars(separator<B>); return; }
  const strf::numpunct<B> k(3,2,-1), l(strf::digits_grouping(3,2,-1)); sa_assert(k==l && k!=strf::numpunct<B>(3,2) && k!=strf::numpunct<B>(),"[numpunct] equality compares the grouping");
  const strf::default_numpunct<B> d; const strf::no_grouping<B> g{};
  const int dc=count(); G s; some(s,0);
  sa_assert(d.grouping().empty() && g.grouping().empty(),"[numpunct] default_numpunct and no_grouping have no groups");
  sa_assert(!d.any_group_separation(dc) && !g.any_group_separation(dc) && d.thousands_sep_count(dc)==0 && g.thousands_sep_count(dc)==0,"[numpunct] default_numpunct and no_grouping have no separators");
  same(s,d,dc,d.distribute(dc)); same(s,g,dc,g.distribute(dc));
  sa_assert(d.decimal_point()==U'.' && d.thousands_sep()==U',' && g.thousands_sep()==U',' && g.decimal_point()==U'.',"[numpunct] the default decimal point and separator");
  sa_assert(static_cast<strf::numpunct<B>>(d)==strf::numpunct<B>(),"[numpunct] default_numpunct converts to the default numpunct");
  sa_assert(strf::numpunct_c<B>::get_default()==d,"[numpunct] the default facet");
}
extern "C" void facets2(){ facets<2>(); }
extern "C" void facets8(){ facets<8>(); }
extern "C" void facets10(){ facets<10>(); }
extern "C" void facets16(){ facets<16>(); }
'''
PASSES = None
OPT = dict(proof=False, witness=(10 ** 6,), wpaths=10 ** 6, wdeadline=250)
SLOW = ('creator3', 'ctor3')
