// B04: typed hashtables vs an ordered association list; value destruction log; dict serialization round trip
#include "vh.hpp"
static const S NUL("\x01NULL\x01");
struct Obj { int id; };
static std::set<int> freed; static int dblfree=0; static int nextid=0; static std::map<int,Obj*> objs;
static void obj_free(void*v){ Obj*o=(Obj*)v; if(!o) return; int id=o->id; if(!freed.insert(id).second||!objs.count(id)) { dblfree++; return; } }
struct Tab {
  virtual ~Tab(){} virtual void*create(size_t sz,M_uint8 fill,M_uint32 f)=0; virtual void destroy(void*h,bool dv)=0; virtual bool ins(void*h,const S&k,const S&v)=0; virtual bool rem(void*h,const S&k,bool dv)=0;
  virtual bool get(void*h,const S&k,S*v)=0; virtual S direct(void*h,const S&k)=0; virtual bool mlen(void*h,const S&k,size_t*n)=0; virtual bool mget(void*h,const S&k,size_t i,S*v)=0; virtual S mdirect(void*h,const S&k,size_t i)=0; virtual bool mrem(void*h,const S&k,size_t i,bool dv)=0;
  virtual size_t nk(void*h)=0; virtual size_t size(void*h)=0; virtual bool ismulti(void*h)=0; virtual size_t en(void*h,std::vector<std::pair<S,S>>*o)=0; virtual void merge(void**d,void*s)=0; virtual void*dup(void*h)=0;
  int kind,kk,vk; const char*name; // kk 0 str 1 u64; vk 0 str 1 u64 2 bin 3 vp 4 idx
};
#define KI_0(k) (k.c_str())
#define KI_1(k) (strtoull(k.c_str(),NULL,10))
#define KD_0 const char*kk=NULL;
#define KD_1 M_uint64 kk=0;
#define KO_0 S(kk)
#define KO_1 std::to_string(kk)
#define VI_0(v) (v==NUL?NULL:v.c_str())
#define VI_1(v) (strtoull(v.c_str(),NULL,10))
#define VI_2(v) ((const M_uint8*)v.data()),v.size()
#define VI_3(v) ((void*)objs[atoi(v.c_str())])
#define VI_4(v) ((size_t)strtoull(v.c_str(),NULL,10))
#define VD_0 const char*vv=NULL;
#define VD_1 M_uint64 vv=0;
#define VD_2 const M_uint8*vv=NULL; size_t vl=0;
#define VD_3 void*vv=NULL;
#define VD_4 size_t vv=0;
#define VA_0 &vv
#define VA_1 &vv
#define VA_2 &vv,&vl
#define VA_3 &vv
#define VA_4 &vv
#define VO_0 (vv?S(vv):NUL)
#define VO_1 std::to_string(vv)
#define VO_2 S((const char*)vv,vl)
#define VO_3 (vv?std::to_string(((Obj*)vv)->id):NUL)
#define VO_4 std::to_string(vv)
#define DD_0(f,...) vv=f(__VA_ARGS__)
#define DD_1(f,...) vv=f(__VA_ARGS__)
#define DD_2(f,...) vv=f(__VA_ARGS__,&vl)
#define DD_3(f,...) vv=f(__VA_ARGS__)
#define DD_4(f,...) vv=f(__VA_ARGS__)
#define XB_0
#define XB_1
#define XB_2
#define XB_4
#define XB_3 ,MB(dv)
#define CR_0
#define CR_1
#define CR_2
#define CR_4
#define CR_3 ,vpfree
#define DU_0(N) return M_hash_##N##_duplicate((M_hash_##N##_t*)h);
#define DU_1(N) DU_0(N)
#define DU_2(N) DU_0(N)
#define DU_4(N) DU_0(N)
#define DU_3(N) return NULL;
static void (*vpfree)(void*)=obj_free;
#define TAB(N,K,V,I) struct T_##N:Tab { typedef M_hash_##N##_t H; T_##N(){kind=I;kk=K;vk=V;name=#N;} \
 void*create(size_t sz,M_uint8 fill,M_uint32 f){ return M_hash_##N##_create(sz,fill,f CR_##V); } \
 void destroy(void*h,bool dv){ (void)dv; M_hash_##N##_destroy((H*)h XB_##V); } \
 bool ins(void*h,const S&k,const S&v){ return M_hash_##N##_insert((H*)h,KI_##K(k),VI_##V(v))==M_TRUE; } \
 bool rem(void*h,const S&k,bool dv){ (void)dv; return M_hash_##N##_remove((H*)h,KI_##K(k) XB_##V)==M_TRUE; } \
 bool get(void*h,const S&k,S*v){ VD_##V M_bool r=M_hash_##N##_get((H*)h,KI_##K(k),VA_##V); if(r) *v=VO_##V; return r==M_TRUE; } \
 S direct(void*h,const S&k){ VD_##V DD_##V(M_hash_##N##_get_direct,(H*)h,KI_##K(k)); return VO_##V; } \
 bool mlen(void*h,const S&k,size_t*n){ return M_hash_##N##_multi_len((H*)h,KI_##K(k),n)==M_TRUE; } \
 bool mget(void*h,const S&k,size_t i,S*v){ VD_##V M_bool r=M_hash_##N##_multi_get((H*)h,KI_##K(k),i,VA_##V); if(r) *v=VO_##V; return r==M_TRUE; } \
 S mdirect(void*h,const S&k,size_t i){ VD_##V DD_##V(M_hash_##N##_multi_get_direct,(H*)h,KI_##K(k),i); return VO_##V; } \
 bool mrem(void*h,const S&k,size_t i,bool dv){ (void)dv; return M_hash_##N##_multi_remove((H*)h,KI_##K(k),i XB_##V)==M_TRUE; } \
 size_t nk(void*h){ return M_hash_##N##_num_keys((H*)h);} size_t size(void*h){ return M_hash_##N##_size((H*)h);} bool ismulti(void*h){ return M_hash_##N##_is_multi((H*)h)==M_TRUE; } \
 size_t en(void*h,std::vector<std::pair<S,S>>*o){ M_hash_##N##_enum_t*e=NULL; size_t n=M_hash_##N##_enumerate((H*)h,&e); KD_##K VD_##V while(e&&M_hash_##N##_enumerate_next((H*)h,e,&kk,VA_##V)) o->push_back({KO_##K,VO_##V}); M_hash_##N##_enumerate_free(e); return n; } \
 void merge(void**d,void*s){ H*x=(H*)*d; M_hash_##N##_merge(&x,(H*)s); *d=x; } void*dup(void*h){ DU_##V(N) } } t_##N;
TAB(dict,0,0,0) TAB(strvp,0,3,1) TAB(strbin,0,2,2) TAB(stru64,0,1,3) TAB(stridx,0,4,4) TAB(u64str,1,0,5) TAB(u64vp,1,3,6) TAB(u64bin,1,2,7) TAB(u64u64,1,1,8)
static Tab*tabs[]={&t_dict,&t_strvp,&t_strbin,&t_stru64,&t_stridx,&t_u64str,&t_u64vp,&t_u64bin,&t_u64u64};
struct Cfg { bool ci,upper,lower,ord,asc,desc,multi,masc,mdesc,last,mci,stat; };
static M_uint32 flags_of(const Tab*t,const Cfg&c){
  M_uint32 f=0;
  if(t->kk==0){ if(c.ci)f|=1; if(c.upper)f|=2; if(c.lower)f|=4; if(c.ord)f|=8; if(c.asc)f|=16; if(c.desc)f|=32; if(c.multi)f|=64;
    if(t->kind==0){ if(c.masc)f|=128; if(c.mdesc)f|=256; if(c.last)f|=512; if(c.mci)f|=1024; if(c.stat)f|=2048; } else { if(c.last)f|=128; if(c.stat)f|=256; } }
  else { if(c.ord)f|=1; if(c.asc)f|=2; if(c.desc)f|=4; if(c.multi)f|=8;
    if(t->kind==5){ if(c.masc)f|=16; if(c.mdesc)f|=32; if(c.last)f|=64; if(c.mci)f|=128; if(c.stat)f|=256; } else if(t->kind==8){ if(c.masc)f|=16; if(c.mdesc)f|=32; if(c.last)f|=64; if(c.stat)f|=128; } else { if(c.last)f|=16; if(c.stat)f|=32; } }
  return f;
}
static S low(S s){ for(auto&c:s) if(c>='A'&&c<='Z') c=(char)(c+32); return s; }
static S up(S s){ for(auto&c:s) if(c>='a'&&c<='z') c=(char)(c-32); return s; }
struct Model { Tab*t; Cfg c; std::vector<std::pair<S,VS>> e;
  S norm(const S&k)const{ return c.ci?low(k):k; }
  bool klt(const S&a,const S&b)const{ if(t->kk==1){ uint64_t x=strtoull(a.c_str(),0,10),y=strtoull(b.c_str(),0,10); return x<y; } return norm(a)<norm(b); }
  size_t find(const S&k)const{ for(size_t i=0;i<e.size();i++) if(norm(e[i].first)==norm(k)) return i; return (size_t)-1; }
  int vcmp(const S&a,const S&b)const{ if(t->vk==1){ uint64_t x=strtoull(a.c_str(),0,10),y=strtoull(b.c_str(),0,10); return x<y?-1:x>y; } S x=c.mci?low(a):a,y=c.mci?low(b):b; return x<y?-1:x>y; }
  // returns dropped value or "" marker through *drop
  void ins(const S&k,const S&v,bool stored,VS*drop){ size_t i=find(k); S key=stored?k:c.lower?low(k):c.upper?up(k):k; if(i==(size_t)-1){ e.push_back({key,{v}}); if(c.ord&&(c.asc||c.desc)) std::stable_sort(e.begin(),e.end(),[&](const std::pair<S,VS>&a,const std::pair<S,VS>&b){ return c.desc?klt(b.first,a.first):klt(a.first,b.first); }); return; }
    if(!c.multi){ if(drop&&e[i].second[0]!=v) drop->push_back(e[i].second[0]); e[i].second[0]=v; return; }
    e[i].second.push_back(v); if(c.masc||c.mdesc) std::stable_sort(e[i].second.begin(),e[i].second.end(),[&](const S&a,const S&b){ return c.mdesc?vcmp(b,a)<0:vcmp(a,b)<0; }); }
};
static std::set<int> wantfreed; static bool isvp;
static void drop(const VS&d,bool cb){ for(auto&x:d){ if(cb&&vpfree&&isvp) wantfreed.insert(atoi(x.c_str())); } }
static bool sortedeq(const Model&m,const VS&a,const VS&b){ // sorted multi: equal runs may be permuted only among case-equal values
  if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(m.vcmp(a[i],b[i])!=0) return false; VS x=a,y=b; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); return x==y; }
static bool vseq(const Model&m,const VS&a,const VS&b){ return (m.c.masc||m.c.mdesc)?sortedeq(m,a,b):a==b; }
static void verify(Model&m,void*h,const S&op,bool full){
  const char*nm=m.t->name; size_t tot=0; for(auto&x:m.e) tot+=x.second.size();
  VH_CHECK(m.t->nk(h)==m.e.size(),"hash:num_keys","%s after %s: %zu keys want %zu",nm,op.c_str(),m.t->nk(h),m.e.size());
  VH_CHECK(dblfree==0,"hash:value destroyed twice","%s after %s",nm,op.c_str());
  if(freed!=wantfreed) vh_fail("hash:value destruction","%s after %s: destroyed %zu values, expected %zu",nm,op.c_str(),freed.size(),wantfreed.size());
  if(!full) return;
  std::vector<std::pair<S,S>> got; size_t n=m.t->en(h,&got);
  VH_CHECK(n==tot,"hash:enumerate count","%s after %s: %zu want %zu",nm,op.c_str(),n,tot);
  VH_CHECK(got.size()==tot,"hash:enumerate","%s after %s: enumerated %zu want %zu",nm,op.c_str(),got.size(),tot);
  // group
  std::vector<std::pair<S,VS>> g; for(auto&x:got){ if(!g.empty()&&g.back().first==x.first) g.back().second.push_back(x.second); else g.push_back({x.first,{x.second}}); }
  VH_CHECK(g.size()==m.e.size(),"hash:enumerate grouping","%s after %s",nm,op.c_str());
  for(size_t i=0;i<g.size();i++){
    size_t j=m.c.ord?i:m.find(g[i].first);
    VH_CHECK(j!=(size_t)-1&&m.e[j].first==g[i].first,"hash:enumerate key","%s after %s: key %s at %zu%s",nm,op.c_str(),E(g[i].first),i,m.c.ord?vh_fmt(" want %s",E(m.e[j].first)).c_str():"");
    VH_CHECK(vseq(m,g[i].second,m.e[j].second),"hash:enumerate values","%s after %s: key %s: %zu values, want %zu, first %s",nm,op.c_str(),E(g[i].first),g[i].second.size(),m.e[j].second.size(),E(g[i].second[0]));
    // adopt the order of equal sorted values
    m.e[j].second=g[i].second;
  }
}
static S mkval(const Tab*t,bool multi){
  switch(t->vk){ case 0: if(!multi&&vh_chance(3)) return NUL; { S s=vh_chance(60)?vh_from("abAB",vh_rndn(3)):vh_cbytes(vh_rndn(12)); return s; }
  case 1: case 4: return std::to_string(vh_u64()); case 2: return vh_bytes(vh_len()); default: { int id=++nextid; objs[id]=new Obj{id}; return std::to_string(id);} } }
static void run(void){
  freed.clear(); wantfreed.clear(); dblfree=0; nextid=0; objs.clear(); Tab*t=tabs[vh_rndn(9)]; vpfree=vh_chance(85)?obj_free:NULL; isvp=t->vk==3;
  Cfg c{}; bool ks=t->kk==0; if(ks&&vh_chance(40)){ c.ci=true; if(vh_chance(25)) c.upper=true; else if(vh_chance(25)) c.lower=true; } c.ord=vh_chance(60); if(c.ord&&vh_chance(60)){ if(vh_chance(50)) c.asc=true; else c.desc=true; }
  c.multi=vh_chance(50); if(c.multi){ c.last=vh_chance(40); if((t->kind==0||t->kind==5||t->kind==8)&&vh_chance(40)){ if(vh_chance(50)) c.masc=true; else c.mdesc=true; if(t->kind!=8) c.mci=vh_chance(50);} } c.stat=vh_chance(20);
  size_t sizes[]={1,2,4,7,16,64}; M_uint8 fills[]={0,10,50,75,99}; size_t sz=sizes[vh_rndn(6)]; M_uint8 fp=fills[vh_rndn(5)];
  void*h=t->create(sz,fp,flags_of(t,c)); VH_CHECK(h!=NULL,"hash:create","%s flags %x",t->name,flags_of(t,c)); if(!h) return;
  VH_CHECK(t->ismulti(h)==c.multi,"hash:is_multi","%s",t->name);
  Model m{t,c,{}}; size_t pool=3+vh_rndn(vh_chance(20)?120:25); VS keys; for(size_t i=0;i<pool;i++) keys.push_back(ks?(vh_chance(70)?vh_from("abAB",1+vh_rndn(4)):vh_cbytes(1+vh_rndn(10))):std::to_string(vh_chance(50)?vh_rndn(40):vh_u64()));
  int n=20+(int)vh_rndn(vh_chance(15)?300:60); uint64_t hh=vh_hstr(t->name,flags_of(t,c)); int instances=1;
  for(int i=0;i<n;i++){
    S k=vh_pick(keys); S op; VS d; bool dv=vh_chance(70);
    switch(vh_rndn(vh_chance(15)?14:11)){
    case 0: case 1: case 2: case 3: case 4: { if(ks&&vh_chance(2)){ S v=t->vk==3?S("0"):mkval(t,true); op="insert empty key"; VH_CHECK(!t->ins(h,"",v),"hash:result","%s empty key accepted",t->name); break; }
      if(t->vk==3&&!c.multi&&vh_chance(10)&&m.find(k)!=(size_t)-1){ op="reinsert same pointer"; VH_CHECK(t->ins(h,k,m.e[m.find(k)].second[0]),"hash:result","%s",t->name); break; }
      S v=mkval(t,c.multi); op=vh_fmt("insert(%s)",E(k)); VH_CHECK(t->ins(h,k,v),"hash:result","%s %s",t->name,op.c_str()); m.ins(k,v,false,&d); drop(d,true); } break;
    case 5: case 6: { size_t j=m.find(k); op=vh_fmt("remove(%s)",E(k)); VH_CHECK(t->rem(h,k,dv)==(j!=(size_t)-1),"hash:result","%s %s",t->name,op.c_str()); if(j!=(size_t)-1){ drop(m.e[j].second,dv); m.e.erase(m.e.begin()+(long)j);} } break;
    case 7: case 8: { S v; size_t j=m.find(k); bool has=j!=(size_t)-1; op=vh_fmt("get(%s)",E(k)); VH_CHECK(t->get(h,k,&v)==has,"hash:get","%s %s",t->name,op.c_str()); if(has){ const VS&w=m.e[j].second; const S&x=c.last?w.back():w[0]; if(!(c.masc||c.mdesc)) VH_CHECK(v==x,"hash:get value","%s %s: %s want %s",t->name,op.c_str(),E(v),E(x)); else VH_CHECK(m.vcmp(v,x)==0,"hash:get value","%s %s",t->name,op.c_str()); VH_CHECK(t->direct(h,k)==v,"hash:get_direct","%s %s",t->name,op.c_str()); } } break;
    case 9: { size_t j=m.find(k); bool has=c.multi&&j!=(size_t)-1; size_t ml=9; op=vh_fmt("multi_get(%s)",E(k)); VH_CHECK(t->mlen(h,k,&ml)==has&&ml==(has?m.e[j].second.size():0),"hash:multi_len","%s %s: %zu",t->name,op.c_str(),ml); size_t ix=vh_rndn((has?ml:0)+2); S v; bool g=t->mget(h,k,ix,&v); VH_CHECK(g==(has&&ix<ml),"hash:multi_get","%s %s",t->name,op.c_str()); if(g){ const S&x=m.e[j].second[ix]; VH_CHECK((c.masc||c.mdesc)?m.vcmp(v,x)==0:v==x,"hash:multi_get value","%s %s idx %zu: %s want %s",t->name,op.c_str(),ix,E(v),E(x)); VH_CHECK(t->mdirect(h,k,ix)==v,"hash:multi_get_direct","%s",t->name); } } break;
    case 10: { size_t j=m.find(k); bool has=c.multi&&j!=(size_t)-1; if(has&&(c.masc||c.mdesc)) verify(m,h,"pre",true); size_t ix=vh_rndn((has?m.e[j].second.size():0)+1); bool ok=has&&ix<m.e[j].second.size(); op=vh_fmt("multi_remove(%s,%zu)",E(k),ix); VH_CHECK(t->mrem(h,k,ix,dv)==ok,"hash:result","%s %s",t->name,op.c_str()); if(ok){ drop({m.e[j].second[ix]},dv); m.e[j].second.erase(m.e[j].second.begin()+(long)ix); if(m.e[j].second.empty()) m.e.erase(m.e.begin()+(long)j);} } break;
    case 11: if(t->vk!=3){ op="duplicate"; void*x=t->dup(h); VH_CHECK(x!=NULL,"hash:duplicate","%s",t->name); Model mm=m; verify(mm,x,"duplicate",true); if(vh_chance(50)){ t->destroy(h,true); h=x; } else t->destroy(x,true); verify(m,h,op,true); instances++; } break;
    case 12: case 13: { op="merge"; void*o; Model mo{t,c,{}}; if(vh_chance(10)) o=NULL; else o=t->create(sizes[vh_rndn(6)],fills[vh_rndn(5)],flags_of(t,c));
      if(o){ int q=(int)vh_rndn(30); for(int z=0;z<q;z++){ S k2=vh_pick(keys),v=mkval(t,c.multi); VS dd; t->ins(o,k2,v); mo.ins(k2,v,false,&dd); drop(dd,true); } }
      bool rev=vh_chance(40); void*dst=rev?o:h,*src=rev?h:o; Model&md=rev?mo:m; Model&msrc=rev?m:mo;
      if(src){ // the order in which an unordered source is enumerated decides insertion order of new keys
        std::vector<std::pair<S,S>> se; t->en(src,&se); if(!dst){ t->merge(&dst,src); md=msrc; } else { for(auto&x:se){ VS dd; md.ins(x.first,x.second,true,&dd); drop(dd,true);} t->merge(&dst,src); } }
      else t->merge(&dst,src);
      (void)msrc; h=dst; if(rev) m=mo; verify(m,h,op,true); vh_count("merges",1); } break;
    }
    verify(m,h,op,vh_chance(15)); hh=vh_hstr(op.c_str(),hh); vh_count("ops",1);
  }
  verify(m,h,"end",true); size_t bk=t->size(h); VH_CHECK(bk&&!(bk&(bk-1)),"hash:size","%s size %zu",t->name,bk); if(bk>sz*2) vh_count("grown",1);
  bool dv=vh_chance(80); for(auto&x:m.e) drop(x.second,dv); t->destroy(h,dv); VH_CHECK(dblfree==0,"hash:value destroyed twice","%s on destroy",t->name); VH_CHECK(t->vk!=3||freed==wantfreed,"hash:value destruction","%s on destroy: %zu want %zu",t->name,freed.size(),wantfreed.size());
  for(auto&x:objs) delete x.second; objs.clear(); vh_distinct(hh);
}
// ---- serialization
static bool mpr(char c){ return (c>=32&&c<127)||(c>=9&&c<=13); }
static void run_ser(void){
  struct { char d,kv,q,e; } st[]={{';','=','"','\\'},{';','=','"','"'},{'\n',':','"','\\'},{',','=','\'','\\'},{'&','=','"','"'},{'\n','=','"','"'}}; auto z=st[vh_rndn(6)];
  M_uint32 f=0; if(vh_chance(50)) f|=vh_chance(50)?M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE:M_HASH_DICT_SER_FLAG_QUOTE_NON_ANS; if(vh_chance(30)) f|=M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT; bool crlf=z.d=='\n'&&vh_chance(50); if(crlf) f|=M_HASH_DICT_SER_FLAG_LF_TO_CRLF;
  M_uint32 df=M_HASH_DICT_KEYS_ORDERED|(vh_chance(30)?M_HASH_DICT_MULTI_VALUE:0); bool multi=df&M_HASH_DICT_MULTI_VALUE; bool trim=crlf||vh_chance(40);
  M_hash_dict_t*d=M_hash_dict_create(8,75,df); std::vector<std::pair<S,VS>> m; int n=(int)vh_rndn(8);
  for(int i=0;i<n;i++){ S k=vh_from("abcK1",1+vh_rndn(3)); S v; switch(vh_rndn(6)){ case 0: v=vh_ascii(vh_rndn(12)); break; case 1: { S al=S(" a\t")+z.d+z.kv+z.q+z.e+"\r\n"; v=vh_from(al.c_str(),vh_rndn(10)); } break; case 2: v=vh_cbytes(vh_rndn(12)); break; case 3: v=NUL; break; case 4: v=""; break; default: v=vh_from("abc 12",vh_rndn(20)); }
    M_hash_dict_insert(d,k.c_str(),v==NUL?NULL:v.c_str()); size_t j=0; for(;j<m.size();j++) if(m[j].first==k) break; if(j==m.size()) m.push_back({k,{v}}); else if(multi) m[j].second.push_back(v); else m[j].second[0]=v; }
  char*s=M_hash_dict_serialize(d,z.d,z.kv,z.q,z.e,f); VH_CHECK(s!=NULL,"dict:serialize","NULL"); if(!s) return; S ser(s); M_free(s);
  // expected text
  S want; auto esc=[&](const S&v){ S o; bool hex=f&M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT,sp=false; for(char c:v) if(c==z.q||c==z.e||(hex&&!mpr(c))) sp=true; if(!sp) return v; for(char c:v){ if(c==z.q||c==z.e) o+=z.e; if(hex&&!mpr(c)) o+=vh_fmt("[%02X]",(unsigned char)c); else o+=c; } return o; };
  for(auto&kv:m) for(auto&v:kv.second){ want+=kv.first; want+=z.kv; if(v!=NUL){ bool q=f&M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE||v.empty()||isspace((unsigned char)v[0])||isspace((unsigned char)v.back())||esc(v)!=v; for(char c:v) if(c==z.d||c==z.kv||c==z.q||c==z.e||(f&M_HASH_DICT_SER_FLAG_QUOTE_NON_ANS&&!((c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z')||c==' '))) q=true; if(f&M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT) for(char c:v) if(!mpr(c)) q=true; if(q) want+=z.q; want+=esc(v); if(q) want+=z.q; } else if(f&M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE) want+=S(2,z.q); if(crlf) want+="\r\n"; else want+=z.d; }
  VH_CHECK(ser==want,"dict:serialize text","%s want %s",E(ser),E(want));
  Heap hp(ser,true); M_hash_dict_t*r=M_hash_dict_deserialize(hp.p,ser.size(),z.d,z.kv,z.q,z.e,df|(trim?M_HASH_DICT_DESER_TRIM_WHITESPACE:0));
  if(m.empty()){ VH_CHECK(r==NULL||M_hash_dict_num_keys(r)==0,"dict:deserialize empty","?"); }
  else { VH_CHECK(r!=NULL,"dict:deserialize","refused its own output %s",E(ser)); if(r){ VH_CHECK(M_hash_dict_num_keys(r)==m.size(),"dict:round trip","%s: %zu keys want %zu",E(ser),M_hash_dict_num_keys(r),m.size());
    for(auto&kv:m) for(size_t i=0;i<kv.second.size();i++){ S w=kv.second[i]; if(w==NUL&&f&M_HASH_DICT_SER_FLAG_ALWAYS_QUOTE) w=""; if(w!=NUL&&f&M_HASH_DICT_SER_FLAG_HEXENCODE_NONPRINT){ S o; for(char c:w) if(!mpr(c)) o+=vh_fmt("[%02X]",(unsigned char)c); else o+=c; w=o; } const char*v=NULL; M_bool g=multi?M_hash_dict_multi_get(r,kv.first.c_str(),i,&v):M_hash_dict_get(r,kv.first.c_str(),&v); S got=v?S(v):NUL; VH_CHECK(g&&got==w,"dict:round trip","%s: key %s value %s want %s (trim %d)",E(ser),E(kv.first),E(got),E(w),trim); } } }
  M_hash_dict_destroy(r); M_hash_dict_destroy(d); vh_distinct(vh_hash(ser.data(),ser.size(),f));
}
// ---- multi type table
static int mfree; static void mcb(void*p){ mfree++; free(p); }
static void run_multi(void){
  bool ci=vh_chance(50); M_hash_multi_t*h=M_hash_multi_create(ci?M_HASH_MULTI_STR_CASECMP:M_HASH_MULTI_NONE); struct V{int t;S s;uint64_t u;void*p;bool cb;}; std::map<S,V> m; mfree=0; int want=0; int n=20+(int)vh_rndn(80); uint64_t hh=ci; std::vector<void*> loose;
  for(int i=0;i<n;i++){ bool ik=vh_chance(50); uint64_t kn=vh_rndn(8); S ks=vh_from("aAbB",1+vh_rndn(2)); S mk=ik?"i"+std::to_string(kn):"s"+(ci?low(ks):ks); const char*k=ks.c_str(); auto it=m.find(mk); bool has=it!=m.end(); int o=(int)vh_rndn(12);
#define X(fn,...) (ik?M_hash_multi_u64_##fn(h,kn,##__VA_ARGS__):M_hash_multi_str_##fn(h,k,##__VA_ARGS__))
    auto put=[&](V v){ if(has&&it->second.t==5&&it->second.cb) want++; m[mk]=v; };
    switch(o){
    case 0: { M_bool b=MB(vh_chance(50)); VH_CHECK(X(insert_bool,b),"multi:insert","bool"); put({1,"",(uint64_t)b,0,false}); } break;
    case 1: { uint64_t u=vh_u64(); if(vh_chance(50)) VH_CHECK(X(insert_int,(M_int64)u),"multi:insert","int"); else VH_CHECK(X(insert_uint,u),"multi:insert","uint"); put({2,"",u,0,false}); } break;
    case 2: { S s=vh_cbytes(vh_len()); VH_CHECK(X(insert_str,s.c_str()),"multi:insert","str"); put({3,s,0,0,false}); } break;
    case 3: { S s=vh_bytes(vh_len()); Heap hp(s); VH_CHECK(X(insert_bin,(const unsigned char*)hp.p,s.size()),"multi:insert","bin"); put({4,s,0,0,false}); } break;
    case 4: { void*p=malloc(3); bool cb=vh_chance(70); if(!cb) loose.push_back(p); VH_CHECK(X(insert_vp,p,cb?mcb:NULL),"multi:insert","vp"); put({5,"",0,p,cb}); } break;
    case 5: { bool dv=vh_chance(70); void*keep=has&&it->second.t==5&&it->second.cb&&!dv?it->second.p:NULL; M_bool r=X(remove,MB(dv)); VH_CHECK((r==M_TRUE)==has,"multi:remove","%s",mk.c_str()); if(keep) loose.push_back(keep); else if(has&&it->second.t==5&&it->second.cb) want++; if(has) m.erase(it); } break;
    case 6: if(!ik){ VH_CHECK(!M_hash_multi_str_insert_bool(h,"",M_TRUE)&&!M_hash_multi_str_insert_bin(h,"",(const unsigned char*)"x",1)&&!M_hash_multi_str_insert_vp(h,NULL,&n,NULL)&&!M_hash_multi_str_insert_str(h,NULL,"a"),"multi:empty key","accepted"); } break;
    default: break; }
    it=m.find(mk); int ty=it==m.end()?0:it->second.t; VH_CHECK((int)X(type)==ty,"multi:type","%s: %d want %d",mk.c_str(),(int)X(type),ty);
    M_bool b; M_int64 i64; M_uint64 u64; const char*s; const unsigned char*bb; size_t bl; void*vp;
    VH_CHECK((X(get_bool,&b)==M_TRUE)==(ty==1)&&(ty!=1||(uint64_t)b==it->second.u),"multi:get","bool"); VH_CHECK((X(get_int,&i64)==M_TRUE)==(ty==2)&&(ty!=2||(uint64_t)i64==it->second.u),"multi:get","int"); VH_CHECK((X(get_uint,&u64)==M_TRUE)==(ty==2)&&(ty!=2||u64==it->second.u),"multi:get","uint");
    VH_CHECK((X(get_str,&s)==M_TRUE)==(ty==3)&&(ty!=3||it->second.s==s),"multi:get","str"); VH_CHECK((X(get_bin,&bb,&bl)==M_TRUE)==(ty==4)&&(ty!=4||it->second.s==S((const char*)bb,bl)),"multi:get","bin"); VH_CHECK((X(get_vp,&vp)==M_TRUE)==(ty==5)&&(ty!=5||it->second.p==vp),"multi:get","vp");
    VH_CHECK(mfree==want,"multi:destroy callbacks","%d want %d",mfree,want); hh=hh*31+(unsigned)o*7+(unsigned)ty; vh_count("ops",1); hh=vh_hstr(mk.c_str(),hh);
  }
  for(auto&x:m) if(x.second.t==5&&x.second.cb) want++; M_hash_multi_destroy(h); VH_CHECK(mfree==want,"multi:destroy callbacks","destroy: %d want %d",mfree,want); for(void*p:loose) free(p); vh_distinct(hh);
}
const vh_mode_t vh_modes[]={ {"ops",run},{"ser",run_ser},{"multi",run_multi}, {0} };
