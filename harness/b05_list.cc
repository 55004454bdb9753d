// B05: array lists (generic, str, u64, bin) vs a reference sequence
#include "vh.hpp"
struct El { S v; int tag; };
struct Ad { virtual ~Ad(){} virtual void destroy()=0; virtual bool ins(const S&,int)=0; virtual bool ins_at(const S&,int,size_t)=0; virtual size_t ins_idx(const S&)=0; virtual void begin(){} virtual void end(){} virtual size_t len()=0; virtual size_t count(const S&)=0; virtual bool index_of(const S&,size_t*)=0;
  virtual bool at(size_t,El*)=0; virtual El first()=0; virtual El last()=0; virtual El take(int how,size_t i)=0; virtual bool rem(int how,size_t i)=0; virtual size_t rem_val(const S&,bool all)=0; virtual bool rem_range(size_t,size_t)=0; virtual void rem_dups()=0; virtual size_t rep_val(const S&,const S&,int tag,bool all)=0; virtual bool rep_at(const S&,int,size_t)=0; virtual bool swap(size_t,size_t)=0; virtual Ad*dup()=0; virtual Ad*fresh()=0; virtual void merge(Ad*src,bool incl)=0; virtual bool resort(bool,bool,bool,bool){ return false; } virtual const char*name()=0; };
struct Cfg { bool sorted,desc,ci,stable,stack,set,nosh; };
static S low(S s){ for(auto&c:s) if(c>='A'&&c<='Z') c=(char)(c+32); return s; }
// ---- generic list with an owning / pass-through value
struct Obj { S v; int tag; }; static std::set<Obj*> live; static int badfree;
struct Th { bool desc,ci; }; static Th th_pool[4]={{0,0},{1,0},{0,1},{1,1}};
static int gcmp(const void*a,const void*b,void*t){ const Obj*x=*(Obj*const*)a,*y=*(Obj*const*)b; Th*h=(Th*)t; S p=h->ci?low(x->v):x->v,q=h->ci?low(y->v):y->v; int r=p<q?-1:p>q; return h->desc?-r:r; }
static int gcmp0(const void*a,const void*b,void*t){ (void)t; Th h={0,0}; return gcmp(a,b,&h); }
static void*gdup(const void*p){ const Obj*o=(const Obj*)p; Obj*n=new Obj(*o); live.insert(n); return n; }
static void gfree(void*p){ Obj*o=(Obj*)p; if(!live.erase(o)){ badfree++; return; } delete o; }
struct G:Ad { M_list_t*l; M_uint32 f; G(const Cfg&c){ f=(c.sorted?M_LIST_SORTED:0)|(c.stable?M_LIST_STABLE:0)|(c.stack?M_LIST_STACK:0)|(c.set?M_LIST_SET_VAL:0)|(c.nosh?M_LIST_NEVERSHRINK:0); struct M_list_callbacks cb={gcmp0,gdup,gdup,gfree}; l=M_list_create(&cb,f); } G(){}
  const char*name(){ return "generic"; } void destroy(){ M_list_destroy(l,M_TRUE); } 
  bool ins(const S&v,int t){ Obj o{v,t}; return M_list_insert(l,&o); } bool ins_at(const S&v,int t,size_t i){ Obj o{v,t}; return M_list_insert_at(l,&o,i); } size_t ins_idx(const S&v){ Obj o{v,0}; return M_list_insert_idx(l,&o); } void begin(){ M_list_insert_begin(l);} void end(){ M_list_insert_end(l);} size_t len(){ return M_list_len(l);} size_t count(const S&v){ Obj o{v,0}; return M_list_count(l,&o,M_LIST_MATCH_VAL);} bool index_of(const S&v,size_t*i){ Obj o{v,0}; return M_list_index_of(l,&o,M_LIST_MATCH_VAL,i); }
  static El el(const void*p){ if(!p) return El{"<null>",-2}; const Obj*o=(const Obj*)p; return El{o->v,o->tag}; } bool at(size_t i,El*e){ const void*p=M_list_at(l,i); if(!p) return false; *e=el(p); return true; } El first(){ return el(M_list_first(l)); } El last(){ return el(M_list_last(l)); }
  El take(int h,size_t i){ void*p=h==0?M_list_take_first(l):h==1?M_list_take_last(l):M_list_take_at(l,i); El e=el(p); if(p) gfree(p); return e; } bool rem(int h,size_t i){ return h==0?M_list_remove_first(l):h==1?M_list_remove_last(l):M_list_remove_at(l,i); }
  size_t rem_val(const S&v,bool all){ Obj o{v,0}; return M_list_remove_val(l,&o,all?M_LIST_MATCH_ALL:M_LIST_MATCH_VAL);} bool rem_range(size_t a,size_t b){ return M_list_remove_range(l,a,b);} void rem_dups(){ M_list_remove_duplicates(l,M_LIST_MATCH_VAL);} size_t rep_val(const S&v,const S&n,int t,bool all){ Obj o{v,0},p{n,t}; return M_list_replace_val(l,&o,&p,all?M_LIST_MATCH_ALL:M_LIST_MATCH_VAL);} bool rep_at(const S&v,int t,size_t i){ Obj o{v,t}; return M_list_replace_at(l,&o,i);} bool swap(size_t a,size_t b){ return M_list_swap(l,a,b);} 
  Ad*dup(){ G*g=new G(); g->l=M_list_duplicate(l); g->f=f; return g; } Ad*fresh(){ return NULL; } void merge(Ad*s,bool incl){ M_list_merge(&l,((G*)s)->l,MB(incl),M_LIST_MATCH_VAL); }
  bool resort(bool so,bool de,bool ci,bool st){ M_list_change_sorting(l,gcmp,(so?M_LIST_SORTED:0)|(st?M_LIST_STABLE:0),&th_pool[de+2*ci]); return true; } };
struct STR:Ad { M_list_str_t*l; M_uint32 f; static M_uint32 fl(const Cfg&c){ return (c.sorted?(c.desc?M_LIST_STR_SORTDESC:M_LIST_STR_SORTASC):0)|(c.ci?M_LIST_STR_CASECMP:0)|(c.stable?M_LIST_STR_STABLE:0)|(c.stack?M_LIST_STR_STACK:0)|(c.set?M_LIST_STR_SET:0)|(c.nosh?M_LIST_STR_NEVERSHRINK:0); } STR(const Cfg&c){ f=fl(c); l=M_list_str_create(f);} STR(){}
  const char*name(){ return "str"; } void destroy(){ M_list_str_destroy(l); } static El el(const char*p){ return p?El{p,-1}:El{"<null>",-2}; } M_uint32 ty(bool a){ return a?M_LIST_STR_MATCH_ALL:M_LIST_STR_MATCH_VAL; }
  bool ins(const S&v,int){ return M_list_str_insert(l,v.c_str()); } bool ins_at(const S&v,int,size_t i){ return M_list_str_insert_at(l,v.c_str(),i);} size_t ins_idx(const S&v){ return M_list_str_insert_idx(l,v.c_str()); } void begin(){ M_list_str_insert_begin(l);} void end(){ M_list_str_insert_end(l);} size_t len(){ return M_list_str_len(l);} size_t count(const S&v){ return M_list_str_count(l,v.c_str(),M_LIST_STR_MATCH_VAL);} bool index_of(const S&v,size_t*i){ return M_list_str_index_of(l,v.c_str(),M_LIST_STR_MATCH_VAL,i);} 
  bool at(size_t i,El*e){ const char*p=M_list_str_at(l,i); if(!p) return false; *e=el(p); return true; } El first(){ return el(M_list_str_first(l)); } El last(){ return el(M_list_str_last(l)); } El take(int h,size_t i){ char*p=h==0?M_list_str_take_first(l):h==1?M_list_str_take_last(l):M_list_str_take_at(l,i); El e=el(p); M_free(p); return e; } bool rem(int h,size_t i){ return h==0?M_list_str_remove_first(l):h==1?M_list_str_remove_last(l):M_list_str_remove_at(l,i);} 
  size_t rem_val(const S&v,bool a){ return M_list_str_remove_val(l,v.c_str(),ty(a)); } bool rem_range(size_t a,size_t b){ return M_list_str_remove_range(l,a,b);} void rem_dups(){ M_list_str_remove_duplicates(l);} size_t rep_val(const S&v,const S&n,int,bool a){ return M_list_str_replace_val(l,v.c_str(),n.c_str(),ty(a)); } bool rep_at(const S&v,int,size_t i){ return M_list_str_replace_at(l,v.c_str(),i);} bool swap(size_t a,size_t b){ return M_list_str_swap(l,a,b);} Ad*dup(){ STR*g=new STR(); g->l=M_list_str_duplicate(l); g->f=f; return g; } Ad*fresh(){ STR*g=new STR(); g->f=f; g->l=M_list_str_create(f); return g; } void merge(Ad*s,bool i){ M_list_str_merge(&l,((STR*)s)->l,MB(i)); }
  bool resort(bool so,bool de,bool ci,bool st){ Cfg c{so,de,ci,st,false,false,false}; M_uint32 keep=f&(M_LIST_STR_STACK|M_LIST_STR_SET|M_LIST_STR_NEVERSHRINK); M_list_str_change_sorting(l,fl(c)); f=fl(c)|keep; return true; } };
struct U64:Ad { M_list_u64_t*l; M_uint32 f; static M_uint32 fl(const Cfg&c){ return (c.sorted?(c.desc?M_LIST_U64_SORTDESC:M_LIST_U64_SORTASC):0)|(c.stable?M_LIST_U64_STABLE:0)|(c.stack?M_LIST_U64_STACK:0)|(c.set?M_LIST_U64_SET:0)|(c.nosh?M_LIST_U64_NEVERSHRINK:0);} U64(const Cfg&c){ f=fl(c); l=M_list_u64_create(f);} U64(){}
  static M_uint64 N(const S&v){ return strtoull(v.c_str(),0,36); } static S T(M_uint64 n){ static const char*d="0123456789abcdefghijklmnopqrstuvwxyz"; S s; if(!n) return "0"; while(n){ s.insert(s.begin(),d[n%36]); n/=36;} return s; } static El el(M_uint64 n){ return El{T(n),-1}; } M_uint32 ty(bool a){ return a?M_LIST_U64_MATCH_ALL:M_LIST_U64_MATCH_VAL; }
  const char*name(){ return "u64"; } void destroy(){ M_list_u64_destroy(l); } bool ins(const S&v,int){ return M_list_u64_insert(l,N(v)); } bool ins_at(const S&v,int,size_t i){ return M_list_u64_insert_at(l,N(v),i);} size_t ins_idx(const S&v){ M_uint64 n=N(v); return M_list_u64_insert_idx(l,&n); } void begin(){ M_list_u64_insert_begin(l);} void end(){ M_list_u64_insert_end(l);} size_t len(){ return M_list_u64_len(l);} size_t count(const S&v){ return M_list_u64_count(l,N(v));} bool index_of(const S&v,size_t*i){ return M_list_u64_index_of(l,N(v),i);} 
  bool at(size_t i,El*e){ if(i>=len()) return M_list_u64_at(l,i)!=0; *e=el(M_list_u64_at(l,i)); return true; } El first(){ return el(M_list_u64_first(l)); } El last(){ return el(M_list_u64_last(l)); } El take(int h,size_t i){ return el(h==0?M_list_u64_take_first(l):h==1?M_list_u64_take_last(l):M_list_u64_take_at(l,i)); } bool rem(int h,size_t i){ return h==0?M_list_u64_remove_first(l):h==1?M_list_u64_remove_last(l):M_list_u64_remove_at(l,i);} 
  size_t rem_val(const S&v,bool a){ return M_list_u64_remove_val(l,N(v),ty(a)); } bool rem_range(size_t a,size_t b){ return M_list_u64_remove_range(l,a,b);} void rem_dups(){ M_list_u64_remove_duplicates(l);} size_t rep_val(const S&v,const S&n,int,bool a){ return M_list_u64_replace_val(l,N(v),N(n),ty(a)); } bool rep_at(const S&v,int,size_t i){ return M_list_u64_replace_at(l,N(v),i);} bool swap(size_t a,size_t b){ return M_list_u64_swap(l,a,b);} Ad*dup(){ U64*g=new U64(); g->l=M_list_u64_duplicate(l); g->f=f; return g; } Ad*fresh(){ U64*g=new U64(); g->f=f; g->l=M_list_u64_create(f); return g; } void merge(Ad*s,bool i){ M_list_u64_merge(&l,((U64*)s)->l,MB(i)); }
  bool resort(bool so,bool de,bool,bool st){ Cfg c{so,de,false,st,false,false,false}; M_uint32 keep=f&(M_LIST_U64_STACK|M_LIST_U64_SET|M_LIST_U64_NEVERSHRINK); M_list_u64_change_sorting(l,fl(c)); f=fl(c)|keep; return true; } };
struct BIN:Ad { M_list_bin_t*l; M_uint32 f; BIN(const Cfg&c){ f=(c.stack?M_LIST_BIN_STACK:0)|(c.set?M_LIST_BIN_SET:0)|(c.nosh?M_LIST_BIN_NEVERSHRINK:0); l=M_list_bin_create(f);} BIN(){} M_uint32 ty(bool a){ return a?M_LIST_BIN_MATCH_ALL:M_LIST_BIN_MATCH_VAL; }
#define BV(v) (const M_uint8*)(v).data(),(v).size()
  const char*name(){ return "bin"; } void destroy(){ M_list_bin_destroy(l); } static El el(const M_uint8*p,size_t n){ return p?El{S((const char*)p,n),-1}:El{"<null>",-2}; } bool ins(const S&v,int){ return M_list_bin_insert(l,BV(v)); } bool ins_at(const S&v,int,size_t i){ return M_list_bin_insert_at(l,BV(v),i);} size_t ins_idx(const S&v){ return M_list_bin_insert_idx(l,BV(v)); } size_t len(){ return M_list_bin_len(l);} size_t count(const S&v){ return M_list_bin_count(l,BV(v));} bool index_of(const S&v,size_t*i){ return M_list_bin_index_of(l,BV(v),i);} 
  bool at(size_t i,El*e){ size_t n=0; const M_uint8*p=M_list_bin_at(l,i,&n); if(!p) return false; *e=el(p,n); return true; } El first(){ size_t n=0; const M_uint8*p=M_list_bin_first(l,&n); return el(p,n); } El last(){ size_t n=0; const M_uint8*p=M_list_bin_last(l,&n); return el(p,n); } El take(int h,size_t i){ size_t n=0; M_uint8*p=h==0?M_list_bin_take_first(l,&n):h==1?M_list_bin_take_last(l,&n):M_list_bin_take_at(l,i,&n); El e=el(p,n); M_free(p); return e; } bool rem(int h,size_t i){ return h==0?M_list_bin_remove_first(l):h==1?M_list_bin_remove_last(l):M_list_bin_remove_at(l,i);} 
  size_t rem_val(const S&v,bool a){ return M_list_bin_remove_val(l,BV(v),ty(a)); } bool rem_range(size_t a,size_t b){ return M_list_bin_remove_range(l,a,b);} void rem_dups(){ M_list_bin_remove_duplicates(l);} size_t rep_val(const S&v,const S&n,int,bool a){ return M_list_bin_replace_val(l,BV(v),BV(n),ty(a)); } bool rep_at(const S&v,int,size_t i){ return M_list_bin_replace_at(l,BV(v),i);} bool swap(size_t a,size_t b){ return M_list_bin_swap(l,a,b);} Ad*dup(){ BIN*g=new BIN(); g->l=M_list_bin_duplicate(l); g->f=f; return g; } Ad*fresh(){ BIN*g=new BIN(); g->f=f; g->l=M_list_bin_create(f); return g; } void merge(Ad*s,bool i){ M_list_bin_merge(&l,((BIN*)s)->l,MB(i)); } };
static Ad*mk(int k,const Cfg&c){ return k==0?(Ad*)new G(c):k==1?(Ad*)new STR(c):k==2?(Ad*)new U64(c):(Ad*)new BIN(c); }
typedef std::vector<El> V;
struct M { V e; Cfg c; int kind; bool multi=false;
  int cmp(const S&a,const S&b)const{ if(kind==2){ uint64_t x=U64::N(a),y=U64::N(b); int r=x<y?-1:x>y; return c.desc?-r:r; } S x=c.ci?low(a):a,y=c.ci?low(b):b; int r=x<y?-1:x>y; return c.desc?-r:r; }
  bool eq(const S&a,const S&b)const{ return cmp(a,b)==0; } bool so()const{ return c.sorted&&!multi; } size_t ext(size_t i)const{ return c.stack?e.size()-1-i:i; } // symmetric
  size_t cnt(const S&v)const{ size_t n=0; for(auto&x:e) n+=eq(x.v,v); return n; }
  void sort(){ std::stable_sort(e.begin(),e.end(),[&](const El&a,const El&b){ return cmp(a.v,b.v)<0; }); }
  size_t ub(const S&v)const{ size_t i=0; while(i<e.size()&&cmp(e[i].v,v)<=0) i++; return i; } size_t lb(const S&v)const{ size_t i=0; while(i<e.size()&&cmp(e[i].v,v)<0) i++; return i; }
  void ins(const El&x){ if(so()) e.insert(e.begin()+(long)ub(x.v),x); else e.push_back(x); } };
static S show(const V&v){ S s="["; for(auto&x:v) s+=S(E(x.v))+(x.tag>=0?"#"+std::to_string(x.tag):"")+" "; return s+"]"; }
static V readall(Ad*a,const M&m){ V v; size_t n=a->len(); for(size_t i=0;i<n&&i<10000;i++){ El x{"<none>",-3}; a->at(i,&x); v.push_back(x);} if(m.c.stack) std::reverse(v.begin(),v.end()); return v; }
static bool same(const El&a,const El&b){ return a.v==b.v&&(a.tag<0||b.tag<0||a.tag==b.tag); }
static bool same(const V&a,const V&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!same(a[i],b[i])) return false; return true; }
static void verify(Ad*a,M&m,const S&op){
  V g=readall(a,m); bool loose=m.so()&&!m.c.stable; 
  if(loose){ bool ok=g.size()==m.e.size(); for(size_t i=0;ok&&i<g.size();i++) ok=m.eq(g[i].v,m.e[i].v); if(ok){ std::multiset<std::pair<S,int>> x,y; for(auto&q:g) x.insert({q.v,q.tag}); for(auto&q:m.e) y.insert({q.v,q.tag<0||g[0].tag<0?-1:q.tag}); ok=g.empty()||x==y; } VH_CHECK(ok,"list:content","%s%s after %s: %s want (any order of equals) %s",a->name(),m.c.set?" set":"",op.c_str(),show(g).c_str(),show(m.e).c_str()); std::map<int,int> dummy; for(size_t i=0;ok&&i<g.size();i++) m.e[i]=g[i]; }
  else VH_CHECK(same(g,m.e),"list:content","%s%s%s%s after %s: %s want %s",a->name(),m.c.sorted?" sorted":"",m.c.stack?" stack":"",m.c.set?" set":"",op.c_str(),show(g).c_str(),show(m.e).c_str());
  if(m.kind==0) { VH_CHECK(badfree==0,"list:released twice","after %s",op.c_str()); }
}
static S val(int kind){ switch(kind){ case 2: return vh_chance(80)?U64::T(vh_rndn(12)):U64::T(vh_u64()); case 3: return vh_chance(70)?vh_from("abAB",1+vh_rndn(2)):vh_bytes(1+vh_rndn(20)); default: return vh_chance(80)?vh_from("abAB",1+vh_rndn(2)):vh_cbytes(vh_rndn(10)); } }
static void run(void){
  live.clear(); badfree=0; int kind=(int)vh_rndn(4); Cfg c{}; c.sorted=kind!=3&&vh_chance(50); c.desc=kind!=0&&c.sorted&&vh_chance(40); c.ci=kind==1&&vh_chance(40); c.stable=kind!=3&&vh_chance(50); c.stack=!c.sorted&&vh_chance(40); c.set=vh_chance(25); c.nosh=vh_chance(20);
  Ad*a=mk(kind,c); M m{{},c,kind,false}; int tag=0; int n=20+(int)vh_rndn(vh_chance(15)?200:50); uint64_t hh=vh_hash(&c,sizeof c,(uint64_t)kind); verify(a,m,"create"); bool grow=vh_chance(40);
  for(int i=0;i<n;i++){
    S v=val(kind); if(vh_chance(40)&&!m.e.empty()) v=vh_pick(m.e).v; size_t L=m.e.size(); S op; unsigned o=(unsigned)vh_rndn(22); if(grow&&vh_chance(40)) o=0; bool all=vh_chance(50);
    switch(o){
    case 0: case 1: case 2: case 3: { op=vh_fmt("insert(%s)",E(v)); int t=tag++; bool ok=!(m.c.set&&m.cnt(v)); VH_CHECK(a->ins(v,t)==ok,"list:result","%s %s set %d",a->name(),op.c_str(),m.c.set); if(ok) m.ins({v,t}); } break;
    case 4: case 5: { size_t x=vh_rndn(L+4); op=vh_fmt("insert_at(%s,%zu of %zu)",E(v),x,L); int t=tag++; bool ok=!m.so()&&!(m.c.set&&m.cnt(v)); VH_CHECK(a->ins_at(v,t,x)==ok,"list:result","%s %s",a->name(),op.c_str()); if(ok){ if(x>L)x=L; size_t in=m.c.stack?L-x:x; m.e.insert(m.e.begin()+(long)in,El{v,t}); } } break;
    case 6: { op=vh_fmt("insert_idx(%s)",E(v)); size_t x=a->ins_idx(v); if(m.so()) VH_CHECK(m.c.stable?x==m.ub(v):x>=m.lb(v)&&x<=m.ub(v),"list:insert_idx","%s %s: %zu want %zu-%zu in %s",a->name(),op.c_str(),x,m.lb(v),m.ub(v),show(m.e).c_str()); else VH_CHECK(x==(m.c.stack?0:L),"list:insert_idx","%s %zu of %zu",a->name(),x,L); } break;
    case 7: if(kind!=3){ if(m.multi){ op="insert_end"; a->end(); m.multi=false; if(m.c.sorted) m.sort(); } else if(vh_chance(60)){ op="insert_begin"; a->begin(); m.multi=true; } } break;
    case 8: { op=vh_fmt("count(%s)",E(v)); size_t g=a->count(v); VH_CHECK(g==m.cnt(v),"list:count","%s %s: %zu want %zu in %s",a->name(),op.c_str(),g,m.cnt(v),show(m.e).c_str()); } break;
    case 9: { op=vh_fmt("index_of(%s)",E(v)); size_t x=999; bool g=a->index_of(v,&x); VH_CHECK(g==(m.cnt(v)>0),"list:index_of","%s %s: %d in %s",a->name(),op.c_str(),g,show(m.e).c_str()); if(g) VH_CHECK(x<L&&m.eq(m.e[m.ext(x)].v,v),"list:index_of","%s %s: %zu in %s",a->name(),op.c_str(),x,show(m.e).c_str()); } break;
    case 10: { op="ends"; if(L){ El f=a->first(),l=a->last(); VH_CHECK(same(f,m.e[m.ext(0)])&&same(l,m.e[m.ext(L-1)]),"list:first/last","%s",show(m.e).c_str()); } El e; VH_CHECK(!a->at(L+vh_rndn(3),&e),"list:at","past the end"); } break;
    case 11: case 12: { int h=(int)vh_rndn(3); size_t x=h==0?0:h==1?L-1:vh_rndn(L+2); op=vh_fmt("take(%d,%zu of %zu)",h,x,L); El e=a->take(h,x); if(L&&x<L){ VH_CHECK(same(e,m.e[m.ext(x)]),"list:take","%s %s: %s want %s",a->name(),op.c_str(),E(e.v),E(m.e[m.ext(x)].v)); m.e.erase(m.e.begin()+(long)m.ext(x)); } else VH_CHECK(e.tag==-2||e.v=="0","list:take","took from nowhere"); } break;
    case 13: case 14: { int h=(int)vh_rndn(3); size_t x=h==0?0:h==1?L-1:vh_rndn(L+2); op=vh_fmt("remove(%d,%zu of %zu)",h,x,L); bool ok=L&&x<L; VH_CHECK(a->rem(h,x)==ok,"list:result","%s",op.c_str()); if(ok) m.e.erase(m.e.begin()+(long)m.ext(x)); } break;
    case 15: { op=vh_fmt("remove_val(%s,%d)",E(v),all); size_t k=m.cnt(v),w=all?k:k?1:0; size_t g=a->rem_val(v,all); VH_CHECK(g==w,"list:remove_val","%s %s: %zu want %zu in %s",a->name(),op.c_str(),g,w,show(m.e).c_str()); if(w==k){ V q; for(auto&x:m.e) if(!m.eq(x.v,v)) q.push_back(x); m.e=q; } else { V g2=readall(a,m); bool ok=false; for(size_t j=0;j<L;j++) if(m.eq(m.e[j].v,v)){ V q=m.e; q.erase(q.begin()+(long)j); if(same(q,g2)){ m.e=q; ok=true; break; } } VH_CHECK(ok,"list:remove_val","%s %s removed something else: %s -> %s",a->name(),op.c_str(),show(m.e).c_str(),show(g2).c_str()); } } break;
    case 16: { size_t x=vh_rndn(L+2),y=x+vh_rndn(vh_chance(30)?L+3:4); if(vh_chance(5)) std::swap(x,y); op=vh_fmt("remove_range(%zu,%zu of %zu)",x,y,L); bool ok=x<=y&&x<L; VH_CHECK(a->rem_range(x,y)==ok,"list:result","%s",op.c_str()); if(ok){ if(y>=L)y=L-1; size_t p=m.ext(x),q=m.ext(y); if(p>q)std::swap(p,q); m.e.erase(m.e.begin()+(long)p,m.e.begin()+(long)q+1);} } break;
    case 17: if(vh_chance(50)){ op="remove_duplicates"; V before=m.e; a->rem_dups(); V q; for(auto&x:m.e){ bool d=false; for(auto&y:q) if(m.eq(x.v,y.v)) d=true; if(!d) q.push_back(x);} if(m.so()&&!m.c.stable){ V g=readall(a,m); bool ok=g.size()==q.size(); for(size_t j=0;ok&&j<q.size();j++){ ok=m.eq(g[j].v,q[j].v); bool in=false; for(auto&b:before) if(same(b,g[j])) in=true; ok=ok&&in; } VH_CHECK(ok,"list:remove_duplicates","%s -> %s",show(before).c_str(),show(g).c_str()); m.e=g; } else m.e=q; } break;
    case 18: { S nv=val(kind); op=vh_fmt("replace_val(%s,%s,%d)",E(v),E(nv),all); int t=tag++; size_t k=m.cnt(v); V before=m.e; size_t g=a->rep_val(v,nv,t,all); size_t w=m.eq(v,nv)?0:all?k:k?1:0; VH_CHECK(g==w,"list:replace_val","%s %s: %zu want %zu in %s",a->name(),op.c_str(),g,w,show(m.e).c_str()); if(!w) break; bool rm=m.c.set&&m.cnt(nv); if(w!=k||1){ V g2=readall(a,m); bool ok=false; // enumerate which matches were used (all, or any single one)
        for(size_t j=0;j<L&&!ok;j++){ if(!all&&!m.eq(before[j].v,v)) continue; M t2=m; V q; size_t used=0; for(size_t z=0;z<L;z++){ bool hit=m.eq(before[z].v,v)&&(all||z==j); if(!hit){ q.push_back(before[z]); continue; } used++; if(!rm&&!m.so()) q.push_back(El{nv,t}); } t2.e=q; if(!rm&&m.so()) for(size_t z=0;z<used;z++) t2.ins(El{nv,t}); if(m.so()&&!m.c.stable){ bool e2=g2.size()==t2.e.size(); for(size_t z=0;e2&&z<g2.size();z++) e2=m.eq(g2[z].v,t2.e[z].v); ok=e2; if(ok) m.e=t2.e; } else if(same(t2.e,g2)){ ok=true; m.e=t2.e; } if(all) break; }
        VH_CHECK(ok,"list:replace_val","%s %s: %s -> %s",a->name(),op.c_str(),show(before).c_str(),show(g2).c_str()); if(!ok) m.e=g2; else if(m.so()&&!m.c.stable) m.e=g2; } } break;
    case 19: { size_t x=vh_rndn(L+2); if(m.c.set&&m.cnt(v)) break; op=vh_fmt("replace_at(%s,%zu of %zu)",E(v),x,L); int t=tag++; bool ok=!m.so()&&x<L; VH_CHECK(a->rep_at(v,t,x)==ok,"list:result","%s",op.c_str()); if(ok) m.e[m.ext(x)]=El{v,t}; } break;
    case 20: if(vh_chance(60)){ size_t x=vh_rndn(L+2),y=vh_rndn(L+2); op=vh_fmt("swap(%zu,%zu of %zu)",x,y,L); bool ok=!m.c.sorted&&x!=y&&x<L&&y<L; VH_CHECK(a->swap(x,y)==ok,"list:result","%s",op.c_str()); if(ok) std::swap(m.e[m.ext(x)],m.e[m.ext(y)]); } else if(vh_chance(50)&&!m.multi){ op="duplicate"; Ad*d=a->dup(); M mm=m; verify(d,mm,op); if(vh_chance(50)){ a->destroy(); delete a; a=d; m=mm; } else { d->destroy(); delete d; } }
      else if(!m.multi){ Ad*s; M ms; bool incl=vh_chance(50); bool distinct=m.c.set||!incl; if(kind==0){ s=a->dup(); ms=m; while(s->len()) s->rem(0,0); ms.e.clear(); } else { s=a->fresh(); ms=M{{},m.c,kind,false}; } int q=(int)vh_rndn(12); for(int z=0;z<q;z++){ S w=val(kind); if(distinct&&ms.cnt(w)) continue; int t=tag++; s->ins(w,t); ms.ins({w,t}); } verify(s,ms,"merge source"); op=vh_fmt("merge(incl %d)",incl); bool inc2=incl&&!m.c.set; for(auto&x:ms.e) if(inc2||!m.cnt(x.v)) m.e.push_back(x); if(m.c.sorted) m.sort(); a->merge(s,incl); delete s; vh_count("merges",1); } break;
    case 21: if(kind!=3&&!m.c.stack&&!m.multi&&vh_chance(40)&&!m.c.set){ bool so=vh_chance(60),de=(kind==0||so)&&vh_chance(50),ci=kind!=2&&vh_chance(40),st=vh_chance(60); op=vh_fmt("change_sorting(%d,%d,%d,%d)",so,de,ci,st); if(a->resort(so,de,ci,st)){ m.c.sorted=so; m.c.desc=de; m.c.ci=ci; m.c.stable=st; if(so) m.sort(); } } break;
    }
    if(op.empty()) continue; verify(a,m,op); if(kind==0&&live.size()!=m.e.size()) vh_fail("list:ownership","%zu live values, list has %zu after %s",live.size(),m.e.size(),op.c_str()); hh=vh_hstr(op.c_str(),hh); vh_count("ops",1);
  }
  if(kind==1&&!m.multi&&!m.e.empty()){ STR*s=(STR*)a; VS x; for(size_t i=0;i<m.e.size();i++) x.push_back(m.e[m.ext(i)].v); size_t p=vh_rndn(x.size()),q=p+vh_rndn(x.size()+2); S w,w2; for(size_t i=p;i<x.size()&&i<=q;i++){ if(i!=p){ w+=';'; w2+="<>"; } w+=x[i]; w2+=x[i]; } char*j=M_list_str_join_range(s->l,';',p,q),*j2=M_list_str_join_range_str(s->l,"<>",p,q); VH_CHECK(S(j?j:"")==w&&S(j2?j2:"")==w2,"list:join","%s want %s",E(S(j?j:"")),E(w)); M_free(j); M_free(j2); j=M_list_str_join(s->l,'|'); w=""; for(size_t i=0;i<x.size();i++){ if(i) w+='|'; w+=x[i]; } VH_CHECK(S(j?j:"")==w,"list:join","%s want %s",E(S(j?j:"")),E(w)); 
    if(w.size()){ bool ke=vh_chance(50); M_list_str_t*sp=M_list_str_split('|',j,M_LIST_STR_NONE,MB(ke)); VS parts; S cur; for(char ch:w) if(ch=='|'){ parts.push_back(cur); cur=""; } else cur+=ch; parts.push_back(cur); if(!ke){ VS z; for(auto&y:parts) if(!y.empty()) z.push_back(y); parts=z; } bool ok=M_list_str_len(sp)==parts.size(); for(size_t i=0;ok&&i<parts.size();i++) ok=parts[i]==M_list_str_at(sp,i); VH_CHECK(ok,"list:split","%s",E(w)); M_list_str_destroy(sp); } M_free(j); }
  a->destroy(); delete a; if(kind==0){ VH_CHECK(live.empty()&&badfree==0,"list:ownership","%zu values left, %d bad frees",live.size(),badfree); } vh_distinct(hh);
}
// pointer matching on pass-through lists
static int pcmp(const void*a,const void*b,void*t){ (void)t; int x=**(int*const*)a,y=**(int*const*)b; return x<y?-1:x>y; }
static void run_ptr(void){
  bool so=vh_chance(60),st=vh_chance(50),stack=!so&&vh_chance(30),set=vh_chance(20); struct M_list_callbacks cb={pcmp,NULL,NULL,NULL}; M_list_t*l=M_list_create(&cb,(so?M_LIST_SORTED:0)|(st?M_LIST_STABLE:0)|(stack?M_LIST_STACK:0)|(set?M_LIST_SET_PTR:0)); int pool[8]; for(int&x:pool) x=(int)vh_rndn(4); std::vector<int*> m; uint64_t hh=so+2*st+4*stack+8*set; int n=20+(int)vh_rndn(40);
  auto val=[&](){ return &pool[vh_rndn(8)]; }; auto cnt=[&](int*p){ return (size_t)std::count(m.begin(),m.end(),p); };
  for(int i=0;i<n;i++){ int*p=val(); S op; unsigned o=(unsigned)vh_rndn(9); bool all=vh_chance(60);
    switch(o){ case 0: case 1: case 2: case 3: { bool ok=!(set&&cnt(p)); op="insert"; VH_CHECK((M_list_insert(l,p)==M_TRUE)==ok,"list:result","ptr insert"); if(ok){ if(so){ size_t z=0; while(z<m.size()&&*m[z]<=*p) z++; m.insert(m.begin()+(long)z,p);} else m.push_back(p);} } break;
    case 4: { op="count"; VH_CHECK(M_list_count(l,p,M_LIST_MATCH_PTR)==cnt(p),"list:ptr count","%zu want %zu",M_list_count(l,p,M_LIST_MATCH_PTR),cnt(p)); } break;
    case 5: { op="index_of"; size_t x=99; bool g=M_list_index_of(l,p,M_LIST_MATCH_PTR,&x); VH_CHECK(g==(cnt(p)>0),"list:ptr index_of","%d",g); if(g) VH_CHECK(M_list_at(l,x)==p,"list:ptr index_of","index %zu is another pointer",x); } break;
    case 6: { op=vh_fmt("remove_val %d",all); size_t k=cnt(p),w=all?k:k?1:0,g=M_list_remove_val(l,p,(all?M_LIST_MATCH_ALL:0)|M_LIST_MATCH_PTR); VH_CHECK(g==w,"list:ptr remove","%zu want %zu",g,w); for(size_t z=m.size();z-->0&&w;) if(m[z]==p){ m.erase(m.begin()+(long)z); w--; } if(!all&&k>1){ std::vector<int*> q; for(size_t z=0;z<M_list_len(l);z++) q.push_back((int*)M_list_at(l,z)); if(stack) std::reverse(q.begin(),q.end()); auto s1=q,s2=m; std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); VH_CHECK(s1==s2,"list:ptr remove","other elements changed"); m=q; } } break;
    case 7: if(vh_chance(30)){ op="remove_duplicates"; M_list_remove_duplicates(l,M_LIST_MATCH_PTR); std::vector<int*> q; for(int*x:m) if(std::find(q.begin(),q.end(),x)==q.end()) q.push_back(x); m=q; } break;
    case 8: if(M_list_len(l)){ op="take"; size_t x=vh_rndn(m.size()); size_t in=stack?m.size()-1-x:x; if(!so||st) { void*g=M_list_take_at(l,x); VH_CHECK(g==m[in],"list:ptr take","wrong pointer"); m.erase(m.begin()+(long)in);} } break; }
    std::vector<int*> q; for(size_t z=0;z<M_list_len(l);z++) q.push_back((int*)M_list_at(l,z)); if(stack) std::reverse(q.begin(),q.end()); if(so&&!st){ auto s1=q,s2=m; std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); bool srt=true; for(size_t z=1;z<q.size();z++) if(*q[z-1]>*q[z]) srt=false; VH_CHECK(s1==s2&&srt,"list:ptr content","after %s",op.c_str()); m=q; } else VH_CHECK(q==m,"list:ptr content","after %s (sorted %d stable %d stack %d): %zu want %zu elements",op.c_str(),so,st,stack,q.size(),m.size());
    hh=vh_hstr(op.c_str(),hh*31+(uint64_t)(p-pool)); vh_count("ops",1); }
  M_list_destroy(l,M_TRUE); vh_distinct(hh);
}
const vh_mode_t vh_modes[]={ {"ops",run},{"ptr",run_ptr}, {0} };
