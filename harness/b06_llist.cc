// B06: linked lists (generic, str, u64, bin) and queues vs a reference sequence, node by node
#include "vh.hpp"
struct Obj { S v; int id; }; static std::set<Obj*> live; static std::vector<int> freed; static int badfree, nthunk;
static int dirs[2]={0,1};
static int gcmp0(const void*a,const void*b,void*t){ const Obj*x=*(Obj*const*)a,*y=*(Obj*const*)b; int r=x->v<y->v?-1:x->v>y->v; if(t){ if(*(int*)t) r=-r; } return r; }
static int gcmpT(const void*a,const void*b,void*t){ if(!t){ nthunk++; return gcmp0(a,b,NULL); } return gcmp0(a,b,t); }
static void*gdup(const void*p){ Obj*n=new Obj(*(const Obj*)p); live.insert(n); return n; }
static void gfree(void*p){ if(!p) return; Obj*o=(Obj*)p; if(!live.erase(o)){ badfree++; return; } freed.push_back(o->id); delete o; }
typedef void*N; // node
struct Ad { virtual ~Ad(){} virtual const char*name()=0; virtual void destroy()=0; virtual N ins(const S&,int)=0; virtual N ins_first(const S&,int)=0; virtual N ins_before(N,const S&,int)=0; virtual N ins_after(N,const S&,int)=0; virtual size_t len()=0; virtual size_t count(const S&)=0; virtual N first()=0; virtual N last()=0; virtual N find(const S&)=0; virtual S take(N)=0; virtual bool rem(N)=0; virtual size_t remval(const S&,bool)=0; virtual void remdups()=0; virtual S val(N)=0; virtual Ad*dup()=0; virtual void merge(Ad*,bool)=0; virtual void set_null()=0;
  N next(N n){ return M_llist_node_next((M_llist_node_t*)n);} N prev(N n){ return M_llist_node_prev((M_llist_node_t*)n);} void*vp(N n){ return M_llist_node_val((M_llist_node_t*)n);} };
struct G:Ad { M_llist_t*l; const char*name(){ return "generic"; } void destroy(){ M_llist_destroy(l,M_TRUE);} N ins(const S&v,int i){ Obj o{v,i}; return M_llist_insert(l,&o);} N ins_first(const S&v,int i){ Obj o{v,i}; return M_llist_insert_first(l,&o);} N ins_before(N n,const S&v,int i){ Obj o{v,i}; return M_llist_insert_before((M_llist_node_t*)n,&o);} N ins_after(N n,const S&v,int i){ Obj o{v,i}; return M_llist_insert_after((M_llist_node_t*)n,&o);} size_t len(){ return M_llist_len(l);} size_t count(const S&v){ Obj o{v,0}; return M_llist_count(l,&o,M_LLIST_MATCH_VAL);} N first(){ return M_llist_first(l);} N last(){ return M_llist_last(l);} N find(const S&v){ Obj o{v,0}; return M_llist_find(l,&o,M_LLIST_MATCH_VAL);} S take(N n){ Obj*o=(Obj*)M_llist_take_node((M_llist_node_t*)n); if(!o) return "<null>"; S v=o->v; live.erase(o); delete o; return v; } bool rem(N n){ return M_llist_remove_node((M_llist_node_t*)n);} size_t remval(const S&v,bool a){ Obj o{v,0}; return M_llist_remove_val(l,&o,a?M_LLIST_MATCH_ALL:M_LLIST_MATCH_VAL);} void remdups(){ M_llist_remove_duplicates(l,M_LLIST_MATCH_VAL);} S val(N n){ Obj*o=(Obj*)M_llist_node_val((M_llist_node_t*)n); return o?o->v:S("<null>"); } Ad*dup(){ G*g=new G; g->l=M_llist_duplicate(l); return g; } void merge(Ad*s,bool i){ M_llist_merge(&l,((G*)s)->l,MB(i),M_LLIST_MATCH_VAL);} void set_null(){ l=NULL; } };
struct T:Ad { M_llist_str_t*l; const char*name(){ return "str"; } void destroy(){ M_llist_str_destroy(l);} N ins(const S&v,int){ return M_llist_str_insert(l,v.c_str());} N ins_first(const S&v,int){ return M_llist_str_insert_first(l,v.c_str());} N ins_before(N n,const S&v,int){ return M_llist_str_insert_before((M_llist_str_node_t*)n,v.c_str());} N ins_after(N n,const S&v,int){ return M_llist_str_insert_after((M_llist_str_node_t*)n,v.c_str());} size_t len(){ return M_llist_str_len(l);} size_t count(const S&v){ return M_llist_str_count(l,v.c_str(),M_LLIST_STR_MATCH_VAL);} N first(){ return M_llist_str_first(l);} N last(){ return M_llist_str_last(l);} N find(const S&v){ return M_llist_str_find(l,v.c_str(),M_LLIST_STR_MATCH_VAL);} S take(N n){ char*c=M_llist_str_take_node((M_llist_str_node_t*)n); S s=c?c:"<null>"; M_free(c); return s; } bool rem(N n){ return M_llist_str_remove_node((M_llist_str_node_t*)n);} size_t remval(const S&v,bool a){ return M_llist_str_remove_val(l,v.c_str(),a?M_LLIST_STR_MATCH_ALL:M_LLIST_STR_MATCH_VAL);} void remdups(){ M_llist_str_remove_duplicates(l);} S val(N n){ const char*c=M_llist_str_node_val((M_llist_str_node_t*)n); return c?c:"<null>"; } Ad*dup(){ T*g=new T; g->l=M_llist_str_duplicate(l); return g; } void merge(Ad*s,bool i){ M_llist_str_merge(&l,((T*)s)->l,MB(i)); } void set_null(){ l=NULL; } };
struct U:Ad { M_llist_u64_t*l; static M_uint64 n(const S&v){ return strtoull(v.c_str(),0,10);} const char*name(){ return "u64"; } void destroy(){ M_llist_u64_destroy(l);} N ins(const S&v,int){ return M_llist_u64_insert(l,n(v));} N ins_first(const S&v,int){ return M_llist_u64_insert_first(l,n(v));} N ins_before(N x,const S&v,int){ return M_llist_u64_insert_before((M_llist_u64_node_t*)x,n(v));} N ins_after(N x,const S&v,int){ return M_llist_u64_insert_after((M_llist_u64_node_t*)x,n(v));} size_t len(){ return M_llist_u64_len(l);} size_t count(const S&v){ return M_llist_u64_count(l,n(v));} N first(){ return M_llist_u64_first(l);} N last(){ return M_llist_u64_last(l);} N find(const S&v){ return M_llist_u64_find(l,n(v));} S take(N x){ return std::to_string(M_llist_u64_take_node((M_llist_u64_node_t*)x)); } bool rem(N x){ return M_llist_u64_remove_node((M_llist_u64_node_t*)x);} size_t remval(const S&v,bool a){ return M_llist_u64_remove_val(l,n(v),a?M_LLIST_U64_MATCH_ALL:M_LLIST_U64_MATCH_VAL);} void remdups(){ M_llist_u64_remove_duplicates(l);} S val(N x){ return std::to_string(M_llist_u64_node_val((M_llist_u64_node_t*)x)); } Ad*dup(){ U*g=new U; g->l=M_llist_u64_duplicate(l); return g; } void merge(Ad*s,bool i){ M_llist_u64_merge(&l,((U*)s)->l,MB(i)); } void set_null(){ l=NULL; } };
#define BV(v) (const M_uint8*)(v).data(),(v).size()
struct B:Ad { M_llist_bin_t*l; const char*name(){ return "bin"; } void destroy(){ M_llist_bin_destroy(l);} N ins(const S&v,int){ return M_llist_bin_insert(l,BV(v));} N ins_first(const S&v,int){ return M_llist_bin_insert_first(l,BV(v));} N ins_before(N n,const S&v,int){ return M_llist_bin_insert_before((M_llist_bin_node_t*)n,BV(v));} N ins_after(N n,const S&v,int){ return M_llist_bin_insert_after((M_llist_bin_node_t*)n,BV(v));} size_t len(){ return M_llist_bin_len(l);} size_t count(const S&v){ return M_llist_bin_count(l,BV(v));} N first(){ return M_llist_bin_first(l);} N last(){ return M_llist_bin_last(l);} N find(const S&v){ return M_llist_bin_find(l,BV(v));} S take(N n){ size_t k=0; M_uint8*p=M_llist_bin_take_node((M_llist_bin_node_t*)n,&k); S s=p?S((char*)p,k):S("<null>"); M_free(p); return s; } bool rem(N n){ return M_llist_bin_remove_node((M_llist_bin_node_t*)n);} size_t remval(const S&v,bool a){ return M_llist_bin_remove_val(l,BV(v),a?M_LLIST_BIN_MATCH_ALL:M_LLIST_BIN_MATCH_VAL);} void remdups(){ M_llist_bin_remove_duplicates(l);} S val(N n){ size_t k=0; const M_uint8*p=M_llist_bin_node_val((M_llist_bin_node_t*)n,&k); return p?S((const char*)p,k):S("<null>"); } Ad*dup(){ B*g=new B; g->l=M_llist_bin_duplicate(l); return g; } void merge(Ad*s,bool i){ M_llist_bin_merge(&l,((B*)s)->l,MB(i)); } void set_null(){ l=NULL; } };
struct Cfg { int kind; bool sorted,desc,ci,circ,thunk; };
static S low(S s){ for(auto&c:s) if(c>='A'&&c<='Z') c=(char)(c+32); return s; }
static Ad*mk(const Cfg&c){ switch(c.kind){ case 0: { G*g=new G; struct M_llist_callbacks cb={c.thunk?gcmpT:gcmp0,gdup,gdup,gfree}; g->l=M_llist_create(&cb,(c.sorted?M_LLIST_SORTED:0)|(c.circ?M_LLIST_CIRCULAR:0)); if(c.thunk){ M_bool ok=M_llist_change_sorting(g->l,gcmpT,&dirs[c.desc]); VH_CHECK(ok==MB(c.sorted),"llist:change_sorting","%d",ok); } return g; }
  case 1: { T*t=new T; t->l=M_llist_str_create((c.sorted?(c.desc?M_LLIST_STR_SORTDESC:M_LLIST_STR_SORTASC):0)|(c.ci?M_LLIST_STR_CASECMP:0)|(c.circ?M_LLIST_STR_CIRCULAR:0)); return t; }
  case 2: { U*u=new U; u->l=M_llist_u64_create((c.sorted?(c.desc?M_LLIST_U64_SORTDESC:M_LLIST_U64_SORTASC):0)|(c.circ?M_LLIST_U64_CIRCULAR:0)); return u; } default: { B*b=new B; b->l=M_llist_bin_create(c.circ?M_LLIST_BIN_CIRCULAR:0); return b; } } }
struct El { S v; int id; N n; void*vp; };
typedef std::vector<El> V;
struct Mo { V e; Cfg c; int cmp(const S&a,const S&b)const{ int r; if(c.kind==2){ uint64_t x=U::n(a),y=U::n(b); r=x<y?-1:x>y; } else { S x=c.ci?low(a):a,y=c.ci?low(b):b; r=x<y?-1:x>y; } return c.desc?-r:r; } bool eq(const S&a,const S&b)const{ return cmp(a,b)==0; }
  size_t ub(const S&v)const{ size_t i=0; while(i<e.size()&&cmp(e[i].v,v)<=0) i++; return i; } size_t idx(N n)const{ for(size_t i=0;i<e.size();i++) if(e[i].n==n) return i; return (size_t)-1; } void ins(const El&x){ if(c.sorted) e.insert(e.begin()+(long)ub(x.v),x); else e.push_back(x); } size_t cnt(const S&v)const{ size_t k=0; for(auto&x:e) k+=eq(x.v,v); return k; } int findi(const S&v)const{ for(size_t i=0;i<e.size();i++) if(eq(e[i].v,v)) return (int)i; return -1; } };
static S show(const V&v){ S s="["; for(auto&x:v) s+=S(E(x.v))+" "; return s+"]"; }
static S nm(const Cfg&c,Ad*a){ return S(a->name())+(c.sorted?" sorted":"")+(c.desc?" desc":"")+(c.ci?" casecmp":"")+(c.circ?" circular":"")+(c.thunk?" thunk":""); }
static std::multiset<int> want_freed;
static void verify(Ad*a,Mo&m,const S&op,bool rot=false){
  size_t n=m.e.size(); S who=nm(m.c,a)+" after "+op+" want "+show(m.e); VH_CHECK(a->len()==n,"llist:length","%zu want %zu %s",a->len(),n,who.c_str()); N f=a->first(),l=a->last();
  if(n==0){ VH_CHECK(!f&&!l,"llist:empty ends","first/last of an empty list, %s",who.c_str()); }
  else {
    if(m.c.circ&&rot){ size_t i=m.idx(f); VH_CHECK(i<n,"llist:first","not a member, %s",who.c_str()); if(i<n) std::rotate(m.e.begin(),m.e.begin()+(long)i,m.e.end()); }
    V g; N x=f; for(size_t i=0;i<n&&x;i++){ g.push_back(El{a->val(x),0,x,NULL}); x=a->next(x);} bool ok=g.size()==n; for(size_t i=0;ok&&i<n;i++) ok=g[i].n==m.e[i].n&&g[i].v==m.e[i].v; VH_CHECK(ok,"llist:forward","got %s %s",show(g).c_str(),who.c_str());
    VH_CHECK(x==(m.c.circ?f:NULL),"llist:end","last's next is %s, %s",x?"a node":"NULL",who.c_str()); VH_CHECK(l==m.e.back().n,"llist:last","%s",who.c_str());
    V b; x=l; for(size_t i=0;i<n&&x;i++){ b.push_back(El{a->val(x),0,x,NULL}); x=a->prev(x);} ok=b.size()==n; for(size_t i=0;ok&&i<n;i++) ok=b[i].n==m.e[n-1-i].n; VH_CHECK(ok,"llist:backward","got %s %s",show(b).c_str(),who.c_str()); VH_CHECK(x==(m.c.circ?l:NULL),"llist:begin","first's prev is %s, %s",x?"a node":"NULL",who.c_str());
  }
  if(m.c.kind==0){ VH_CHECK(badfree==0,"llist:released twice","%s",who.c_str()); std::multiset<int> got(freed.begin(),freed.end()); VH_CHECK(got==want_freed,"llist:released","%zu released want %zu, %s",got.size(),want_freed.size(),who.c_str()); }
  freed.clear(); want_freed.clear(); badfree=0;
  VH_CHECK(nthunk==0,"llist:thunk","comparison without the configured thunk, %s",who.c_str()); nthunk=0;
}
static S val(int k){ switch(k){ case 2: return vh_chance(80)?std::to_string(vh_rndn(10)):std::to_string(vh_u64()); case 3: return vh_chance(70)?vh_from("abAB",1+vh_rndn(2)):vh_bytes(1+vh_rndn(20)); case 1: return vh_chance(80)?vh_from("abAB",1+vh_rndn(2)):vh_cbytes(vh_rndn(8)); default: return vh_from("abAB",1+vh_rndn(3)); } }
static void adopt(Ad*a,Mo&m){ N x=a->first(); for(size_t i=0;i<m.e.size()&&x;i++){ m.e[i].n=x; m.e[i].vp=a->vp(x); x=a->next(x);} }
static int uid;
static void run(void){ live.clear(); freed.clear(); want_freed.clear(); badfree=nthunk=0; Cfg c; c.kind=(int)vh_rndn(4); c.sorted=c.kind!=3&&vh_chance(50); c.desc=c.sorted&&c.kind!=0&&vh_chance(40); c.ci=c.kind==1&&vh_chance(40); c.circ=!c.sorted&&vh_chance(35); c.thunk=c.kind==0&&c.sorted&&vh_chance(50); if(c.thunk) c.desc=vh_chance(60);
  Mo m; m.c=c; Ad*a=mk(c); verify(a,m,"create"); int steps=20+(int)vh_rndn(vh_chance(10)?500:120); uint64_t h=0; bool growth=vh_chance(20);
  for(int s=0;s<steps;s++){ vh_count("ops",1); S v=val(c.kind); S op; int id=++uid; size_t n=m.e.size(); size_t i=n?vh_rndn(n):0,j=n?vh_rndn(n):0; int k=(int)vh_rndn(growth&&n<150?12:22); h=vh_hash(&k,sizeof k,h); bool rot=false;
    if(k<7||k==11){ op="insert "+v; vh_log("%s",op.c_str()); N x=a->ins(v,id); VH_CHECK(x!=NULL,"llist:insert","%s %s",op.c_str(),nm(c,a).c_str()); m.ins(El{v,id,x,a->vp(x)}); }
    else if(k==7){ op="insert_first "+v; vh_log("%s",op.c_str()); N x=a->ins_first(v,id); VH_CHECK((x!=NULL)==!c.sorted,"llist:insert_first","%s",nm(c,a).c_str()); if(x) m.e.insert(m.e.begin(),El{v,id,x,a->vp(x)}); }
    else if(k==8||k==9){ if(!n) continue; bool be=k==8; op=vh_fmt("insert_%s #%zu ",be?"before":"after",i)+v; vh_log("%s",op.c_str()); N x=be?a->ins_before(m.e[i].n,v,id):a->ins_after(m.e[i].n,v,id); VH_CHECK((x!=NULL)==!c.sorted,"llist:insert beside","%s",op.c_str()); if(x) m.e.insert(m.e.begin()+(long)(be?i:i+1),El{v,id,x,a->vp(x)}); rot=true; }
    else if(k==10){ if(!n) continue; bool be=vh_chance(50); op=vh_fmt("move_%s #%zu,#%zu",be?"before":"after",i,j); vh_log("%s",op.c_str()); N mv=m.e[i].n,to=m.e[j].n; bool ok=be?M_llist_move_before((M_llist_node_t*)mv,(M_llist_node_t*)to):M_llist_move_after((M_llist_node_t*)mv,(M_llist_node_t*)to); VH_CHECK(ok==(!c.sorted&&i!=j),"llist:move result","%d %s %s",ok,op.c_str(),nm(c,a).c_str()); if(!c.sorted&&i!=j){ El x=m.e[i]; m.e.erase(m.e.begin()+(long)i); size_t p=m.idx(to); m.e.insert(m.e.begin()+(long)(be?p:p+1),x); } rot=true; vh_count("moves",1); }
    else if(k==12){ if(!n) continue; bool f=vh_chance(50); op=vh_fmt("set_%s #%zu",f?"first":"last",i); vh_log("%s",op.c_str()); if(f) M_llist_set_first((M_llist_node_t*)m.e[i].n); else M_llist_set_last((M_llist_node_t*)m.e[i].n); if(!c.sorted){ if(c.circ) std::rotate(m.e.begin(),m.e.begin()+(long)(f?i:(i+1)%n),m.e.end()); else { El x=m.e[i]; m.e.erase(m.e.begin()+(long)i); m.e.insert(f?m.e.begin():m.e.end(),x);} } }
    else if(k==13){ if(!n) continue; op=vh_fmt("take #%zu",i); vh_log("%s",op.c_str()); S g=a->take(m.e[i].n); VH_CHECK(g==m.e[i].v,"llist:take","%s",E(g)); m.e.erase(m.e.begin()+(long)i); }
    else if(k==14||k==15){ if(!n) continue; if(vh_chance(40)) i=vh_chance(50)?0:n-1; op=vh_fmt("remove #%zu",i); vh_log("%s",op.c_str()); bool ok=a->rem(m.e[i].n); VH_CHECK(ok,"llist:remove","%s",op.c_str()); want_freed.insert(m.e[i].id); m.e.erase(m.e.begin()+(long)i); }
    else if(k==16){ bool all=vh_chance(50); op=vh_fmt("remove_val %s all=%d",E(v),all); vh_log("%s in %s %s",op.c_str(),show(m.e).c_str(),nm(c,a).c_str()); size_t r=a->remval(v,all),w=0; for(size_t q=0;q<m.e.size();){ if(m.eq(m.e[q].v,v)&&(all||!w)){ w++; want_freed.insert(m.e[q].id); m.e.erase(m.e.begin()+(long)q);} else q++; } VH_CHECK(r==w,"llist:remove_val","%zu want %zu %s %s",r,w,op.c_str(),nm(c,a).c_str()); vh_count("removed",w); }
    else if(k==17){ if(vh_chance(50)){ size_t r=a->count(v); VH_CHECK(r==m.cnt(v),"llist:count","%zu want %zu of %s in %s %s",r,m.cnt(v),E(v),show(m.e).c_str(),nm(c,a).c_str()); } N x=a->find(v); int w=m.findi(v); VH_CHECK(x==(w<0?NULL:m.e[(size_t)w].n),"llist:find","%s #%zd want #%d in %s %s",E(v),(ssize_t)m.idx(x),w,show(m.e).c_str(),nm(c,a).c_str()); continue; }
    else if(k==18){ if(vh_chance(60)) continue; op="remove_duplicates"; vh_log("%s %s",op.c_str(),show(m.e).c_str()); a->remdups(); for(size_t q=0;q<m.e.size();q++) for(size_t r=q+1;r<m.e.size();){ if(m.eq(m.e[q].v,m.e[r].v)){ want_freed.insert(m.e[r].id); m.e.erase(m.e.begin()+(long)r);} else r++; } }
    else if(k==19){ if(vh_chance(60)) continue; op="duplicate"; vh_log("%s",op.c_str()); Ad*b=a->dup(); Mo m2=m; adopt(b,m2); verify(b,m2,op); if(vh_chance(50)){ Obj o{v,++uid}; N x=b->ins(v,o.id); m2.ins(El{v,o.id,x,NULL}); verify(b,m2,"insert in duplicate"); for(auto&x2:m.e) want_freed.insert(x2.id); a->destroy(); delete a; a=b; m=m2; for(auto&x2:m.e) x2.vp=a->vp(x2.n); } else { for(auto&x:m2.e) want_freed.insert(x.id); b->destroy(); delete b; } vh_count("dups",1); }
    else if(k==20){ if(vh_chance(50)) continue; bool incl=vh_chance(50),swp=vh_chance(10); op=vh_fmt("merge incl=%d dest null=%d",incl,swp); Ad*b=mk(c); Mo m2; m2.c=c; int cnt=(int)vh_rndn(8); for(int q=0;q<cnt;q++){ S w=val(c.kind); int wi=++uid; N x=b->ins(w,wi); m2.ins(El{w,wi,x,b->vp(x)}); } op+=" "+show(m2.e); vh_log("%s into %s",op.c_str(),show(m.e).c_str());
      if(swp){ for(auto&x:m.e) want_freed.insert(x.id); a->destroy(); a->set_null(); a->merge(b,incl); m=m2; } else { V moved; for(auto&x:m2.e){ if(!incl&&m.findi(x.v)>=0){ want_freed.insert(x.id); continue; } m.ins(x); } a->merge(b,incl); std::vector<void*> w; for(auto&x:m.e) w.push_back(x.vp); adopt(a,m); for(size_t q=0;q<w.size();q++) VH_CHECK(m.e[q].vp==w[q],"llist:merge moved values","value %zu is not the pointer moved, %s %s",q,op.c_str(),nm(c,a).c_str()); } delete b; vh_count("merges",1); }
    else if(k==21){ if(c.kind>1||!n) continue; bool all=vh_chance(50); op=vh_fmt("ptr #%zu all=%d",i,all); vh_log("%s",op.c_str()); void*p=m.e[i].vp; M_llist_t*l=c.kind?(M_llist_t*)((T*)a)->l:((G*)a)->l; VH_CHECK(M_llist_count(l,p,M_LLIST_MATCH_PTR)==1,"llist:ptr count","%s %s",op.c_str(),nm(c,a).c_str()); VH_CHECK((N)M_llist_find(l,p,M_LLIST_MATCH_PTR)==m.e[i].n,"llist:ptr find","%s",op.c_str()); Obj o{m.e[i].v,0}; S cp=m.e[i].v; const void*foreign=c.kind?(const void*)cp.c_str():(const void*)&o; VH_CHECK(M_llist_count(l,foreign,M_LLIST_MATCH_PTR)==0&&!M_llist_find(l,foreign,M_LLIST_MATCH_PTR)&&M_llist_remove_val(l,foreign,M_LLIST_MATCH_PTR|M_LLIST_MATCH_ALL)==0,"llist:ptr foreign","matched by value"); if(vh_chance(50)){ size_t r=M_llist_remove_val(l,p,M_LLIST_MATCH_PTR|(all?M_LLIST_MATCH_ALL:0)); VH_CHECK(r==1,"llist:ptr remove","%zu %s",r,op.c_str()); want_freed.insert(m.e[i].id); m.e.erase(m.e.begin()+(long)i); } }
    verify(a,m,op,rot);
    h=vh_hash(&n,sizeof n,h); }
  vh_distinct(h); for(auto&x:m.e) want_freed.insert(x.id); m.e.clear(); a->destroy(); delete a; if(c.kind==0){ std::multiset<int> got(freed.begin(),freed.end()); VH_CHECK(got==want_freed&&!badfree,"llist:released at end","%zu want %zu",got.size(),want_freed.size()); VH_CHECK(live.empty(),"llist:leaked values","%zu",live.size()); for(auto*o:live) delete o; live.clear(); } freed.clear(); want_freed.clear(); }
// ---- queue
static int qcmp(const void*a,const void*b,void*){ const Obj*x=*(Obj*const*)a,*y=*(Obj*const*)b; return x->v<y->v?-1:x->v>y->v; }
static void queue(void){ live.clear(); freed.clear(); want_freed.clear(); badfree=0; bool so=vh_chance(50),own=vh_chance(50); M_queue_t*q=M_queue_create(so?qcmp:NULL,own?gfree:NULL); std::vector<Obj*> m,out; int steps=20+(int)vh_rndn(vh_chance(10)?600:150); uint64_t h=0;
  auto mk1=[&](){ Obj*o=new Obj{vh_from("abcd",1+vh_rndn(2)),++uid}; live.insert(o); return o; };
  auto drop=[&](Obj*o){ live.erase(o); delete o; };
  for(int s=0;s<steps;s++){ vh_count("ops",1); int k=(int)vh_rndn(14); h=vh_hash(&k,sizeof k,h); Obj*some=m.empty()?NULL:m[vh_rndn(m.size())]; S op;
    if(k<6){ op="insert"; bool dup=some&&vh_chance(15); Obj*o=dup?some:!out.empty()&&vh_chance(30)?out.back():mk1(); if(!dup&&!out.empty()&&o==out.back()) out.pop_back(); bool ok=M_queue_insert(q,o); VH_CHECK(ok==!dup,"queue:insert","%d dup=%d",ok,dup); if(!dup){ size_t p=m.size(); if(so) for(p=0;p<m.size()&&m[p]->v<=o->v;p++); m.insert(m.begin()+(long)p,o);} }
    else if(k<8){ op="remove"; bool in=some&&vh_chance(80); Obj*o=in?some:!out.empty()?out[0]:NULL; int id=in?o->id:0; bool ok=M_queue_remove(q,o); VH_CHECK(ok==in,"queue:remove","%d in=%d",ok,in); if(in){ m.erase(std::find(m.begin(),m.end(),o)); if(own) want_freed.insert(id); else out.push_back(o);} }
    else if(k==8){ op="take"; bool in=some&&vh_chance(80); Obj*o=in?some:!out.empty()?out[0]:NULL; bool ok=M_queue_take(q,o); VH_CHECK(ok==in,"queue:take","%d in=%d",ok,in); if(in){ m.erase(std::find(m.begin(),m.end(),o)); out.push_back(o);} }
    else if(k==9){ op="take_first"; Obj*o=(Obj*)M_queue_take_first(q); VH_CHECK(o==(m.empty()?NULL:m[0]),"queue:take_first","%s want %s",o?o->v.c_str():"null",m.empty()?"null":m[0]->v.c_str()); if(!m.empty()){ out.push_back(m[0]); m.erase(m.begin()); } }
    else if(k==10){ op="foreach"; M_queue_foreach_t*f=NULL; void*p=NULL; size_t n=0; bool rm=vh_chance(40); std::vector<Obj*> snap=m; while(M_queue_foreach(q,&f,&p)&&n<=snap.size()+2){ VH_CHECK(n<snap.size()&&p==snap[n],"queue:foreach","element %zu of %zu",n,snap.size()); if(n>=snap.size()) break; if(rm&&vh_chance(50)){ Obj*o=snap[n]; int id=o->id; VH_CHECK(M_queue_remove(q,o),"queue:foreach remove","%zu",n); m.erase(std::find(m.begin(),m.end(),o)); if(own) want_freed.insert(id); else out.push_back(o); } n++; } VH_CHECK(n==snap.size(),"queue:foreach count","%zu of %zu",n,snap.size()); VH_CHECK(f==NULL,"queue:foreach handle","not reset"); vh_count("foreach",1); }
    else { op="queries"; if(some) VH_CHECK(M_queue_exists(q,some),"queue:exists","member missing"); for(auto*o:out) VH_CHECK(!M_queue_exists(q,o),"queue:exists","removed member present"); Obj tmp{some?some->v:"x",0}; VH_CHECK(!M_queue_exists(q,&tmp),"queue:exists","equal value taken for the member"); if(!out.empty()&&vh_chance(30)){ drop(out.back()); out.pop_back(); } }
    VH_CHECK(M_queue_len(q)==m.size(),"queue:len","%zu want %zu after %s",M_queue_len(q),m.size(),op.c_str()); VH_CHECK(M_queue_first(q)==(m.empty()?NULL:m[0]),"queue:first","after %s",op.c_str()); VH_CHECK(M_queue_last(q)==(m.empty()?NULL:m.back()),"queue:last","after %s",op.c_str());
    std::multiset<int> got(freed.begin(),freed.end()); VH_CHECK(got==want_freed&&!badfree,"queue:released","%zu want %zu after %s",got.size(),want_freed.size(),op.c_str()); freed.clear(); want_freed.clear(); }
  vh_distinct(h); size_t n=m.size(); std::set<Obj*> mm(m.begin(),m.end()); M_queue_destroy(q); VH_CHECK(freed.size()==(own?n:0)&&!badfree,"queue:destroy","%zu released of %zu own=%d",freed.size(),n,own); if(!own) for(auto*o:mm) drop(o); for(auto*o:out) drop(o); VH_CHECK(live.empty(),"queue:leak","%zu",live.size()); for(auto*o:live) delete o; live.clear(); }
const vh_mode_t vh_modes[]={ {"ops",run}, {"queue",queue}, {0} };
