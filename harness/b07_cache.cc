// B07: caches vs a reference LRU list
#include "vh.hpp"
struct Obj { S v; int id; }; static std::set<Obj*> live; static std::multiset<int> freed,want; static int bad; static int uid; static std::vector<void*> keysfreed;
static std::set<Obj*> keys; static int kfreed, kdup;
static Obj*mko(const S&v,int id){ Obj*o=new Obj{v,id}; live.insert(o); return o; }
static void gfree(void*p){ if(!p) return; Obj*o=(Obj*)p; if(!live.erase(o)){ bad++; return; } freed.insert(o->id); delete o; }
static void*gdup(const void*p){ const Obj*o=(const Obj*)p; return mko(o->v,o->id); }
static void*kdupf(const void*p){ Obj*o=new Obj(*(const Obj*)p); keys.insert(o); kdup++; return o; }
static void kfree(void*p){ Obj*o=(Obj*)p; if(!keys.erase(o)){ bad++; return; } kfreed++; delete o; }
static int kcmp(const void*a,const void*b,void*){ const Obj*x=*(Obj*const*)a,*y=*(Obj*const*)b; return x->v<y->v?-1:x->v>y->v; }
static M_uint32 khash(const void*k,M_uint32 seed){ const Obj*o=(const Obj*)k; return M_hash_func_hash_str(o->v.c_str(),seed); }
static S low(S s){ for(auto&c:s) if(c>='A'&&c<='Z') c=(char)(c+32); return s; }
struct En { S k; Obj*v; int id; bool null; };
static void run(void){ live.clear(); keys.clear(); freed.clear(); want.clear(); bad=kfreed=kdup=0; int kind=(int)vh_rndn(3); bool vdup=kind==2,ci=kind==0&&vh_chance(40),own=vh_chance(75)||vdup; size_t mx=vh_chance(10)?0:vh_chance(10)?100+vh_rndn(100):1+vh_rndn(9);
  M_cache_t*g=NULL; M_cache_strvp_t*s=NULL; struct M_cache_callbacks cb={kdupf,kfree,vdup?gdup:NULL,own?gfree:NULL}; if(kind==0) s=M_cache_strvp_create(mx,ci?M_CACHE_STRVP_CASECMP:M_CACHE_STRVP_NONE,own?gfree:NULL); else g=M_cache_create(mx,khash,kcmp,M_CACHE_NONE,&cb);
  std::list<En> m; std::vector<Obj*> un; int steps=20+(int)vh_rndn(mx>50?600:150); uint64_t h=mx; size_t nk=mx>50?300:2+vh_rndn(20); std::vector<S> ks; for(size_t i=0;i<nk;i++) ks.push_back(vh_from("abAB",1+vh_rndn(nk>40?6:3)));
  auto nk_=[&](const S&k){ return ci?low(k):k; }; auto find=[&](const S&k){ for(auto i=m.begin();i!=m.end();++i) if(nk_(i->k)==nk_(k)) return i; return m.end(); };
  auto drop=[&](En&e){ if(e.null) return; if(own) want.insert(e.id); else un.push_back(e.v); };
  for(int st=0;st<steps;st++){ vh_count("ops",1); S k=vh_pick(ks); Obj ko{k,0}; int op=(int)vh_rndn(20); h=vh_hash(&op,sizeof op,vh_hstr(k.c_str(),h)); S what; auto it=find(k);
    if(op<8){ int id=++uid; bool null=vh_chance(8); bool again=!vdup&&it!=m.end()&&vh_chance(12); Obj tmp{k+"=",id}; Obj*v=again?it->v:null?NULL:vdup?&tmp:mko(k+"=",id); if(again){ null=it->null; id=it->id; } what="insert "+k+(null?" NULL":"")+(again?" same pointer":""); vh_log("%s",what.c_str()); bool r=kind==0?M_cache_strvp_insert(s,k.c_str(),v):M_cache_insert(g,&ko,v); VH_CHECK(r==(mx>0),"cache:insert","%d max %zu",r,mx);
      if(!r){ if(!vdup&&v&&!again){ live.erase(v); delete v; } } else { if(it!=m.end()){ if(!again) drop(*it); En e=*it; m.erase(it); if(!again){ e.v=v; e.id=id; e.null=null; } m.push_front(e); } else { if(m.size()==mx){ drop(m.back()); m.pop_back(); vh_count("evicted",1);} m.push_front(En{k,v,id,null}); } } }
    else if(op<14){ what="get "+k; vh_log("%s",what.c_str()); void*v=(void*)&h; bool nullout=vh_chance(20); bool r=kind==0?M_cache_strvp_get(s,k.c_str(),nullout?NULL:&v):M_cache_get(g,&ko,nullout?NULL:&v); VH_CHECK(r==(it!=m.end()),"cache:get","%s: %d want %d of %zu",E(k),r,it!=m.end(),m.size()); if(it!=m.end()){ if(!nullout&&r){ Obj*o=(Obj*)v; if(it->null) VH_CHECK(o==NULL,"cache:value","%s not NULL",E(k)); else if(vdup){ VH_CHECK(o&&live.count(o)&&o->id==it->id&&o->v==k+"=","cache:value","%s holds %s #%d want #%d",E(k),o&&live.count(o)?E(o->v):"?",o&&live.count(o)?o->id:-1,it->id); } else VH_CHECK(o==it->v,"cache:value","%s: wrong pointer",E(k)); } m.splice(m.begin(),m,it); } if(kind==0){ void*d=M_cache_strvp_get_direct(s,k.c_str()); VH_CHECK(d==(it==m.end()||it->null?NULL:(void*)it->v),"cache:get_direct","%s",E(k)); } vh_count("gets",1); }
    else if(op<17){ what="remove "+k; vh_log("%s",what.c_str()); bool r=kind==0?M_cache_strvp_remove(s,k.c_str()):M_cache_remove(g,&ko); VH_CHECK(r==(it!=m.end()),"cache:remove","%s %d",E(k),r); if(it!=m.end()){ drop(*it); m.erase(it);} }
    else if(op==17&&vh_chance(40)){ size_t n=vh_chance(15)?0:vh_chance(50)?mx+vh_rndn(4):vh_rndn(mx+2); what=vh_fmt("set_max %zu -> %zu",mx,n); vh_log("%s",what.c_str()); bool r=kind==0?M_cache_strvp_set_max_size(s,n):M_cache_set_max_size(g,n); VH_CHECK(r,"cache:set_max_size","refused"); mx=n; while(m.size()>mx){ drop(m.back()); m.pop_back(); } vh_count("resized",1); }
    else continue;
    size_t sz=kind==0?M_cache_strvp_size(s):M_cache_size(g),gm=kind==0?M_cache_strvp_max_size(s):M_cache_max_size(g); VH_CHECK(sz==m.size(),"cache:size","%zu want %zu after %s",sz,m.size(),what.c_str()); VH_CHECK(gm==mx&&sz<=mx,"cache:capacity","%zu of %zu (want %zu)",sz,gm,mx);
    VH_CHECK(bad==0,"cache:released twice","after %s",what.c_str()); VH_CHECK(freed==want,"cache:released","%zu released, want %zu after %s",freed.size(),want.size(),what.c_str()); if(freed!=want||bad){ freed=want; bad=0; } if(kind) VH_CHECK(keys.size()==m.size(),"cache:keys","%zu keys alive for %zu entries after %s",keys.size(),m.size(),what.c_str()); }
  vh_distinct(h); // the entries left, most recent ones first: shrink step by step and see which remain
  if(vh_chance(50)) while(m.size()){ size_t n=m.size()-1; if(kind==0) M_cache_strvp_set_max_size(s,n); else M_cache_set_max_size(g,n); drop(m.back()); S gone=m.back().k; m.pop_back(); Obj ko{gone,0}; VH_CHECK(!(kind==0?M_cache_strvp_get(s,gone.c_str(),NULL):M_cache_get(g,&ko,NULL)),"cache:order","%s is not the one evicted",E(gone)); VH_CHECK(freed==want,"cache:order","the entry evicted is not the least recently used one"); if(freed!=want) freed=want; vh_count("order",1); }
  for(auto&e:m) drop(e); if(s) M_cache_strvp_destroy(s); if(g) M_cache_destroy(g); VH_CHECK(freed==want&&!bad,"cache:released at end","%zu want %zu",freed.size(),want.size()); VH_CHECK(keys.empty(),"cache:key leak","%zu",keys.size()); std::set<Obj*> u(un.begin(),un.end()); for(auto*o:u){ live.erase(o); delete o; } VH_CHECK(live.empty(),"cache:value leak","%zu",live.size()); for(auto*o:live) delete o; live.clear(); }
const vh_mode_t vh_modes[]={ {"ops",run}, {0} };
