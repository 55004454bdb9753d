// B01: M_buf against an ideal byte string
#include "vh.hpp"
static bool sp(char c){ return c==' '||(c>=9&&c<=13); }
static S upper(S s){ for(auto&c:s) if(c>='a'&&c<='z') c-=32; return s; }
static S lower(S s){ for(auto&c:s) if(c>='A'&&c<='Z') c+=32; return s; }
static S trim(S s,bool l,bool r){ size_t a=0,b=s.size(); if(l) while(a<b&&sp(s[a])) a++; if(r) while(b>a&&sp(s[b-1])) b--; return s.substr(a,b-a); }
static S xform(S s,unsigned t){ if(t&1) s=upper(s); if(t&2) s=lower(s); return trim(s,t&4,t&8); }
static S just(const S&src,int jt,unsigned char fill,size_t w){
  size_t n=src.size(); S s=src;
  if(n>w){ switch(jt){ case 0:case 1:case 7:case 8: s=src.substr(n-w); break; case 2:case 3:case 6:case 9: s=src.substr(0,w); break; default: return S(); } return s; }
  size_t pad=w-n; S f((size_t)pad,(char)fill);
  switch(jt){ case 0:case 2:case 4: return f+s; case 1:case 3:case 5: return s+f; case 6:case 7: return s; default: return S((pad+1)/2,(char)fill)+s+S(pad/2,(char)fill); } }
static const char b64a[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static S b64(const S&s){ S o; size_t i; for(i=0;i<s.size();i+=3){ unsigned v=0; int k=0; for(;k<3&&i+k<s.size();k++) v|=(unsigned char)s[i+k]<<(16-8*k); for(int j=0;j<4;j++) o+= j<=k? b64a[(v>>(18-6*j))&63]:'='; } return o; }
static S hexu(const S&s){ S o; for(unsigned char c:s){ char b[3]; sprintf(b,"%02X",c); o+=b; } return o; }
struct Bf { M_buf_t *b; S m; };
static void check(Bf&x,const S&op){
  VH_CHECK(M_buf_len(x.b)==x.m.size(),"buf:length","after %s: len %zu, model %zu",op.c_str(),M_buf_len(x.b),x.m.size());
  const char*p=M_buf_peek(x.b);
  if(!p){ VH_CHECK(x.m.empty(),"buf:peek","after %s: NULL peek with %zu bytes",op.c_str(),x.m.size()); return; }
  VH_CHECK(memcmp(p,x.m.data(),x.m.size())==0,"buf:content","after %s: got %s want %s",op.c_str(),vh_esc(p,std::min<size_t>(x.m.size(),300)),E(x.m.substr(0,300)));
}
static void term(Bf&x,const S&op){ const char*p=M_buf_peek(x.b); if(p) VH_CHECK(p[x.m.size()]==0,"buf:terminator","after %s: not NUL terminated (len %zu)",op.c_str(),x.m.size()); }
static S sgen(void){ switch(vh_rndn(6)){ case 0: return vh_from(" \tab\n",vh_len()); case 1: return vh_from("aAzZ09 ",vh_len()); case 2: return vh_cbytes(vh_len()); case 3: return S(vh_rndn(6),' ')+vh_ascii(vh_rndn(30))+S(vh_rndn(6),'\n'); case 4: return vh_from("ab",vh_rndn(40)); default: return vh_ascii(vh_rndn(1200)); } }
static size_t wgen(void){ return vh_chance(15)?vh_rndn(3000):vh_rndn(40); }
static S money(int64_t c,bool dot){ S s; unsigned long long a=c<0?0-(unsigned long long)c:(unsigned long long)c; if(c<0)s="-"; if(dot) s+=vh_fmt("%llu.%02llu",a/100,a%100); else s+=vh_fmt("%llu",a); return s; }
static S digs(uint64_t v,unsigned base){ S o; do{ o.insert(o.begin(),"0123456789abcdefghijklmnopqrstuvwxyz"[v%base]); v/=base; }while(v); return o; }
static S bcd(uint64_t n,size_t w,bool&ok){ S d=vh_fmt("%llu",(unsigned long long)n); if(d.size()%2) d="0"+d; ok=d.size()/2<=w; S o; for(size_t i=0;i<d.size();i+=2) o+=(char)(((d[i]-'0')<<4)|(d[i+1]-'0')); if(ok) o=S(w-o.size(),0)+o; return o; }
static S bin(uint64_t n,size_t w,M_endian_t e,bool&ok){ ok=w>=1&&w<=8&&(w==8||n<(1ULL<<(8*w))); S o; if(!ok) return o; for(size_t i=0;i<w;i++) o+=(char)(n>>(8*(e==M_ENDIAN_BIG?w-1-i:i))); return o; }
static S replace(const S&s,const S&f,const S&r){ S o; size_t p=0; for(;;){ size_t q=s.find(f,p); if(q==S::npos){ o+=s.substr(p); return o;} o+=s.substr(p,q-p)+r; p=q+f.size(); } }

static void step(Bf&x,S&op){
  M_buf_t*b=x.b; S s=sgen(); Heap hb(s), hz(s,true); bool r=true, want=true; bool ok;
  switch(vh_rndn(50)){
  case 0: op="add_bytes"; { S y=vh_bytes(vh_len()); Heap h(y); M_buf_add_bytes(b,h.p,h.n); x.m+=y; } break;
  case 1: op="add_byte"; { unsigned char c=(unsigned char)vh_rnd(); M_buf_add_byte(b,c); x.m+=(char)c; } break;
  case 2: op="add_char"; M_buf_add_char(b,'q'); x.m+='q'; break;
  case 3: op="add_str"; M_buf_add_str(b,hz.p); x.m+=s; break;
  case 4: op="add_str_max"; { size_t k=vh_rndn(s.size()*2+2); M_buf_add_str_max(b,hz.p,k); x.m+=s.substr(0,k); } break;
  case 5: op="add_str_hex"; M_buf_add_str_hex(b,hb.p,hb.n); x.m+=hexu(s); break;
  case 6: op="add_str_upper"; M_buf_add_str_upper(b,hz.p); x.m+=upper(s); break;
  case 7: op="add_str_lower"; M_buf_add_str_lower(b,hz.p); x.m+=lower(s); break;
  case 8: case 9: { unsigned t=(unsigned)vh_rndn(16); if((t&3)==3) t&=~1u; op=vh_fmt("add_str_transform(%u)",t); M_buf_add_str_transform(b,t,hz.p); x.m+=xform(s,t); } break;
  case 10: { unsigned t=(unsigned)vh_rndn(4)*4; size_t k=vh_rndn(s.size()+5); op=vh_fmt("add_str_max_transform(%u,%zu)",t,k); M_buf_add_str_max_transform(b,t,hz.p,k); x.m+=xform(s.substr(0,k),t); } break;
  case 11: { size_t w=wgen(); unsigned char c=(unsigned char)vh_rnd(); op="add_fill"; M_buf_add_fill(b,c,w); x.m+=S(w,(char)c); } break;
  case 12: { uint64_t n=vh_u64(); op="add_uint"; M_buf_add_uint(b,n); x.m+=vh_fmt("%llu",(unsigned long long)n); } break;
  case 13: { int64_t n=vh_i64(); op="add_int"; M_buf_add_int(b,n); x.m+=vh_fmt("%lld",(long long)n); } break;
  case 14: { int jt=(int)vh_rndn(11); size_t w=wgen(); S y=vh_chance(50)?vh_bytes(vh_len()):s; Heap h(y); op=vh_fmt("add_bytes_just(len %zu,type %d,width %zu)",y.size(),jt,w); M_buf_add_bytes_just(b,h.p,h.n,(M_str_justify_type_t)jt,'#',w); if(w) x.m+=just(y,jt,'#',w); } break;
  case 15: case 16: { int jt=(int)vh_rndn(11); size_t w=wgen(); unsigned t=(unsigned)vh_rndn(16); if((t&3)==3) t&=~2u; op=vh_fmt("add_str_just_transform(%u,len %zu,type %d,width %zu)",t,s.size(),jt,w); M_buf_add_str_just_transform(b,t,hz.p,(M_str_justify_type_t)jt,'*',w); if(w) x.m+=just(xform(s,t),jt,'*',w); } break;
  case 17: { size_t w=vh_rndn(10); op="add_str_just NULL"; M_buf_add_str_just(b,NULL,M_STR_JUSTIFY_LEFT,'f',w); x.m+=S(w,'f'); } break;
  case 18: { uint64_t n=vh_u64(); size_t w=1+vh_rndn(25); op="add_uint_just"; r=M_buf_add_uint_just(b,n,w); S d=vh_fmt("%llu",(unsigned long long)n); want=d.size()<=w; x.m+=just(d,0,'0',w); } break;
  case 19: { int64_t n=vh_i64(); size_t w=1+vh_rndn(25); op=vh_fmt("add_int_just(%lld,%zu)",(long long)n,w); r=M_buf_add_int_just(b,n,w); S d=money(n,false); bool ng=d[0]=='-'; S dd=ng?d.substr(1):d; want=d.size()<=w; if(ng){ x.m+='-'; w--; } if(w) x.m+=just(dd,0,'0',w); } break;
  case 20: { uint64_t n=vh_u64()>>vh_rndn(60); size_t w=vh_rndn(10); M_endian_t e=vh_chance(50)?M_ENDIAN_BIG:M_ENDIAN_LITTLE; S o=bin(n,w,e,ok); op=vh_fmt("add_uintbin(%llu,%zu)",(unsigned long long)n,w); r=M_buf_add_uintbin(b,n,w,e); want=ok; if(ok) x.m+=o; } break;
  case 21: { unsigned base=(unsigned)vh_range(2,36); uint64_t n=vh_u64()>>vh_rndn(60); size_t w=1+vh_rndn(8); S d=digs(n,base); op=vh_fmt("add_uintstrbin(%s,%u,%zu)",d.c_str(),base,w); S o=bin(n,w,M_ENDIAN_BIG,ok); r=M_buf_add_uintstrbin(b,d.c_str(),(unsigned char)base,w,M_ENDIAN_BIG); want=ok; if(ok)x.m+=o; } break;
  case 22: { uint64_t n=vh_u64()>>vh_rndn(60); size_t w=vh_rndn(14); S o=bcd(n,w,ok); op=vh_fmt("add_uintbcd(%llu,%zu)",(unsigned long long)n,w); r=M_buf_add_uintbcd(b,n,w); want=ok; if(ok)x.m+=o; } break;
  case 23: { uint64_t n=vh_u64()>>vh_rndn(60); size_t w=vh_rndn(14); S d=digs(n,16); S o=bcd(n,w,ok); op="add_uintstrbcd"; r=M_buf_add_uintstrbcd(b,d.c_str(),16,w); want=ok; if(ok)x.m+=o; } break;
  case 24: { uint64_t n=vh_u64()>>vh_rndn(60); size_t w=vh_rndn(20); bool up=vh_chance(50); S d=vh_fmt(up?"%llX":"%llx",(unsigned long long)n); op=vh_fmt("add_uinthex(%s,%zu)",d.c_str(),w); r=M_buf_add_uinthex(b,n,up?M_TRUE:M_FALSE,w); want=w==0||d.size()<=w; if(want) x.m+=S(w>d.size()?w-d.size():0,'0')+d; } break;
  case 25: { unsigned char c=(unsigned char)vh_rnd(); M_buf_add_bytehex(b,c,M_TRUE); op="add_bytehex"; x.m+=hexu(S(1,(char)c)); } break;
  case 26: { int64_t n=vh_i64(); size_t w=vh_rndn(25); S d=money(n,false); op=vh_fmt("add_int_money(%lld,%zu)",(long long)n,w); r=M_buf_add_int_money(b,n,w); want=d.size()<=w; if(want)x.m+=d; } break;
  case 27: { int64_t n=vh_i64(); size_t w=vh_rndn(25); S d=money(n,true); op=vh_fmt("add_int_money_dot(%lld,%zu)",(long long)n,w); r=M_buf_add_int_money_dot(b,n,w); want=d.size()<=w; if(want)x.m+=d; } break;
  case 28: { int64_t n=vh_i64(); S d=money(n,true); size_t w=d.size()+vh_rndn(8); op=vh_fmt("add_int_money_dot_just(%lld,%zu)",(long long)n,w); r=M_buf_add_int_money_dot_just(b,n,w); x.m+=n<0?"-"+just(d.substr(1),0,'0',w-1):just(d,0,'0',w); } break;
  case 29: { int64_t n=vh_i64()>>vh_rndn(60); S d=money(n,true); op=vh_fmt("add_money(%s)",d.c_str()); if(n>-INT64_C(90000000000000000)&&n<INT64_C(90000000000000000)){ bool dot=vh_chance(50); r=dot?M_buf_add_money_dot(b,d.c_str(),30):M_buf_add_money(b,d.c_str(),30); x.m+=money(n,dot); } } break;
  case 30: { M_decimal_t d; int64_t n=vh_i64()>>vh_rndn(60); unsigned dd=(unsigned)vh_rndn(6); M_decimal_from_int(&d,n,(M_uint8)dd); unsigned long long a=n<0?0-(unsigned long long)n:(unsigned long long)n; unsigned long long p=1; for(unsigned i=0;i<dd;i++)p*=10; S t=n<0?"-":""; t+=vh_fmt("%llu",a/p); if(dd){ char f[32]; snprintf(f,sizeof f,".%0*llu",(int)dd,a%p); t+=f; } bool imp=vh_chance(30); size_t w=vh_chance(50)?0:vh_rndn(30); if(imp) t=vh_fmt("%lld",(long long)n); op=vh_fmt("add_decimal(%lld,%u,implied %d,width %zu)",(long long)n,dd,imp,w); r=M_buf_add_decimal(b,&d,imp?M_TRUE:M_FALSE,(M_int8)dd,w); want=w==0||t.size()<=w; x.m+=w?just(t,7,0,w):t; } break;
  case 31: { S f=vh_from("ab",1+vh_rndn(3)), rp=vh_from("abX",vh_rndn(4)); S src=vh_chance(50)?vh_from("ab",vh_len()):s; op="add_str_replace"; Heap h(src,true); r=M_buf_add_str_replace(b,h.p,f.c_str(),rp.c_str()); x.m+=replace(src,f,rp); } break;
  case 32: { S src=vh_from(S("ab\0",3).c_str(),vh_len()); if(src.size()>2) src[src.size()/2]=0; S f=vh_from("ab",1+vh_rndn(2)), rp=vh_bytes(vh_rndn(4)); Heap h(src); op="add_bytes_replace"; r=M_buf_add_bytes_replace(b,(const M_uint8*)h.p,h.n,(const M_uint8*)f.data(),f.size(),(const M_uint8*)rp.data(),rp.size()); x.m+=replace(src,f,rp); } break;
  case 33: { S src=vh_from("ab\"\\,\n",1+vh_rndn(20)); bool always=vh_chance(30); char esc=vh_chance(50)?'"':'\\'; op="add_str_quoted "+src; Heap h(src,true); M_buf_add_str_quoted(b,'"',esc,",\n",always?M_TRUE:M_FALSE,h.p); bool q=always,e=false; for(char c:src){ if(c=='"'||c==esc) e=true; if(c==','||c=='\n') q=true; } if(e)q=true; if(q)x.m+='"'; for(char c:src){ if(e&&(c=='"'||c==esc)) x.m+=esc; x.m+=c; } if(q)x.m+='"'; } break;
  case 34: op="trim"; M_buf_trim(b); x.m=trim(x.m,true,true); break;
  case 35: case 36: case 37: { size_t k=vh_chance(20)?x.m.size():vh_rndn(x.m.size()+3); op=vh_fmt("drop(%zu)",k); M_buf_drop(b,k); x.m=x.m.substr(std::min(k,x.m.size())); } break;
  case 38: case 39: { size_t k=vh_rndn(x.m.size()+3); op=vh_fmt("truncate(%zu)",k); M_buf_truncate(b,k); if(k<x.m.size()) x.m.resize(k); } break;
  case 40: case 41: { size_t k=1+vh_rndn(vh_chance(10)?5000:60),ask=k; op=vh_fmt("direct_write(%zu)",k); unsigned char*p=M_buf_direct_write_start(b,&k); VH_CHECK(p&&k>=ask,"buf:direct-space","asked %zu got %zu",ask,k); size_t use=vh_chance(20)?0:vh_chance(30)?k:vh_rndn(ask+1); S y=vh_bytes(use); memcpy(p,y.data(),use); M_buf_direct_write_end(b,use); x.m+=y; } break;
  case 42: { // encode/decode in place
    if(x.m.empty()||x.m.size()>4000) break; int c=(int)vh_rndn(2); op=c?"encode(hex)":"encode(base64)"; r=M_buf_encode(b,0,c?M_BINCODEC_HEX:M_BINCODEC_BASE64); x.m=c?hexu(x.m):b64(x.m); if(vh_chance(60)){ check(x,op); S d; M_buf_decode(b,c?M_BINCODEC_HEX:M_BINCODEC_BASE64); op+="+decode"; if(c) for(size_t i=0;i<x.m.size();i+=2) d+=(char)strtol(x.m.substr(i,2).c_str(),0,16); else { unsigned v=0;int bits=0; for(char ch:x.m){ const char*q=strchr(b64a,ch); if(ch=='='||!q) break; v=(v<<6)|(unsigned)(q-b64a); bits+=6; if(bits>=8){ bits-=8; d+=(char)(v>>bits);} } } x.m=d; } } break;
  case 43: { op="add_encode"; if(s.empty()) break; r=M_buf_add_encode(b,hb.p,hb.n,0,M_BINCODEC_BASE64); x.m+=b64(s); } break;
  case 44: { op="add_decode"; if(s.empty()) break; S e=b64(s); Heap h(e); r=M_buf_add_decode(b,h.p,h.n,M_BINCODEC_BASE64); x.m+=s; } break;
  case 45: { op="add_decode bad"; S e="!!!!"+s; if(vh_chance(50)) e="ABC!"; Heap h(e); r=M_buf_add_decode(b,h.p,h.n,M_BINCODEC_BASE64); want=false; } break;
  case 46: { op="decode bad"; S keep=x.m; if(keep.find_first_not_of(b64a)==S::npos||keep.empty()) break; if(keep.find_first_not_of(" \r\n=")==S::npos) break; size_t q=keep.find('#'); if(q==S::npos) break; /* '#' in no alphabet */ r=M_buf_decode(b,M_BINCODEC_HEX); want=false; } break;
  case 47: { // merge another buffer, itself with history
    Bf y{M_buf_create(),""}; int n=(int)vh_rndn(4); S o2; for(int i=0;i<n;i++){ M_buf_add_str(y.b,hz.p); y.m+=s; if(vh_chance(50)){ size_t k=vh_rndn(y.m.size()+1); M_buf_drop(y.b,k); y.m=y.m.substr(k);} } op="merge"; M_buf_merge(b,y.b); x.m+=y.m; } break;
  case 48: { int n=1+(int)vh_rndn(4); std::vector<M_buf_t*> bs; S o; S sep=vh_chance(50)?"|":vh_from("-+",vh_rndn(3)); bool one=sep=="|"; for(int i=0;i<n;i++){ M_buf_t*y=M_buf_create(); S t=vh_ascii(vh_rndn(20)); M_buf_add_str(y,t.c_str()); size_t k=vh_rndn(t.size()+1); if(vh_chance(50)){ M_buf_drop(y,k); t=t.substr(k);} bs.push_back(y); o+=t; if(i<n-1) o+=sep; } op="join_buf"; if(one) M_buf_bjoin_buf(b,'|',bs.data(),bs.size()); else M_buf_sjoin_buf(b,sep.c_str(),bs.data(),bs.size()); x.m+=o; } break;
  case 49: { int n=1+(int)vh_rndn(4); VS v; std::vector<const char*> p; S o; for(int i=0;i<n;i++) v.push_back(vh_ascii(vh_rndn(20))); for(auto&t:v){ p.push_back(t.c_str()); } for(int i=0;i<n;i++){ o+=v[i]; if(i<n-1)o+="--"; } op="sjoin_str"; M_buf_sjoin_str(b,"--",p.data(),p.size()); x.m+=o; } break;
  }
  VH_CHECK(r==want,"buf:result","%s returned %d want %d",op.c_str(),r,want);
}
static void run(void){
  int steps=vh_tier?60:40; Bf x{M_buf_create(),""}; uint64_t h=0; S hist;
  for(int i=0;i<steps;i++){ S op; step(x,op); if(op.empty()) continue; check(x,op); if(op!="direct_write" && op.find("direct_write")!=0) term(x,op); h=vh_hu(x.m.size(),vh_hstr(op.c_str(),h)); hist+=op.substr(0,24)+";"; vh_count("ops",1); vh_count(("op."+op.substr(0,op.find_first_of("( "))).c_str(),1);
    if(x.m.size()>40000){ M_buf_drop(x.b,x.m.size()-100); x.m=x.m.substr(x.m.size()-100);} vh_max("len",x.m.size()); }
  vh_sample("%.400s final length %zu",hist.c_str(),x.m.size());
  size_t n=777; int k=(int)vh_rndn(3);
  if(k==0){ char*o=M_buf_finish_str(x.b,&n); VH_CHECK(n==x.m.size()&&(n==0||memcmp(o,x.m.data(),n)==0),"buf:finish","finish_str len %zu want %zu",n,x.m.size()); if(o) VH_CHECK(o[n]==0,"buf:finish-terminator","len %zu",n); M_free(o); }
  else if(k==1){ unsigned char*o=M_buf_finish(x.b,&n); VH_CHECK(n==x.m.size()&&(n==0||memcmp(o,x.m.data(),n)==0),"buf:finish","finish len %zu want %zu",n,x.m.size()); M_free(o); }
  else M_buf_cancel(x.b);
  vh_distinct(h);
}
const vh_mode_t vh_modes[]={ {"ops",run}, {0} };
