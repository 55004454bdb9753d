// B03: bit buffer / bit parser vs a vector of bits
#include "vh.hpp"
typedef std::vector<bool> V;
static S vs(const V&v,size_t a=0,size_t n=(size_t)-1){ S s; for(size_t i=a;i<v.size()&&n--;i++) s+=v[i]?'1':'0'; return s; }
static S pack(const V&v,size_t a=0,size_t n=(size_t)-1){ if(n>v.size()-a) n=v.size()-a; S s((n+7)/8,0); for(size_t i=0;i<n;i++) if(v[a+i]) s[i/8]|=(char)(0x80>>(i%8)); return s; }
static void bits_from(V&v,const S&b,size_t n){ for(size_t i=0;i<n;i++) v.push_back((b[i/8]>>(7-i%8))&1); }
static size_t nb(void){ switch(vh_rndn(5)){ case 0: return vh_rndn(3); case 1: return 8*vh_rndn(6); case 2: return vh_rndn(20); case 3: return 62+vh_rndn(5); default: return vh_rndn(200);} }
static void ckbuf(M_bit_buf_t*b,const V&m,const S&op){
  VH_CHECK(M_bit_buf_len(b)==m.size(),"bitbuf:length","after %s: %zu want %zu",op.c_str(),M_bit_buf_len(b),m.size());
  S w=pack(m); VH_CHECK(M_bit_buf_len_bytes(b)==w.size(),"bitbuf:bytes","after %s: %zu bytes want %zu",op.c_str(),M_bit_buf_len_bytes(b),w.size());
  const M_uint8*p=M_bit_buf_peek(b); if(!w.empty()) VH_CHECK(p&&memcmp(p,w.data(),w.size())==0,"bitbuf:content","after %s: %s want %s",op.c_str(),vh_hexs(p,w.size()),vh_hexs(w.data(),w.size()));
}
static void run_buf(void){
  M_bit_buf_t*b=M_bit_buf_create(); V m; int n=10+(int)vh_rndn(40); uint64_t h=1; S op="create"; ckbuf(b,m,op);
  for(int i=0;i<n;i++){
    switch(vh_rndn(10)){
    case 0: { bool v=vh_chance(50); op="add_bit"; M_bit_buf_add_bit(b,v?(M_uint8)(1+vh_rndn(255)):0); m.push_back(v); } break;
    case 1: { size_t k=nb(); bool v=vh_chance(50); op=vh_fmt("fill(%d,%zu)",v,k); M_bit_buf_fill(b,v,k); m.insert(m.end(),k,v); } break;
    case 2: { size_t k=nb(); if(m.size()&&vh_chance(80)) k=vh_rndn(m.size()+1); op=vh_fmt("truncate(%zu of %zu)",k,m.size()); M_bit_buf_truncate(b,k); if(k<m.size()) m.resize(k); } break;
    case 3: { size_t k=vh_rndn(m.size()+20); bool v=vh_chance(50),f=vh_chance(50); op=vh_fmt("set_bit(%zu=%d fill %d)",k,v,f); M_bit_buf_set_bit(b,v,k,f); if(k<m.size()) m[k]=v; else { m.resize(k,f); m.push_back(v);} } break;
    case 4: { size_t k=vh_rndn(m.size()+5); bool v=vh_chance(50); op=vh_fmt("update_bit(%zu of %zu)",k,m.size()); M_bool r=M_bit_buf_update_bit(b,k,v); VH_CHECK((r==M_TRUE)==(k<m.size()),"bitbuf:result","%s",op.c_str()); if(r) m[k]=v; } break;
    case 5: case 6: { size_t k=nb(); S y=vh_bytes((k+7)/8); Heap hp(y); op=vh_fmt("add_bytes(%zu at %zu)",k,m.size()); M_bit_buf_add_bytes(b,hp.p,k); bits_from(m,y,k); } break;
    case 7: { size_t k=vh_rndn(66); uint64_t v=vh_u64(); int pad=(int)vh_rndn(3); op=vh_fmt("add(%zu bits,pad %d)",k,pad); M_bit_buf_add(b,v,k,(M_bit_buf_pad_t)pad); if(k>=1&&k<=64){ size_t rem=(m.size()+k)%8,pb=rem?8-rem:0; if(pad==1) m.insert(m.end(),pb,false); for(size_t j=k;j-->0;) m.push_back((v>>j)&1); if(pad==2) m.insert(m.end(),pb,false);} } break;
    case 8: { S s=vh_from("0011 \n",vh_rndn(40)); int pad=(int)vh_rndn(3); size_t k=0; for(char c:s) k+=c=='0'||c=='1'; op=vh_fmt("add_bitstr(%s,pad %d)",E(s),pad); Heap hp(s,true); M_bool r=M_bit_buf_add_bitstr(b,hp.p,(M_bit_buf_pad_t)pad); VH_CHECK(r==M_TRUE,"bitbuf:result","%s",op.c_str()); if(s.empty()) break; size_t rem=(m.size()+k)%8,pb=rem?8-rem:0; if(pad==1) m.insert(m.end(),pb,false); for(char c:s) if(c=='0'||c=='1') m.push_back(c=='1'); if(pad==2) m.insert(m.end(),pb,false); } break;
    case 9: op="reserve"; M_bit_buf_reserve(b,nb()); break;
    }
    ckbuf(b,m,op); h=vh_hstr(op.c_str(),h); vh_count("ops",1);
  }
  size_t ln=0; S w=pack(m); if(vh_chance(50)){ M_uint8*o=M_bit_buf_finish(b,&ln); VH_CHECK(ln==w.size()&&(ln==0||memcmp(o,w.data(),ln)==0),"bitbuf:finish","finish differs"); M_free(o); } else { M_buf_t*o=M_bit_buf_finish_buf(b); VH_CHECK(M_buf_len(o)==w.size()&&(w.empty()||memcmp(M_buf_peek(o),w.data(),w.size())==0),"bitbuf:finish","finish_buf differs"); M_buf_cancel(o);} 
  vh_distinct(h);
}
static void run_parse(void){
  V m; size_t k=nb(); S y=vh_bytes((k+7)/8); if(vh_chance(8)){ k=600+vh_rndn(3000); y=S((k+7)/8,(char)(vh_chance(50)?0:0xff)); for(int q=(int)vh_rndn(5);q>0;q--) y[vh_rndn(y.size())]=(char)vh_rnd(); } else if(vh_chance(40)){ unsigned char c=(unsigned char)(vh_chance(50)?0:0xff); for(auto&q:y) if(vh_chance(80)) q=(char)c; } Heap hp(y); bits_from(m,y,k);
  bool cst=vh_chance(60); M_bit_parser_t*p=cst?M_bit_parser_create_const(hp.p,k):M_bit_parser_create(hp.p,k); size_t pos=0,mark=0; S op="create"; int n=10+(int)vh_rndn(40); uint64_t h=vh_hash(y.data(),y.size(),k);
  for(int i=0;i<=n;i++){
    size_t left=m.size()-pos; 
    VH_CHECK(M_bit_parser_len(p)==left&&M_bit_parser_current_offset(p)==pos&&M_bit_parser_mark_len(p)==pos-mark,"bitparser:position","after %s: len %zu/%zu off %zu/%zu mark %zu/%zu",op.c_str(),M_bit_parser_len(p),left,M_bit_parser_current_offset(p),pos,M_bit_parser_mark_len(p),pos-mark);
    size_t ones=0; for(size_t j=pos;j<m.size();j++) ones+=m[j]; VH_CHECK(M_bit_parser_count(p,1)==ones&&M_bit_parser_count(p,0)==left-ones,"bitparser:count","after %s: ones %zu want %zu zeros %zu want %zu",op.c_str(),M_bit_parser_count(p,1),ones,M_bit_parser_count(p,0),left-ones);
    if(i==n) break; size_t q=vh_chance(15)?left+vh_rndn(3):vh_chance(30)?left:std::min(nb(),vh_rndn(left+1)); bool ok=q<=left;
    switch(vh_rndn(16)){
    case 0: { op=vh_fmt("consume(%zu of %zu)",q,left); M_bool r=M_bit_parser_consume(p,q); VH_CHECK((r==M_TRUE)==ok,"bitparser:result","%s",op.c_str()); if(ok)pos+=q; } break;
    case 1: { M_uint8 bt=9; op="bit"; bool pk=vh_chance(40); M_bool r=pk?M_bit_parser_peek_bit(p,&bt):M_bit_parser_read_bit(p,&bt); VH_CHECK((r==M_TRUE)==(left>0),"bitparser:result","%s",op.c_str()); if(left){ VH_CHECK(bt==(m[pos]?1:0),"bitparser:bit","bit at %zu is %d",pos,bt); if(!pk)pos++; } } break;
    case 2: { op=vh_fmt("read_bit_buf(%zu)",q); M_bit_buf_t*b=M_bit_buf_create(); V w; size_t pre=vh_rndn(10); M_bit_buf_fill(b,1,pre); w.assign(pre,true); M_bool r=M_bit_parser_read_bit_buf(p,b,q); VH_CHECK((r==M_TRUE)==ok,"bitparser:result","%s",op.c_str()); if(ok){ for(size_t j=0;j<q;j++) w.push_back(m[pos+j]); pos+=q;} ckbuf(b,w,op); M_bit_buf_destroy(b); } break;
    case 3: { op=vh_fmt("read_buf(%zu)",q); M_buf_t*b=M_buf_create(); M_buf_add_str(b,"x"); M_bool r=M_bit_parser_read_buf(p,b,q); VH_CHECK((r==M_TRUE)==ok,"bitparser:result","%s",op.c_str()); S w="x"; if(ok){ w+=pack(m,pos,q); pos+=q;} VH_CHECK(M_buf_len(b)==w.size()&&memcmp(M_buf_peek(b),w.data(),w.size())==0,"bitparser:bytes","%s: %s want %s",op.c_str(),vh_hexs(M_buf_peek(b),M_buf_len(b)),vh_hexs(w.data(),w.size())); M_buf_cancel(b); } break;
    case 4: case 5: { size_t cap=(q+7)/8; if(vh_chance(20)) cap=vh_rndn(cap+3); M_uint8*b=(M_uint8*)malloc(cap?cap:1); size_t dl=cap; bool k2=ok&&cap*8>=q; op=vh_fmt("read_bytes(%zu cap %zu at %zu)",q,cap,pos); M_bool r=M_bit_parser_read_bytes(p,b,&dl,q); VH_CHECK((r==M_TRUE)==(q==0||(k2&&cap)),"bitparser:result","%s",op.c_str()); if(r&&q){ S w=pack(m,pos,q); VH_CHECK(dl==w.size()&&memcmp(b,w.data(),dl)==0,"bitparser:bytes","%s: %s want %s",op.c_str(),vh_hexs(b,dl),vh_hexs(w.data(),w.size())); pos+=q; } else VH_CHECK(dl==0,"bitparser:bytes","%s length %zu on failure",op.c_str(),dl); free(b); } break;
    case 6: { op=vh_fmt("read_strdup(%zu)",q); char*s=M_bit_parser_read_strdup(p,q); VH_CHECK((s!=NULL)==(ok&&q>0),"bitparser:result","%s",op.c_str()); if(s){ VH_CHECK(vs(m,pos,q)==s,"bitparser:str","%s: %s",op.c_str(),s); pos+=q;} M_free(s); } break;
    case 7: case 8: { if(q>64&&vh_chance(90)) q=std::min<size_t>(left,vh_rndn(65)); ok=q<=left&&q<=64; uint64_t v=0; if(ok) for(size_t j=0;j<q;j++) v=v<<1|m[pos+j]; M_uint64 r64=5; op=vh_fmt("read_uint(%zu at %zu)",q,pos); M_bool r=M_bit_parser_read_uint(p,q,&r64); VH_CHECK((r==M_TRUE)==ok,"bitparser:result","%s",op.c_str()); if(ok){ VH_CHECK(r64==v,"bitparser:uint","%s: %llx want %llx",op.c_str(),(unsigned long long)r64,(unsigned long long)v); pos+=q; } } break;
    case 9: case 10: { if(q>64&&vh_chance(90)) q=std::min<size_t>(left,2+vh_rndn(63)); ok=q<=left&&q>=2&&q<=64; int f=(int)vh_rndn(3); M_bit_parser_int_format_t ff[]={M_BIT_PARSER_SIGN_MAG,M_BIT_PARSER_ONES_COMP,M_BIT_PARSER_TWOS_COMP}; __int128 v=0; if(ok){ for(size_t j=1;j<q;j++) v=v*2+m[pos+j]; __int128 top=(__int128)1<<(q-1); if(m[pos]) v=f==0?-v:f==1?v-(top-1):v-top; } M_int64 r64=5; op=vh_fmt("read_int(%zu fmt %d of %s)",q,f,ok?vs(m,pos,q).c_str():"-"); M_bool r=M_bit_parser_read_int(p,q,ff[f],&r64); VH_CHECK((r==M_TRUE)==ok,"bitparser:result","%s left %zu: result %d",op.c_str(),left,r); if(ok){ VH_CHECK(r64==(int64_t)v,"bitparser:int","%s: %lld want %lld",op.c_str(),(long long)r64,(long long)(int64_t)v); pos+=q; } } break;
    case 11: { size_t mx=vh_chance(50)?left:vh_chance(20)?vh_rndn(5000):vh_rndn(20); size_t run=0; while(run<mx&&pos+run<m.size()&&m[pos+run]==m[pos]) run++; op=vh_fmt("range(max %zu)",mx); if(vh_chance(60)){ M_uint8 bt=9; size_t g=77; M_bool r=M_bit_parser_read_range(p,&bt,&g,mx); VH_CHECK((r==M_TRUE)==(run>0)&&g==run,"bitparser:range","%s: %zu want %zu",op.c_str(),g,run); if(run) VH_CHECK(bt==(m[pos]?1:0),"bitparser:range","%s: bit %d",op.c_str(),bt); } else VH_CHECK((M_bit_parser_consume_range(p,mx)==M_TRUE)==(run>0),"bitparser:range","%s",op.c_str()); pos+=run; } break;
    case 12: { size_t mx=vh_chance(50)?left:vh_rndn(20); bool bt=vh_chance(50); size_t lim=std::min(mx,left),j=0; while(j<lim&&m[pos+j]!=bt) j++; bool f=j<lim; op=vh_fmt("consume_to_next(%d,max %zu)",bt,mx); M_bool r=M_bit_parser_consume_to_next(p,bt,mx); VH_CHECK((r==M_TRUE)==f,"bitparser:next","%s: %d",op.c_str(),r); pos+=f?j+1:lim; } break;
    case 13: if(vh_chance(50)){ op="mark"; M_bit_parser_mark(p); mark=pos; } else if(vh_chance(70)){ op="mark_rewind"; size_t g=M_bit_parser_mark_rewind(p); VH_CHECK(g==pos-mark,"bitparser:rewind","%zu want %zu",g,pos-mark); pos=mark; } else { op="rewind_to_start"; M_bit_parser_rewind_to_start(p); pos=mark=0; } break;
    case 14: { size_t a=nb(); int v=(int)vh_rndn(3); if(v==0){ S z=vh_bytes((a+7)/8); Heap hz(z); M_bit_parser_append(p,hz.p,a); bits_from(m,z,a); } else if(v==1){ a=a%65; uint64_t u=vh_u64(); M_bit_parser_append_uint(p,u,a); for(size_t j=a;j-->0;) m.push_back((u>>j)&1); } else { S s=vh_from("01 ",a); Heap hz(s,true); VH_CHECK(M_bit_parser_append_bitstr(p,hz.p)==M_TRUE,"bitparser:append","refused"); for(char c:s) if(c!=' ') m.push_back(c=='1'); } op=vh_fmt("append(%d,%zu)",v,a); } break;
    case 15: if(vh_chance(15)){ size_t a=nb(); S z=vh_bytes((a+7)/8); Heap hz(z); op="reset"; M_bit_parser_reset(p,hz.p,a); m.clear(); bits_from(m,z,a); pos=mark=0; } break;
    }
    h=vh_hstr(op.c_str(),h); vh_count("ops",1);
  }
  M_bit_parser_destroy(p); vh_distinct(h);
}
const vh_mode_t vh_modes[]={ {"buf",run_buf},{"parse",run_parse}, {0} };
