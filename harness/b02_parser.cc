// B02: M_parser against an ideal input string with a position, a user mark and derived line/column
#include "vh.hpp"
struct Px { M_parser_t *p; S d; size_t pos, end; long mark; bool dyn, track; size_t l0, c0; Heap *h; };
static S left(Px&x){ return x.d.substr(x.pos,x.end-x.pos); }
static void linecol(Px&x,size_t pos,size_t&l,size_t&c){ l=x.l0; c=x.c0; for(size_t i=0;i<pos;i++) if(x.d[i]=='\n'){ l++; c=1; } else c++; }
static void check(Px&x,const S&op){
  size_t len=x.end-x.pos;
  VH_CHECK(M_parser_len(x.p)==len,"parser:length","after %s: len %zu want %zu",op.c_str(),M_parser_len(x.p),len);
  VH_CHECK(M_parser_current_offset(x.p)==x.pos,"parser:offset","after %s: offset %zu want %zu",op.c_str(),M_parser_current_offset(x.p),x.pos);
  const unsigned char*q=M_parser_peek(x.p);
  if(len) VH_CHECK(q&&memcmp(q,x.d.data()+x.pos,len)==0,"parser:content","after %s: remaining %s want %s",op.c_str(),vh_esc(q,std::min<size_t>(len,200)),E(left(x).substr(0,200)));
  size_t l=0,c=0; if(x.track) linecol(x,x.pos,l,c);
  VH_CHECK(M_parser_current_line(x.p)==l&&M_parser_current_column(x.p)==c,"parser:line-column","after %s: %zu:%zu want %zu:%zu (consumed %s)",op.c_str(),M_parser_current_line(x.p),M_parser_current_column(x.p),l,c,E(x.d.substr(0,x.pos)));
  size_t ml=x.mark<0?0:x.pos-(size_t)x.mark;
  VH_CHECK(M_parser_mark_len(x.p)==ml,"parser:mark-length","after %s: mark len %zu want %zu",op.c_str(),M_parser_mark_len(x.p),ml);
  size_t pl=99; const unsigned char*mq=M_parser_peek_mark(x.p,&pl);
  VH_CHECK(pl==ml&&(ml==0||memcmp(mq,x.d.data()+x.mark,ml)==0),"parser:mark-content","after %s: marked data differs",op.c_str());
}
static bool issp(unsigned char c){ return c==' '||(c>=9&&c<=13); }
static M_bool f_alpha(unsigned char c){ return MB((c|32)>='a'&&(c|32)<='z'); }
static M_bool f_low(unsigned char c){ return MB(c<'c'); }
static M_bool f_digit(unsigned char c){ return MB(c>='0'&&c<='9'); }
static M_parser_predicate_func preds[]={f_alpha,f_low,f_digit};
static M_bool g_alpha(char c){ return f_alpha((unsigned char)c); } static M_bool g_low(char c){ return f_low((unsigned char)c);} static M_bool g_digit(char c){ return f_digit((unsigned char)c);}
static M_chr_predicate_func cpreds[]={g_alpha,g_low,g_digit};
static const char *gal="ab\n -0129.|"; static int genk;
static S gen(size_t n){ switch(genk){ case 0: return vh_from("ab",n); case 1: return vh_from("ab\n ",n); case 2: return vh_bytes(n); case 3: return vh_from("-+0123456789abcf.x ",n); case 4: return vh_from("a|b|\n",n); case 5: return vh_from("\x02\x03" "a\x01",n); default: return vh_from(gal,n); } }
static size_t span_until(const S&r,const S&pat,bool eat){ size_t q=r.find(pat); if(q==S::npos) return 0; return q+(eat?pat.size():0); }
static size_t span_bound(const S&r,const S&pat,bool eat,bool&found){ found=false; if(r.empty()) return 0; size_t q=r.find(pat); if(q!=S::npos){ found=true; return q+(eat?pat.size():0);} size_t t=std::min(pat.size()-1,r.size()); while(t&&r.compare(r.size()-t,t,pat,0,t)) t--; return r.size()-t; }
static size_t span_set(const S&r,const S&set,bool in){ size_t i=0; while(i<r.size()&&(set.find(r[i])!=S::npos)==in) i++; return i; }
static size_t span_pred(const S&r,M_parser_predicate_func f,size_t max){ size_t i=0; while(i<r.size()&&i<max&&f((unsigned char)r[i])) i++; return i; }
static S hexu(const S&s){ S o; for(unsigned char c:s){ char b[3]; sprintf(b,"%02X",c); o+=b; } return o; }
static bool hasnul(const S&s){ return s.find('\0')!=S::npos; }

// one reader kind x one destination kind
static void reader(Px&x,S&op){
  S r=left(x); size_t n=0; bool found=false, eat=vh_chance(50); M_bool mf=vh_chance(50)?M_TRUE:M_FALSE;
  int kind=(int)vh_rndn(6), dst=(int)vh_rndn(6); // dst: consume, bytes, str, strdup, buf, parser
  S pat=vh_chance(40)&&!r.empty()?r.substr(vh_rndn(r.size()),1+vh_rndn(4)):gen(1+vh_rndn(4)); if(pat.empty()) pat="a";
  S set=gen(1+vh_rndn(4)); int pi=(int)vh_rndn(3); size_t max=SIZE_MAX; if(vh_chance(50)) max=1+vh_rndn(8);
  bool usemax=max!=SIZE_MAX; bool usechr=vh_chance(50);
  size_t cap=vh_chance(60)?r.size()+5:vh_rndn(6);
  if(dst==1||dst==2) usemax=false,max=SIZE_MAX;
  if((dst==2||dst==3)&&kind<4){ if(hasnul(pat)) pat="b"; if(hasnul(set)) set="ab"; }
  switch(kind){ case 0: n=span_until(r,pat,eat); break; case 1: n=span_bound(r,pat,eat,found); break; case 2: n=span_set(r,set,true); break; case 3: n=span_set(r,set,false); break;
    case 4: n=span_pred(r,preds[pi],max); break; case 5: n=1+vh_rndn(r.size()+3); break; }
  static const char*kn[]={"until","boundary","charset","not_charset","predicate","len"}; static const char*dn[]={"consume","bytes","str","strdup","buf","parser"};
  op=vh_fmt("%s(%s pat=%s set=%s pred=%d max=%zd n=%zu cap=%zu eat=%d)",kn[kind],dn[dst],E(pat),E(set),pi,(ssize_t)max,n,cap,eat);
  Heap hp(pat), hpz(pat,true), hs(set), hsz(set,true); const unsigned char*up=(const unsigned char*)hp.p,*us=(const unsigned char*)hs.p; M_bool e=eat?M_TRUE:M_FALSE;
  size_t got=0; S out; bool hasout=false; M_parser_t*p=x.p;
  if(kind==5){ size_t want=n; bool ok=n<=r.size(); bool partial=vh_chance(50);
    switch(dst){
    case 0: VH_CHECK(M_parser_consume(p,n)==(ok?M_TRUE:M_FALSE),"parser:consume","%s",op.c_str()); if(!ok) want=0; break;
    case 1: { if(partial){ unsigned char*b=(unsigned char*)malloc(cap?cap:1); if(n>cap) want=0; else want=std::min(n,r.size()); got=M_parser_read_bytes_max(p,n,b,cap); out.assign((char*)b,got); hasout=true; free(b); } else { unsigned char*b=(unsigned char*)malloc(n); bool k=vh_chance(30)?M_parser_peek_bytes(p,n,b)&&M_parser_read_bytes(p,n,b):M_parser_read_bytes(p,n,b)==M_TRUE; if(!ok) want=0; got=k?n:0; out.assign((char*)b,got); hasout=true; free(b);} } break;
    case 2: { char*b=(char*)malloc(cap?cap:1); if(partial){ want=cap<=n?0:std::min(n,r.size()); got=M_parser_read_str_max(p,n,b,cap); } else { want=cap>n&&ok?n:0; got=M_parser_read_str(p,n,b,cap)?n:0; } if(got) VH_CHECK(b[got]==0,"parser:terminator","%s",op.c_str()); out.assign(b,got); hasout=true; free(b); } break;
    case 3: { if(!ok) want=0; if(partial){ char*s=M_parser_read_strdup_hex(p,n); VH_CHECK((s!=NULL)==ok,"parser:result","%s hex",op.c_str()); if(s) VH_CHECK(hexu(r.substr(0,n))==s,"parser:span","%s hex got %s",op.c_str(),s); M_free(s); } else { char*s=M_parser_read_strdup(p,n); got=s?n:0; if(s){ out.assign(s,n); VH_CHECK(s[n]==0,"parser:terminator","%s",op.c_str()); } hasout=true; M_free(s);} } break;
    case 4: { M_buf_t*b=M_buf_create(); M_buf_add_str(b,"pre"); int v=(int)vh_rndn(3); S ex="pre"; if(v==0){ want=std::min(n,r.size()); got=M_parser_read_buf_max(p,b,n); VH_CHECK(got==want,"parser:result","%s read_buf_max returned %zu want %zu",op.c_str(),got,want); ex+=r.substr(0,want);} else if(v==1){ M_bool k=M_parser_read_buf_hex(p,b,n); VH_CHECK((k==M_TRUE)==ok,"parser:result","%s",op.c_str()); want=ok?n:0; ex+=hexu(r.substr(0,want)); } else { M_bool k=M_parser_read_buf(p,b,n); VH_CHECK((k==M_TRUE)==ok,"parser:result","%s",op.c_str()); want=ok?n:0; ex+=r.substr(0,want);} VH_CHECK(M_buf_len(b)==ex.size()&&memcmp(M_buf_peek(b),ex.data(),ex.size())==0,"parser:span","%s buf got %s want %s",op.c_str(),vh_esc(M_buf_peek(b),M_buf_len(b)),E(ex)); M_buf_cancel(b); } break;
    case 5: { M_parser_t*s=M_parser_read_parser(p,n); if(!ok) want=0; VH_CHECK((s!=NULL)==ok,"parser:result","%s",op.c_str()); if(s){ VH_CHECK(M_parser_len(s)==n&&memcmp(M_parser_peek(s),r.data(),n)==0,"parser:span","%s",op.c_str()); M_parser_destroy(s);} } break; }
    if(hasout){ VH_CHECK(got==want,"parser:result","%s returned %zu want %zu (remaining %s)",op.c_str(),got,want,E(r)); VH_CHECK(out==r.substr(0,got),"parser:span","%s got %s",op.c_str(),E(out)); }
    x.pos+=want; return; }
  M_bool *fp=vh_chance(80)?&mf:NULL; size_t want=n; M_chr_predicate_func cf=cpreds[pi]; M_parser_predicate_func pf=preds[pi];
  bool strv=!hasnul(pat)&&!hasnul(set)&&vh_chance(50);
  switch(dst){
  case 0: switch(kind){ case 0: got=strv?M_parser_consume_str_until(p,hpz.p,e):M_parser_consume_until(p,up,hp.n,e); break; case 1: got=strv?M_parser_consume_str_boundary(p,hpz.p,e,fp):M_parser_consume_boundary(p,up,hp.n,e,fp); break;
     case 2: got=strv?M_parser_consume_str_charset(p,hsz.p):M_parser_consume_charset(p,us,hs.n); break; case 3: got=strv?M_parser_consume_str_not_charset(p,hsz.p):M_parser_consume_not_charset(p,us,hs.n); break;
     case 4: got=usemax?(usechr?M_parser_consume_chr_predicate_max(p,cf,max):M_parser_consume_predicate_max(p,pf,max)):(usechr?M_parser_consume_chr_predicate(p,cf):M_parser_consume_predicate(p,pf)); break; } break;
  case 1: { unsigned char*b=(unsigned char*)malloc(cap?cap:1); if(kind==4) want=span_pred(r,pf,cap); else if(n>cap) want=0;
     switch(kind){ case 0: got=M_parser_read_bytes_until(p,b,cap,up,hp.n,e); break; case 1: got=M_parser_read_bytes_boundary(p,b,cap,up,hp.n,e,fp); break; case 2: got=M_parser_read_bytes_charset(p,us,hs.n,b,cap); break; case 3: got=M_parser_read_bytes_not_charset(p,us,hs.n,b,cap); break; case 4: got=usechr?M_parser_read_bytes_chr_predicate(p,cf,b,cap):M_parser_read_bytes_predicate(p,pf,b,cap); break; }
     out.assign((char*)b,got); hasout=true; free(b); if(cap==0) fp=NULL; } break;
  case 2: { char*b=(char*)malloc(cap?cap:1); size_t c1=cap?cap-1:0; if(kind==4) want=span_pred(r,pf,c1); else if(n>c1) want=0;
     switch(kind){ case 0: got=M_parser_read_str_until(p,b,cap,hpz.p,e); break; case 1: got=M_parser_read_str_boundary(p,b,cap,hpz.p,e,fp); break; case 2: got=M_parser_read_str_charset(p,hsz.p,b,cap); break; case 3: got=M_parser_read_str_not_charset(p,hsz.p,b,cap); break; case 4: got=usechr?M_parser_read_str_chr_predicate(p,cf,b,cap):M_parser_read_str_predicate(p,pf,b,cap); break; }
     if(got) VH_CHECK(b[got]==0,"parser:terminator","%s",op.c_str()); out.assign(b,got); hasout=true; free(b); if(cap<=1) fp=NULL; } break;
  case 3: { char*s=NULL; switch(kind){ case 0: s=M_parser_read_strdup_until(p,hpz.p,e); break; case 1: s=M_parser_read_strdup_boundary(p,hpz.p,e,fp); break; case 2: s=M_parser_read_strdup_charset(p,hsz.p); break; case 3: s=M_parser_read_strdup_not_charset(p,hsz.p); break;
     case 4: s=usemax?(usechr?M_parser_read_strdup_chr_predicate_max(p,cf,max):M_parser_read_strdup_predicate_max(p,pf,max)):(usechr?M_parser_read_strdup_chr_predicate(p,cf):M_parser_read_strdup_predicate(p,pf)); break; }
     got=s?want:0; if(s){ VH_CHECK(s[want]==0,"parser:terminator","%s",op.c_str()); out.assign(s,want);} hasout=true; M_free(s); } break;
  case 4: { M_buf_t*b=M_buf_create(); M_buf_add_str(b,"pre"); switch(kind){ case 0: got=M_parser_read_buf_until(p,b,up,hp.n,e); break; case 1: got=M_parser_read_buf_boundary(p,b,up,hp.n,e,fp); break; case 2: got=M_parser_read_buf_charset(p,b,us,hs.n); break; case 3: got=M_parser_read_buf_not_charset(p,b,us,hs.n); break;
     case 4: got=usemax?(usechr?M_parser_read_buf_chr_predicate_max(p,b,cf,max):M_parser_read_buf_predicate_max(p,b,pf,max)):(usechr?M_parser_read_buf_chr_predicate(p,b,cf):M_parser_read_buf_predicate(p,b,pf)); break; }
     VH_CHECK(memcmp(M_buf_peek(b),"pre",3)==0,"parser:span","%s destroyed the buffer",op.c_str()); out.assign(M_buf_peek(b)+3,M_buf_len(b)-3); hasout=true; M_buf_cancel(b); } break;
  case 5: { M_parser_t*s=NULL; switch(kind){ case 0: s=M_parser_read_parser_until(p,up,hp.n,e); break; case 1: s=M_parser_read_parser_boundary(p,up,hp.n,e,fp); break; case 2: s=M_parser_read_parser_charset(p,us,hs.n); break; case 3: want=0; fp=NULL; break;
     case 4: s=usemax?(usechr?M_parser_read_parser_chr_predicate_max(p,pf,max):M_parser_read_parser_predicate_max(p,pf,max)):(usechr?M_parser_read_parser_chr_predicate(p,pf):M_parser_read_parser_predicate(p,pf)); break; }
     if(s){ got=M_parser_len(s); out.assign((const char*)M_parser_peek(s),got); M_parser_destroy(s);} hasout=true; } break; }
  VH_CHECK(got==want,"parser:result","%s returned %zu want %zu (remaining %s)",op.c_str(),got,want,E(r));
  if(hasout) VH_CHECK(out==r.substr(0,got),"parser:span","%s got %s from %s",op.c_str(),E(out),E(r));
  if(kind==1&&fp) VH_CHECK((mf==M_TRUE)==found,"parser:found-flag","%s found=%d want %d (remaining %s)",op.c_str(),mf,found,E(r));
  x.pos+=want;
}
static unsigned dval(char c){ if(c>='0'&&c<='9') return (unsigned)(c-'0'); c|=32; if(c>='a'&&c<='z') return (unsigned)(c-'a')+10; return 99; }
static void ints(Px&x,S&op){
  S r=left(x); M_parser_t*p=x.p;
  switch(vh_rndn(4)){
  case 0: { size_t n=vh_rndn(10); bool be=vh_chance(50); bool ok=n>=1&&n<=8&&n<=r.size(); uint64_t v=0; if(ok) for(size_t i=0;i<n;i++) v|=(uint64_t)(unsigned char)r[i]<<(8*(be?n-1-i:i)); M_uint64 u=1; M_int64 s=1; bool sg=vh_chance(50); op=vh_fmt("read_%sint binary(%zu,be=%d)",sg?"":"u",n,be); auto t=be?M_PARSER_INTEGER_BIGENDIAN:M_PARSER_INTEGER_LITTLEENDIAN; M_bool k=sg?M_parser_read_int(p,t,n,0,&s):M_parser_read_uint(p,t,n,0,&u); VH_CHECK((k==M_TRUE)==ok,"parser:binary-int","%s: result %d",op.c_str(),k); if(ok){ VH_CHECK((sg?(uint64_t)s:u)==v,"parser:binary-int","%s: %llx want %llx",op.c_str(),(unsigned long long)(sg?(uint64_t)s:u),(unsigned long long)v); x.pos+=n; } } break;
  case 1: { // ascii, digits then other; model simple forms only
    unsigned base=vh_chance(50)?10:vh_chance(50)?16:2; bool sg=vh_chance(50); size_t i=0; bool neg=false; if(sg&&i<r.size()&&r[i]=='-'){ neg=true; i++; } size_t n0=vh_chance(50)?0:1+vh_rndn(6); if(n0>r.size()) n0=vh_chance(50)?0:n0; size_t lim=n0?std::min(n0,r.size()):r.size(); size_t ds=i; unsigned __int128 v=0; bool big=false; while(i<lim&&dval(r[i])<base){ v=v*base+dval(r[i]); if(v>UINT64_MAX) {big=true; v=UINT64_MAX;} i++; }
    if(i==ds||(!r.empty()&&(issp((unsigned char)r[0])||r[0]=='+'||(r[0]=='-'&&!sg)))||big||v>INT64_MAX) { op="int skip"; break; } if(base==16&&lim>ds+1&&r[ds]=='0'&&(r[ds+1]|32)=='x'){ op="int skip"; break; }
    bool ok=n0<=r.size()&&(n0==0||i==n0); op=vh_fmt("read_%sint ascii(len %zu base %u)",sg?"":"u",n0,base); M_int64 s=7; M_uint64 u=7; M_bool k=sg?M_parser_read_int(p,M_PARSER_INTEGER_ASCII,n0,(unsigned char)base,&s):M_parser_read_uint(p,M_PARSER_INTEGER_ASCII,n0,(unsigned char)base,&u);
    VH_CHECK((k==M_TRUE)==ok,"parser:ascii-int","%s: result %d want %d on %s",op.c_str(),k,ok,E(r)); if(ok){ if(sg) VH_CHECK(s==(neg?-(int64_t)v:(int64_t)v),"parser:ascii-int","%s: %lld on %s",op.c_str(),(long long)s,E(r)); else VH_CHECK(u==(uint64_t)v,"parser:ascii-int","%s: %llu on %s",op.c_str(),(unsigned long long)u,E(r)); x.pos+=i; vh_count("ascii_ints",1); } } break;
  case 2: { size_t n=vh_rndn(11); op=vh_fmt("read_uint_bcd(%zu)",n); bool ok=n>=1&&n<=9&&n<=r.size(); uint64_t v=0; if(ok) for(size_t i=0;i<n;i++){ unsigned c=(unsigned char)r[i]; if((c>>4)>9||(c&15)>9){ op="bcd skip"; return; } v=v*100+(c>>4)*10+(c&15); } else if(n==10) { op="bcd skip"; return; } M_uint64 u=0; M_bool k=M_parser_read_uint_bcd(p,n,&u); VH_CHECK((k==M_TRUE)==ok,"parser:bcd","%s: result %d",op.c_str(),k); if(ok){ VH_CHECK(u==v,"parser:bcd","%s: %llu want %llu",op.c_str(),(unsigned long long)u,(unsigned long long)v); x.pos+=n; } } break;
  default: { unsigned char c=0; op="read_byte"; bool pk=vh_chance(40); M_bool k=pk?M_parser_peek_byte(p,&c):M_parser_read_byte(p,&c); VH_CHECK((k==M_TRUE)==!r.empty(),"parser:byte","%s",op.c_str()); if(k){ VH_CHECK(c==(unsigned char)r[0],"parser:byte","%s: %02x",op.c_str(),c); if(!pk) x.pos++; } } break; }
}
static void trunc(Px&x,S&op){
  S r=left(x); M_parser_t*p=x.p; size_t cut=0,got=0; bool ck=true;
  S pat=gen(1+vh_rndn(3)), set=gen(1+vh_rndn(3)); Heap hp(pat), hs(set); int pi=(int)vh_rndn(3); size_t max=vh_chance(50)?SIZE_MAX:1+vh_rndn(5);
  switch(vh_rndn(5)){
  case 0: { size_t n=vh_rndn(r.size()+2); if(n<r.size()/2) n=r.size(); op=vh_fmt("truncate(%zu)",n); M_bool k=M_parser_truncate(p,n); VH_CHECK((k==M_TRUE)==(n<=r.size()),"parser:truncate","%s result %d",op.c_str(),k); cut=k?r.size()-n:0; ck=false; } break;
  case 1: { unsigned f=(unsigned)vh_rndn(4); size_t e=r.size(); if((f&1)&&e&&r[e-1]=='\n') e--; while(e){ unsigned char c=(unsigned char)r[e-1]; if((f&1)&&c=='\n') break; if((f&2)?c!=' ':!issp(c)) break; e--; } cut=r.size()-e; op=vh_fmt("truncate_whitespace(%u)",f); got=M_parser_truncate_whitespace(p,f); } break;
  case 2: { if(r.find(pat)==S::npos) return; bool eat=vh_chance(50); size_t q=r.rfind(pat); cut=r.size()-q-(eat?0:pat.size()); op="truncate_until"; got=M_parser_truncate_until(p,(unsigned char*)hp.p,hp.n,eat?M_TRUE:M_FALSE); } break;
  case 3: { while(cut<r.size()&&set.find(r[r.size()-1-cut])!=S::npos) cut++; op="truncate_charset"; got=M_parser_truncate_charset(p,(unsigned char*)hs.p,hs.n); } break;
  default: { while(cut<r.size()&&cut<max&&preds[pi]((unsigned char)r[r.size()-1-cut])) cut++; op="truncate_predicate"; bool c=vh_chance(50); got=max==SIZE_MAX?(c?M_parser_truncate_chr_predicate(p,cpreds[pi]):M_parser_truncate_predicate(p,preds[pi])):(c?M_parser_truncate_chr_predicate_max(p,cpreds[pi],max):M_parser_truncate_predicate_max(p,preds[pi],max)); } break; }
  if(ck) VH_CHECK(got==cut,"parser:truncate","%s returned %zu want %zu on %s",op.c_str(),got,cut,E(r));
  x.end-=cut; if(x.dyn) x.d.resize(x.end);
}
static void queries(Px&x,S&op){
  S r=left(x); M_parser_t*p=x.p; op="query";
  switch(vh_rndn(5)){
  case 0: { S d=vh_chance(50)?r.substr(0,vh_rndn(r.size()+1)):gen(1+vh_rndn(3)); if(vh_chance(20)) d+='z'; if(d.empty()) return; Heap h(d); bool w=r.compare(0,d.size(),d)==0; VH_CHECK((M_parser_compare(p,(unsigned char*)h.p,h.n)==M_TRUE)==w,"parser:compare","compare %s with %s",E(d),E(r)); } break;
  case 1: { S d=vh_chance(60)?r.substr(0,vh_chance(50)?r.size():vh_rndn(r.size()+1)):gen(1+vh_rndn(3)); if(hasnul(d)||d.empty()) return; bool cs=vh_chance(50); if(cs&&vh_chance(50)) for(auto&c:d) if(c>='a'&&c<='z') c-=32; size_t max=vh_chance(50)?0:1+vh_rndn(d.size()+2); Heap h(d,true); S dd=max?d.substr(0,max):d; S rr=max?r.substr(0,dd.size()):r; auto low=[](S s){ for(auto&c:s) if(c>='A'&&c<='Z') c+=32; return s; }; bool w=cs?low(dd)==low(rr):dd==rr; if(hasnul(rr)&&max) return; VH_CHECK((M_parser_compare_str(p,h.p,max,cs?M_TRUE:M_FALSE)==M_TRUE)==w,"parser:compare-str","compare_str %s max %zu case %d with %s want %d",E(d),max,cs,E(r),w); } break;
  case 2: { int pi=(int)vh_rndn(3); size_t n=1+vh_rndn(r.size()+2); size_t k=std::min(n,r.size()); if(!k) return; size_t sp=span_pred(r,preds[pi],k); bool w=sp==k; VH_CHECK((M_parser_is_predicate(p,n,preds[pi])==M_TRUE)==w&&(M_parser_is_chr_predicate(p,n,cpreds[pi])==M_TRUE)==w,"parser:is-predicate","n %zu on %s",n,E(r)); } break;
  case 3: { S set=gen(1+vh_rndn(4)); size_t n=1+vh_rndn(r.size()+2); size_t k=std::min(n,r.size()); if(!k) return; bool w=span_set(r,set,true)>=k; Heap h(set); VH_CHECK((M_parser_is_charset(p,n,(unsigned char*)h.p,h.n)==M_TRUE)==w,"parser:is-charset","n %zu set %s on %s",n,E(set),E(r)); } break;
  default: break; }
}
static void splits(Px&x,S&op){
  S r=left(x); M_parser_t*p=x.p; S pat=vh_chance(60)?vh_from("|ab\n",1):vh_from("|ab",1+vh_rndn(2)); size_t max=vh_chance(50)?0:1+vh_rndn(4); unsigned f=(unsigned)vh_rndn(4); size_t num=77;
  op=vh_fmt("split(%s,max %zu,flags %u)",E(pat),max,f);
  VS w; size_t q=0; std::vector<size_t> st; st.push_back(0); for(;;){ size_t e=(max&&w.size()+1==max)?S::npos:r.find(pat,q); if(e==S::npos){ w.push_back(r.substr(q)); break; } w.push_back(r.substr(q,e-q)); q=e+pat.size(); st.push_back(q); }
  bool nodelim=w.size()==1&&(max==1?true:r.find(pat)==S::npos);
  if(max==1&&(f&1)&&r.find(pat)!=S::npos){ op="split skip"; return; }
  if(!(f&2)&&w.back().empty()) w.pop_back();
  M_parser_t**v=pat.size()==1&&vh_chance(50)?M_parser_split(p,(unsigned char)pat[0],max,f,&num):vh_chance(50)?M_parser_split_str_pat(p,pat.c_str(),max,f,&num):M_parser_split_pat(p,(const unsigned char*)pat.data(),pat.size(),max,f,&num);
  if(nodelim&&(f&1)){ VH_CHECK(v==NULL&&num==0,"parser:split","%s of %s: expected error",op.c_str(),E(r)); return; }
  VH_CHECK(v&&num==w.size(),"parser:split","%s of %s: %zu sections want %zu",op.c_str(),E(r),num,w.size());
  for(size_t i=0;i<num;i++){ VH_CHECK(M_parser_len(v[i])==w[i].size()&&(w[i].empty()||memcmp(M_parser_peek(v[i]),w[i].data(),w[i].size())==0),"parser:split","%s of %s: section %zu",op.c_str(),E(r),i);
    if(x.track&&!w[i].empty()){ size_t l,c; linecol(x,x.pos+st[i],l,c); VH_CHECK(M_parser_current_line(v[i])==l&&M_parser_current_column(v[i])==c,"parser:split-line","%s section %zu at %zu:%zu want %zu:%zu",op.c_str(),i,M_parser_current_line(v[i]),M_parser_current_column(v[i]),l,c); } }
  M_parser_split_free(v,num); x.pos=x.end; vh_count("splits",1);
}
static void frames(Px&x,S&op){
  S r=left(x); unsigned f=(unsigned)vh_rndn(4); M_parser_t*o=NULL; op="stxetxlrc"; auto k=M_parser_read_stxetxlrc_message(x.p,&o,f); M_PARSER_FRAME_ERROR w; size_t q=r.find('\x03'),adv=0; S body;
  if(r.size()<4) w=M_PARSER_FRAME_ERROR_INVALID; else if(r[0]!=2) w=M_PARSER_FRAME_ERROR_NO_STX; else if(q==S::npos) w=M_PARSER_FRAME_ERROR_NO_ETX; else if(q+1==r.size()) w=M_PARSER_FRAME_ERROR_NO_LRC; else { adv=q+2; body=r.substr(1,q-1); unsigned char l=0; for(char c:body) l^=(unsigned char)c; if(f&1) l^=2; if(f&2) l^=3; w=l==(unsigned char)r[q+1]?M_PARSER_FRAME_ERROR_SUCCESS:M_PARSER_FRAME_ERROR_LRC_CALC_FAILED; }
  VH_CHECK(k==w,"parser:frame","%s flags %u of %s: %d want %d",op.c_str(),f,E(r),k,w); if(adv) { VH_CHECK(o&&M_parser_len(o)==body.size()&&(body.empty()||memcmp(M_parser_peek(o),body.data(),body.size())==0),"parser:frame","payload of %s",E(r)); vh_count("frames",1);} M_parser_destroy(o); x.pos+=adv;
}
static void step(Px&x,S&op){
  S r=left(x); M_parser_t*p=x.p;
  switch(vh_rndn(20)){
  case 0: case 1: case 2: case 3: case 4: case 5: case 6: reader(x,op); break;
  case 7: case 8: ints(x,op); break;
  case 9: if(vh_chance(50)) trunc(x,op); break;
  case 10: queries(x,op); break;
  case 11: if(vh_chance(30)) splits(x,op); else { unsigned f=(unsigned)vh_rndn(4); size_t i=0; for(;i<r.size();i++){ if((f&1)&&r[i]=='\n'){ i++; break; } if((f&2)?r[i]!=' ':!issp((unsigned char)r[i])) break; } op=vh_fmt("consume_whitespace(%u)",f); size_t g=M_parser_consume_whitespace(p,f); VH_CHECK(g==i,"parser:result","%s returned %zu want %zu on %s",op.c_str(),g,i,E(r)); x.pos+=i; } break;
  case 12: { size_t q=r.find('\n'); size_t n=q==S::npos?r.size():q+1; op="consume_eol"; size_t g=M_parser_consume_eol(p); VH_CHECK(g==n,"parser:result","%s returned %zu want %zu",op.c_str(),g,n); x.pos+=n; } break;
  case 13: op="mark"; M_parser_mark(p); x.mark=(long)x.pos; break;
  case 14: { op="mark_rewind"; size_t g=M_parser_mark_rewind(p); size_t w=x.mark<0?0:x.pos-(size_t)x.mark; VH_CHECK(g==w,"parser:rewind","rewound %zu want %zu",g,w); x.pos-=w; x.mark=-1; if(w) vh_count("rewinds",1); } break;
  case 15: if(vh_chance(30)){ op="mark_clear"; M_parser_mark_clear(p); x.mark=-1; } else { size_t ml=x.mark<0?0:x.pos-(size_t)x.mark; S m=ml?x.d.substr((size_t)x.mark,ml):S(); size_t cap=vh_chance(60)?ml+3:vh_rndn(ml+2); int v=(int)vh_rndn(5); op=vh_fmt("read_mark(%d,cap %zu,marked %zu)",v,cap,ml); S o; size_t g=0,w=ml; bool clr=ml>0;
      if(v==0){ unsigned char*b=(unsigned char*)malloc(cap?cap:1); g=M_parser_read_bytes_mark(p,b,cap); o.assign((char*)b,g); free(b); if(ml>cap||!cap) w=0,clr=false; }
      else if(v==1){ char*b=(char*)malloc(cap?cap:1); g=M_parser_read_str_mark(p,b,cap); o.assign(b,g); if(cap) VH_CHECK(b[g]==0,"parser:terminator","%s",op.c_str()); free(b); if(cap<2||ml>cap-1) w=0,clr=false; }
      else if(v==2){ char*s=M_parser_read_strdup_mark(p); if(s){ g=ml; o.assign(s,ml);} M_free(s); }
      else if(v==3){ M_buf_t*b=M_buf_create(); g=M_parser_read_buf_mark(p,b); o.assign(M_buf_len(b)?M_buf_peek(b):"",M_buf_len(b)); M_buf_cancel(b); }
      else { M_parser_t*s=M_parser_read_parser_mark(p); clr=true; if(s){ g=M_parser_len(s); o.assign((const char*)M_parser_peek(s),g); M_parser_destroy(s);} }
      VH_CHECK(g==w&&o==m.substr(0,w),"parser:mark-read","%s got %zu %s want %s",op.c_str(),g,E(o),E(m)); if(clr) x.mark=-1; } break;
  case 16: case 17: if(!x.dyn){ S y="zz"; op="append const"; VH_CHECK(M_parser_append(p,(const unsigned char*)y.data(),2)==M_FALSE,"parser:append","append to const parser accepted"); break; }
     { S y=gen(vh_chance(10)?vh_rndn(3000):vh_rndn(40)); op=vh_fmt("append(%zu)",y.size()); if(vh_chance(60)){ Heap h(y); VH_CHECK(M_parser_append(p,(unsigned char*)h.p,h.n)==M_TRUE,"parser:append","append refused"); } else if(!y.empty()){ size_t n=y.size(); unsigned char*b=M_parser_direct_write_start(p,&n); VH_CHECK(b&&n>=y.size(),"parser:direct-space","asked %zu got %zu",y.size(),n); size_t use=vh_rndn(y.size()+1); y.resize(use); memcpy(b,y.data(),use); M_parser_direct_write_end(p,use); } x.d.resize(x.end); x.d+=y; x.end=x.d.size(); vh_count("appends",1); } break;
  case 18: if(x.dyn){ op="reset dyn"; if(x.pos==0) break; VH_CHECK(M_parser_reset(p)==0,"parser:reset","reset of a dynamic parser"); } else if(vh_chance(30)){ op="reset"; size_t g=M_parser_reset(p); VH_CHECK(g==x.pos,"parser:reset","reset returned %zu want %zu",g,x.pos); if(x.mark>0&&x.pos) x.mark=-1; x.pos=0; } break;
  default: frames(x,op); break; }
}
static void run_ops(void){
  genk=(int)vh_rndn(7); Px x; x.dyn=vh_chance(60); x.track=vh_chance(70); x.pos=0; x.mark=-1; x.l0=x.c0=x.track?1:0; x.d=gen(vh_chance(10)?vh_rndn(4000):vh_rndn(200)); x.end=x.d.size();
  if(genk==5&&vh_chance(70)){ S f; for(int i=0;i<5;i++){ S b=vh_ascii(vh_rndn(6)); unsigned char l=0; for(char c:b) l^=(unsigned char)c; if(vh_chance(50)) l^=3; f+="\x02"+b+"\x03"+S(1,(char)l); } x.d=f+x.d; x.end=x.d.size(); }
  Heap h(x.d); unsigned fl=x.track?M_PARSER_FLAG_TRACKLINES:0; S op="create"; uint64_t hs=vh_hash(x.d.data(),x.d.size(),x.dyn);
  if(x.dyn){ x.p=M_parser_create(fl); if(!x.d.empty()) M_parser_append(x.p,(unsigned char*)h.p,h.n); } else x.p=M_parser_create_const((unsigned char*)h.p,h.n,fl);
  check(x,op); int n=15+(int)vh_rndn(30); S hist;
  for(int i=0;i<n;i++){ op="-"; step(x,op); vh_count("ops",1); hist+=op+"; "; hs=vh_hstr(op.c_str(),hs); check(x,op); }
  vh_sample("%s",hist.substr(0,400).c_str()); M_parser_destroy(x.p); vh_distinct(hs);
}
const vh_mode_t vh_modes[]={ {"ops",run_ops}, {0} };
