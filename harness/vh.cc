#include "vh.h"
#include <time.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>

int vh_tier; uint64_t vh_seed=1, vh_case; const char *vh_mode;
static uint64_t S[4];
struct VhStop{}; static int JB_ok; static pthread_t JB_thr;
static int out_fd=1, log_fd=-1; static FILE *logfp;
static volatile uint64_t *prog;
static uint64_t nviol; static int nsample; static uint64_t case_samples;
static pthread_mutex_t mx=PTHREAD_MUTEX_INITIALIZER;
static uint64_t *hs; static size_t hs_cap, hs_n; static uint64_t distinct_calls;

static uint64_t sm(uint64_t *x){ uint64_t z=(*x+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
static inline uint64_t rl(uint64_t x,int k){return (x<<k)|(x>>(64-k));}
uint64_t vh_rnd(void){ uint64_t r=rl(S[1]*5,7)*9,t=S[1]<<17; S[2]^=S[0];S[3]^=S[1];S[1]^=S[2];S[0]^=S[3];S[2]^=t;S[3]=rl(S[3],45); return r; }
uint64_t vh_rndn(uint64_t n){ return n?vh_rnd()%n:0; }
int64_t vh_range(int64_t lo,int64_t hi){ return (int64_t)((uint64_t)lo+vh_rndn((uint64_t)hi-(uint64_t)lo+1)); }
int vh_chance(int p){ return (int)(vh_rnd()%100)<p; }
uint64_t vh_hash(const void *p,size_t n,uint64_t h){ const unsigned char *c=(const unsigned char*)p; h^=0xcbf29ce484222325ULL; for(size_t i=0;i<n;i++){h^=c[i];h*=0x100000001b3ULL;} h^=h>>29; h*=0xBF58476D1CE4E5B9ULL; h^=h>>32; return h; }

static void hs_add(uint64_t h){ if(h==0)h=1; if((hs_n+1)*2>hs_cap){ size_t oc=hs_cap; uint64_t*o=hs; hs_cap=oc?oc*2:4096; hs=(uint64_t*)calloc(hs_cap,8); hs_n=0; for(size_t i=0;i<oc;i++) if(o[i]) { size_t j=o[i]&(hs_cap-1); while(hs[j]) j=(j+1)&(hs_cap-1); hs[j]=o[i]; hs_n++; } free(o);} size_t j=h&(hs_cap-1); while(hs[j]){ if(hs[j]==h) return; j=(j+1)&(hs_cap-1);} hs[j]=h; hs_n++; }
void vh_distinct(uint64_t h){ pthread_mutex_lock(&mx); distinct_calls++; if(hs_n<4000000) hs_add(h); pthread_mutex_unlock(&mx); }

#define NC 512
static struct { const char *n; uint64_t v; int ismax; } C[NC]; static int nc;
static void cnt(const char *name,uint64_t n,int ismax){ pthread_mutex_lock(&mx); int i; for(i=0;i<nc;i++) if(!strcmp(C[i].n,name)) break; if(i==nc && nc<NC){ C[nc].n=strdup(name); C[nc].ismax=ismax; nc++; } if(i<NC){ if(ismax){ if(n>C[i].v) C[i].v=n; } else C[i].v+=n; } pthread_mutex_unlock(&mx); }
void vh_count(const char *name,uint64_t n){cnt(name,n,0);} void vh_max(const char *name,uint64_t v){cnt(name,v,1);}

static void jstr(FILE *f,const char *s){ fputc('"',f); for(;*s;s++){ unsigned char c=(unsigned char)*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c<32||c>=127) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }
static void emit(const char *type,const char *key,const char *msg){ char *b=NULL; size_t n=0; FILE *f=open_memstream(&b,&n); fprintf(f,"{\"t\":\"%s\",\"case\":%llu,\"key\":",type,(unsigned long long)vh_case); jstr(f,key); fprintf(f,",\"msg\":"); jstr(f,msg); fprintf(f,"}\n"); fclose(f); ssize_t w=write(out_fd,b,n); (void)w; free(b); }
static void vviol(const char *key,const char *fmt,va_list ap){ char b[8192]; vsnprintf(b,sizeof b,fmt,ap); pthread_mutex_lock(&mx); nviol++; if(nviol<=400) emit("viol",key,b); pthread_mutex_unlock(&mx); }
void vh_viol(const char *key,const char *fmt,...){ va_list ap; va_start(ap,fmt); vviol(key,fmt,ap); va_end(ap); }
void vh_fail(const char *key,const char *fmt,...){ va_list ap; va_start(ap,fmt); vviol(key,fmt,ap); va_end(ap); if(JB_ok && pthread_equal(JB_thr,pthread_self())) throw VhStop(); abort(); }
void vh_known(const char *key,const char *fmt,...){ static const char *K[64]; static int nk; char b[4096]; int i; cnt(key,1,0); pthread_mutex_lock(&mx); for(i=0;i<nk;i++) if(!strcmp(K[i],key)) break; if(i==nk && nk<64){ K[nk++]=strdup(key); va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); emit("viol",key,b); } pthread_mutex_unlock(&mx); }
void vh_skip_case(void){ throw VhStop(); }
void vh_inconclusive(const char *why){ pthread_mutex_lock(&mx); emit("inconclusive",why,""); pthread_mutex_unlock(&mx); }
void vh_sample(const char *fmt,...){ if(nsample>=4 || case_samples==vh_case+1) return; nsample++; case_samples=vh_case+1; char b[2048]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); pthread_mutex_lock(&mx); emit("sample","",b); pthread_mutex_unlock(&mx); }
void vh_log(const char *fmt,...){ if(!logfp) return; va_list ap; va_start(ap,fmt); vfprintf(logfp,fmt,ap); va_end(ap); fputc('\n',logfp); }
void vh_log_raw(const void *p,size_t n){ if(logfp) fwrite(p,1,n,logfp); }
const char *vh_esc(const void *p,size_t n){ static char R[4][6000]; static int k; char *o=R[k=(k+1)&3],*q=o; const unsigned char*c=(const unsigned char*)p; if(!p) return "(null)"; for(size_t i=0;i<n;i++){ if(q-o>5900){ strcpy(q,"..."); return o;} if(c[i]=='\\'){*q++='\\';*q++='\\';} else if(c[i]>=32&&c[i]<127)*q++=(char)c[i]; else q+=sprintf(q,"\\x%02x",c[i]); } *q=0; return o; }
const char *vh_hexs(const void *p,size_t n){ static char R[4][8200]; static int k; char *o=R[k=(k+1)&3],*q=o; const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n&&i<4096;i++) q+=sprintf(q,"%02x",c[i]); *q=0; return o; }
uint64_t vh_now_us(void){ struct timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return (uint64_t)ts.tv_sec*1000000ULL+(uint64_t)ts.tv_nsec/1000; }
char *vh_tmpdir(void){ return getenv("VH_TMP"); }
extern "C" int __lsan_is_turned_off(void);
extern "C" int __lsan_is_turned_off(void){ return nviol>0; }

int main(int argc,char **argv){
  uint64_t lo=0,hi=1; const char*m=NULL;
  for(int i=1;i+1<argc;i+=2){ if(!strcmp(argv[i],"--mode")) m=argv[i+1]; else if(!strcmp(argv[i],"--seed")) vh_seed=strtoull(argv[i+1],0,10); else if(!strcmp(argv[i],"--lo")) lo=strtoull(argv[i+1],0,10); else if(!strcmp(argv[i],"--hi")) hi=strtoull(argv[i+1],0,10); else if(!strcmp(argv[i],"--tier")) vh_tier=!strcmp(argv[i+1],"thorough"); }
  const char *o=getenv("VH_OUT"); if(o) out_fd=open(o,O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC,0644);
  o=getenv("VH_LOG"); if(o){ logfp=fopen(o,"ae"); setvbuf(logfp,NULL,_IOFBF,1<<16);} 
  o=getenv("VH_PROG"); if(o){ int fd=open(o,O_RDWR|O_CREAT|O_CLOEXEC,0644); if(ftruncate(fd,8)){} prog=(volatile uint64_t*)mmap(0,8,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);} 
  const vh_mode_t *md=vh_modes; while(md->name && (!m||strcmp(md->name,m))) md++; if(!md->name){ fprintf(stderr,"no mode %s\n",m?m:"?"); return 99; }
  vh_mode=md->name; JB_thr=pthread_self();
  if(md->setup) md->setup();
  for(vh_case=lo; vh_case<hi; vh_case++){
    if(prog) *prog=vh_case;
    uint64_t x=vh_hu(vh_case,vh_hu(vh_seed,vh_hstr(vh_mode,7))); for(int i=0;i<4;i++) S[i]=sm(&x);
    JB_ok=1; try { md->fn(); } catch(VhStop&) {} JB_ok=0;
    if(logfp) fflush(logfp);
  }
  if(prog) *prog=UINT64_MAX;
  if(md->teardown) md->teardown();
  if(logfp) fclose(logfp);
  o=getenv("VH_HASH"); if(o){ FILE*f=fopen(o,"ae"); for(size_t i=0;i<hs_cap;i++) if(hs[i]) fwrite(&hs[i],8,1,f); fclose(f);} 
  char *b=NULL; size_t n=0; FILE *f=open_memstream(&b,&n); fprintf(f,"{\"t\":\"done\",\"cases\":%llu,\"nontrivial\":%llu,\"viol\":%llu,\"counters\":{",(unsigned long long)(hi-lo),(unsigned long long)distinct_calls,(unsigned long long)nviol);
  for(int i=0;i<nc;i++){ fprintf(f,"%s",i?",":""); jstr(f,C[i].n); fprintf(f,":[%llu,%d]",(unsigned long long)C[i].v,C[i].ismax);} fprintf(f,"}}\n"); fclose(f); ssize_t w=write(out_fd,b,n); (void)w; free(b); free(hs); hs=NULL;
  return 0; }
