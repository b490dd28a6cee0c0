#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

#define MAXCH 4096
#define NOTESZ 16384
#define MSGSZ 2048
#define SIGSZ 256
#define MAXVIOL 48
#define MAXSITE 512
#define SETSZ (1u<<22)
#define MAXW 64

typedef struct { int n; int c[MAXCH]; int a[MAXCH]; } vec;
typedef struct {
    char sig[SIGSZ]; char msg[MSGSZ]; char note[NOTESZ]; vec v; long count;
    vec start; long start_shard; int start_fresh; int worker; int crash;
} viol;
typedef struct {
    vec cur; vec start; long start_shard; int start_fresh;
    long shardcount; int shard_here;
    int done; int inexec;
    long execs, steps, skipped, cmps;
    char note[NOTESZ]; size_t notelen; char key[SIGSZ];
    char crash[MSGSZ]; char lastsite[64];
    int nviol; viol v[MAXVIOL];
    int nsite; struct { char name[64]; long n; double maxr; } site[MAXSITE];
    int nsample; char sample[3][2048];
    int diverged; char divmsg[256]; int deadline_hit;
    uint32_t nset; int setfull; uint64_t set[SETSZ];
} wsh;

static wsh *W[MAXW]; static wsh *me;
static int nworkers = 8, wid;
static jmp_buf env; static int pos, chg;
static unsigned rnd; int mc_thorough; const char *mc_scratch = "/tmp";
int (*mc_rand_hook)(void);
static int hang_s = 30; static double deadline;
static int first; static volatile int *stopall;   /* --first: end at the first violation, unconfirmed (mutation runs) */
static int replaying, debug;
static const mc_driver *curdrv;
enum { R_DONE = 0, R_FAIL = 1, R_SKIP = 2, R_NOTMINE = 3, R_DIV = 4 };

static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

/* ---- seams ---- */
int rand(void){ if (mc_rand_hook) return mc_rand_hook(); rnd = rnd*1103515245u+12345u; return (int)((rnd>>1) & 0x7fffffff); }
void srand(unsigned s){ rnd = s*2654435761u+1u; }
void mc_srand(unsigned s){ srand(s); }
void __assert_fail(const char *e,const char *f,unsigned l,const char *fn)
{
    if (me){ snprintf(me->crash,MSGSZ,"assert(%s) failed at %s:%u (%s)",e,f,l,fn); }
    if (debug) fprintf(stderr,"assert(%s) failed at %s:%u (%s)\n",e,f,l,fn);
    signal(SIGABRT,SIG_DFL); abort();
}
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void asan_cb(const char *r){ if (me){ snprintf(me->crash,MSGSZ,"%s",r); } }

/* ---- API ---- */
int mc_choose(int n, const char *label)
{
    if (n <= 0) { fprintf(stderr,"mc_choose(%d) %s\n",n,label?label:""); _exit(99); }
    vec *v = &me->cur;
    if (pos >= MAXCH) { fprintf(stderr,"choice depth\n"); _exit(99); }
    if (pos < v->n){
        if (v->a[pos] != n && !(replaying && v->a[pos]==0)){
            me->diverged = 1; snprintf(me->divmsg,sizeof me->divmsg,"arity %d vs %d at %d (%s)",v->a[pos],n,pos,label?label:"");
            longjmp(env,R_DIV);
        }
        v->a[pos] = n;
        if (v->c[pos] >= n){ me->diverged=1; snprintf(me->divmsg,sizeof me->divmsg,"choice out of range at %d",pos); longjmp(env,R_DIV); }
    } else { v->a[pos]=n; v->c[pos]=0; v->n=pos+1; }
    return v->c[pos++];
}
void mc_shard(void)
{
    if (replaying || !curdrv->sharded) return;
    if (me->shard_here) { fprintf(stderr,"mc_shard twice\n"); _exit(99); }
    me->shard_here = 1;
    if (chg < pos || pos==0) me->shardcount++;
    if (me->shardcount % nworkers != wid) longjmp(env,R_NOTMINE);
}
void mc_skip(void){ longjmp(env,R_SKIP); }
void mc_step(void){ me->steps++; }
void mc_steps(long n){ me->steps += n; }
void mc_state(uint64_t h)
{
    if (!h) h=1;
    uint32_t i = (uint32_t)(h ^ (h>>32)) & (SETSZ-1);
    while (me->set[i]){ if (me->set[i]==h) return; i=(i+1)&(SETSZ-1); }
    if (me->nset > SETSZ/10*9){ me->setfull=1; return; }
    me->set[i]=h; me->nset++;
}
void mc_note(const char *fmt, ...)
{
    va_list ap; va_start(ap,fmt);
    size_t r = NOTESZ - me->notelen;
    if (r > 1){ int k = vsnprintf(me->note+me->notelen,r,fmt,ap); if (k>0) me->notelen += ((size_t)k<r-1?(size_t)k:r-1); }
    va_end(ap);
}
void mc_key(const char *fmt, ...){ va_list ap; va_start(ap,fmt); vsnprintf(me->key,SIGSZ/2,fmt,ap); va_end(ap); }
static void addviol(wsh *w,const char *sig,const char *msg,int crash)
{
    for (int i=0;i<w->nviol;i++) if (!strcmp(w->v[i].sig,sig)){ w->v[i].count++; return; }
    if (w->nviol>=MAXVIOL) return;
    viol *v = &w->v[w->nviol];
    snprintf(v->sig,SIGSZ,"%s",sig); snprintf(v->msg,MSGSZ,"%s",msg);
    memcpy(v->note,w->note,NOTESZ); v->note[NOTESZ-1]=0; v->v = w->cur; v->count=1;
    v->start=w->start; v->start_shard=w->start_shard; v->start_fresh=w->start_fresh; v->crash=crash;
    w->nviol++;
}
static void mksig(char *o,const char *site){ snprintf(o,SIGSZ,"%s/%s%s%s",curdrv->name,site,me->key[0]?":":"",me->key); }
void mc_fail(const char *site, const char *fmt, ...)
{
    char msg[MSGSZ], sig[SIGSZ]; va_list ap; va_start(ap,fmt); vsnprintf(msg,MSGSZ,fmt,ap); va_end(ap);
    mksig(sig,site);
    me->cur.n = pos;            /* drop stale suffix */
    addviol(me,sig,msg,0);
    longjmp(env,R_FAIL);
}
static int sidx(const char *site)
{
    for (int i=0;i<me->nsite;i++) if (!strcmp(me->site[i].name,site)) return i;
    if (me->nsite>=MAXSITE) return MAXSITE-1;
    snprintf(me->site[me->nsite].name,64,"%s",site); return me->nsite++;
}
static const char *lsite; static int lsi;
void mc_cmp(const char *site, double got, double want, double tol)
{
    int i; if (lsite==site) i=lsi; else { i=sidx(site); lsite=site; lsi=i; }
    me->site[i].n++; me->cmps++;
    double e = fabs(got-want);
    if (!(e <= tol)) { if (got==want) return; mc_fail(site,"got %.17g want %.17g (tol %.3g)",got,want,tol); }
    double r = tol>0? e/tol : 0;
    if (r > me->site[i].maxr) me->site[i].maxr = r;
}
void mc_expect(const char *site, int cond, const char *fmt, ...)
{
    int i; if (lsite==site) i=lsi; else { i=sidx(site); lsite=site; lsi=i; }
    me->site[i].n++; me->cmps++;
    if (cond) return;
    char msg[MSGSZ]; va_list ap; va_start(ap,fmt); vsnprintf(msg,MSGSZ,fmt,ap); va_end(ap);
    mc_fail(site,"%s",msg);
}
uint64_t mc_h0(void){ return 1469598103934665603ull; }
uint64_t mc_hu(uint64_t h, uint64_t v){ h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>33; return h; }
uint64_t mc_hd(uint64_t h, double v)
{
    if (isnan(v)) return mc_hu(h,0x7ff8);
    if (fabs(v) < 1e-9) v = 0;
    int e; double m = frexp(v,&e); long long q = llround(m*(1<<22));
    if (q == (1<<22) || q == -(1<<22)) { q/=2; e++; }
    if (v==0) e=0;
    return mc_hu(mc_hu(h,(uint64_t)q),(uint64_t)(int64_t)e);
}
uint64_t mc_hda(uint64_t h, size_t n, const double *v){ for (size_t i=0;i<n;i++) h=mc_hd(h,v[i]); return mc_hu(h,n); }
uint64_t mc_hb(uint64_t h, const void *p, size_t n){ const unsigned char *c=p; for(size_t i=0;i<n;i++) h=mc_hu(h,c[i]); return mc_hu(h,n); }

/* ---- running ---- */
static void arm(int s){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=s; setitimer(ITIMER_PROF,&t,0); }
static int run_once(void)
{
    pos=0; me->shard_here=0; me->notelen=0; me->note[0]=0; me->key[0]=0; me->crash[0]=0; lsite=0;
    mc_rand_hook=0; srand(1); arm(hang_s);
    int r = setjmp(env);
    if (r==0){ me->inexec=1; curdrv->body(); r=R_DONE; }
    me->inexec=0;
    return r;
}
static int backtrack(void)
{
    vec *v=&me->cur; int n=v->n;
    while (n>0 && v->c[n-1]+1>=v->a[n-1]) n--;
    if (n==0) return 0;
    v->c[n-1]++; v->n=n; chg=n-1; return 1;
}
static char scratch[256];
static void enter_scratch(int w)
{
    static char p[300]; snprintf(p,sizeof p,"%s/w%d",scratch,w); mkdir(p,0700); if (chdir(p)) {} mc_scratch=p;
}
static void quiet(void)
{
    if (debug) return;
    int fd=open("/dev/null",O_RDWR); dup2(fd,1); dup2(fd,2);
}
static void worker(int w, int skipfirst)
{
    wid=w; me=W[w]; quiet(); enter_scratch(w);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
    me->start=me->cur; me->start_shard=me->shardcount; me->start_fresh=!skipfirst;
    chg=0;
    if (skipfirst && !backtrack()) { me->done=1; _exit(0); }
    for (;;){
        int r = run_once();
        if (r==R_DIV) { _exit(98); }
        if (r==R_DONE||r==R_FAIL) { me->execs++;
            if (w==0 && me->nsample<3 && (me->execs==1||me->execs==7||me->execs==57))
                snprintf(me->sample[me->nsample++],2048,"%s",me->note); }
        if (r==R_SKIP) me->skipped++;
        me->cur.n = pos < me->cur.n ? pos : me->cur.n;
        if (first && me->nviol) *stopall=1;
        if (me->nviol>=MAXVIOL || *stopall){ me->done=1; _exit(0); }
        if (!backtrack()) break;
        if (now()>deadline){ me->deadline_hit=1; break; }
    }
    arm(0); me->done=1; _exit(0);
}
static void crashmsg(wsh *w,int st,char *out,char *site)
{
    if (WIFSIGNALED(st)){
        int s=WTERMSIG(st);
        if (s==SIGPROF){ snprintf(out,MSGSZ,"no termination within the CPU limit"); strcpy(site,"hang"); }
        else if (s==SIGABRT && w->crash[0]) { snprintf(out,MSGSZ,"%.2000s",w->crash); strcpy(site,"crash"); }
        else { snprintf(out,MSGSZ,"killed by signal %d %.1500s",s,w->crash); strcpy(site,"crash"); }
    } else if (WEXITSTATUS(st)==77) { snprintf(out,MSGSZ,"memory error: %.1900s",w->crash); strcpy(site,"crash"); }
    else { snprintf(out,MSGSZ,"the library ended the process, exit status %d",WEXITSTATUS(st)); strcpy(site,"crash"); }
}
/* replay v in a fresh process; returns 1 if signature `sig` recurs. mode 0: alone; mode 1: from the start of the worker's history */
static wsh *R;
static int replay_child(const mc_driver *d, viol *v, int mode, int limit, char *msgout, char *sigout)
{
    memset(R,0,offsetof(wsh,set)); memset(R->set,0,sizeof R->set);
    fflush(0);
    pid_t p=fork();
    if (p==0){
        me=R; curdrv=d; quiet(); enter_scratch(63); hang_s=limit;
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
        if (mode==0){
            replaying=1; me->cur=v->v; run_once(); me->done=1; _exit(0);
        }
        wid=v->worker; me->cur=v->start; me->shardcount=v->start_shard; chg=0;
        if (!v->start_fresh && !backtrack()) _exit(0);
        for(;;){
            int r=run_once(); if (r==R_DIV) _exit(98);
            for (int i=0;i<me->nviol;i++) if (!strcmp(me->v[i].sig,v->sig)){ me->done=1; _exit(0); }
            me->cur.n = pos < me->cur.n ? pos : me->cur.n;
            if (!backtrack()) break;
        }
        me->done=1; _exit(0);
    }
    int st; waitpid(p,&st,0);
    if (!R->done && !R->diverged && R->inexec){
        char m[MSGSZ], site[16], sig[SIGSZ]; crashmsg(R,st,m,site); me=R; curdrv=d; mksig(sig,site); me=0; addviol(R,sig,m,1);
    }
    int hit=0;
    for (int i=0;i<R->nviol;i++){
        if (!strcmp(R->v[i].sig,v->sig)) hit=1;
        if (msgout) snprintf(msgout,MSGSZ,"%s",R->v[i].msg);
        if (sigout) snprintf(sigout,SIGSZ,"%s",R->v[i].sig);
    }
    return hit;
}
static void jstr(FILE *f,const char *s)
{
    fputc('"',f);
    for (;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c=='\n') fputs("\\n",f); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f); }
    fputc('"',f);
}
static int cmpu(const void*a,const void*b){ uint64_t x=*(uint64_t*)a,y=*(uint64_t*)b; return x<y?-1:x>y; }

int main(int argc,char **argv)
{
    const char *out=0,*rep=0,*only=0,*repdir="."; double budget=780;
    for (int i=1;i<argc;i++){
        if (!strcmp(argv[i],"--thorough")) mc_thorough=1;
        else if (!strcmp(argv[i],"--out")) out=argv[++i];
        else if (!strcmp(argv[i],"--workers")) nworkers=atoi(argv[++i]);
        else if (!strcmp(argv[i],"--replay")) rep=argv[++i];
        else if (!strcmp(argv[i],"--repdir")) repdir=argv[++i];
        else if (!strcmp(argv[i],"--driver")) only=argv[++i];
        else if (!strcmp(argv[i],"--budget")) budget=atof(argv[++i]);
        else if (!strcmp(argv[i],"--hang")) hang_s=atoi(argv[++i]);
        else if (!strcmp(argv[i],"--first")) first=1;
        else if (!strcmp(argv[i],"--debug")) debug=1;
        else { fprintf(stderr,"bad arg %s\n",argv[i]); return 2; }
    }
    if (nworkers>60) nworkers=60;
    if (nworkers<1) nworkers=1;
    const char *td=getenv("TMPDIR"); if (!td) td="/tmp";
    snprintf(scratch,sizeof scratch,"%s/mc.XXXXXX",td); if (!mkdtemp(scratch)) { perror("mkdtemp"); return 2; }
    R=mmap(0,sizeof(wsh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    char rmcmd[400]; snprintf(rmcmd,sizeof rmcmd,"rm -rf '%s'",scratch);
    int dbg0=debug;
    if (rep){
        FILE *f=fopen(rep,"r"); if(!f){perror(rep);return 2;}
        static viol v; char drv[128]=""; char line[65536]; int mode=0;
        while (fgets(line,sizeof line,f)){
            if (!strncmp(line,"driver ",7)) sscanf(line+7,"%127s",drv);
            else if (!strncmp(line,"mode ",5)) mode=atoi(line+5);
            else if (!strncmp(line,"thorough ",9)) mc_thorough=atoi(line+9);
            else if (!strncmp(line,"workers ",8)) nworkers=atoi(line+8);
            else if (!strncmp(line,"worker ",7)) v.worker=atoi(line+7);
            else if (!strncmp(line,"fresh ",6)) v.start_fresh=atoi(line+6);
            else if (!strncmp(line,"startshard ",11)) v.start_shard=atol(line+11);
            else if (!strncmp(line,"sig ",4)) { strncpy(v.sig,line+4,SIGSZ-1); v.sig[strcspn(v.sig,"\n")]=0; }
            else if (!strncmp(line,"choices",7)||!strncmp(line,"start ",6)||!strcmp(line,"start\n")){
                vec *q = line[0]=='c'? &v.v : &v.start; char *p=strchr(line,' '); q->n=0; int c,a,k;
                while (p && sscanf(p," %d/%d%n",&c,&a,&k)==2){ q->c[q->n]=c; q->a[q->n++]=a; p+=k; }
            }
        }
        fclose(f);
        for (const mc_driver *d=mc_drivers; d->name; d++) if (!strcmp(d->name,drv)){
            char m[MSGSZ]="",s[SIGSZ]=""; debug=1;
            int h=replay_child(d,&v,mode,120,m,s);
            printf("replay: %s\n  expected %s\n  observed %s\n  %s\n%s",h?"REPRODUCED":"not reproduced",v.sig,s[0]?s:"(no violation)",m,R->note);
            if (system(rmcmd)){}
            return h?1:0;
        }
        fprintf(stderr,"no driver %s\n",drv); return 2;
    }
    stopall=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if (stopall==MAP_FAILED){perror("mmap");return 2;}
    double t0=now(); deadline=t0+budget;
    FILE *jo = out? fopen(out,"w") : stdout; if(!jo){perror(out);return 2;}
    for (int w=0;w<nworkers;w++){ W[w]=mmap(0,sizeof(wsh),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if (W[w]==MAP_FAILED){perror("mmap");return 2;} }
    long texec=0,tsteps=0,tskip=0,tcmps=0; uint64_t tstates=0; int nv=0, nconf=0, internal=0, exhaustive=1, nrep=0;
    fprintf(jo,"{\"property\":"); jstr(jo,mc_property); fprintf(jo,",\"drivers\":[");
    int firstd=1;
    uint64_t *all=malloc(sizeof(uint64_t)*SETSZ*4);
    static char vbuf[1<<22]; FILE *vf=fmemopen(vbuf,sizeof vbuf,"w");
    for (const mc_driver *d=mc_drivers; d->name; d++){
        if (!(d->tiers & (mc_thorough?MC_THOROUGH:MC_QUICK))) continue;
        if (only && strcmp(only,d->name)) continue;
        double td0=now(); curdrv=d;
        int n = d->sharded? nworkers : 1; pid_t pid[MAXW]; int live=0; long ncrash=0, nhang=0;
        if (now()>deadline || (nconf && now()>t0+budget/2)){ exhaustive=0; continue; }
        for (int w=0;w<n;w++){ madvise(W[w],sizeof(wsh),MADV_REMOVE); memset(W[w],0,offsetof(wsh,set)); }
        int savedn=nworkers; nworkers=n;
        fflush(0);
        for (int w=0;w<n;w++){ pid[w]=fork(); if(pid[w]==0) worker(w,0); live++; }
        while (live){
            int st; pid_t p=wait(&st); if (p<0) break;
            int w; for (w=0;w<n;w++) if (pid[w]==p) break;
            if (w==n) continue;
            wsh *s=W[w]; live--;
            if (s->done) continue;
            if (s->diverged){ fprintf(stderr,"%s: divergence: %s\n",d->name,s->divmsg); internal=1; continue; }
            if (!s->inexec || (WIFEXITED(st)&&WEXITSTATUS(st)==99) || (WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL)){ fprintf(stderr,"%s: worker ended outside an execution or was killed (st %x)\n",d->name,st); internal=1; continue; }
            char m[MSGSZ],site[16],sig[SIGSZ]; crashmsg(s,st,m,site);
            me=s; mksig(sig,site); me=0; int before=s->nviol; addviol(s,sig,m,1); s->execs++; s->inexec=0; ncrash++; nhang+=!strcmp(site,"hang");
            if (first){ *stopall=1; continue; }
            (void)before;
            if (ncrash>200 || nhang>8 || now()>deadline){ exhaustive=0; continue; }
            fflush(0); pid[w]=fork(); if(pid[w]==0) worker(w,1); live++;
        }
        long ex=0,sk=0,stp=0,cm=0; size_t ns=0; int full=0;
        for (int w=0;w<n;w++){ wsh*s=W[w]; ex+=s->execs; sk+=s->skipped; stp+=s->steps; cm+=s->cmps; full|=s->setfull; if(s->deadline_hit) exhaustive=0; if (s->nviol>=MAXVIOL) exhaustive=0;
            for (uint32_t i=0;i<SETSZ;i++) if (s->set[i] && ns<SETSZ*4u) all[ns++]=s->set[i]; }
        qsort(all,ns,8,cmpu); size_t u=0; for (size_t i=0;i<ns;i++) if(!i||all[i]!=all[i-1]) u++;
        texec+=ex; tskip+=sk; tsteps+=stp; tcmps+=cm; tstates+=u;
        fprintf(jo,"%s{\"name\":",firstd?"":","); firstd=0; jstr(jo,d->name);
        fprintf(jo,",\"executions\":%ld,\"pruned\":%ld,\"transitions\":%ld,\"states\":%zu,\"comparisons\":%ld,\"wall_s\":%.2f,\"stateset_full\":%d,\"samples\":[",ex,sk,stp,u,cm,now()-td0,full);
        for (int i=0;i<W[0]->nsample;i++){ if(i) fputc(',',jo); jstr(jo,W[0]->sample[i]); }
        fprintf(jo,"],\"sites\":{"); int fs=1;
        for (int w=0;w<n;w++) for (int i=0;i<W[w]->nsite;i++){
            int seen=0; for (int x=0;x<w&&!seen;x++) for(int y=0;y<W[x]->nsite;y++) if(!strcmp(W[x]->site[y].name,W[w]->site[i].name)) seen=1;
            if (seen) continue; long c=0; double mr=0;
            for (int x=w;x<n;x++) for(int y=0;y<W[x]->nsite;y++) if(!strcmp(W[x]->site[y].name,W[w]->site[i].name)){ c+=W[x]->site[y].n; if(W[x]->site[y].maxr>mr) mr=W[x]->site[y].maxr; }
            fprintf(jo,"%s",fs?"":","); fs=0; jstr(jo,W[w]->site[i].name); fprintf(jo,":[%ld,%.3g]",c,mr);
        }
        fprintf(jo,"}}");
        if (first && *stopall){ printf("FIRST\n"); for (int w=0;w<n;w++) if (W[w]->nviol){ printf("%s: %s\n%s\n",W[w]->v[0].sig,W[w]->v[0].msg,W[w]->v[0].note); break; } fflush(stdout); if (system(rmcmd)){} return 1; }
        /* confirm violations */
        static viol tmp; int done_sigs=0; static char sigs[512][SIGSZ];
        for (int w=0;w<n;w++) for (int i=0;i<W[w]->nviol;i++){
            viol *v=&W[w]->v[i]; int dup=0; for(int k=0;k<done_sigs;k++) if(!strcmp(sigs[k],v->sig)) dup=1;
            if (dup||done_sigs>=512) continue;
            if (nconf && now()>t0+budget/2+60) continue;              /* one confirmed violation is enough */
            strcpy(sigs[done_sigs++],v->sig);
            tmp=*v; tmp.worker=w; debug=0;
            int mode=-1;
            if (replay_child(d,&tmp,0,120,0,0) && replay_child(d,&tmp,0,120,0,0)) mode=0;
            else if (replay_child(d,&tmp,1,120,0,0)) mode=1;
            debug=dbg0;
            char path[600]="";
            if (mode>=0 && nrep<200){
                snprintf(path,sizeof path,"%s/%s-%d.replay",repdir,mc_property,nrep++);
                FILE *f=fopen(path,"w");
                if (f){ fprintf(f,"property %s\ndriver %s\nthorough %d\nmode %d\nworkers %d\nworker %d\nfresh %d\nstartshard %ld\nsig %s\nchoices",mc_property,d->name,mc_thorough,mode,nworkers,w,tmp.start_fresh,tmp.start_shard,tmp.sig);
                    for(int k=0;k<tmp.v.n;k++) fprintf(f," %d/%d",tmp.v.c[k],tmp.v.a[k]);
                    fprintf(f,"\nstart"); for(int k=0;k<tmp.start.n;k++) fprintf(f," %d/%d",tmp.start.c[k],tmp.start.a[k]);
                    fprintf(f,"\nmessage %s\ntrace:\n%s\n",tmp.msg,tmp.note); fclose(f); }
            }
            fprintf(vf,"%s{\"sig\":",nv?",":""); jstr(vf,tmp.sig); fprintf(vf,",\"msg\":"); jstr(vf,tmp.msg); fprintf(vf,",\"trace\":"); tmp.note[1500]=0; jstr(vf,tmp.note);
            fprintf(vf,",\"count\":%ld,\"confirmed\":%d,\"replay\":",tmp.count,mode); jstr(vf,path); fprintf(vf,"}"); nv++; nconf+=mode>=0;
        }
        nworkers=savedn;
    }
    fclose(vf);
    fprintf(jo,"],\"violations\":[%s],\"executions\":%ld,\"pruned\":%ld,\"transitions\":%ld,\"states\":%llu,\"comparisons\":%ld,\"exhaustive\":%s,\"internal_error\":%d,\"wall_s\":%.2f}\n",vbuf,texec,tskip,tsteps,(unsigned long long)tstates,tcmps,exhaustive?"true":"false",internal,now()-t0);
    fflush(jo);
    if (system(rmcmd)){}
    return nconf?1: internal?2: nv?1:0;
}
