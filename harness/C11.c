/* ldflags: -Wl,--wrap=c3opt_minimize
 * C11 regression: the optimiser entry point is replaced by the explorer. Every objective the library installs is
 * compared (value and gradient, whole data set or single samples) with the loss of the reference model, and the
 * "optimiser" then returns nondeterministically chosen parameters, so that every history of core updates, folds and
 * grid cases is followed. */
#include "par.h"
#include "lib_optimization.h"
#include "regress.h"
#include "superlearn.h"
#include "objective_functions.h"
#include "learning_options.h"
const char*mc_property="C11";
int __real_c3opt_minimize(struct c3Opt*,double*,double*);

#define MN 12
static struct {
    int on,type,obj,ad,kris,N,calls,mode,picks,cv; double lam; const double*x,*y,*w; struct RegressOpts*ro; RT T; uint64_t h;
    double ret[MN][2]; int fold; int npick; double opt_start,opt_end; int order[64];
} G;
enum { ORACLE, REAL, HOOK };
static int (*hook)(struct c3Opt*,double*,double*);

static double kw(const RT*t,const double*x){ double w=1; for(int k=0;k<t->d;k++){ const RF*f=&t->f[k][0]; double s=0; for(int q=0;q<f->n;q++){ double v=pgrad(f,q,x[k]); s+=v*v; } w*=sqrt(s/f->n); } return w; }
/* loss of the model on samples (all if one<0) and its gradient with respect to all parameters */
static double loss(const RT*t,int ad,int kris,int obj,double lam,int core,int N,const double*x,const double*y,const double*w,int one,double*g)
{
    int n=ttot(t,ad),d=t->d; double s=0,*gg=malloc(n*sizeof(double)); if(g) memset(g,0,n*sizeof(double)); int M=one<0?N:1;
    for(int z=0;z<M;z++){ int i=one<0?z:one; double k=kris?kw(t,x+i*d):1,r=(y[i]-rt_eval(t,x+i*d))/k,wi=w?w[i]:1; s+=wi*r*r/M; if(g){ tgrad(t,ad,x+i*d,gg,NULL); for(int q=0;q<n;q++) g[q]-=2*wi*r*gg[q]/k/M; } }
    if(obj==FTLS_SPARSEL2){ int o=0; for(int k=0;k<d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++){ const RF*F=&t->f[k][q]; if(core<0||core==k) s+=0.5*lam*u_inner(F,F); for(int z=0;z<F->n;z++){ if(g&&(core<0||core==k)){ RF e=*F; for(int i=0;i<e.n;i++) e.c[i]=i==z; g[o]+=lam*u_inner(F,&e); } o++; } } }
    free(gg); return s;
}
static int coff(const RT*t,int ad,int k){ int o=0; for(int i=0;i<k;i++) o+=tnp(t,i,ad); return o; }
/* scale of rounding errors: the loss and its gradient with every term replaced by its modulus */
static double lscl(const RT*t,int ad,int kris,int obj,double lam,int core,int N,const double*x,const double*y,const double*w,int one,double*g)
{
    int n=ttot(t,ad),d=t->d,M=one<0?N:1; double s=1e-3; for(int q=0;q<n;q++) g[q]=1e-3;
    for(int z=0;z<M;z++){ int i=one<0?z:one; double k=kris?kw(t,x+i*d):1,wi=w?w[i]:1; double L[FD+1][FR],R[FD+1][FR],E[FD][FR*FR]; tlr(t,x+i*d,L,R,E); L[0][0]=R[d][0]=1; for(int a=0;a<d;a++) for(int q=0;q<t->r[a]*t->r[a+1];q++){ const RF*F=&t->f[a][q]; E[a][q]=0; for(int b=0;b<F->n;b++) E[a][q]+=fabs(F->c[b]*pgrad(F,b,x[i*d+a])); }
        for(int a=0;a<d;a++) for(int j=0;j<t->r[a+1];j++){ L[a+1][j]=0; for(int b=0;b<t->r[a];b++) L[a+1][j]+=L[a][b]*E[a][b+j*t->r[a]]; } for(int a=d-1;a>=0;a--) for(int b=0;b<t->r[a];b++){ R[a][b]=0; for(int j=0;j<t->r[a+1];j++) R[a][b]+=E[a][b+j*t->r[a]]*R[a+1][j]; }
        double f=(fabs(y[i])+L[d][0])/k; s+=wi*f*f/M; int o=0; for(int a=0;a<d;a++) for(int q=0;q<t->r[a]*t->r[a+1];q++) for(int b=0;b<pn(&t->f[a][q],ad);b++) g[o++]+=2*wi*f*L[a][q%t->r[a]]*(fabs(pgrad(&t->f[a][q],b,x[i*d+a]))+(kris?1:0))*R[a+1][q/t->r[a]]/k/M; }
    if(obj==FTLS_SPARSEL2) s+=loss(t,ad,0,obj,lam,core,0,x,y,w,-1,NULL)*4; if(obj==FTLS_SPARSEL2) for(int q=0;q<n;q++) g[q]+=lam*8; return s;
}
/* compare the installed objective with the model at parameters p (of the active block) */
static void objcheck(struct c3Opt*opt,int core,int off,int m,const double*p)
{
    static RT S; S=G.T; int n=ttot(&S,G.ad); double*full=malloc(n*sizeof(double)),*gw=malloc(n*sizeof(double)); tget(&S,G.ad,full); memcpy(full+off,p,m*sizeof(double)); tset(&S,G.ad,full);
    double*ts=malloc(n*sizeof(double)),tol; double*q=malloc(m*sizeof(double)); memcpy(q,p,m*sizeof(double));
    if(!c3opt_is_sgd(opt)){ double w=loss(&S,G.ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,-1,gw); tol=1e-12*lscl(&S,G.ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,-1,ts); double*g=dirty(m); double v2=c3opt_eval(opt,q,NULL),v=c3opt_eval(opt,q,g); mc_cmp("objective-nograd-again",c3opt_eval(opt,q,NULL),w,tol); mc_steps(2); mc_cmp("objective",v,w,tol); mc_cmp("objective-nograd",v2,w,tol); for(int i=0;i<m;i++) mc_cmp("objective-gradient",g[i],gw[off+i],1e-12*ts[off+i]); free(g); G.h=mc_hd(G.h,w); }
    else for(int z=0;z<G.N;z++){ int i=(z*2+1)%G.N; if(G.N%2==0) i=G.N-1-z; double w=loss(&S,G.ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,i,gw); tol=1e-12*lscl(&S,G.ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,i,ts); double*g=dirty(m); double v2=c3opt_eval_stoch(opt,i,q,NULL),v=c3opt_eval_stoch(opt,i,q,g); mc_steps(2); mc_cmp("stochastic",v,w,tol); mc_cmp("stochastic-nograd",v2,w,tol); for(int k=0;k<m;k++) mc_cmp("stochastic-gradient",g[k],gw[off+k],1e-12*ts[off+k]); free(g); G.h=mc_hd(G.h,w); }
    for(int i=0;i<m;i++) mc_expect("objective-input",q[i]==p[i],"parameters changed by the objective"); free(q); free(full); free(gw); free(ts);
}
extern size_t c3opt_get_d(struct c3Opt*) __attribute__((weak));
int __wrap_c3opt_minimize(struct c3Opt*opt,double*p,double*val)
{
    if(!G.on) return __real_c3opt_minimize(opt,p,val);
    if(G.mode==HOOK) return hook(opt,p,val);
    int d=G.T.d,ad=G.ad,core=-1,off=0,m=ttot(&G.T,ad);
    if(G.type==ALS){ core=(int)G.ro->als_active_core; mc_expect("active-core",core<d,"core %d",core); off=coff(&G.T,ad,core); m=tnp(&G.T,core,ad); }
    if(G.calls<64) G.order[G.calls]=core; G.calls++;
    if(c3opt_get_d) mc_expect("nvars",(int)c3opt_get_d(opt)==m,"optimising %zu variables, expected %d",c3opt_get_d(opt),m);
    int n=ttot(&G.T,ad); double*full=malloc(n*sizeof(double)),*u=malloc(m*sizeof(double)); tget(&G.T,ad,full);
    for(int i=0;i<m;i++) mc_cmp("guess",p[i],full[off+i],0);
    int rc=0;
    if(G.mode==ORACLE){
        objcheck(opt,core,off,m,full+off);
        for(int z=0;z<2;z++){ for(int i=0;i<m;i++) u[i]=full[off+i]*(z?1:0.5)+0.5*fgen(60+z,i,G.calls,0)*(ad?0.125:1); objcheck(opt,core,off,m,u); }
        int c=G.picks>0?mc_choose(G.npick,"optimiser"):1; G.picks--; 
        for(int i=0;i<m;i++){ u[i]=c==0?full[off+i]:c==1?fgen(40+G.calls,i,0,0):(i%3==0?0.0:fgen(50+G.calls,i,1,0)); if(ad&&c) u[i]=full[off+i]+(G.type==ALS&&i%6>=3?0:0.125*fgen(40+c,i,G.calls,0)); /* the sweep test of the library needs equal centres */ }
        memcpy(p,u,m*sizeof(double)); *val=loss(&G.T,ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,-1,NULL);
    } else {
        double*gw=malloc(n*sizeof(double)); double a=loss(&G.T,ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,-1,NULL); rc=__real_c3opt_minimize(opt,p,val); mc_step(); memcpy(full+off,p,m*sizeof(double)); tset(&G.T,ad,full);
        double b=loss(&G.T,ad,G.kris,G.obj,G.lam,core,G.N,G.x,G.y,G.w,-1,gw); mc_expect("descent",b<=a*(1+1e-9)+1e-13,"objective rose from %.17g to %.17g",a,b); mc_cmp("reported-minimum",*val,b,1e-9*(1+a)); free(gw); }
    memcpy(full+off,p,m*sizeof(double)); tset(&G.T,ad,full); free(full); free(u); return rc;
}
static void mkdata(const RT*t,int N,int kind,double*x,double*y,const RT*truth)
{ for(int i=0;i<N;i++){ for(int k=0;k<t->d;k++){ const RF*f=&t->f[k][0]; x[i*t->d+k]=f->lb+(f->ub-f->lb)*(0.03125+((i*(2*k+3)+k*k*5+(i*i*(k+1))%7)%15)/16.0); } y[i]=truth?rt_eval(truth,x+i*t->d):kind==1&&i==0?0:fgen(6,i,kind,1); } }
static void same(const char*s,const double*a,const double*b,int n){ mc_expect(s,!memcmp(a,b,n*sizeof(double)),"caller's data changed"); }

static void run_obj(int type)
{
    int d=(type==ALS?2:1)+mc_choose(mc_thorough?4:3,"dim"),cs=mc_choose(8,"class"),rp=mc_choose(mc_thorough?8:4,"ranks"),N=(int[]){1,4,7}[mc_choose(3,"samples")]; mc_shard();
    if(type==ALS&&d>4) d=4; int wt=mc_choose(2,"weights"),obj=mc_choose(2,"regularised")?FTLS_SPARSEL2:FTLS,kris=mc_choose(2,"kristoffel"),sgd=mc_choose(2,"stochastic"),gs=mc_choose(2,"grid"); int ad=cs==7;
    if(obj==FTLS_SPARSEL2&&(cs==1||cs==6||cs==7)) mc_skip(); if(kris&&(cs!=3&&cs!=5||obj!=FTLS)) mc_skip(); if((cs==2||ad)&&gs) mc_skip();
    if(rp==3) rp=5;
    RO o; rt_make(&G.T,d,rp,tcs(cs),gs,0,PGEN); ro_make(&o,d,tcs(cs),gs,0); ro_adapt(&o,ad);
    mc_key("%s %s d%d%s%s%s",type==ALS?"als":"aio",cs==7?"kernel-centres":FCS[cs],d,kris?" kristoffel":"",sgd?" stochastic":"",obj==FTLS?"":" regularised");
    int n=ttot(&G.T,ad); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=G.T.r[k];
    if(ad) for(int k=0;k<d;k++) for(int q=0;q<G.T.r[k]*G.T.r[k+1];q++) for(int i=0;i<G.T.f[k][q].n;i++) G.T.f[k][q].x[i]=umap(UMN[i+1]+(type==ALS?0:0.03125*(q%3)),G.T.f[k][q].lb,G.T.f[k][q].ub);
    double*p=malloc(n*sizeof(double)); tget(&G.T,ad,p); struct FTparam*P=ft_param_alloc(d,o.m,p,rk);
    double*x=malloc(N*d*sizeof(double)),*y=malloc(N*sizeof(double)),*w=malloc(N*sizeof(double)),*x0=malloc(N*d*sizeof(double)),*y0=malloc(N*sizeof(double)),*w0=malloc(N*sizeof(double)); mkdata(&G.T,N,wt,x,y,NULL); for(int i=0;i<N;i++) w[i]=0.25+0.5*((i*3+1)%4); memcpy(x0,x,N*d*8); memcpy(y0,y,N*8); memcpy(w0,w,N*8);
    struct RegressOpts*ro=regress_opts_create(d,type,obj); double lam=0.375; regress_opts_set_regularization_weight(ro,lam); mc_cmp("lambda",regress_opts_get_regularization_weight(ro),lam,0); if(wt) regress_opts_set_sample_weights(ro,w); if(kris) regress_opts_set_kristoffel(ro,1); int ms=type==ALS?1+mc_choose(2,"sweeps")*(N==4?2:1):1; regress_opts_set_max_als_sweep(ro,ms);
    struct c3Opt*opt=sgd?c3opt_create(SGD):c3opt_create(BFGS); if(sgd) c3opt_set_sgd_nsamples(opt,N);
    G.on=1; G.mode=ORACLE; G.type=type; G.obj=obj; G.lam=lam; G.ad=ad; G.kris=kris; G.N=N; G.x=x; G.y=y; G.w=wt?w:NULL; G.ro=ro; G.calls=0; G.h=mc_h0(); G.npick=type==AIO?3:2; G.picks=type==AIO?1:(mc_thorough?8:sgd?2:4);
    int runs=1+mc_choose(2,"again"); struct FunctionTrain*f=NULL; if(type==ALS&&runs==2&&(d>3||sgd||gs)&&!mc_thorough) mc_skip();
    for(int r=0;r<runs;r++){ G.calls=0; if(r) G.picks=type==AIO?1:(mc_thorough?2:1); function_train_free(f); f=c3_regression_run(P,ro,opt,N,x,y); mc_step();
        if(type==AIO) mc_expect("runs",G.calls==1,"%d minimisations",G.calls); else { int per=2*d-2; mc_expect("sweeps",G.calls%per==0&&G.calls>=per&&G.calls<=per*ms,"%d minimisations, %d per sweep, at most %d sweeps",G.calls,per,ms); int seen=0; for(int i=0;i<per;i++) seen|=1<<G.order[i]; mc_expect("all-cores",seen==(1<<d)-1,"a sweep left a core out"); }
        tcheck("model",f,&G.T); tcheck("parameterised",P->ft,&G.T); tget(&G.T,ad,p); for(int i=0;i<n;i++) mc_cmp("params",P->params[i],p[i],0); double*q=dirty(n); function_train_get_params(f,q); for(int i=0;i<n;i++) mc_cmp("model-params",q[i],p[i],0); free(q); mc_state(G.h); }
    G.on=0; same("data",x,x0,N*d); same("data",y,y0,N); same("data",w,w0,N); function_train_free(f); ft_param_free(P); regress_opts_free(ro); c3opt_free(opt); ro_free(&o); free(p);free(x);free(y);free(w);free(x0);free(y0);free(w0);
}
static void b_als(void){ run_obj(ALS); }
static void b_aio(void){ run_obj(AIO); }

/* weighted sums of user objectives */
static double uo(size_t n,const double*p,double*g,size_t N,size_t*ind,struct Data*data,struct SLMemManager*mem,void*arg){ double*a=arg,s=0; for(size_t i=0;i<n;i++){ s+=a[0]*p[i]*p[i]+a[1]*p[i]; if(g) g[i]+=2*a[0]*p[i]+a[1]; } return s+a[2]*N; }
static void b_objs(void)
{
    int k=1+mc_choose(3,"objectives"); mc_shard(); double a[3][3],w[3]; struct ObjectiveFunction*o=NULL; for(int i=0;i<k;i++){ w[i]=(double[]){1,0.5,-2,0}[mc_choose(4,"weight")]; for(int j=0;j<3;j++) a[i][j]=fgen(2,i,j,mc_choose(2,"coefficients")); objective_function_add(&o,w[i],uo,a[i]); mc_step(); }
    int n=1+mc_choose(3,"parameters"); struct SLP s; memset(&s,0,sizeof s); s.objective_function=o; s.nparams=n; double p[3]={0.5,-1.25,2},*g=dirty(n); size_t ind=0; uint64_t h=mc_h0();
    for(int N=1;N<=3;N++){ double v=0,gr[3]={0,0,0}; for(int i=0;i<k;i++){ double t[3]={0,0,0}; v+=w[i]*uo(n,p,t,N,NULL,NULL,NULL,a[i]); for(int j=0;j<n;j++) gr[j]+=w[i]*t[j]; }
        double r=objective_eval(n,p,g,N,N==1?&ind:NULL,&s),r2=objective_eval(n,p,NULL,N,N==1?&ind:NULL,&s); mc_steps(2); mc_cmp("weighted-objective",r,v,1e-12); mc_cmp("weighted-objective",r2,v,1e-12); for(int j=0;j<n;j++) mc_cmp("weighted-gradient",g[j],gr[j],1e-12); h=mc_hd(h,v); }
    mc_state(h); free(g); objective_function_free(&o); mc_expect("objective-free",o==NULL,"not cleared");
}
/* cross validation: every fold's objective, the error formula, the restored model */
static double cvx[MN*FD],cvy[MN],cvw[MN],cvtx[MN*FD],cvty[MN],cvtw[MN]; static int cvN,cvk,cvfold; static double cverr,cvnorm; static RT cvT0;
static int cv_hook(struct c3Opt*opt,double*p,double*val)
{
    int d=G.T.d,b=cvN/cvk,s=cvfold*b,e=cvfold==cvk-1?cvN:s+b,n=0; mc_expect("folds",cvfold<cvk,"more minimisations than folds"); cvfold++;
    for(int i=0;i<cvN;i++) if(i<s||i>=e){ memcpy(cvtx+n*d,cvx+i*d,d*8); cvty[n]=cvy[i]; cvtw[n]=cvw[i]; n++; }
    G.T=cvT0; G.N=n; G.x=cvtx; G.y=cvty; if(G.w) G.w=cvtw; int m=ttot(&G.T,G.ad); mc_expect("cv-nvars",(int)c3opt_get_d(opt)==m,"variables"); double*q=malloc(m*8); tget(&G.T,G.ad,q); for(int i=0;i<m;i++) mc_cmp("cv-start",p[i],q[i],0);
    objcheck(opt,-1,0,m,q); for(int i=0;i<m;i++) q[i]=fgen(70+cvfold,i,0,0); objcheck(opt,-1,0,m,q); int c=G.cv?cvfold&1:mc_choose(2,"optimiser"); if(!c) tget(&G.T,G.ad,q); memcpy(p,q,m*8); tset(&G.T,G.ad,q); free(q); *val=0;
    for(int i=s;i<e;i++){ double r=cvy[i]-rt_eval(&G.T,cvx+i*d); cverr+=r*r; cvnorm+=cvy[i]*cvy[i]; } return 0;
}
static void b_cv(void)
{
    int d=1+mc_choose(3,"dim"),cs=(int[]){0,3,6,2}[mc_choose(4,"class")],N=2+mc_choose(mc_thorough?7:6,"samples"),k=2+mc_choose(mc_thorough?7:6,"folds"); mc_shard(); int wt=mc_choose(2,"weights"),obj=mc_choose(2,"regularised")?FTLS_SPARSEL2:FTLS,api=mc_choose(2,"start"); if(k>N||(obj!=FTLS&&cs==6)) mc_skip(); if(k>5&&!mc_thorough&&(d!=2||obj!=FTLS)) mc_skip();
    RO o; rt_make(&G.T,d,1,cs,0,0,PGEN); ro_make(&o,d,cs,0,0); int n=ttot(&G.T,0); size_t rk[FD+1]; for(int i=0;i<=d;i++) rk[i]=G.T.r[i]; mc_key("%s d%d N%d k%d",FCS[cs],d,N,k); double*p=malloc(n*8); tget(&G.T,0,p); cvT0=G.T;
    struct FTRegress*R=ft_regress_alloc(d,o.m,rk); ft_regress_set_alg_and_obj(R,AIO,obj); ft_regress_update_params(R,p); mkdata(&G.T,N,0,cvx,cvy,NULL); for(int i=0;i<N;i++) cvw[i]=0.25+0.5*((i*3+1)%4); double sx[MN*FD],sy[MN],sw[MN]; memcpy(sx,cvx,sizeof sx); memcpy(sy,cvy,sizeof sy); memcpy(sw,cvw,sizeof sw);
    if(wt) ft_regress_set_sample_weights(R,cvw); ft_regress_set_regularization_weight(R,0.25); struct c3Opt*opt=c3opt_create(BFGS); struct CrossValidate*cv=cross_validate_init(N,d,cvx,cvy,k,0);
    G.on=1; G.mode=HOOK; hook=cv_hook; G.obj=obj; G.type=AIO; G.lam=0.25; G.ad=0; G.kris=0; G.h=mc_h0();
    for(int rep=0;rep<=api;rep++){ G.w=wt?cvw:NULL; cvN=N; cvk=k; cvfold=0; cverr=cvnorm=0; G.cv=rep; double e=cross_validate_run(cv,R,opt); mc_step(); mc_expect("folds",cvfold==k,"%d folds, expected %d",cvfold,k); mc_cmp("cv-error",e,cverr/cvnorm,1e-9*(1+cverr/cvnorm)); size_t np=0; double*q=ft_regress_get_params(R,&np); mc_expect("cv-restored",(int)np==n,"count"); for(int i=0;i<n;i++) mc_cmp("cv-restored",q[i],p[i],0); free(q); G.h=mc_hd(G.h,e); mc_state(G.h); }
    /* afterwards the object fits the whole data set again */
    cvN=N; hook=NULL; G.mode=ORACLE; G.T=cvT0; G.N=N; G.x=cvx; G.y=cvy; G.w=wt?cvw:NULL; G.calls=0; G.picks=0; struct FunctionTrain*f=ft_regress_run(R,opt,N,cvx,cvy); mc_step(); tcheck("after-cv",f,&G.T); function_train_free(f);
    G.on=0; same("cv-data",sx,cvx,N*d); same("cv-data",sy,cvy,N); same("cv-data",sw,cvw,N); cross_validate_free(cv); ft_regress_free(R); c3opt_free(opt); ro_free(&o); free(p);
}
/* grid search: all cases are tried on every fold, the best one is installed */
static int gn,gtype[3],gcnt[3],gseen[64],gord[64],gk,gdim; static double gv[3][3]; static struct FTRegress*gR; static struct c3Opt*gO;
static int gcase(struct c3Opt*opt,int*np)
{ int c=0; struct FTparam*P=ft_regress_get_ft_param(gR); size_t*r=function_train_get_ranks(ft_param_get_ft(P)); for(int q=0;q<gn;q++){ int hit=-1; for(int z=0;z<gcnt[q];z++){ int ok=0; if(gtype[q]==0){ ok=1; for(int k=1;k<gdim;k++) if(r[k]!=(size_t)gv[q][z]) ok=0; } else if(gtype[q]==1){ size_t tot=0; for(int k=0;k<gdim;k++) tot+=r[k]*r[k+1]; ok=P->nparams==tot*(size_t)gv[q][z]; } else if(gtype[q]==2) ok=c3opt_get_maxiter(opt)==(size_t)gv[q][z]; else ok=ft_regress_get_regularization_weight(gR)==gv[q][z]; if(ok) hit=z; } if(hit<0) return -1; c=c*gcnt[q]+hit; } return c; }
static int grid_hook(struct c3Opt*opt,double*p,double*val)
{ int c=gcase(opt,NULL); mc_expect("grid-case",c>=0,"settings of no grid case are active"); gseen[c]++; struct FTparam*P=ft_regress_get_ft_param(gR); int n=P->nparams; for(int i=0;i<n;i++) p[i]=0; size_t*r=function_train_get_ranks(P->ft); int off=0; double lev=1+gord[c]*0.25; 
  for(int k=0;k<gdim;k++){ int np=P->nparams_per_core[k]/(r[k]*r[k+1]); p[off]=k==0?lev:1; off+=P->nparams_per_core[k]; } *val=0; return 0; }
static void b_grid(void)
{
    static const char*NM[]={"rank","num_param","opt_maxiter","reg_weight"}; static const double V[4][3]={{1,3,2},{2,4,3},{7,5,11},{0.5,0.125,0.25}};
    int d=2+mc_choose(2,"dim"); gn=1+mc_choose(3,"grid parameters"); mc_shard(); int used=0,nc=1; for(int q=0;q<gn;q++){ gtype[q]=mc_choose(4,"parameter"); if(used>>gtype[q]&1) mc_skip(); used|=1<<gtype[q]; gcnt[q]=1+mc_choose(gn==3?2:3,"values"); nc*=gcnt[q]; }
    gk=2+mc_choose(2,"folds"); int N=6; RO o; ro_make(&o,d,3,1,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=(k==0||k==d)?1:2; mc_key("grid d%d n%d",d,gn); gdim=d;
    struct FTRegress*R=ft_regress_alloc(d,o.m,rk); ft_regress_set_alg_and_obj(R,AIO,FTLS_SPARSEL2); ft_regress_set_seed(R,3); struct c3Opt*opt=c3opt_create(BFGS); c3opt_set_maxiter(opt,99); static RT T; rt_make(&T,d,0,3,1,0,PGEN); double x[MN*FD],y[MN]; mkdata(&T,N,0,x,y,NULL); double cst=0.125; for(int i=0;i<N;i++) y[i]=cst;
    struct CVOptGrid*g=cv_opt_grid_init(gn); cv_opt_grid_set_verbose(g,0); for(int q=0;q<gn;q++){ size_t u[3]; double v[3]; for(int z=0;z<gcnt[q];z++){ gv[q][z]=V[gtype[q]][z]; u[z]=(size_t)gv[q][z]; v[z]=gv[q][z]; } char nm[32]; strcpy(nm,NM[gtype[q]]); cv_opt_grid_add_param(g,nm,gcnt[q],gtype[q]==3?(void*)v:(void*)u); for(int z=0;z<3;z++){ u[z]=77; v[z]=77; } }
    int best=mc_choose(nc,"best case"),rev=mc_choose(2,"others"); for(int c=0;c<nc;c++){ gseen[c]=0; gord[c]=c==best?0:1+(rev?nc-c:c); }
    gR=R; gO=opt; G.on=1; G.mode=HOOK; hook=grid_hook; struct CrossValidate*cv=cross_validate_init(N,d,x,y,gk,0); cross_validate_grid_opt(cv,g,R,opt); mc_step(); G.on=0;
    for(int c=0;c<nc;c++) mc_expect("grid-folds",gseen[c]==gk,"case %d was fitted %d times, expected %d",c,gseen[c],gk); int c=gcase(opt,NULL); mc_expect("grid-best",c==best,"settings of case %d are installed, case %d had the smallest error",c,best); uint64_t h=mc_h0(); h=mc_hu(h,best); h=mc_hu(h,nc); h=mc_hu(h,used); mc_state(h);
    cross_validate_free(cv); cv_opt_grid_free(g); ft_regress_free(R); c3opt_free(opt); ro_free(&o);
}
/* real optimisers */
static void b_fit(void)
{
    int type=mc_choose(2,"algorithm")?AIO:ALS,d=1+mc_choose(3,"dim"),cs=(int[]){0,3,4,2,6,7}[mc_choose(6,"class")],rp=mc_choose(3,"ranks"); mc_shard(); if(type==ALS&&(d==1||cs==7)) mc_skip(); int obj=mc_choose(2,"regularised")?FTLS_SPARSEL2:FTLS,alg=mc_choose(3,"optimiser"),wt=mc_choose(2,"weights"),near=mc_choose(3,"start"),st=mc_choose(2,"store"); int ad=cs==7; if(obj!=FTLS&&(cs==6||ad)) mc_skip(); if(rp==2) rp=3;
    RO o; static RT truth; rt_make(&truth,d,rp,tcs(cs),1,0,PGEN); G.T=truth; ro_make(&o,d,tcs(cs),1,0); ro_adapt(&o,ad); int n=ttot(&truth,ad); mc_key("%s %s d%d %d",type==ALS?"als":"aio",ad?"kernel-centres":FCS[cs],d,alg); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=truth.r[k];
    double*p=malloc(n*8); tget(&truth,ad,p); for(int i=0;i<n;i++) p[i]=near==0?p[i]:near==1?p[i]+0.0625*fgen(9,i,0,0):fgen(10,i,1,0); if(ad&&near==2) mc_skip(); tset(&G.T,ad,p); int N=40; double*x=malloc(N*d*8),*y=malloc(N*8),w[40]; mkdata(&truth,N,0,x,y,&truth); for(int i=0;i<N;i++) w[i]=0.5+0.25*(i%3);
    struct FTRegress*R=ft_regress_alloc(d,o.m,rk); ft_regress_set_alg_and_obj(R,type,obj); ft_regress_update_params(R,p); ft_regress_set_regularization_weight(R,0.0625); if(wt) ft_regress_set_sample_weights(R,w); ft_regress_set_max_als_sweep(R,3); ft_regress_set_als_conv_tol(R,1e-9);
    struct c3Opt*opt=c3opt_create((enum c3opt_alg[]){BFGS,LBFGS,BATCHGRAD}[alg]); c3opt_set_maxiter(opt,st?(size_t)3:40); c3opt_set_gtol(opt,1e-9); c3opt_set_relftol(opt,1e-14); c3opt_set_absxtol(opt,1e-14); if(st) c3opt_set_storage_options(opt,1,0,0);
    double lam=0.0625,a=loss(&G.T,ad,0,obj,lam,-1,N,x,y,wt?w:NULL,-1,NULL); G.on=0; struct FunctionTrain*f=ft_regress_run(R,opt,N,x,y); mc_step(); size_t np; double*q=ft_regress_get_params(R,&np); mc_expect("fit-nparams",(int)np==n,"count"); tset(&G.T,ad,q); tcheck("fit-model",f,&G.T); double b=loss(&G.T,ad,0,obj,lam,-1,N,x,y,wt?w:NULL,-1,NULL);
    mc_expect("fit-descends",b<=a*(1+1e-9)+1e-12,"loss rose from %.17g to %.17g",a,b); uint64_t h=mc_h0(); h=mc_hd(h,floor(log10(b+1e-30))); mc_state(h);
    if(near==0&&obj==FTLS) mc_cmp("fit-stays",b,0,1e-10);
    if(d==1&&!st&&alg<2&&!ad){ double*g=malloc(n*8); loss(&G.T,ad,0,obj,lam,-1,N,x,y,wt?w:NULL,-1,g); for(int i=0;i<n;i++) mc_cmp("fit-optimal",g[i],0,1e-3*(1+a)); free(g); }
    if(near==1&&!st&&obj==FTLS&&alg<2&&!ad) mc_expect("fit-improves",b<0.05*a+1e-9,"loss %g after starting from %g next to the true model",b,a);
    free(q); function_train_free(f); f=ft_regress_run(R,opt,N,x,y); mc_step(); q=ft_regress_get_params(R,&np); tset(&G.T,ad,q); double c=loss(&G.T,ad,0,obj,lam,-1,N,x,y,wt?w:NULL,-1,NULL); mc_expect("fit-again",c<=b*(1+1e-9)+1e-12,"second run raised the loss from %.17g to %.17g",b,c); free(q);
    if(st&&type==ALS){ size_t ne=ft_regress_get_nepochs(R); mc_expect("epochs",ne>0,"none stored"); for(size_t i=0;i<ne;i++){ double v=ft_regress_get_stored_fvals(R,i); mc_expect("epochs",v>=-1e-12&&v<=b*(1+1e-6)+1e-9,"stored value %g exceeds the starting loss %g",v,b); } }
    function_train_free(f); ft_regress_free(R); c3opt_free(opt); ro_free(&o); free(p);free(x);free(y);
}
static int rn,rseq[64][FD+1];
/* records the sequence of distinct ranks that are fitted */
static int rank_hook(struct c3Opt*opt,double*p,double*val){ struct FTparam*P=ft_regress_get_ft_param(gR); int r[FD+1],same=rn>0; for(int k=0;k<=gdim;k++){ r[k]=(int)function_train_get_rank(ft_param_get_ft(P),k); if(rn&&r[k]!=rseq[rn-1][k]) same=0; } if(!same&&rn<64) memcpy(rseq[rn++],r,sizeof r); return __real_c3opt_minimize(opt,p,val); }
/* rank adaptation against the state machine cross-validate / fit / round / kick, with every history of outcomes */
static struct { double small; int ph,fold,kf,mr,kick,ER[FD+1],RR[FD+1],jj,fits,cvs,fin,cs,full; double lev; RT prev,base; } KA;
enum { KCV, KFIT, KFINAL, KEND };
static void kshape(const int*r){ G.T.d=KA.base.d; for(int k=0;k<=G.T.d;k++) G.T.r[k]=r[k]; for(int k=0;k<G.T.d;k++) for(int q=0;q<r[k]*r[k+1];q++) G.T.f[k][q]=KA.base.f[k][0]; }
static int kick_hook(struct c3Opt*opt,double*p,double*val)
{
    int d=gdim; struct FTparam*P=ft_regress_get_ft_param(gR); mc_expect("kick-stops",KA.ph!=KEND,"a fit after the adaptation should have stopped"); for(int k=0;k<=d;k++) mc_expect("kick-ranks",(int)function_train_get_rank(ft_param_get_ft(P),k)==KA.ER[k],"rank %d of fit %d is %zu, expected %d",k,KA.fits,function_train_get_rank(ft_param_get_ft(P),k),KA.ER[k]);
    kshape(KA.ER); int m=ttot(&G.T,0); mc_expect("kick-nvars",(int)c3opt_get_d(opt)==m,"%zu variables, expected %d",c3opt_get_d(opt),m); double*q=malloc(m*8); memcpy(q,p,m*8); tset(&G.T,0,q); *val=0;
    if(KA.ph==KCV){ int b=cvN/cvk,s=KA.fold*b,e=KA.fold==cvk-1?cvN:s+b,n=0; for(int i=0;i<cvN;i++) if(i<s||i>=e){ memcpy(cvtx+n*d,cvx+i*d,d*8); cvty[n]=cvy[i]; n++; } G.N=n; G.x=cvtx; G.y=cvty; objcheck(opt,-1,0,m,q);
        if(KA.fold==0&&KA.cvs>0){ int c=mc_choose(2,"cross-validation error"); KA.full=c; KA.lev*=c?2:0.5; }
        for(int k=0;k<d;k++) for(int z=0;z<G.T.r[k]*G.T.r[k+1];z++) for(int i=0;i<G.T.f[k][z].n;i++) G.T.f[k][z].c[i]=z==0&&(G.T.f[k][z].cls==ULIN||i==0); double x0[FD]; for(int k=0;k<d;k++) x0[k]=G.T.f[k][0].lb; double v=rt_eval(&G.T,x0); for(int i=0;i<G.T.f[0][0].n;i++) G.T.f[0][0].c[i]*=(0.125+KA.lev)/v; tget(&G.T,0,p);
        if(++KA.fold==cvk){ KA.fold=0; if(KA.cvs++>0&&KA.full){ memcpy(KA.ER,KA.RR,sizeof KA.ER); KA.ph=KA.fin?KFINAL:KEND; } else KA.ph=KFIT; } }
    else { G.N=cvN; G.x=cvx; G.y=cvy; objcheck(opt,-1,0,m,q); int mask=KA.fits<2?mc_choose(1<<(d-1),"fit outcome"):0; for(int k=0;k<d;k++) for(int j=0;j<G.T.r[k+1];j++) for(int i=0;i<G.T.r[k];i++){ RF*f=&G.T.f[k][i+j*G.T.r[k]]; int z=k<d-1&&(mask>>k&1)&&G.T.r[k+1]>1&&j==G.T.r[k+1]-1; for(int a=0;a<f->n;a++) f->c[a]=(z?KA.small:1)*fgen(80+KA.fits,k*64+i*8+j,a,1); } tget(&G.T,0,p); G.h=mc_hu(G.h,mask);
        if(KA.ph==KFINAL){ KA.prev=G.T; KA.ph=KEND; } else { KA.fits++; KA.prev=G.T; int kicked=0,all=1; KA.RR[0]=KA.RR[d]=1; int nr[FD+1]; nr[0]=nr[d]=1; for(int k=1;k<d;k++){ int r=KA.ER[k]; KA.RR[k]=r-((mask>>(k-1)&1)&&r>1); if(r<KA.mr) all=0; nr[k]=r; if(KA.RR[k]==r){ kicked=1; nr[k]=r+KA.kick<KA.mr?r+KA.kick:KA.mr; } }
            if(!kicked||all||KA.jj>=10) KA.ph=KA.fin?KFINAL:KEND; else { KA.jj++; memcpy(KA.ER,nr,sizeof nr); KA.ph=KCV; } } }
    free(q); return 0;
}
static void b_kick(void)
{
    int d=2+mc_choose(2,"dim"),cs=mc_choose(2,"class")?3:0,r0=1+mc_choose(2,"start rank"),mr=2+mc_choose(mc_thorough?4:3,"maximum rank"),kick=1+mc_choose(mc_thorough?3:2,"kick"),kf=2+mc_choose(2,"folds"),fin=mc_choose(2,"finalize"); mc_shard(); int again=mc_choose(2,"again"),small=mc_choose(2,"dropped part");
    RO o; ro_make(&o,d,cs,0,0); memset(&KA,0,sizeof KA); KA.small=small?1e-7:0; KA.base.d=d; for(int k=0;k<d;k++){ if(cs==3){ struct OpeOpts*oo=o.u[k]; ope_opts_set_nparams(oo,5); o.f[k].n=5; } KA.base.f[k][0]=o.f[k]; if(o.f[k].n<5) mc_skip(); } size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=(k==0||k==d)?1:r0; mc_key("kick %s d%d r%d mr%d kick%d",FCS[cs],d,r0,mr,kick);
    struct FTRegress*R=ft_regress_alloc(d,o.m,rk); ft_regress_set_alg_and_obj(R,AIO,FTLS); ft_regress_set_seed(R,7); ft_regress_set_adapt(R,1); ft_regress_set_maxrank(R,mr); ft_regress_set_kickrank(R,kick); ft_regress_set_roundtol(R,small?1e-4:1e-7); ft_regress_set_kfold(R,kf); ft_regress_set_finalize(R,fin); ft_regress_set_opt_restrict(R,0); struct c3Opt*opt=c3opt_create(BFGS);
    cvN=6; cvk=kf; kshape((int[]){1,1,1,1,1,1}); mkdata(&G.T,cvN,0,cvx,cvy,NULL); for(int i=0;i<cvN;i++) cvy[i]=0.125; double sx[MN*FD],sy[MN]; memcpy(sx,cvx,sizeof sx); memcpy(sy,cvy,sizeof sy);
    G.on=1; G.mode=HOOK; hook=kick_hook; gR=R; gdim=d; G.obj=FTLS; G.type=AIO; G.ad=0; G.kris=0; G.w=NULL; G.lam=0; G.h=mc_h0(); for(int k=0;k<=d;k++) KA.ER[k]=rk[k];
    for(int rep=0;rep<=again;rep++){ KA.ph=KCV; KA.fold=KA.jj=KA.cvs=0; KA.fits=rep?2:0; KA.kf=kf; KA.mr=mr; KA.kick=kick; KA.fin=fin; KA.lev=0.25; struct FunctionTrain*f=ft_regress_run(R,opt,cvN,cvx,cvy); mc_step(); mc_expect("kick-ends",KA.ph==KEND,"stopped early (%d fits)",KA.fits);
        double tol=(!fin&&KA.full&&KA.cvs>1?1e-4:1e-11)*tscl(&KA.prev); for(int k=0;k<=d;k++) mc_expect("kick-result",(int)function_train_get_rank(f,k)==KA.ER[k],"rank %d of the result is %zu, expected %d",k,function_train_get_rank(f,k),KA.ER[k]); double x[FD]; for(int e=0;e<12;e++){ tpt(&KA.prev,e,x); mc_cmp("kick-result",function_train_eval(f,x),rt_eval(&KA.prev,x),tol); mc_cmp("kick-held",function_train_eval(ft_param_get_ft(ft_regress_get_ft_param(R)),x),rt_eval(&KA.prev,x),tol); G.h=mc_hd(G.h,rt_eval(&KA.prev,x)); } size_t np; double*q=ft_regress_get_params(R,&np),*fq=malloc(np*8); mc_expect("kick-params",function_train_get_nparams(f)==np,"number of parameters"); function_train_get_params(f,fq); for(size_t i=0;i<np;i++) mc_cmp("kick-params",q[i],fq[i],0); free(q); free(fq); mc_state(G.h); function_train_free(f); KA.full=0; }
    G.on=0; same("kick-data",sx,cvx,cvN*d); same("kick-data",sy,cvy,cvN); ft_regress_free(R); c3opt_free(opt); ro_free(&o);
}
/* rank adaptation */
static void b_adapt(void)
{
    int type=mc_choose(2,"algorithm")?AIO:ALS,d=2+mc_choose(2,"dim"),cs=(int[]){0,3,2}[mc_choose(3,"class")],r0=1+mc_choose(2,"start rank"),mr=2+mc_choose(2,"maximum rank"),kick=1+mc_choose(2,"kick"); mc_shard(); int tr=mc_choose(3,"true rank"),kf=2+mc_choose(2,"folds"),fin=mc_choose(2,"finalize"),res=mc_choose(2,"restricted"); 
    RO o; static RT truth; rt_make(&truth,d,tr==0?0:tr==1?1:5,cs,0,0,PGEN); ro_make(&o,d,cs,0,0); mc_key("%s %s d%d r%d mr%d kick%d%s",type==ALS?"als":"aio",FCS[cs],d,r0,mr,kick,res?" restricted":""); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=(k==0||k==d)?1:r0; int N=24; double*x=malloc(N*d*8),*y=malloc(N*8),*x0=malloc(N*d*8),*y0=malloc(N*8); mkdata(&truth,N,0,x,y,&truth); memcpy(x0,x,N*d*8); memcpy(y0,y,N*8);
    struct FTRegress*R=ft_regress_alloc(d,o.m,rk); ft_regress_set_alg_and_obj(R,type,FTLS); ft_regress_set_seed(R,7); ft_regress_set_adapt(R,1); ft_regress_set_maxrank(R,mr); ft_regress_set_kickrank(R,kick); ft_regress_set_roundtol(R,1e-6); ft_regress_set_kfold(R,kf); ft_regress_set_finalize(R,fin); ft_regress_set_opt_restrict(R,res); ft_regress_set_max_als_sweep(R,2); mc_expect("dim",(int)ft_regress_get_dim(R)==d,"dim");
    struct c3Opt*opt=c3opt_create(BFGS); c3opt_set_maxiter(opt,15); for(int rep=0;rep<2;rep++){ gR=R; gdim=d; rn=0; G.on=1; G.mode=HOOK; hook=rank_hook; struct FunctionTrain*f=ft_regress_run(R,opt,N,x,y); mc_step(); G.on=0; mc_expect("adapt",f!=NULL,"no model"); for(int i=1;i<rn;i++) for(int k=1;k<d;k++){ int a=rseq[i-1][k],b=rseq[i][k],c=a+kick<mr?a+kick:mr; mc_expect("adapt-growth",b==a||b==c||(fin&&i==rn-1&&b<=a),"fit %d changes rank %d from %d to %d, kick %d, maximum %d",i,k,a,b,kick,mr); } for(int k=0;k<=d;k++){ size_t r=function_train_get_rank(f,k); mc_expect("adapt-ranks",k==0||k==d?r==1:r>=1&&(int)r<=mr,"rank %d is %zu, maximum %d",k,r,mr); }
        double s=0,s0=0; for(int i=0;i<N;i++){ double e=y[i]-function_train_eval(f,x+i*d); s+=e*e; s0+=y[i]*y[i]; } mc_expect("adapt-fit",s<=s0*(1+1e-6),"fit worse than the zero model: %g > %g",s,s0); size_t np; double*q=ft_regress_get_params(R,&np),*fq=malloc(np*8); mc_expect("adapt-params",function_train_get_nparams(f)==np,"model and parameters differ in number: %zu %zu",function_train_get_nparams(f),np); function_train_get_params(f,fq); for(size_t i=0;i<np;i++) mc_cmp("adapt-params",q[i],fq[i],0); free(q); free(fq); uint64_t h=mc_h0(); for(int k=0;k<=d;k++) h=mc_hu(h,function_train_get_rank(f,k)); h=mc_hd(h,floor(log10(s+1e-30))); mc_state(h); function_train_free(f); }
    same("adapt-data",x,x0,N*d); same("adapt-data",y,y0,N); ft_regress_free(R); c3opt_free(opt); ro_free(&o); free(x);free(y);free(x0);free(y0);
}
/* observations and parameters multiplied by powers of two: objective and gradient scale exactly, the same steps are taken */
static struct { int run,calls,z[FD],e,type; double*v; int nv,pos; } SC;
static void sc_put(const char*s,double x,double tol){ if(!SC.run){ if(SC.nv%1024==0) SC.v=realloc(SC.v,(SC.nv+1024)*sizeof(double)); SC.v[SC.nv++]=x; } else { mc_expect("s-steps",SC.pos<SC.nv,"more evaluations than at unit scale"); double w=SC.v[SC.pos++]; mc_cmp(s,x,w,tol*(1+fabs(w))); } }
static int sc_hook(struct c3Opt*opt,double*p,double*val)
{
    int core=-1,m=ttot(&G.T,0),o=0; if(SC.type==ALS){ core=(int)G.ro->als_active_core; mc_expect("s-core",core<G.T.d,"core %d",core); m=tnp(&G.T,core,0); sc_put("s-active",core,0); }
    mc_expect("s-nvars",(int)c3opt_get_d(opt)==m,"%zu variables",c3opt_get_d(opt)); int*z=malloc(m*sizeof(int)); for(int k=0;k<G.T.d;k++) if(core<0||core==k) for(int i=0;i<tnp(&G.T,k,0);i++) z[o++]=SC.run?SC.z[k]:0; int e=SC.run?SC.e:0;
    double*q=malloc(m*sizeof(double)),*g=dirty(m); for(int i=0;i<m;i++) sc_put("s-guess",ldexp(p[i],-z[i]),0);
    for(int t=0;t<2;t++){ for(int i=0;i<m;i++) q[i]=t?ldexp(fgen(31+SC.calls,i,m,0),z[i]):p[i]; sc_put("s-objective",ldexp(c3opt_eval(opt,q,NULL),-2*e),1e-12); sc_put("s-objective",ldexp(c3opt_eval(opt,q,g),-2*e),1e-12); for(int i=0;i<m;i++){ sc_put("s-gradient",ldexp(g[i],z[i]-2*e),1e-11); g[i]=7e300; } mc_steps(2); }
    if(SC.calls<2) for(int i=0;i<m;i++) p[i]=ldexp(fgen(11+SC.calls,i,m,1),z[i]); *val=c3opt_eval(opt,p,NULL); SC.calls++; free(q); free(g); free(z); return 0;
}
static void b_scaled(void)
{
    int type=mc_choose(2,"method")?AIO:ALS,d=2+mc_choose(2,"dim"),cs=mc_choose(4,"class"),rp=mc_choose(4,"ranks"); mc_shard(); int wt=mc_choose(2,"weights"),how=mc_choose(4,"where"),e=(int[]){-60,-33,-17,-8,10,24,40}[mc_choose(7,"exponent")],gs=mc_choose(2,"grid"),N=5; if(cs==2&&gs) mc_skip(); if(cs==3&&e<0) mc_skip(); if(cs==3&&how==3) mc_skip();
    memset(&SC,0,sizeof SC); SC.type=type; mc_key("%s %s h%d e%d",type==ALS?"als":"aio",FCS[cs],how,e); static RT T0,T1; double x[5*FD],y[5],w[5]; RO o; rt_make(&T0,d,rp,cs,gs,0,PGEN); T1=T0; SC.e=rt_pow2(&T1,how,e); for(int k=0;k<d;k++) SC.z[k]=how==0?(k==0?e:0):how==1?(k==d-1?e:0):how==2?e:(k%2?-e:e);
    ro_make(&o,d,cs,gs,0); int n=ttot(&T0,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=T0.r[k]; double*p=malloc(n*sizeof(double)); mkdata(&T0,N,wt,x,y,NULL); for(int i=0;i<N;i++) w[i]=0.5+0.25*(i%3);
    for(SC.run=0;SC.run<2;SC.run++){ SC.calls=0; G.T=SC.run?T1:T0; tget(&G.T,0,p); struct FTparam*P=ft_param_alloc(d,o.m,p,rk); if(SC.run) for(int i=0;i<N;i++) y[i]=ldexp(y[i],SC.e); struct RegressOpts*ro=regress_opts_create(d,type,FTLS); if(wt) regress_opts_set_sample_weights(ro,w); if(type==ALS) regress_opts_set_max_als_sweep(ro,2); struct c3Opt*opt=c3opt_create(BFGS);
        G.on=1; G.mode=HOOK; hook=sc_hook; G.ro=ro; G.type=type; struct FunctionTrain*f=c3_regression_run(P,ro,opt,N,x,y); G.on=0; mc_step(); int te=SC.run?SC.e:0; for(int i=0;i<6;i++){ double xx[FD]; tpt(&T0,i,xx); sc_put("s-model",ldexp(function_train_eval(f,xx),-te),1e-12); } function_train_free(f); ft_param_free(P); regress_opts_free(ro); c3opt_free(opt); }
    mc_expect("s-steps",SC.pos==SC.nv,"fewer evaluations than at unit scale"); mc_state(mc_hda(mc_h0(),SC.nv,SC.v)); free(SC.v); free(p); ro_free(&o);
}
/* larger data sets, more sweeps, two fits of different sizes one after the other */
static void b_big(void)
{
    int type=mc_choose(2,"method")?AIO:ALS,d=2+mc_choose(4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int N1=(int[]){16,33,130}[mc_choose(3,"samples")],N2=(int[]){9,70,257}[mc_choose(3,"then")],wt=mc_choose(2,"weights"),sgd=mc_choose(2,"stochastic"),ms=type==ALS?(int[]){2,6}[mc_choose(2,"sweeps")]:1; if(sgd&&(N1>33||N2>70||ms>2||d>3||rp>3)) mc_skip(); if(!mc_thorough&&(rp%3==2||(cs>=4&&cs!=6))) mc_skip(); if(!mc_thorough&&ms==6&&(d>3||N2==257)) mc_skip(); if(!mc_thorough&&d>3&&(N1==130||N2==257)&&(rp>2||wt)) mc_skip();
    RO o; rt_make(&G.T,d,rp,cs,0,0,PGEN); ro_make(&o,d,cs,0,0); mc_key("big %s %s d%d%s",type==ALS?"als":"aio",FCS[cs],d,sgd?" stochastic":""); int n=ttot(&G.T,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=G.T.r[k]; double*p=malloc(n*sizeof(double)); tget(&G.T,0,p); struct FTparam*P=ft_param_alloc(d,o.m,p,rk); G.h=mc_h0(); struct c3Opt*opt=c3opt_create(sgd?SGD:BFGS);
    for(int r=0;r<2;r++){ int N=r?N2:N1; double*x=malloc(N*d*sizeof(double)),*y=malloc(N*sizeof(double)),*w=malloc(N*sizeof(double)); mkdata(&G.T,N,wt,x,y,NULL); for(int i=0;i<N;i++){ w[i]=0.25+0.5*((i*3+1)%4); for(int k=0;k<d;k++) if(i%5==4) x[i*d+k]=G.T.f[k][0].lb+(G.T.f[k][0].ub-G.T.f[k][0].lb)*(((i*7+k*3)%32)/32.0); }
        struct RegressOpts*ro=regress_opts_create(d,type,FTLS); if(wt) regress_opts_set_sample_weights(ro,w); regress_opts_set_max_als_sweep(ro,ms); regress_opts_set_als_conv_tol(ro,1e-30); if(sgd) c3opt_set_sgd_nsamples(opt,N);
        G.on=1; G.mode=ORACLE; G.type=type; G.obj=FTLS; G.lam=0; G.ad=0; G.kris=0; G.N=N; G.x=x; G.y=y; G.w=wt?w:NULL; G.ro=ro; G.calls=0; G.npick=2; G.picks=0; struct FunctionTrain*f=c3_regression_run(P,ro,opt,N,x,y); G.on=0; mc_step();
        if(type==AIO) mc_expect("big-runs",G.calls==1,"%d minimisations",G.calls); else mc_expect("big-sweeps",G.calls==ms*(2*d-2),"%d minimisations in %d sweeps over %d cores",G.calls,ms,d); tcheck("big-model",f,&G.T); tget(&G.T,0,p); for(int i=0;i<n;i++) mc_cmp("big-params",P->params[i],p[i],0); G.h=mc_hda(G.h,n,p); function_train_free(f); regress_opts_free(ro); free(x);free(y);free(w); }
    mc_state(mc_hu(G.h,type*10+cs)); free(p); ft_param_free(P); c3opt_free(opt); ro_free(&o);
}
const mc_driver mc_drivers[]={{"als",b_als,1,3},{"aio",b_aio,1,3},{"objectives",b_objs,1,3},{"cross-validation",b_cv,1,3},{"grid-search",b_grid,1,3},{"fit",b_fit,1,3},{"adapt",b_adapt,1,3},{"kick",b_kick,1,3},{"scaled",b_scaled,1,3},{"big",b_big,1,3},{0}};
