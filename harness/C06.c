/* C06: cross approximation recovers low-rank functions; cross index sets. */
#include "mc.h"
#include "lib_clinalg.h"
#include "ft.h"
#include "approximate.h"
#include "indmanage.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *mc_property="C06";
#define MD 5
/* ---------- target functions ---------- */
typedef struct { int d,kind,ex,r[MD+1]; double lb[MD],ub[MD]; long nev,nout; int nodal[MD]; } T;
static double ph(const T*t,int i,double x){ return (x-t->lb[i])/(t->ub[i]-t->lb[i])+0.5+0.1*i; }
static double ipow(double a,int k){ double r=1; while(k--) r*=a; return r; }
enum { KCHAIN, KSUM, KADD, KCONST, KZERO, KSIGN, NK };
static const char*KN[]={"chain","sum-of-powers","additive","constant","zero","sign-changing"};
static double feval0(const T*t,const double*x)
{
    double s=0,p=1;
    switch(t->kind){
    case KCHAIN: for(int i=0;i+1<t->d;i++){ double q=0; for(int k=0;k<t->r[i+1];k++) q+=(1+0.25*k)*ipow(ph(t,i,x[i]),k)*ipow(ph(t,i+1,x[i+1]),k); p*=q; } return p;
    case KSUM: for(int k=0;k<t->r[1];k++){ p=1-0.2*k; for(int i=0;i<t->d;i++) p*=ipow(ph(t,i,x[i]),k); s+=p; } return s;
    case KADD: for(int i=0;i<t->d;i++){ double y=ph(t,i,x[i]); s+=(i+1)*0.5*y*y-0.3*y; } return s;
    case KCONST: return -2.75;
    case KZERO: return 0;
    default: for(int i=0;i<t->d;i++) p*=ph(t,i,x[i])-0.83; for(int i=0;i<t->d;i++) s+=0.7*ph(t,i,x[i]); return p;
    }
}
static double feval(const T*t,const double*x){ return ldexp(feval0(t,x),t->ex); }
/* exact ranks of the cut between variable i-1 and i */
static int trank(const T*t,int i){ if(i==0||i==t->d) return 1; switch(t->kind){ case KCHAIN: case KSUM: return t->r[t->kind==KSUM?1:i]; case KADD: return 2; case KCONST: case KZERO: return 1; default: return 1; } }
static int fcb(size_t N,const double*x,double*out,void*arg)
{
    T*t=arg; for(size_t j=0;j<N;j++){ for(int i=0;i<t->d;i++){ double e=t->nodal[i]?0:1e-12*(t->ub[i]-t->lb[i]); double v=x[j*t->d+i]; if(!(v>=t->lb[i]-e&&v<=t->ub[i]+e)) mc_fail("domain","black box evaluated at coordinate %d = %.17g outside [%g,%g]",i,v,t->lb[i],t->ub[i]); } out[j]=feval(t,x+j*t->d); } t->nev+=N; return 0;
}
static double fcb1(const double*x,void*arg){ double o; fcb(1,x,&o,arg); return o; }
/* ---------- univariate spaces ---------- */
enum { CLIN, CCON, CLEG, CMIX, CPW, NCL };
static const char*CN[]={"linelm","constelm","legendre","mixed","piecewise"};
#define NN 7
static const double GN[2][NN]={{0,0.11,0.29,0.5,0.62,0.83,1},{0,0.23,0.31,0.55,0.71,0.9,1}};
static int ccls(int cs,int k){ static const int m[MD]={CLIN,CLEG,CCON,CLEG,CLIN}; return cs==CMIX?m[k]:cs; }
typedef struct { int d,cls[MD]; struct OneApproxOpts*o[MD]; void*u[MD]; double x[MD][NN]; int n[MD]; struct c3Vector*on[MD]; } S;
static void mkspace(S*s,T*t,int cs,int opt)
{
    static const double L[MD]={-1,0.5,-3,0,2},U[MD]={1,2.5,-2.5,1,5}; s->d=t->d;
    for(int k=0;k<t->d;k++){
        t->lb[k]=L[k];t->ub[k]=U[k]; int c=s->cls[k]=ccls(cs,k); t->nodal[k]=(c==CLIN||c==CCON); s->n[k]=NN-(k==1||k==2);
        for(int j=0;j<s->n[k];j++){ double v=GN[k%2][j]; if(j==s->n[k]-1) v=1; s->x[k][j]=v==1?U[k]:L[k]+v*(U[k]-L[k]); }
        if(c==CLIN){ s->u[k]=lin_elem_exp_aopts_alloc(s->n[k],s->x[k]); s->o[k]=one_approx_opts_alloc(LINELM,s->u[k]); }
        else if(c==CCON){ s->u[k]=const_elem_exp_aopts_alloc(s->n[k],s->x[k]); s->o[k]=one_approx_opts_alloc(CONSTELM,s->u[k]); }
        else if(c==CLEG){ struct OpeOpts*o=ope_opts_alloc(LEGENDRE); ope_opts_set_lb(o,L[k]);ope_opts_set_ub(o,U[k]); ope_opts_set_start(o,8); ope_opts_set_maxnum(o,12); ope_opts_set_coeffs_check(o,1); ope_opts_set_tol(o,1e-14); s->u[k]=o; s->o[k]=one_approx_opts_alloc(POLYNOMIAL,o); }
        else { struct PwPolyOpts*o=pw_poly_opts_alloc(LEGENDRE,L[k],U[k]); pw_poly_opts_set_nregions(o,2); pw_poly_opts_set_maxorder(o,7); pw_poly_opts_set_coeffs_check(o,1); pw_poly_opts_set_tol(o,1e-13); pw_poly_opts_set_minsize(o,0.1); s->u[k]=o; s->o[k]=one_approx_opts_alloc(PIECEWISE,o); }
        s->on[k]=opt?c3vector_alloc(opt==1?s->n[k]:s->n[k]-1,opt==1?s->x[k]:s->x[k]+1):NULL;
    }
}
static void rmspace(S*s){ for(int k=0;k<s->d;k++){ if(s->cls[k]==CLIN) lin_elem_exp_aopts_free(s->u[k]); else if(s->cls[k]==CCON) const_elem_exp_aopts_free(s->u[k]); else if(s->cls[k]==CLEG) ope_opts_free(s->u[k]); else pw_poly_opts_free(s->u[k]); one_approx_opts_free(s->o[k]); c3vector_free(s->on[k]); } }
static void check_shape(const char*site,struct FunctionTrain*ft,const T*t)
{
    mc_expect(site,ft!=NULL,"no train"); mc_expect(site,(int)function_train_get_dim(ft)==t->d,"dimension"); mc_expect(site,ft->ranks[0]==1&&ft->ranks[t->d]==1,"end ranks");
    for(int k=0;k<t->d;k++) mc_expect(site,ft->cores[k]&&ft->cores[k]->nrows==ft->ranks[k]&&ft->cores[k]->ncols==ft->ranks[k+1],"core %d shape",k);
}
/* all lattice points of the nodes (3 to 4 per dimension) plus, for polynomial variables, off-node points */
static void check_vals(const char*site,struct FunctionTrain*ft,const T*t,const S*s,double tol)
{
    int m[MD]; double px[MD][4]; for(int k=0;k<t->d;k++){ int n=s->n[k]; m[k]=t->d>3?3:4; px[k][0]=s->x[k][0]; px[k][1]=s->x[k][n-1]; px[k][2]=s->x[k][2]; px[k][3]=s->x[k][n-2]; if(!t->nodal[k]) px[k][2]+=0.07*(t->ub[k]-t->lb[k]); }
    int tot=1; for(int k=0;k<t->d;k++) tot*=m[k]; double mx=0; for(int q=0;q<tot;q++){ double x[MD]; int r=q; for(int k=0;k<t->d;k++){ x[k]=px[k][r%m[k]]; r/=m[k]; } double f=fabs(feval(t,x)); if(f>mx) mx=f; }
    if(mx==0) mx=1;
    for(int q=0;q<tot;q++){ double x[MD]; int r=q; for(int k=0;k<t->d;k++){ x[k]=px[k][r%m[k]]; r/=m[k]; } mc_cmp(site,function_train_eval(ft,x)/mx,feval(t,x)/mx,tol); mc_step(); }
}
static struct Fwrap*mkfw(T*t,int sc){ struct Fwrap*fw=fwrap_create(t->d,"general-vec"); if(sc){ fwrap_destroy(fw); fw=fwrap_create(t->d,"general"); fwrap_set_f(fw,fcb1,t); } else fwrap_set_fvec(fw,fcb,t); return fw; }
/* requested rank profiles relative to the exact ranks */
static void setkind(T*t,int kind,int rp){ static const int P[5][MD+1]={{1,1,1,1,1,1},{1,2,2,2,2,1},{1,3,2,3,2,1},{1,2,3,2,3,1},{1,3,3,3,3,1}}; t->kind=kind; for(int k=0;k<=t->d;k++) t->r[k]=(k==0||k==t->d)?1:P[rp][k]; }
static int nrp(int kind){ return kind==KCHAIN?5:kind==KSUM?3:1; }
static int srp(int kind,int c){ static const int m[3]={0,1,4}; return kind==KSUM?m[c]:c; }
/* starting nodes: mode 0 NULL, 1 first nodes of the grid, 2 last nodes reversed, 3 interior polynomial-friendly points */
static double **mkstart(const T*t,const S*s,int mode){ if(!mode) return NULL; double**st=malloc(t->d*sizeof(double*)); for(int k=0;k<t->d;k++){ st[k]=malloc(5*8); for(int j=0;j<5;j++) st[k][j]= mode==1?s->x[k][j]:mode==2?s->x[k][s->n[k]-1-j]:t->lb[k]+(0.9-0.2*j)*(t->ub[k]-t->lb[k]); } return st; }
static void rmstart(const T*t,double**st){ if(st){ for(int k=0;k<t->d;k++) free(st[k]); free(st); } }
static void d_fixed(void)
{
    T t; S s; memset(&t,0,sizeof t); int cs=mc_choose(NCL,"class"); t.d=2+mc_choose(mc_thorough?4:3,"dim"); int kind=mc_choose(NK,"kind"); setkind(&t,kind,srp(kind,mc_choose(nrp(kind),"rank profile")));
    if(cs==CPW&&t.d>3) mc_skip();
    mc_shard(); int extra=mc_choose(3,"extra rank"), st=mc_choose(4,"start"), opt=mc_choose(3,"optnodes"), mi=mc_choose(3,"maxiter");
    if(opt==2&&extra) mc_skip(); /* candidate points must resolve the space when the rank is over-specified */
    mkspace(&s,&t,cs,opt); mc_note("%s %s d=%d extra=%d start=%d opt=%d maxiter=%d",CN[cs],KN[kind],t.d,extra,st,opt,1+2*mi);
    struct C3Approx*a=c3approx_create(CROSS,t.d); for(int k=0;k<t.d;k++){ c3approx_set_approx_opts_dim(a,k,s.o[k]); if(opt) c3approx_set_opt_opts_dim(a,k,s.on[k]); }
    mc_expect("get-dim",(int)c3approx_get_dim(a)==t.d&&multi_approx_opts_get_dim(c3approx_get_approx_args(a))==(size_t)t.d,"dimension");
    double**start=mkstart(&t,&s,st); size_t rk[MD+1]; int hom=1; for(int k=0;k<=t.d;k++){ int r=trank(&t,k); rk[k]=(k==0||k==t.d)?1:r+(extra==2?k%2:extra); if(k>1&&k<t.d&&rk[k]!=rk[1]) hom=0; }
    if(hom) c3approx_init_cross(a,rk[1],0,start); else c3approx_init_cross_het(a,rk,0,start);
    c3approx_set_cross_maxiter(a,1+2*mi); c3approx_set_cross_tol(a,mi==1?1e-3:1e-10);
    struct Fwrap*fw=mkfw(&t,t.d==2); struct FunctionTrain*ft=c3approx_do_cross(a,fw,0); mc_step(); check_shape("shape",ft,&t);
    for(int k=0;k<=t.d;k++) mc_expect("ranks",ft->ranks[k]==rk[k],"rank %d is %zu, requested %zu",k,ft->ranks[k],rk[k]);
    check_vals("recover",ft,&t,&s,1e-9);
    if(cs==CLIN||cs==CCON){ long per=0; for(int k=0;k<t.d;k++) per+=2*rk[k]*rk[k+1]*s.n[k]; mc_expect("iterations",t.nev<=per*(1+2*mi),"%ld evaluations for %d iterations of %ld",t.nev,1+2*mi,per); }
    uint64_t h=mc_h0(); h=mc_hu(h,cs*100+t.d*10+kind); for(int k=0;k<=t.d;k++) h=mc_hu(h,rk[k]*16+t.r[k]); h=mc_hu(h,st*27+opt*9+mi); mc_state(h);
    function_train_free(ft); fwrap_destroy(fw); c3approx_destroy(a); rmstart(&t,start); rmspace(&s);
}
static void d_adapt(void)
{
    T t; S s; memset(&t,0,sizeof t); int cs=mc_choose(NCL,"class"); t.d=2+mc_choose(mc_thorough?4:3,"dim"); int kind=mc_choose(NK,"kind"); setkind(&t,kind,srp(kind,mc_choose(nrp(kind),"rank profile")));
    if(cs==CPW&&t.d>3) mc_skip();
    mc_shard(); int r0=1+mc_choose(3,"start rank"), kick=1+mc_choose(3,"kick"), mxr=mc_choose(3,"max rank"), st=mc_choose(2,"start"), rt=mc_choose(3,"round tol");
    int mr=mxr==0?5:mxr==1?4:2; if(mr<r0) mc_skip();
    mkspace(&s,&t,cs,st); mc_note("%s %s d=%d rank0=%d kick=%d maxrank=%d start=%d roundtol=%d",CN[cs],KN[kind],t.d,r0,kick,mr,st,rt);
    struct C3Approx*a=c3approx_create(CROSS,t.d); for(int k=0;k<t.d;k++){ c3approx_set_approx_opts_dim(a,k,s.o[k]); if(st) c3approx_set_opt_opts_dim(a,k,s.on[k]); }
    double**start=mkstart(&t,&s,st); c3approx_init_cross(a,r0,0,start); c3approx_set_adapt_kickrank(a,kick); c3approx_set_adapt_maxrank_all(a,mr); c3approx_set_round_tol(a,rt==1?1e-9:1e-12); c3approx_set_cross_maxiter(a,3); if(rt==2) c3approx_set_cross_tol(a,0.1); /* looser than the rounding, set last */
    struct Fwrap*fw=mkfw(&t,0); struct FunctionTrain*ft=c3approx_do_cross(a,fw,1); mc_step(); check_shape("adapt-shape",ft,&t);
    int enough=1,tight=1; for(int k=1;k<t.d;k++){ if(trank(&t,k)>mr) enough=0; }
    for(int k=1;k<t.d;k++){ mc_expect("adapt-max",(int)ft->ranks[k]<=mr,"rank %d is %zu, limit %d",k,ft->ranks[k],mr); }
    (void)tight;
    if(enough){ check_vals("adapt-recover",ft,&t,&s,1e-7); for(int k=1;k<t.d;k++) mc_expect("adapt-rank",(int)ft->ranks[k]==trank(&t,k),"rank %d is %zu, exact rank %d",k,ft->ranks[k],trank(&t,k)); }
    uint64_t h=mc_h0(); h=mc_hu(h,cs*100+t.d*10+kind); for(int k=0;k<=t.d;k++) h=mc_hu(h,ft->ranks[k]*16+t.r[k]); mc_state(h);
    function_train_free(ft); fwrap_destroy(fw); c3approx_destroy(a); rmstart(&t,start); rmspace(&s);
}
/* histories on one approximation object */
static void d_hist(void)
{
    T t1,t2; S s; memset(&t1,0,sizeof t1); memset(&t2,0,sizeof t2); int cs=mc_choose(mc_thorough?4:2,"class"); if(!mc_thorough&&cs) cs=CMIX; t1.d=t2.d=2+mc_choose(mc_thorough?3:2,"dim"); mkspace(&s,&t1,cs,0); mkspace(&s,&t2,cs,0); setkind(&t1,KCHAIN,2); setkind(&t2,KADD,1); if(mc_choose(2,"second function")) setkind(&t2,KSUM,4);
    struct C3Approx*a=c3approx_create(CROSS,t1.d); for(int k=0;k<t1.d;k++) c3approx_set_approx_opts_dim(a,k,s.o[k]);
    size_t rk[MD+1]; int known=0,mi=5; struct Fwrap*f1=mkfw(&t1,0),*f2=mkfw(&t2,1); struct FunctionTrain*res[8]; int nres=0; T*rt[8]; int full[8]; int depth=mc_thorough?5:4, inited=0, mr=0; uint64_t h=mc_h0(); h=mc_hu(h,cs*8+t1.d);
    for(int st=0;st<depth;st++){
        int op= st==0?mc_choose(3,"init"):mc_choose(9,"op"); if(st==1) mc_shard(); h=mc_hu(h,op);
        if(op<3){ for(int k=0;k<=t1.d;k++) rk[k]=(k==0||k==t1.d)?1:op==0?3:op==1?2:2+k%2; if(op<2) c3approx_init_cross(a,rk[1],0,NULL); else c3approx_init_cross_het(a,rk,0,NULL); known=1; inited=1; mr=0; mi=5; c3approx_set_adapt_maxrank_all(a,5); mr=5; c3approx_set_round_tol(a,1e-10); c3approx_set_adapt_kickrank(a,1); }
        else if(op==3||op==5){ T*t=op==3?&t1:&t2; struct FunctionTrain*ft=c3approx_do_cross(a,op==3?f1:f2,0); check_shape("hist-shape",ft,t); int ok=1; for(int k=0;k<=t->d;k++){ if(known) mc_expect("hist-ranks",ft->ranks[k]==rk[k],"rank %d is %zu, requested %zu",k,ft->ranks[k],rk[k]); if((int)ft->ranks[k]<trank(t,k)) ok=0; } full[nres]=ok; rt[nres]=t; res[nres++]=ft; }
        else if(op==4||op==6){ T*t=op==4?&t1:&t2; struct FunctionTrain*ft=c3approx_do_cross(a,op==4?f1:f2,1); known=0; check_shape("hist-shape",ft,t); for(int k=1;k<t->d;k++) mc_expect("hist-max",(int)ft->ranks[k]<=mr,"rank %d is %zu, limit %d",k,ft->ranks[k],mr); full[nres]=1; for(int k=1;k<t->d;k++) mc_expect("hist-adapt-rank",(int)ft->ranks[k]==trank(t,k),"rank %d is %zu, exact rank %d",k,ft->ranks[k],trank(t,k)); rt[nres]=t; res[nres++]=ft; }
        else if(op==7){ mi=mi==5?2:5; c3approx_set_cross_maxiter(a,mi); c3approx_set_verbose(a,0); }
        else { c3approx_set_cross_tol(a,1e-6); mr=4; c3approx_set_adapt_maxrank_all(a,4); c3approx_set_adapt_kickrank(a,2); }
        mc_step(); for(int i=0;i<nres;i++) if(full[i]) check_vals("hist-recover",res[i],rt[i],&s,1e-7);
    }
    (void)inited; mc_state(h); for(int i=0;i<nres;i++) function_train_free(res[i]); fwrap_destroy(f1); fwrap_destroy(f2); c3approx_destroy(a); rmspace(&s);
}
/* the lower-level interface: FtCrossArgs, copies, per-cut limits, reference train, fibres only */
static void d_args(void)
{
    T t; S s; memset(&t,0,sizeof t); int cs=mc_choose(4,"class"); t.d=2+mc_choose(3,"dim"); mkspace(&s,&t,cs,1); setkind(&t,mc_choose(2,"kind")?KADD:KCHAIN,2+mc_choose(2,"rp"));
    mc_shard(); int cp=mc_choose(2,"copy"), ad=mc_choose(3,"adaptation"), mi=mc_choose(4,"maxind"), sr=1+mc_choose(2,"rank"); mc_note("%s %s d=%d copy=%d ad=%d maxind=%d rank=%d",CN[cs],KN[t.kind],t.d,cp,ad,mi,sr);
    struct MultiApproxOpts*m=multi_approx_opts_alloc(t.d); for(int k=0;k<t.d;k++) multi_approx_opts_set_dim(m,k,s.o[k]);
    struct FiberOptArgs*fo=mc_choose(2,"fiber opts")?fiber_opt_args_bf(t.d,s.on):fiber_opt_args_init(t.d);
    struct FtCrossArgs*fa=ft_cross_args_alloc(t.d,sr); int lim[MD],tight=0; ft_cross_args_set_maxrank_all(fa,5); for(int k=0;k+1<t.d;k++){ lim[k]=5; if(mi){ int cut=mi==2?k>0:mi==3?k+2<t.d||t.d==2:0; lim[k]=mi==1?trank(&t,k+1):cut?trank(&t,k+1)-1:5; if(cut&&ad) tight=1; if(lim[k]<sr) lim[k]=sr; ft_cross_args_set_maxrank_ind(fa,lim[k],k); } }
    ft_cross_args_set_kickrank(fa,2); ft_cross_args_set_round_tol(fa,1e-10); ft_cross_args_set_maxiter(fa,4); ft_cross_args_set_cross_tol(fa,1e-9); if(ad==0) ft_cross_args_set_no_adaptation(fa); if(ad==2){ ft_cross_args_set_no_adaptation(fa); ft_cross_args_set_adaptation(fa); } if(ad==0) for(int k=1;k<t.d;k++) ft_cross_args_set_rank(fa,k,trank(&t,k));
    struct FtCrossArgs*fb=NULL; if(cp){ fb=ft_cross_args_copy(fa); if(cp==1){ ft_cross_args_set_maxrank_all(fa,1); ft_cross_args_set_round_tol(fa,0.9); ft_cross_args_set_rank(fa,1,1); ft_cross_args_free(fa); fa=fb; fb=NULL; } }
    size_t*rk=ft_cross_args_get_ranks(fa); mc_expect("args-ranks",(int)rk[1]==(ad==0?trank(&t,1):sr)||t.d==1,"rank 1 is %zu",rk[1]);
    struct CrossIndex*isl[MD],*isr[MD]; double**st=mkstart(&t,&s,2); cross_index_array_initialize(t.d,isr,0,1,rk,(void**)st,8); cross_index_array_initialize(t.d,isl,0,0,rk+1,(void**)st,8);
    struct FunctionTrain*ref=function_train_constant(1.0,m); struct Fwrap*fw=mkfw(&t,0);
    struct FunctionTrain*ft=ftapprox_cross_rankadapt(fw,fa,isl,isr,m,fo,ref); mc_step(); check_shape("args-shape",ft,&t);
    for(int k=1;k<t.d;k++){ mc_expect("args-rank",tight||(int)ft->ranks[k]==trank(&t,k),"rank %d is %zu, exact %d",k,ft->ranks[k],trank(&t,k)); if(ad) mc_expect("args-limit",(int)ft->ranks[k]<=lim[k-1],"rank %d above its limit",k); }
    if(!tight) check_vals("args-recover",ft,&t,&s,1e-7);
    /* the reference train is only read */
    { double x[MD]; for(int k=0;k<t.d;k++) x[k]=s.x[k][1]; mc_cmp("args-ref",function_train_eval(ref,x),1,1e-12); }
    for(int k=0;k<t.d;k++){ if(k<t.d-1) mc_expect("isr-size",isr[k]->n>=ft->ranks[k+1]&&isr[k]->d==(size_t)(t.d-1-k),"right index set %d",k); if(k) mc_expect("isl-size",isl[k]->n>=ft->ranks[k]&&isl[k]->d==(size_t)k,"left index set %d",k); }
    uint64_t h=mc_h0(); h=mc_hu(h,cs*64+t.d*8+ad*2+cp); for(int k=0;k<=t.d;k++) h=mc_hu(h,ft->ranks[k]); mc_state(h);
    function_train_free(ft); function_train_free(ref); fwrap_destroy(fw); for(int k=0;k<t.d;k++){ cross_index_free(isl[k]); cross_index_free(isr[k]); } rmstart(&t,st); ft_cross_args_free(fa); fiber_opt_args_free(fo); multi_approx_opts_free(m); rmspace(&s);
}
/* ---------- index sets ---------- */
#define IN 12
typedef struct { int d,n; double v[64][IN]; } M;     /* model: list of vectors */
static int esz; /* element type: 0 double 1 size_t 2 int */
static void enc(int k,const double*v,void*o){ for(int i=0;i<k;i++){ if(esz==0) ((double*)o)[i]=v[i]; else if(esz==1) ((size_t*)o)[i]=(size_t)v[i]; else ((int*)o)[i]=(int)v[i]; } }
static size_t es(void){ return esz==2?sizeof(int):8; }
static double dec(const void*p,int i){ return esz==0?((const double*)p)[i]:esz==1?(double)((const size_t*)p)[i]:((const int*)p)[i]; }
static void ckix(const char*site,struct CrossIndex*c,const M*m)
{
    mc_expect(site,c!=NULL,"NULL index"); mc_expect(site,(int)c->d==m->d&&(int)c->n==m->n,"%zu nodes of dimension %zu, expected %d of %d",c->n,c->d,m->n,m->d);
    for(int i=0;i<m->n;i++){ size_t n=99; void*p=cross_index_get_node_value(c,i,&n); mc_expect(site,(int)n==m->d,"node %d has %zu entries",i,n); for(int k=0;k<m->d;k++) mc_expect(site,dec(p,k)==m->v[i][k],"node %d entry %d is %g, expected %g",i,k,dec(p,k),m->v[i][k]); } mc_step();
}
static void *pack(int n,const double*v){ char*b=malloc(n*es()); enc(n,v,b); return b; }
static void mknode(M*m,int i,int s){ for(int k=0;k<m->d;k++) m->v[i][k]=1+(i*7+k*3+s*5)%11; }
static struct CrossIndex*mkix(M*m,int d,int n,int s,int nested){ m->d=d;m->n=n; struct CrossIndex*c=cross_index_alloc(d); for(int i=0;i<n;i++){ mknode(m,i,s); if(nested&&d>1){ int left=nested==1; void*a=pack(d-1,left?m->v[i]+1:m->v[i]),*b=pack(1,left?m->v[i]:m->v[i]+d-1); cross_index_add_nested(c,left,d-1,a,1,b,es()); free(a);free(b); } else { void*a=pack(d,m->v[i]); cross_index_add_index(c,d,a,es()); free(a);} } return c; }
static void d_index(void)
{
    esz=mc_choose(3,"type"); int d=1+mc_choose(3,"d"), n=1+mc_choose(4,"n"), nested=mc_choose(3,"built"); mc_shard(); M m; struct CrossIndex*c=mkix(&m,d,n,0,nested); ckix("index-add",c,&m);
    int op=mc_choose(6,"op"); M r; memset(&r,0,sizeof r); struct CrossIndex*e=NULL;
    if(op==0){ e=cross_index_copy(c); r=m; ckix("index-copy",e,&r); cross_index_copylast(c,2); ckix("index-copy-independent",e,&r); r.n=m.n+2; for(int i=m.n;i<r.n;i++) memcpy(r.v[i],m.v[m.n-1],sizeof r.v[0]); ckix("index-copylast",c,&r); cross_index_copylast(c,0); ckix("index-copylast",c,&r); cross_index_copylast(NULL,3); m=r; r.n-=2; }
    else if(op==1){ int method=mc_choose(3,"method"), left=mc_choose(2,"left"), no=1+mc_choose(5,"options"), sz=1+mc_choose(12,"size"); if(sz>n*no||(method==2&&sz>no)) mc_skip();
        double nv[8]; for(int i=0;i<no;i++) nv[i]=20+3*i; void*p=pack(no,nv); e=cross_index_create_nested(method,left,sz,no,p,c); free(p); r.d=d+1;
        for(int q=0;q<sz;q++){ int io,jo; if(method==1){ io=q/no;jo=q%no; } else if(method==0){ io=q%n;jo=q/n; } else { io=q<n?q:0; jo=q; } if(left){ r.v[q][0]=nv[jo]; memcpy(r.v[q]+1,m.v[io],8*d); } else { memcpy(r.v[q],m.v[io],8*d); r.v[q][d]=nv[jo]; } r.n++; }
        ckix(method==0?"nested-0":method==1?"nested-1":"nested-2",e,&r); }
    else if(op==2){ int left=mc_choose(2,"left"), sz=1+mc_choose(4,"size"); size_t io[4]; double nv[4]; for(int i=0;i<sz;i++){ io[i]=mc_choose(n,"old"); nv[i]=30+i*i; } void*p=pack(sz,nv); e=cross_index_create_nested_ind(left,sz,io,p,c); free(p); r.d=d+1; r.n=sz; for(int q=0;q<sz;q++){ if(left){ r.v[q][0]=nv[q]; memcpy(r.v[q]+1,m.v[io[q]],8*d); } else { memcpy(r.v[q],m.v[io[q]],8*d); r.v[q][d]=nv[q]; } } ckix("nested-ind",e,&r); }
    else if(op==3){ if(esz) mc_skip(); int which=mc_choose(3,"which"), d2=1+mc_choose(2,"d2"), n2=1+mc_choose(3,"n2"); M m2; e=mkix(&m2,d2,n2,2,0); r=m2; struct CrossIndex*L=which==2?NULL:c,*R=which==1?NULL:e; double**v=cross_index_merge_wspace(L,R); int nl=L?m.n:1,nr=R?m2.n:1,dl=L?d:0,dr=R?d2:0;
        for(int i=0;i<nr;i++) for(int j=0;j<nl;j++){ double*x=v[i*nl+j]; for(int k=0;k<dl;k++) mc_expect("merge-wspace",x[k]==m.v[j][k],"left part"); for(int k=0;k<dr;k++) mc_expect("merge-wspace",x[dl+1+k]==m2.v[i][k],"right part"); } for(int q=0;q<nl*nr;q++) free(v[q]); free(v); }
    else if(op==4){ if(esz) mc_skip(); int d2=1+mc_choose(3,"d2"); M m2; e=mkix(&m2,d2,n,2,0); r=m2; double**v=cross_index_merge(c,e); for(int i=0;i<n;i++){ for(int k=0;k<d;k++) mc_expect("merge",v[i][k]==m.v[i][k],"left part"); for(int k=0;k<d2;k++) mc_expect("merge",v[i][d+k]==m2.v[i][k],"right part"); free(v[i]); } free(v); }
    else { int dim=2+mc_choose(4,"dim"), rev=mc_choose(2,"reverse"), rp=mc_choose(4,"ranks"); static const size_t P[4][6]={{1,2,2,2,2,2},{1,3,1,2,4,2},{1,1,2,3,4,3},{1,4,3,2,1,2}}; size_t sz[7]; for(int k=0;k<=dim;k++) sz[k]=(k==0||k==dim)?1:P[rp][k]; void*v[6]; double raw[6][5]; for(int k=0;k<dim;k++){ int len=sz[k]>sz[k+1]?sz[k]:sz[k+1]; for(int j=0;j<5;j++) raw[k][j]=40+k*10+j; v[k]=pack(len,raw[k]); }
        struct CrossIndex*ix[6]; cross_index_array_initialize(dim,ix,0,rev,rev?sz:sz+1,v,es());
        for(int k=0;k<dim;k++){ int null=rev?k==dim-1:k==0; mc_expect("array-init",null==(ix[k]==NULL),"entry %d",k); if(null) continue; M q; memset(&q,0,sizeof q); q.n=rev?sz[k+1]:sz[k]; q.d=rev?dim-1-k:k; for(int j=0;j<q.n;j++) for(int i=0;i<q.d;i++){ int var=rev?k+1+i:i; /* coordinate var of node j: the j-th value while the sets allow it */ int jj=j; if(rev){ /* variable var was attached when the set had sz[var] nodes: nodes beyond an older set reuse its node 0 */ int z=j; for(int w=k+1;w<var;w++){ if(z>=(int)sz[w+1]) z=0; } jj=z; } else { int z=j; for(int w=k-1;w>var;w--){ if(z>=(int)sz[w]) z=0; } jj=z; } q.v[j][i]=raw[var][jj]; } ckix("array-init",ix[k],&q); }
        for(int k=0;k<dim;k++){ cross_index_free(ix[k]); free(v[k]); } struct CrossIndex*nl[6]; cross_index_array_initialize(dim,nl,1,rev,sz,v,es()); for(int k=0;k<dim;k++) mc_expect("array-null",nl[k]==NULL,"entry %d",k); }
    ckix("index-input",c,&m); if(e) ckix("index-out",e,&r); uint64_t h=mc_h0(); h=mc_hu(h,esz*1000+op*100+d*10+n); if(e) for(int i=0;i<r.n;i++) h=mc_hda(h,r.d,r.v[i]); mc_state(h); cross_index_free(c); cross_index_free(e);
}
/* more variables, higher ranks, longer grids: sums of r products of oscillating factors on nodal spaces of 20 nodes */
#define BD6 10
typedef struct { int d,r,n[BD6]; double x[BD6][24]; long nev; } B6;
static double b6fac(int k,int i,double u){ return k==0?1:cos(M_PI*k*(0.85*u+0.02*i))+0.15*sin(2.0*k*u+i); }
static double b6eval(const B6*b,const double*x){ double s=0; for(int k=0;k<b->r;k++){ double p=1-0.1*k; for(int i=0;i<b->d;i++) p*=b6fac(k,i,(x[i]-b->x[i][0])/(b->x[i][b->n[i]-1]-b->x[i][0])); s+=p; } return s; }
static int b6cb(size_t N,const double*x,double*out,void*arg){ B6*b=arg; for(size_t j=0;j<N;j++){ for(int i=0;i<b->d;i++){ int ok=0; for(int q=0;q<b->n[i];q++) ok|=x[j*b->d+i]==b->x[i][q]; if(!ok) mc_fail("big-domain","coordinate %d = %.17g is not a node",i,x[j*b->d+i]); } out[j]=b6eval(b,x+j*b->d); b->nev++; } return 0; }
static void d_big(void)
{
    static const int SHP[][2]={{3,8},{6,2},{6,5},{8,3},{8,6},{10,4}}; B6 b; memset(&b,0,sizeof b); int sh=mc_choose(6,"shape"); b.d=SHP[sh][0]; b.r=SHP[sh][1]; int cls=mc_choose(3,"class"),mode=mc_choose(5,"mode"),var=mc_choose(3,"grid"); if(mode==4&&sh>2) mc_skip(); mc_shard(); mc_note("d=%d rank %d class %d mode %d grid %d",b.d,b.r,cls,mode,var); mc_key("m%d",mode);
    struct C3Approx*a=c3approx_create(CROSS,b.d); struct OneApproxOpts*o[BD6]; void*u[BD6]; int con[BD6]; double*st[BD6],SV[BD6][8];
    for(int k=0;k<b.d;k++){ int n=b.n[k]=var==0?20:17+(k*3+var)%7; double L=-1+0.5*k,W=1+0.25*((k+var)%4); for(int j=0;j<n;j++){ double t=(double)j/(n-1); if(var==2) t=t+0.3*t*(1-t); b.x[k][j]=L+W*t; } con[k]=cls==1||(cls==2&&k%2); if(con[k]){ u[k]=const_elem_exp_aopts_alloc(n,b.x[k]); o[k]=one_approx_opts_alloc(CONSTELM,u[k]); } else { u[k]=lin_elem_exp_aopts_alloc(n,b.x[k]); o[k]=one_approx_opts_alloc(LINELM,u[k]); } c3approx_set_approx_opts_dim(a,k,o[k]); for(int j=0;j<8;j++) SV[k][j]=b.x[k][(j*7+2*k+1)%n]; st[k]=SV[k]; }
    int r0=mode==0?b.r:mode==1?b.r+1:mode==2?2:1; if(r0>8) r0=8; c3approx_init_cross(a,r0,0,st); c3approx_set_cross_maxiter(a,4); c3approx_set_cross_tol(a,1e-12); if(mode>=2){ c3approx_set_adapt_kickrank(a,mode==4?1:mode==2?2:4); c3approx_set_adapt_maxrank_all(a,b.r+4); c3approx_set_round_tol(a,1e-10); }
    struct Fwrap*fw=fwrap_create(b.d,"general-vec"); fwrap_set_fvec(fw,b6cb,&b); struct FunctionTrain*ft=c3approx_do_cross(a,fw,mode>=2); mc_step();
    for(int k=1;k<b.d;k++){ if(mode>=2) mc_expect("big-rank",(int)ft->ranks[k]==b.r,"rank %d is %zu, exact rank %d",k,ft->ranks[k],b.r); else mc_expect("big-rank",(int)ft->ranks[k]==r0,"rank %d is %zu, requested %d",k,ft->ranks[k],r0); }
    for(int q=0;q<200;q++){ double x[BD6]; for(int k=0;k<b.d;k++) x[k]=b.x[k][(q*(2*k+3)+k*k+q/7)%b.n[k]]; mc_cmp("big-recover",function_train_eval(ft,x),b6eval(&b,x),1e-10*(1+b.r)); mc_step(); }
    if(mode==0){ long per=0; for(int k=0;k<b.d;k++) per+=2L*ft->ranks[k]*ft->ranks[k+1]*b.n[k]; mc_expect("big-evals",b.nev<=4*per,"%ld evaluations for 4 iterations of %ld",b.nev,per); }
    mc_state(mc_hu(mc_h0(),sh*100+cls*20+mode*4+var)); function_train_free(ft); fwrap_destroy(fw); c3approx_destroy(a); for(int k=0;k<b.d;k++){ if(con[k]) const_elem_exp_aopts_free(u[k]); else lin_elem_exp_aopts_free(u[k]); one_approx_opts_free(o[k]); }
}
/* the same functions multiplied by a power of two */
static void d_scaled(void)
{
    T t; S s; memset(&t,0,sizeof t); int cs=(int[]){CLIN,CCON,CMIX}[mc_choose(3,"class")]; t.d=2+mc_choose(3,"dim"); int kind=(int[]){KCHAIN,KSUM,KADD,KCONST,KSIGN}[mc_choose(5,"kind")]; setkind(&t,kind,srp(kind,mc_choose(nrp(kind),"rank profile")));
    mc_shard(); int ad=mc_choose(2,"adapt"),st=mc_choose(2,"start"); t.ex=(int[]){-30,-20,-10,14,24,33,60}[mc_choose(7,"exponent")]; if(cs==CMIX&&t.ex<0) mc_skip();
    mkspace(&s,&t,cs,0); mc_note("%s %s d=%d exponent %d",CN[cs],KN[kind],t.d,t.ex); mc_key("%s-%s-e%d",CN[cs],KN[kind],t.ex);
    struct C3Approx*a=c3approx_create(CROSS,t.d); for(int k=0;k<t.d;k++) c3approx_set_approx_opts_dim(a,k,s.o[k]);
    double**start=mkstart(&t,&s,st); size_t rk[MD+1]; for(int k=0;k<=t.d;k++) rk[k]=trank(&t,k)+(k>0&&k<t.d&&st); if(ad){ c3approx_init_cross(a,2,0,start); c3approx_set_adapt_kickrank(a,2); c3approx_set_adapt_maxrank_all(a,5); c3approx_set_round_tol(a,1e-10); } else c3approx_init_cross_het(a,rk,0,start); c3approx_set_cross_maxiter(a,3);
    struct Fwrap*fw=mkfw(&t,t.d==2); struct FunctionTrain*ft=c3approx_do_cross(a,fw,ad); mc_step(); check_shape("scaled-shape",ft,&t); for(int k=1;k<t.d;k++) mc_expect("scaled-rank",(int)ft->ranks[k]==(ad?trank(&t,k):(int)rk[k]),"rank %d is %zu, exact rank %d",k,ft->ranks[k],trank(&t,k)); check_vals("scaled-recover",ft,&t,&s,1e-8);
    uint64_t h=mc_hu(mc_hu(mc_h0(),cs*100+t.d*10+kind),t.ex+100); for(int k=0;k<=t.d;k++) h=mc_hu(h,ft->ranks[k]*16+t.r[k]); mc_state(h); function_train_free(ft); fwrap_destroy(fw); c3approx_destroy(a); rmstart(&t,start); rmspace(&s);
}
const mc_driver mc_drivers[]={{"big",d_big,1,MC_BOTH},{"index",d_index,1,MC_BOTH},{"fixed",d_fixed,1,MC_BOTH},{"adapt",d_adapt,1,MC_BOTH},{"hist",d_hist,1,MC_BOTH},{"args",d_args,1,MC_BOTH},{"scaled",d_scaled,1,MC_BOTH},{0}};
