/* C12: optimisers and line searches.  Every configuration of algorithm x line search x options x problem x bounds x
 * start is run; the objective itself is the monitor (it sees every point the optimiser evaluates). */
#include "mc.h"
#include "optimization.h"
#include <float.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
const char *mc_property="C12";
#define D 12
enum { QI, QD, QC, Q20, LIN, ROS, QUART, DW, NP };
static const char*PN[]={"quad-id","quad-diag","quad-coupled","quad-19.999","linear","rosenbrock","quartic","doublewell"};
struct prob { int kind; size_t d; double c[D]; double off; double lb[D],ub[D]; int bounded; long nf,ng; int viol; double bad; double best; void*self; long fail_at; };
static double pf(const struct prob*p,const double*x,double*g)
{
    double f=p->off; size_t d=p->d; if(g) for(size_t i=0;i<d;i++) g[i]=0;
    switch(p->kind){
    case QI: for(size_t i=0;i<d;i++){ double r=x[i]-p->c[i]; f+=0.5*r*r; if(g) g[i]=r; } break;
    case QD: for(size_t i=0;i<d;i++){ double r=x[i]-p->c[i],w=1+3.0*i; f+=0.5*w*r*r; if(g) g[i]=w*r; } break;
    case QC: for(size_t i=0;i<d;i++){ double r=x[i]-p->c[i]; f+=r*r; if(g) g[i]+=2*r; if(i+1<d){ double s=x[i+1]-p->c[i+1]; f+=0.7*r*s; if(g){ g[i]+=0.7*s; g[i+1]+=0.7*r; } } } break;
    case Q20: for(size_t i=0;i<d;i++){ double r=x[i]-p->c[i]; f+=0.5*19.999*r*r; if(g) g[i]=19.999*r; } break;
    case LIN: for(size_t i=0;i<d;i++){ double w=(i%2?-1.0:1.0)*(1+i); f+=w*x[i]; if(g) g[i]=w; } break;
    case ROS: if(d==1){ double r=x[0]-1; f+=r*r; if(g) g[0]=2*r; } for(size_t i=0;i+1<d;i++){ double a=x[i+1]-x[i]*x[i],b=1-x[i]; f+=100*a*a+b*b; if(g){ g[i]+=-400*a*x[i]-2*b; g[i+1]+=200*a; } } break;
    case QUART: for(size_t i=0;i<d;i++){ double r=x[i]-p->c[i]; f+=r*r*r*r+0.1*r*r; if(g) g[i]=4*r*r*r+0.2*r; } break;
    case DW: for(size_t i=0;i<d;i++){ double r=x[i]; f+=(r*r-1)*(r*r-1)+0.3*r; if(g) g[i]=4*r*(r*r-1)+0.3; } break;
    }
    return f;
}
static int isquad(int k){ return k==QI||k==QD||k==QC||k==Q20; }
static double obj(size_t d,const double*x,double*g,void*a)
{
    struct prob*p=a; if(p->self!=p||d!=p->d) mc_fail("callback-args","objective called with other arguments");
    p->nf++; if(g) p->ng++;
    if(p->bounded) for(size_t i=0;i<d;i++) if(!(x[i]>=p->lb[i]&&x[i]<=p->ub[i])){ p->viol=1; p->bad=x[i]; }
    if(p->nf>400000) mc_fail("runaway","more than 4e5 objective evaluations"); double f=pf(p,x,g); if(f<p->best) p->best=f; return f;
}
static void mkprob(struct prob*p,int kind,size_t d,int cpat,int off,int bnd)
{
    memset(p,0,sizeof *p); p->kind=kind; p->d=d; p->self=p; p->off=off==0?0:off==1?2.5:-7; p->best=1e300;
    for(size_t i=0;i<d;i++){ p->c[i]=cpat==0?0.3-0.4*i:cpat==1?-0.8+0.5*i:0; p->lb[i]=bnd==1?-5:bnd==2?-1.0-0.1*i:0.25; p->ub[i]=bnd==1?6:bnd==2?(i==0?0.1:0.9):1.5; } p->bounded=bnd!=0;
}
static void mkstart(const struct prob*p,int sp,double*x)
{ for(size_t i=0;i<p->d;i++){ double lo=p->bounded?p->lb[i]:-2,hi=p->bounded?p->ub[i]:2; x[i]=sp==0?lo+(hi-lo)*0.3:sp==1?lo+(hi-lo)*(i%2?0.9:0.55):sp==2?(i%2?hi:lo):(p->kind==ROS?1:p->c[i]); if(p->bounded){ if(x[i]<lo) x[i]=lo; if(x[i]>hi) x[i]=hi; } } }
/* minimiser of a separable convex quadratic / linear problem in a box */
static int known_min(const struct prob*p,double*xs)
{
    if(p->kind==QI||p->kind==QD||p->kind==Q20||p->kind==QUART){ for(size_t i=0;i<p->d;i++){ xs[i]=p->c[i]; if(p->bounded){ if(xs[i]<p->lb[i]) xs[i]=p->lb[i]; if(xs[i]>p->ub[i]) xs[i]=p->ub[i]; } } return 1; }
    if(p->kind==QC){ for(size_t i=0;i<p->d;i++){ xs[i]=p->c[i]; if(p->bounded&&(xs[i]<p->lb[i]||xs[i]>p->ub[i])) return p->d==1?(xs[i]=xs[i]<p->lb[i]?p->lb[i]:p->ub[i],1):0; } return 1; }
    if(p->kind==LIN&&p->bounded){ for(size_t i=0;i<p->d;i++) xs[i]=i%2?p->ub[i]:p->lb[i]; return 1; }
    return 0;
}
static int interior(const struct prob*p,const double*xs){ if(!p->bounded) return 1; for(size_t i=0;i<p->d;i++) if(xs[i]<=p->lb[i]||xs[i]>=p->ub[i]) return 0; return 1; }
static struct c3Opt *mkopt(int alg,size_t d,int create)
{ struct c3Opt*o; if(create){ o=c3opt_create(alg); c3opt_set_nvars(o,d); } else o=c3opt_alloc(alg,d); return o; }
static const char*SI(const char*a,int alg,int ls){ static char b[256][40]; static int n; char t[40]; snprintf(t,40,"%s:%s/%s",a,alg==BFGS?"bfgs":alg==LBFGS?"lbfgs":"grad",ls==BACKTRACK?"bt":ls==STRONGWOLFE?"sw":"ww"); for(int i=0;i<n;i++) if(!strcmp(b[i],t)) return b[i]; if(n>=256) return a; strcpy(b[n],t); return b[n++]; }
static void run_and_check(struct c3Opt*o,struct prob*p,int alg,int ls,size_t maxit,double*x,int stored)
{
    size_t d=p->d; double f0=pf(p,x,NULL),xs0[D]; memcpy(xs0,x,d*8); double val=-123; p->nf=p->ng=0; p->viol=0; p->best=1e300;
    int ret=c3opt_minimize(o,x,&val); mc_steps(p->nf);
    mc_expect(SI("in-bounds",alg,ls),!p->viol,"objective evaluated at coordinate %.17g outside the bounds",p->bad);
    for(size_t i=0;i<d;i++) mc_expect(SI("x-in-bounds",alg,ls),isfinite(x[i])&&(!p->bounded||(x[i]>=p->lb[i]&&x[i]<=p->ub[i])),"x[%zu]=%.17g",i,x[i]);
    double fx=pf(p,x,NULL); mc_expect(SI("fval",alg,ls),fx==val,"reported %.17g but f(x)=%.17g",val,fx);
    mc_expect(SI("descent",alg,ls),val<=f0+1e-7*(1+fabs(f0)),"f went from %.17g to %.17g",f0,val);
    mc_expect(SI("nevals",alg,ls),c3opt_get_nevals(o)==(size_t)p->nf,"reported %zu evaluations, %ld made",c3opt_get_nevals(o),p->nf);
    mc_expect(SI("ngvals",alg,ls),c3opt_get_ngvals(o)==(size_t)p->ng,"reported %zu gradients, %ld made",c3opt_get_ngvals(o),p->ng);
    size_t ni=c3opt_get_niters(o); mc_expect(SI("niters",alg,ls),ni>=1&&ni<=maxit+2,"%zu iterations with limit %zu",ni,maxit);
    mc_expect(SI("ret",alg,ls),ret==C3OPT_MAXITER_REACHED||ret>=0,"return code %d",ret);
    if(ret==C3OPT_MAXITER_REACHED) mc_expect(SI("ret-maxiter",alg,ls),ni>=maxit,"reports the iteration limit %zu after %zu",maxit,ni); else if(alg==BATCHGRAD) mc_expect(SI("ret-conv",alg,ls),ni<=maxit+1,"%zu iterations",ni);
    if(stored){
        mc_expect(SI("stored-first",alg,ls),c3opt_get_stored_function(o,0)==f0,"stored[0]=%.17g f0=%.17g",c3opt_get_stored_function(o,0),f0);
        mc_expect(SI("stored-last",alg,ls),c3opt_get_stored_function(o,ni-1)==val,"stored last=%.17g fval=%.17g",c3opt_get_stored_function(o,ni-1),val);
        for(size_t k=1;k<ni;k++) mc_expect(SI("stored-mono",alg,ls),c3opt_get_stored_function(o,k)<=c3opt_get_stored_function(o,k-1)+1e-7*(1+fabs(f0)),"iteration %zu raised f from %.17g to %.17g",k,c3opt_get_stored_function(o,k-1),c3opt_get_stored_function(o,k));
        if(ret==C3OPT_FTOL_REACHED&&ni>1){ double a=c3opt_get_stored_function(o,ni-1),b=c3opt_get_stored_function(o,ni-2),df=fabs(a-b); if(fabs(b)>1e-10) df/=fabs(b); mc_expect(SI("ret-ftol",alg,ls),df<=1e-9,"reports f-convergence with relative change %g",df); }
        if(ni<200&&stored==2){ char fn[600]; snprintf(fn,sizeof fn,"%s/o.txt",mc_scratch); FILE*fp=fopen(fn,"w"); c3opt_print_stored_values(o,fp,3,17); fclose(fp); mc_step(); fp=fopen(fn,"r"); char line[256]; mc_expect("print-head",fgets(line,256,fp)!=NULL,"header");
            for(size_t k=0;k<ni;k++){ size_t it; double F,G[D],X[D],gg[D]; int ok=fscanf(fp,"%zu %lf",&it,&F)==2; for(size_t i=0;i<d;i++) ok=ok&&fscanf(fp,"%lf",&G[i])==1; for(size_t i=0;i<d;i++) ok=ok&&fscanf(fp,"%lf",&X[i])==1; mc_expect(SI("print-row",alg,ls),ok&&it==k,"row %zu",k);
                double ff=pf(p,X,gg); mc_expect(SI("print-f",alg,ls),fabs(F-ff)<=1e-12*(1+fabs(ff)),"row %zu: F=%.17g but f(x)=%.17g",k,F,ff); for(size_t i=0;i<d;i++) mc_expect(SI("print-g",alg,ls),fabs(G[i]-gg[i])<=1e-12*(1+fabs(gg[i])),"row %zu: G%zu=%.17g but gradient %.17g",k,i,G[i],gg[i]);
                if(k==0) for(size_t i=0;i<d;i++) mc_expect(SI("print-x0",alg,ls),X[i]==xs0[i],"x0"); if(k==ni-1) for(size_t i=0;i<d;i++) mc_expect(SI("print-xn",alg,ls),X[i]==x[i],"last x"); }
            fclose(fp); remove(fn); }
    }
    double xs[D]; if(maxit>=2000&&known_min(p,xs)&&interior(p,xs)){ double e=0; for(size_t i=0;i<d;i++) e=fmax(e,fabs(x[i]-xs[i])); mc_cmp(SI(p->bounded&&!interior(p,xs)?"minimiser-bnd":"minimiser",alg,ls),e,0,p->kind==QUART?5e-3:1e-4); }
    uint64_t h=mc_hu(mc_hu(mc_h0(),ret+8),ni); mc_state(mc_hda(mc_hu(h,p->kind),d,x));
}
static const int ALG[3]={BFGS,LBFGS,BATCHGRAD};
static void d_min(void)
{
    int alg=ALG[mc_choose(3,"alg")],ls=mc_choose(3,"ls"),kind=mc_choose(NP,"prob"); size_t d=(size_t[]){1,2,3,10}[mc_choose(4,"d")]; mc_shard();
    int bnd=mc_choose(4,"bounds"),sp=mc_choose(4,"start"),cp=mc_choose(2,"c"),off=mc_choose(2,"off");
    static const size_t MI[]={1,2,5,4000}; size_t mi=MI[mc_choose(4,"maxiter")];
    if(kind==LIN&&!bnd) mc_skip();                         /* unbounded below */
    if((kind==ROS||kind==DW||kind==LIN)&&(cp||off)) mc_skip();
    if(kind==ROS&&mi>5&&alg==BATCHGRAD) mi=60;
    struct prob p; mkprob(&p,kind,d,cp,off,bnd); double x[D]; mkstart(&p,sp,x); struct c3Opt*o=mkopt(alg,d,mc_thorough?mc_choose(2,"create"):(sp+(int)d)%2);
    c3opt_add_objective(o,obj,&p); if(bnd){ c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub); } c3opt_ls_set_alg(o,ls); c3opt_set_maxiter(o,mi); c3opt_set_gtol(o,1e-10); c3opt_set_relftol(o,1e-12); c3opt_set_absxtol(o,1e-11);
    if(ls==BACKTRACK){ c3opt_ls_set_alpha(o,0.2); c3opt_ls_set_beta(o,0.5); }
    int st=mi<=5?2:(off?1:0); if(st) c3opt_set_storage_options(o,1,st==2,st==2);
    mc_note("alg=%d ls=%d %s d=%zu bounds=%d start=%d c=%d off=%d maxiter=%zu",alg,ls,PN[kind],d,bnd,sp,cp,off,mi); mc_key("%s:%s",SI("min",alg,ls),PN[kind]);
    run_and_check(o,&p,alg,ls,mi,x,st); c3opt_free(o);
}
/* option combinations: limited memory sizes, scaling, line-search parameters; the same optimiser object used repeatedly, and through copies */
static void d_opts(void)
{
    int alg=ALG[mc_choose(3,"alg")],ls=mc_choose(3,"ls"); int hist=mc_choose(4,"hist"); mc_shard(); int kind=(int[]){QD,QC,ROS,QUART}[mc_choose(4,"prob")]; size_t d=(size_t[]){2,3,9}[mc_choose(3,"d")]; int m=alg==LBFGS?mc_choose(5,"m"):0,sc=alg==LBFGS?mc_choose(2,"scale"):0; int la=mc_choose(2,"alpha"),lb_=mc_choose(2,"beta"),lm=mc_choose(2,"lsmax");
    static const size_t M[]={1,2,3,5,40}; size_t mi=kind==ROS&&alg==BATCHGRAD?40:3000;
    struct prob p; mkprob(&p,kind,d,0,1,mc_choose(2,"bounds")); double x[D]; mkstart(&p,1,x); struct c3Opt*o=mkopt(alg,d,mc_choose(2,"create"));
    c3opt_add_objective(o,obj,&p); if(p.bounded){ c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub); } c3opt_ls_set_alg(o,ls); c3opt_set_maxiter(o,mi); c3opt_set_gtol(o,1e-10); c3opt_set_relftol(o,1e-12); c3opt_set_absxtol(o,1e-11);
    c3opt_ls_set_alpha(o,la?0.3:0.01); c3opt_ls_set_beta(o,ls==BACKTRACK?(lb_?0.8:0.3):(lb_?0.9:0.5)); c3opt_ls_set_maxiter(o,lm?60:500); if(alg==LBFGS){ c3opt_set_nvectors_store(o,M[m]); c3opt_set_lbfgs_scale(o,sc); }
    mc_note("alg=%d ls=%d hist=%d %s d=%zu m=%zu scale=%d",alg,ls,hist,PN[kind],d,M[m],sc); mc_key("%s:%s",SI("opts",alg,ls),PN[kind]);
    double y[D]; memcpy(y,x,8*d);
    if(hist==1||hist==3){ struct c3Opt*c=c3opt_copy(o); mc_step(); c3opt_free(o); o=c;
        mc_expect("copy-opts",c3opt_get_maxiter(o)==mi&&c3opt_ls_get_alg(o)==(enum c3opt_ls_alg)ls&&c3opt_ls_get_alpha(o)==(la?0.3:0.01)&&c3opt_ls_get_beta(o)==(ls==BACKTRACK?(lb_?0.8:0.3):(lb_?0.9:0.5))&&c3opt_ls_get_maxiter(o)==(size_t)(lm?60:500)&&!c3opt_is_bruteforce(o)&&!c3opt_is_sgd(o),"options lost by copying");
        if(alg==LBFGS) mc_expect("copy-lbfgs",c3opt_get_nvectors_store(o)==M[m]&&c3opt_get_lbfgs_scale(o)==sc,"limited-memory options lost by copying");
        if(p.bounded) mc_expect("copy-bounds",!memcmp(c3opt_get_lb(o),p.lb,8*d)&&!memcmp(c3opt_get_ub(o),p.ub,8*d),"bounds lost by copying"); }
    if(hist>=2){ double v; c3opt_minimize(o,y,&v); mc_step(); memcpy(y,x,8*d); double y2[D]; mkstart(&p,0,y2); c3opt_minimize(o,y2,&v); mc_step(); }   /* earlier runs leave no trace */
    run_and_check(o,&p,alg,ls,mi,y,0);
    if(hist>=2){ double r[D],v; memcpy(r,x,8*d); c3opt_minimize(o,r,&v); mc_step(); for(size_t i=0;i<d;i++) mc_expect("repeatable",r[i]==y[i],"a second run from the same start ends elsewhere: %.17g vs %.17g",r[i],y[i]); }
    c3opt_free(o);
}
/* exhaustive search over given locations */
static double tabv[64]; static int tabn; static double obj_tab(size_t d,const double*x,double*g,void*a){ (void)d; (void)g; int*n=a; (*n)++; int i=(int)lrint(x[0]); if(i<0||i>=tabn) mc_fail("brute-loc","evaluated at %g",x[0]); return tabv[i]; }
static void d_brute(void)
{
    int n=1+mc_choose(mc_thorough?6:5,"n"); size_t d=1+mc_choose(3,"d"); mc_shard(); int cp=mc_choose(2,"copy"); tabn=n; double loc[24]; for(int i=0;i<n;i++){ tabv[i]=(double)mc_choose(3,"v")-1; for(size_t j=0;j<d;j++) loc[i*d+j]=j==0?i:10*i+j; }
    struct c3Opt*o=mkopt(BRUTEFORCE,d,mc_choose(2,"create")); int cnt=0; c3opt_add_objective(o,obj_tab,&cnt); double*l=malloc(8*n*d); memcpy(l,loc,8*n*d); c3opt_set_brute_force_vals(o,n,l); free(l);
    if(cp){ struct c3Opt*c=c3opt_copy(o); c3opt_free(o); o=c; } mc_expect("brute-is",c3opt_is_bruteforce(o),"kind");
    int w=0; for(int i=1;i<n;i++) if(tabv[i]<tabv[w]) w=i; double x[3]={9,9,9},v=77; int r=c3opt_minimize(o,x,&v); mc_step(); mc_expect("brute-min",r==0&&v==tabv[w],"min %g want %g",v,tabv[w]);
    int i=(int)lrint(x[0]); mc_expect("brute-arg",i>=0&&i<n&&tabv[i]==tabv[w],"argmin %g",x[0]); for(size_t j=0;j<d;j++) mc_expect("brute-x",x[j]==loc[i*d+j],"x[%zu]=%g",j,x[j]); mc_expect("brute-n",cnt==n&&c3opt_get_nevals(o)==(size_t)n,"%d evaluations",cnt); mc_state(mc_hda(mc_hu(mc_h0(),n),n,tabv)); c3opt_free(o);
}
/* line searches called directly */
static void d_ls(void)
{
    int which=mc_choose(2,"which"),kind=mc_choose(NP,"prob"); size_t d=1+mc_choose(3,"d"); mc_shard(); int bnd=mc_choose(4,"bounds"),sp=mc_choose(4,"start"),dir=mc_choose(4,"dir"),la=mc_choose(3,"alpha"),bad=mc_choose(3,"bad"); double scale=(double[]){1,0.05,20}[mc_choose(3,"scale")];
    if(kind==LIN&&!bnd) mc_skip(); struct prob p; mkprob(&p,kind,d,0,1,bnd); double x[D],g[D],dr[D],nx[D],nf=-5; mkstart(&p,sp,x); if(bad==1){ if(!bnd) mc_skip(); x[d-1]=p.ub[d-1]+0.5; p.bounded=0; }
    struct c3Opt*o=c3opt_alloc(BFGS,d); c3opt_add_objective(o,obj,&p); if(bnd){ c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub); } double al=(double[]){0.01,0.3,0.49}[la]; if(bad==2) al=(double[]){0,0.5,-1}[la]; c3opt_ls_set_alpha(o,al); c3opt_ls_set_beta(o,0.9);
    double fx=pf(&p,x,g); for(size_t i=0;i<d;i++) dr[i]=dir==0?-g[i]:dir==1?-g[i]/(1+i):dir==2?g[i]:(i==0?-g[i]:0); for(size_t i=0;i<d;i++) dr[i]*=scale;
    double dg=0; for(size_t i=0;i<d;i++) dg+=g[i]*dr[i]; double gg[D],xx[D],dd[D]; memcpy(gg,g,8*d); memcpy(xx,x,8*d); memcpy(dd,dr,8*d); for(size_t i=0;i<d;i++) nx[i]=99; int info=55; double r=which?c3opt_ls_strong_wolfe(o,xx,fx,gg,dd,nx,&nf,&info):c3opt_ls_wolfe_bisect(o,xx,fx,gg,dd,nx,&nf,&info); mc_steps(p.nf);
    mc_note("which=%d %s d=%zu bounds=%d start=%d dir=%d alpha=%g scale=%g info=%d",which,PN[kind],d,bnd,sp,dir,al,scale,info); mc_key("ls%d:%s",which,PN[kind]);
    mc_expect("ls-x",!memcmp(x,xx,8*d),"base point changed"); mc_expect("ls-dir",!memcmp(dr,dd,8*d),"direction changed"); mc_expect("ls-bounds",!p.viol,"evaluated outside the bounds at %.17g",p.bad);
    if(bad==2){ mc_expect("ls-alpha",info==-1,"info %d for alpha=%g",info,al); }
    else if(bad==1){ mc_expect("ls-start",info==-3,"info %d for a start outside the bounds",info); }
    else if(dg>1e-12){ mc_expect("ls-ascent",info==-4&&!memcmp(nx,x,8*d)&&nf==fx&&r==0,"info %d for an ascent direction",info); }
    else if(dg<-1e-12){ mc_expect("ls-info",info==0||info==1,"info %d",info); double t=r/al,gn[D]; double fn=pf(&p,nx,gn); mc_expect("ls-newf",nf==fn,"newf %.17g but f(newx)=%.17g",nf,fn);
        int clip=0; for(size_t i=0;i<d;i++){ double w=x[i]+t*dr[i]; if(bnd){ if(w<=p.lb[i]){ w=p.lb[i]; clip=1; } if(w>=p.ub[i]){ w=p.ub[i]; clip=1; } } if(info==0&&!(which&&t==0)) mc_expect("ls-newx",fabs(nx[i]-w)<=1e-12*(1+fabs(w)),"newx[%zu]=%.17g but x+t*dir=%.17g (t=%g)",i,nx[i],w,t); }
        double moved=0; for(size_t i=0;i<d;i++) moved=fmax(moved,fabs(nx[i]-x[i]));
        if(info==0){ double dgn=0; for(size_t i=0;i<d;i++) dgn+=gn[i]*dr[i];
            if(moved>1e-7){ mc_expect("ls-decrease",nf<=fx+al*t*dg+1e-12*(1+fabs(fx)),"sufficient decrease violated: %.17g > %.17g",nf,fx+al*t*dg);
                if(!clip&&!(which&&(t==0||t>0.99))) mc_expect("ls-curv",which?fabs(dgn)<=0.9*fabs(dg)*(1+1e-9)+1e-12:dgn>=0.9*dg*(1+1e-9)-1e-12,"curvature condition violated: slope %g at the new point, %g before",dgn,dg); }
            for(size_t i=0;i<d;i++) mc_expect("ls-grad",fabs(gg[i]-gn[i])<=1e-12*(1+fabs(gn[i])),"gradient returned is not that of the new point"); }
        mc_expect("ls-nup",nf<=fx+1e-7*(1+fabs(fx))||info==1,"line search went up from %.17g to %.17g",fx,nf); }
    mc_expect("ls-count",c3opt_get_nevals(o)==(size_t)p.nf&&c3opt_get_ngvals(o)==(size_t)p.ng,"counts"); mc_state(mc_hda(mc_hu(mc_h0(),info+10),d,nx)); c3opt_free(o);
}
/* every rejected argument of every line search, and storage carried through copies and re-dimensioning */
static void d_lsargs(void)
{
    int which=1+mc_choose(2,"which"); size_t d=1+mc_choose(3,"d"); int bad=mc_choose(5,"bad"),pos=mc_choose((int)d,"pos"),val=mc_choose(3,"val"); mc_shard();
    struct prob p; mkprob(&p,QD,d,0,1,2); double x[D],g[D],dr[D],nx[D]={9,9,9,9},nf=-5; mkstart(&p,0,x); struct c3Opt*o=c3opt_alloc(which==0?BATCHGRAD:BFGS,d); c3opt_add_objective(o,obj,&p); c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub);
    double al=0.2,be=which?0.9:0.5; if(bad==1) al=(double[]){0,0.5,-0.3}[val]; if(bad==2) be=(double[]){0,1,1.5}[val]; if(bad==3) x[pos]=p.lb[pos]-(double[]){1e-9,0.1,3}[val]; if(bad==4) x[pos]=p.ub[pos]+(double[]){1e-9,0.1,3}[val];
    c3opt_ls_set_alpha(o,al); c3opt_ls_set_beta(o,be); double fx=pf(&p,x,g); for(size_t i=0;i<d;i++) dr[i]=-g[i]; int info=55; p.nf=0;
    double r=which==1?c3opt_ls_wolfe_bisect(o,x,fx,g,dr,nx,&nf,&info):c3opt_ls_strong_wolfe(o,x,fx,g,dr,nx,&nf,&info); mc_steps(p.nf+1);
    mc_note("which=%d bad=%d d=%zu pos=%d val=%d info=%d",which,bad,d,pos,val,info); mc_key("lsargs%d:%d",which,bad);
    int want=bad==0?0:bad==1?-1:bad==2?-2:-3; mc_expect("ls-info",info==want,"info %d want %d",info,want); if(bad) mc_expect("ls-ret",r==0&&p.nf==0,"rejected arguments but returned %g after %ld evaluations",r,p.nf);
    else mc_expect("ls-down",nf<=fx&&nf==pf(&p,nx,NULL),"f %g -> %g",fx,nf);
    mc_state(mc_hu(mc_h0(),which*64+bad*8+d)); c3opt_free(o);
}
static void d_storage(void)
{
    int alg=ALG[mc_choose(3,"alg")],ls=mc_choose(3,"ls"); size_t d=1+mc_choose(3,"d"); int hist=mc_choose(6,"hist"); mc_shard(); int kind=(int[]){QD,QC,ROS}[mc_choose(3,"prob")]; static const size_t MI[]={2,7,30}; size_t mi=MI[mc_choose(3,"maxiter")];
    struct prob p; mkprob(&p,kind,d,0,1,1); double x[D],x0[D]; mkstart(&p,1,x); memcpy(x0,x,8*d); struct c3Opt*o=mkopt(alg,hist==3?1:d,1); c3opt_set_maxiter(o,hist==5?1:mi); if(hist==3){ c3opt_set_storage_options(o,1,1,1); c3opt_set_nvars(o,d); mc_step(); }
    c3opt_add_objective(o,obj,&p); c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub); c3opt_ls_set_alg(o,ls); if(ls==BACKTRACK){ c3opt_ls_set_alpha(o,0.2); c3opt_ls_set_beta(o,0.5); } c3opt_set_gtol(o,1e-10); c3opt_set_relftol(o,1e-12); c3opt_set_absxtol(o,1e-11);
    if(hist!=3) c3opt_set_storage_options(o,1,1,1); if(hist==5){ c3opt_set_maxiter(o,mi); mc_step(); }
    mc_note("alg=%d ls=%d d=%zu hist=%d %s maxiter=%zu",alg,ls,d,hist,PN[kind],mi); mc_key("%s:storage%d",SI("st",alg,ls),hist);
    if(hist==1||hist==4){ struct c3Opt*c=c3opt_copy(o); mc_step(); c3opt_free(o); o=c; }
    run_and_check(o,&p,alg,ls,mi,x,2);
    if(hist==2||hist==4){ struct c3Opt*c=c3opt_copy(o); mc_step(); size_t n=c3opt_get_niters(o); mc_expect("copy-niters",c3opt_get_niters(c)==n&&c3opt_get_nevals(c)==c3opt_get_nevals(o)&&c3opt_get_ngvals(c)==c3opt_get_ngvals(o),"counts lost by copying");
        char fn[2][600]; char*t[2]={0,0}; size_t L[2]; for(int k=0;k<2;k++){ FILE*fp=open_memstream(&t[k],&L[k]); c3opt_print_stored_values(k?c:o,fp,3,17); fclose(fp); mc_step(); } mc_expect("copy-stored",L[0]==L[1]&&!memcmp(t[0],t[1],L[0]),"stored values lost by copying"); free(t[0]); free(t[1]); (void)fn;
        double y[D]; memcpy(y,x0,8*d); c3opt_free(o); run_and_check(c,&p,alg,ls,mi,y,2); for(size_t i=0;i<d;i++) mc_expect("copy-run",y[i]==x[i],"the copy ends elsewhere"); o=c; }
    c3opt_free(o);
}
/* limited-memory list: all lengths of insertion histories */
static void d_list(void)
{
    size_t m=1+mc_choose(5,"m"),d=1+mc_choose(2,"d"); mc_shard(); int n=1+mc_choose(14,"n"),peek=mc_choose(4,"peek"); double x[16][2],g[16][2]; for(int i=0;i<=n;i++) for(int j=0;j<2;j++){ x[i][j]=i*i*0.5+j; g[i][j]=3*i-j*i*i; }
    struct c3opt_lbfgs_list*l=c3opt_lbfgs_list_alloc(m,d);
    for(int i=0;i<n;i++){ c3opt_lbfgs_list_insert(l,i,x[i+1],x[i],g[i+1],g[i]); mc_step(); int have=(size_t)(i+1)<m?i+1:(int)m; if(peek>=2){ /* a list that was left in the middle of a walk starts at the newest entry after an insertion */ int k0=peek==2?1:have; for(int k=0;k<k0;k++){ size_t it=99; double*s,*y,rho; if(peek==2||i%2){ c3opt_lbfgs_list_step(l,&it,&s,&y,&rho); mc_expect("list-fresh",it==(size_t)(i-k),"step %d after an insertion gives iteration %zu",k,it); } else { c3opt_lbfgs_list_step_back(l,&it,&s,&y,&rho); mc_expect("list-fresh-back",it==(size_t)(i-have+1+k),"step back %d after an insertion gives iteration %zu",k,it); } mc_step(); } if(i<n-1) continue; }
        if(!peek&&i<n-1) continue;
        for(int round=0;round<2;round++){ c3opt_lbfgs_reset_step(l); for(int k=0;k<have*(round+1);k++){ int want=i-(k%have); size_t it=99; double*s,*y,rho; c3opt_lbfgs_list_step(l,&it,&s,&y,&rho); mc_step(); double wr=0; mc_expect("list-iter",it==(size_t)want,"step %d gives iteration %zu want %d",k,it,want); for(size_t j=0;j<d;j++){ double ws=x[want+1][j]-x[want][j],wy=g[want+1][j]-g[want][j]; mc_expect("list-sy",s[j]==ws&&y[j]==wy,"difference vectors of iteration %d",want); wr+=ws*wy; } mc_cmp("list-rho",rho,wr,1e-12*(1+fabs(wr))); }
            c3opt_lbfgs_reset_step(l); for(int k=0;k<have*(round+1);k++){ int want=i-have+1+(k%have); size_t it=99; double*s,*y,rho; c3opt_lbfgs_list_step_back(l,&it,&s,&y,&rho); mc_step(); mc_expect("list-back",it==(size_t)want,"step back %d gives iteration %zu want %d",k,it,want); } } }
    mc_state(mc_hu(mc_h0(),m*64+n*2+d)); c3opt_lbfgs_list_free(l);
}
/* stochastic gradient: objective sum of squares (a_i.x-b_i)^2, randomness enumerated through seeds */
struct sg { size_t d,n; long nf,ng; int*hits; double A[48][8],b[48]; struct sg*self; int bad; };
static double sgv(const struct sg*s,size_t i,const double*x){ double r=-s->b[i]; for(size_t j=0;j<s->d;j++) r+=s->A[i][j]*x[j]; return 0.5*r*r; }
static int phase_grad[4096],npg; 
static double sgo(size_t d,size_t i,const double*x,double*g,void*a){ struct sg*s=a; if(s->self!=s||d!=s->d||i>=s->n) mc_fail("sgd-args","sample %zu of %zu",i,s->n); s->nf++; if(g){ s->ng++; if(npg<4096) phase_grad[npg++]=(int)i; double r=-s->b[i]; for(size_t j=0;j<d;j++) r+=s->A[i][j]*x[j]; for(size_t j=0;j<d;j++) g[j]=r*s->A[i][j]; } return sgv(s,i,x); }
static void d_sgd(void)
{
    size_t n=(size_t[]){2,3,4,5,6,7,8,9,10,23,41}[mc_choose(11,"n")],d=(size_t[]){1,2,6}[mc_choose(3,"d")]; if(n>10&&d==1) mc_skip(); if(d==6&&n<23) mc_skip(); int seed=mc_choose(mc_thorough?40:12,"seed"); mc_shard(); int st=mc_choose(2,"store"),cp=mc_choose(2,"copy"); size_t mi=(size_t[]){1,3,15,60}[mc_choose(4,"maxiter")]; mc_srand(seed+1);
    struct sg s; memset(&s,0,sizeof s); s.self=&s; s.n=n; s.d=d; for(size_t i=0;i<n;i++){ s.b[i]=0; for(size_t j=0;j<d;j++){ s.A[i][j]=(d>2?0.2*(double)((i*i*(j+3)+i*5+j*3)%11)-1:((i*7+j*3)%5+1)*0.4*(j%2?((i%2)?-1:1):1)); s.b[i]+=s.A[i][j]*(0.5+j); } }
    struct c3Opt*o=mkopt(SGD,d,cp); c3opt_add_objective_stoch(o,sgo,&s); c3opt_set_sgd_nsamples(o,n); c3opt_set_sgd_learn_rate(o,0.05); c3opt_set_maxiter(o,mi); c3opt_set_relftol(o,1e-14); c3opt_set_gtol(o,1e-30); if(st) c3opt_set_storage_options(o,1,0,0);
    if(cp){ struct c3Opt*c=c3opt_copy(o); c3opt_free(o); o=c; mc_step(); mc_expect("sgd-copy",c3opt_get_sgd_nsamples(o)==n&&c3opt_is_sgd(o),"options lost"); }
    double x[8]={-1,1.5,0.5,-2,1,0.25},v=-9; npg=0; double f0=0; for(size_t i=0;i<n;i++) f0+=sgv(&s,i,x)/n; int r=c3opt_minimize(o,x,&v); mc_steps(s.nf);
    mc_expect("sgd-count",c3opt_get_nevals(o)==(size_t)s.nf&&c3opt_get_ngvals(o)==(size_t)s.ng,"counts %zu/%ld %zu/%ld",c3opt_get_nevals(o),s.nf,c3opt_get_ngvals(o),s.ng);
    size_t nt=(size_t)lrint(n/1.1); size_t ep=npg/nt; mc_expect("sgd-epochs",npg%nt==0&&ep>=1&&ep<=mi,"%d gradient samples for epochs of %zu, limit %zu",npg,nt,mi); mc_expect("sgd-niters",c3opt_get_niters(o)==ep+(st?1:0),"%zu iterations reported, %zu made",c3opt_get_niters(o),ep);
    for(size_t e=0;e<ep;e++){ int seen[48]={0}; for(size_t i=0;i<nt;i++){ int k=phase_grad[e*nt+i]; mc_expect("sgd-once",!seen[k],"sample %d used twice in epoch %zu",k,e); seen[k]=1; } }
    /* reported value: mean over the training part of the last epoch at the returned point */
    double w=0; for(size_t i=0;i<nt;i++) w+=sgv(&s,phase_grad[(ep-1)*nt+i],x); w/=nt; mc_cmp("sgd-fval",v,w,1e-12*(1+fabs(w))); mc_expect("sgd-ret",r==C3OPT_MAXITER_REACHED?ep==mi:r>=0,"return %d after %zu epochs of %zu",r,ep,mi);
    if(mi>=15){ double f1=0; for(size_t i=0;i<n;i++) f1+=sgv(&s,i,x)/n; mc_expect("sgd-progress",f1<0.9*f0,"mean loss %g from %g",f1,f0); }
    if(st){ mc_cmp("sgd-stored",c3opt_get_stored_function(o,c3opt_get_niters(o)-1),v,1e-12*(1+fabs(v))); } mc_state(mc_hda(mc_hu(mc_h0(),ep),d,x)); c3opt_free(o);
}
/* derivative check utilities: the reported difference is the injected gradient error */
static double derr[12]; static double obj_err(size_t d,const double*x,double*g,void*a){ double f=pf(a,x,g); if(g) for(size_t i=0;i<d;i++) g[i]+=derr[i]; return f; }
static void d_deriv(void)
{
    int kind=mc_choose(NP,"prob"); size_t d=(size_t[]){1,2,3,6,9}[mc_choose(5,"d")]; mc_shard(); struct prob p; mkprob(&p,kind,d,0,0,0); double x[D]; mkstart(&p,mc_choose(2,"start"),x); double e2=0,n2=0,g[D]; for(size_t i=0;i<12;i++) derr[i]=0; for(size_t i=0;i<d;i++){ derr[i]=(double[]){0,1e-3,-0.5}[i<3?mc_choose(3,"e"):(i*5+1)%3]; e2+=derr[i]*derr[i]; } pf(&p,x,g); for(size_t i=0;i<d;i++) n2+=g[i]*g[i];
    struct c3Opt*o=c3opt_alloc(BFGS,d); c3opt_add_objective(o,obj_err,&p); double xx[D]; memcpy(xx,x,8*d); double df[D]; double r=c3opt_check_deriv(o,xx,1e-5),r2=c3opt_check_deriv_each(o,xx,1e-5,df); mc_steps(2); mc_expect("deriv-x",!memcmp(x,xx,8*d),"point changed"); double w=sqrt(n2>1?e2/n2:e2); mc_cmp("deriv",r,w,2e-6*(1+w)); mc_cmp("deriv-each",r2,w,2e-6*(1+w)); for(size_t i=0;i<d;i++) mc_cmp("deriv-diff",df[i],-derr[i],2e-5*(1+sqrt(n2))); mc_state(mc_hda(mc_hu(mc_h0(),kind),d,df)); c3opt_free(o);
}
/* ---- stand-alone routines with error-signalling gradients */
static long gcalls,gfail,hcalls,hfail; static int gcode; static double fo(double*x,void*a){ return obj(((struct prob*)a)->d,x,NULL,a); }
static int go(double*x,double*g,void*a){ gcalls++; pf(a,x,g); return gcalls==gfail?gcode:0; }
static int ho(double*x,double*h,void*a){ hcalls++; struct prob*p=a; size_t d=p->d; (void)x; for(size_t i=0;i<d*d;i++) h[i]=0; for(size_t i=0;i<d;i++){ h[i*d+i]=p->kind==QI?1:p->kind==QD?1+3.0*i:p->kind==QC?2:19.999; if(p->kind==QC&&i+1<d) h[i*d+i+1]=h[(i+1)*d+i]=0.7; } return hcalls==hfail?gcode:0; }
static double*ng_(double*x,void*a){ double*g=malloc(8*((struct prob*)a)->d); pf(a,x,g); gcalls++; return g; } static double*nh_(double*x,void*a){ size_t d=((struct prob*)a)->d; double*h=malloc(8*d*d); ho(x,h,a); return h; }
static void d_old(void)
{
    int which=mc_choose(5,"which"); int kind=mc_choose(4,"prob"); size_t d=(size_t[]){1,2,3,6,10}[mc_choose(5,"d")]; mc_shard(); int bnd=1+mc_choose(3,"bounds"),sp=mc_choose(4,"start"),cp=mc_choose(2,"c"); int fail=mc_choose(5,"fail"); size_t mi=mc_choose(3,"maxiter")==0?2:3000; gcode=3; gcalls=hcalls=0; gfail=fail>0&&fail<4?fail:-1; hfail=fail==4?1:-1; if(hfail>0&&which!=2) mc_skip(); if(which==4&&fail) mc_skip();
    struct prob p; mkprob(&p,kind,d,cp,1,bnd); double x[D],g[D],h[D*D],sp4[4*D],val=-1; mkstart(&p,sp,x); if(which==0||which==4) p.bounded=0; double f0=pf(&p,x,NULL); int r=0; static const char*W[]={"gradient_descent","box_pg_descent","box_damp_newton","box_damp_bfgs","newton"}; mc_note("%s %s d=%zu bounds=%d start=%d c=%d fail=%d maxiter=%zu",W[which],PN[kind],d,bnd,sp,cp,fail,mi); mc_key("%s:%s",W[which],PN[kind]);
    double*space=malloc(8*(which==3?4:2)*d); (void)sp4;
    if(which==0) r=gradient_descent(d,x,&val,g,space,fo,&p,go,&p,1e-9,mi,200,0.2,0.5,0);
    else if(which==1) r=box_pg_descent(d,p.lb,p.ub,x,&val,g,space,fo,&p,go,&p,1e-10,mi,200,0.2,0.5,0);
    else if(which==2) r=box_damp_newton(d,p.lb,p.ub,x,&val,g,h,space,fo,&p,go,&p,ho,&p,1e-18,mi,200,0.2,0.5,0);
    else if(which==3){ for(size_t i=0;i<d*d;i++) h[i]=i%(d+1)==0; r=box_damp_bfgs(d,p.lb,p.ub,x,&val,g,h,space,fo,&p,go,1e-16,mi,200,0.2,0.5,0); }
    else { double*xp=malloc(8*d); memcpy(xp,x,8*d); newton(&xp,d,1.0,1e-10,ng_,nh_,&p); memcpy(x,xp,8*d); free(xp); val=pf(&p,x,NULL); }
    mc_steps(p.nf+gcalls); free(space);
    mc_expect("old-bounds",!p.viol,"evaluated outside the bounds: %.17g",p.bad); if(p.bounded) for(size_t i=0;i<d;i++) mc_expect("old-x",x[i]>=p.lb[i]&&x[i]<=p.ub[i],"x[%zu]=%.17g",i,x[i]);
    double fx=pf(&p,x,NULL); if(!(which<=1&&fail==1)) { mc_expect("old-fval",val==fx,"reported %.17g but f(x)=%.17g",val,fx); mc_expect("old-descent",val<=f0+1e-9*(1+fabs(f0)),"f went from %.17g to %.17g",f0,val); }
    if(fail&&fail<4&&gcalls>=gfail){ mc_expect("old-gerr",r==-20+gcode,"gradient error reported as %d",r); mc_expect("old-gstop",gcalls==gfail,"%ld gradients after the error",gcalls-gfail); }
    else if(fail==4) mc_expect("old-herr",r==-30+gcode,"hessian error reported as %d",r);
    else if(mi==2) mc_expect("old-maxit",(r==0||r==1)&&gcalls<=3,"return %d after %ld gradients",r,gcalls);
    else { double xs[D]; mc_expect("old-ret",r==0||r==1,"return %d",r); if(known_min(&p,xs)&&interior(&p,xs)){ double e=0; for(size_t i=0;i<d;i++) e=fmax(e,fabs(x[i]-xs[i])); mc_cmp("old-min",e,0,1e-4); } }
    mc_state(mc_hda(mc_hu(mc_h0(),which*16+r+40),d,x));
}
static void d_back(void)
{
    int bc=mc_choose(2,"bc"),kind=mc_choose(NP,"prob"); size_t d=(size_t[]){1,2,3,6,11}[mc_choose(5,"d")]; mc_shard(); int bnd=1+mc_choose(3,"bounds"),sp=mc_choose(4,"start"),dir=mc_choose(3,"dir"),ab=mc_choose(8,"ab"); size_t mx=mc_choose(2,"mx")?400:3; static const double A[]={0.01,0.3,0.49,0,0.5,0.2,0.2,0.2},B[]={0.5,0.8,0.3,0.5,0.5,0,1,1.5};
    struct prob p; mkprob(&p,kind,d,0,1,bnd); if(!bc) p.bounded=0; double x[D],g[D],dr[D],nx[D],nf=-5; for(size_t i=0;i<d;i++) nx[i]=99; mkstart(&p,sp,x); double fx=pf(&p,x,g); for(size_t i=0;i<d;i++) dr[i]=dir==0?-g[i]:dir==1?-g[i]/(1+i):(i==0?-5*g[i]:0); double dg=0; for(size_t i=0;i<d;i++) dg+=g[i]*dr[i]; int info=44; double xx[D],dd[D],gg[D]; memcpy(xx,x,8*d); memcpy(dd,dr,8*d); memcpy(gg,g,8*d);
    double r=bc?backtrack_line_search_bc(d,p.lb,p.ub,xx,fx,dd,nx,&nf,gg,A[ab],B[ab],fo,&p,mx,&info):backtrack_line_search(d,xx,fx,dd,nx,&nf,gg,A[ab],B[ab],fo,&p,mx,&info); mc_steps(p.nf);
    mc_note("bc=%d %s d=%zu bounds=%d start=%d dir=%d alpha=%g beta=%g max=%zu info=%d",bc,PN[kind],d,bnd,sp,dir,A[ab],B[ab],mx,info); mc_expect("bt-in",!memcmp(x,xx,8*d)&&!memcmp(dr,dd,8*d)&&!memcmp(g,gg,8*d),"input changed");
    if(ab==3||ab==4){ mc_expect("bt-alpha",info==-1,"info %d",info); return; } if(ab>=5){ mc_expect("bt-beta",info==-2,"info %d for beta=%g",info,B[ab]); return; }
    mc_expect("bt-bounds",!p.viol,"evaluated outside at %.17g",p.bad); mc_expect("bt-count",p.nf>=1&&p.nf<=(long)mx,"%ld evaluations, limit %zu",p.nf,mx); double fn=pf(&p,nx,NULL); mc_expect("bt-newf",nf==fn,"newf"); double t=bc?r/A[ab]:r; mc_cmp("bt-t",t,pow(B[ab],p.nf-1),1e-9*t);
    for(size_t i=0;i<d;i++){ double w=x[i]+t*dr[i]; if(bc){ if(w<p.lb[i]) w=p.lb[i]; if(w>p.ub[i]) w=p.ub[i]; } mc_expect("bt-newx",fabs(nx[i]-w)<=1e-12*(1+fabs(w)),"newx"); }
    if(info==0) mc_expect("bt-armijo",nf<=fx+A[ab]*t*dg+1e-13*(1+fabs(fx)),"sufficient decrease violated"); else mc_expect("bt-info",info==1&&p.nf>=(long)mx-1,"info %d",info); mc_state(mc_hda(mc_hu(mc_h0(),info),d,nx));
}
/* exhaustive search over many locations in many variables: every position of the minimum, ties and copies */
static void d_bigbrute(void)
{
    int n=(int[]){7,12,33,50}[mc_choose(4,"n")]; size_t d=(size_t[]){1,4,5,9,16}[mc_choose(5,"d")]; mc_shard(); int w=mc_choose(n,"argmin"),tie=mc_choose(2,"tie"),cp=mc_choose(3,"history"); tabn=n; double loc[50*16]; for(int i=0;i<n;i++){ tabv[i]=1+((i*7)%11)*0.25; for(size_t j=0;j<d;j++) loc[i*d+j]=j==0?i:100*i+j; } tabv[w]=-1.5; if(tie&&w+3<n) tabv[w+3]=-1.5;
    struct c3Opt*o=mkopt(BRUTEFORCE,d,mc_choose(2,"create")); int cnt=0; c3opt_add_objective(o,obj_tab,&cnt); double*l=malloc(8*n*d); memcpy(l,loc,8*n*d); c3opt_set_brute_force_vals(o,n,l); free(l);
    if(cp){ struct c3Opt*c=c3opt_copy(o); c3opt_free(o); o=c; } double*x=malloc(8*d),v=77; if(cp==2){ c3opt_minimize(o,x,&v); cnt=0; } for(size_t j=0;j<d;j++) x[j]=9;
    int r=c3opt_minimize(o,x,&v); mc_step(); mc_expect("bigbrute-min",r==0&&v==-1.5,"min %g",v); int i=(int)lrint(x[0]); mc_expect("bigbrute-arg",i>=0&&i<n&&tabv[i]==-1.5,"argmin %g",x[0]); for(size_t j=0;j<d;j++) mc_expect("bigbrute-x",x[j]==loc[i*d+j],"x[%zu]=%g",j,x[j]); mc_expect("bigbrute-n",cnt==n,"%d evaluations",cnt); mc_state(mc_hu(mc_h0(),n*10000+(int)d*100+w)); free(x); c3opt_free(o);
}
/* one tolerance at a time: the run stops at the first step that meets it and says so; a copy does exactly what the original does */
static void d_tol(void)
{
    int alg=ALG[mc_choose(3,"alg")],ls=mc_choose(3,"ls"),kind=(int[]){QD,QC,ROS,QUART}[mc_choose(4,"prob")]; size_t d=(size_t[]){2,5}[mc_choose(2,"d")]; mc_shard(); int w=mc_choose(3,"tolerance"),hist=mc_choose(3,"copy"),bnd=mc_choose(2,"bounds"); double tol=(double[]){1e-1,1e-3,1e-6}[mc_choose(3,"level")]; size_t mi=150;
    struct prob p; mkprob(&p,kind,d,0,1,bnd); double x0[D]; mkstart(&p,1,x0); struct c3Opt*o=mkopt(alg,d,(int)d==2); c3opt_add_objective(o,obj,&p); if(bnd){ c3opt_add_lb(o,p.lb); c3opt_add_ub(o,p.ub); } c3opt_ls_set_alg(o,ls); c3opt_set_maxiter(o,mi); c3opt_set_gtol(o,w==0?tol:0); c3opt_set_relftol(o,w==1?tol:0); c3opt_set_absxtol(o,w==2?tol:0); if(ls==BACKTRACK){ c3opt_ls_set_alpha(o,0.2); c3opt_ls_set_beta(o,0.5); } c3opt_set_storage_options(o,1,1,1);
    mc_note("alg=%d ls=%d %s d=%zu tolerance %d=%g",alg,ls,PN[kind],d,w,tol); mc_key("%s:%s",SI("tol",alg,ls),PN[kind]); struct c3Opt*c=NULL; if(hist==1) c=c3opt_copy(o); double x[D],v=-1; memcpy(x,x0,8*d); int r=c3opt_minimize(o,x,&v); mc_steps(p.nf); size_t ni=c3opt_get_niters(o),ne=c3opt_get_nevals(o),ng=c3opt_get_ngvals(o);
    if(hist==2) c=c3opt_copy(o); if(c){ double y[D],u=-2; memcpy(y,x0,8*d); int q=c3opt_minimize(c,y,&u); mc_expect(SI("tol-copy",alg,ls),q==r&&u==v&&!memcmp(x,y,8*d)&&c3opt_get_niters(c)==ni&&c3opt_get_nevals(c)==ne&&c3opt_get_ngvals(c)==ng,"the copy returns %d f=%.17g after %zu iterations, the original %d f=%.17g after %zu",q,u,c3opt_get_niters(c),r,v,ni); c3opt_free(c); }
    mc_expect(SI("tol-ret",alg,ls),r==C3OPT_MAXITER_REACHED||r==(w==0?C3OPT_GTOL_REACHED:w==1?C3OPT_FTOL_REACHED:C3OPT_XTOL_REACHED)||(r==0&&0),"return code %d",r);
    if(w==1) for(size_t k=1;k<ni;k++){ double a=c3opt_get_stored_function(o,k),b=c3opt_get_stored_function(o,k-1),df=fabs(a-b); if(fabs(b)>1e-10) df/=fabs(b); if(k+1==ni&&r!=C3OPT_MAXITER_REACHED) mc_expect(SI("tol-f",alg,ls),df<=tol*(1+1e-9),"stops at relative change %g",df); else if(k+1<ni) mc_expect(SI("tol-f-first",alg,ls),df>=tol*(1-1e-9),"goes on after relative change %g",df); }
    mc_state(mc_hda(mc_hu(mc_hu(mc_h0(),r+8),ni),d,x)); c3opt_free(o);
}
const mc_driver mc_drivers[]={{"tol",d_tol,1,MC_BOTH},{"bigbrute",d_bigbrute,1,MC_BOTH},{"min",d_min,1,MC_BOTH},{"opts",d_opts,1,MC_BOTH},{"brute",d_brute,1,MC_BOTH},{"ls",d_ls,1,MC_BOTH}, {"ls-args",d_lsargs,1,MC_BOTH},{"storage",d_storage,1,MC_BOTH},{"list",d_list,1,MC_BOTH},{"sgd",d_sgd,1,MC_BOTH},{"deriv",d_deriv,1,MC_BOTH},{"old",d_old,1,MC_BOTH},{"back",d_back,1,MC_BOTH},{0}};
