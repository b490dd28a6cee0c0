/* Reference model of univariate functions, independent of the library. */
#ifndef UNI_H
#define UNI_H
#include "mc.h"
#include "lib_funcs.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define UMAX 64
enum { ULIN, UCONST, UKER, ULEG, UCHEB, UHERM, UNCLS };
static const char *UNAME[]={"linelm","constelm","kernel","legendre","chebyshev","hermite"};
static const enum function_class UFC[]={LINELM,CONSTELM,KERNEL,POLYNOMIAL,POLYNOMIAL,POLYNOMIAL};
typedef struct { int cls; double lb,ub; int n; double x[UMAX],c[UMAX]; double w; } RF;

/* non-uniform master nodes: no node is the midpoint of two others, so nearest-node ties never matter */
#define UNM 5
static const double UMN[UNM]={-1,-0.5,0.3,0.6,1};
#define UNP 18
static const double UPT[UNP]={-1,-0.93,-0.71,-0.55,-0.5,-0.31,-0.16,0.02,0.19,0.3,0.36,0.53,0.6,0.62,0.71,0.93,0.97,1};
static const double UDOM[3][2]={{-1,1},{0.5,4.5},{-3,-2.5}};
static double umap(double t,double lb,double ub){ return t==-1?lb:t==1?ub:lb+(t+1)/2*(ub-lb); }
static double ueval(const RF*f,double x)
{
    if(f->cls==ULIN||f->cls==UCONST){
        if(x<f->x[0]||x>f->x[f->n-1]) return 0;
        int i=0; while(i<f->n-2 && x>=f->x[i+1]) i++;
        double a=f->x[i],b=f->x[i+1];
        if(f->cls==ULIN){ if(x==b) return f->c[i+1]; return f->c[i]+(f->c[i+1]-f->c[i])*((x-a)/(b-a)); }
        return x-a<b-x?f->c[i]:f->c[i+1];
    }
    if(f->cls==UKER){ double s=0; for(int i=0;i<f->n;i++){ double z=(x-f->x[i])/f->w; s+=1.5*f->c[i]*exp(-z*z);} return s; }
    if(f->cls==ULEG){ double t=2*(x-f->lb)/(f->ub-f->lb)-1,p0=0,p1=1,s=0; for(int k=0;k<f->n;k++){ s+=f->c[k]*sqrt(2*k+1.0)*p1; double p=((2*k+1)*t*p1-k*p0)/(k+1);p0=p1;p1=p;} return s; }
    if(f->cls==UCHEB){ double t=2*(x-f->lb)/(f->ub-f->lb)-1,p0=t,p1=1,s=0; for(int k=0;k<f->n;k++){ s+=f->c[k]*p1; double p=2*t*p1-p0;p0=p1;p1=p;} return s; }
    { double p0=0,p1=1,s=0; for(int k=0;k<f->n;k++){ s+=f->c[k]*p1; double p=(x*p1-sqrt(k)*p0)/sqrt(k+1.0);p0=p1;p1=p;} return s; }
}
/* approximation options matching f (caller frees with uopts_free); nodes are referenced, keep f alive */
static void *uopts(RF*f)
{
    if(f->cls==ULIN) return lin_elem_exp_aopts_alloc(f->n,f->x);
    if(f->cls==UCONST) return const_elem_exp_aopts_alloc(f->n,f->x);
    if(f->cls==UKER){ struct KernelApproxOpts*o=kernel_approx_opts_gauss(f->n,f->x,1.5,f->w); kernel_approx_opts_set_lb(o,f->lb);kernel_approx_opts_set_ub(o,f->ub); return o; }
    struct OpeOpts*o=ope_opts_alloc(f->cls==ULEG?LEGENDRE:f->cls==UCHEB?CHEBYSHEV:HERMITE);
    if(f->cls!=UHERM){ ope_opts_set_lb(o,f->lb);ope_opts_set_ub(o,f->ub);} 
    ope_opts_set_nparams(o,f->n); return o;
}
static void uopts_free(int cls,void*o)
{
    if(cls==ULIN) lin_elem_exp_aopts_free(o); else if(cls==UCONST) const_elem_exp_aopts_free(o);
    else if(cls==UKER) kernel_approx_opts_free(o); else ope_opts_free(o);
}
static struct GenericFunction *ubuild(RF*f)
{
    double p[UMAX]; memcpy(p,f->c,f->n*sizeof(double));
    void*o=uopts(f); struct GenericFunction*g=generic_function_create_with_params(UFC[f->cls],o,f->n,p); uopts_free(f->cls,o); return g;
}
/* sub-grid m (bit mask over the interior master nodes) of class cls on domain d */
static void ugrid(RF*f,int cls,int d,int m)
{
    memset(f,0,sizeof *f); f->cls=cls; f->lb=UDOM[d][0]; f->ub=UDOM[d][1];
    if(cls==UHERM){ f->lb=-1;f->ub=1; }
    if(cls==ULIN||cls==UCONST){ for(int i=0;i<UNM;i++) if(i==0||i==UNM-1||(m>>(i-1)&1)) f->x[f->n++]=umap(UMN[i],f->lb,f->ub); }
    else if(cls==UKER){ f->n=3; f->w=0.7*(f->ub-f->lb)/2; for(int i=0;i<3;i++) f->x[i]=umap(UMN[i+1],f->lb,f->ub); }
    else f->n=1+m%5;
}
static const double UG1[8]={1.25,-0.75,2.5,0.625,-1.5,0.3125,1.0625,-2.25};
static const double UG2[8]={-0.4375,1.875,0.9375,-2.125,0.8125,1.5625,-1.1875,0.6875};
static const double UG3[8]={0.71875,0.28125,-1.34375,1.65625,2.0625,-0.53125,0.90625,1.21875};
/* coefficient pattern k: 0..2 generic, 3 zero, 4.. unit vectors */
static int unpat(const RF*f){ return 4+f->n; }
static void ucoef(RF*f,int k){ for(int i=0;i<f->n;i++) f->c[i]= k==0?UG1[i%8]:k==1?UG2[i%8]:k==2?UG3[i%8]:k==3?0:(i==k-4); }
static int usame(const RF*a,const RF*b){ if(a->n!=b->n) return 0; for(int i=0;i<a->n;i++) if(a->x[i]!=b->x[i]) return 0; return 1; }
/* r = a*f + b*g in the representation's own sense: nodal on the union of the nodes */
static void uaxpby(double a,const RF*f,double b,const RF*g,RF*r)
{
    RF o=*f; 
    if(f->cls==ULIN||f->cls==UCONST){ int i=0,j=0; o.n=0;
        while(i<f->n||j<g->n){ double x; if(j==g->n||(i<f->n&&f->x[i]<g->x[j])) x=f->x[i++]; else if(i==f->n||g->x[j]<f->x[i]) x=g->x[j++]; else { x=f->x[i];i++;j++; }
            o.x[o.n]=x; o.c[o.n]=a*ueval(f,x)+b*ueval(g,x); o.n++; } }
    else { o.n=f->n>g->n?f->n:g->n; for(int i=0;i<o.n;i++) o.c[i]=a*(i<f->n?f->c[i]:0)+b*(i<g->n?g->c[i]:0); }
    *r=o;
}
static void uscale(double a,RF*f){ for(int i=0;i<f->n;i++) f->c[i]*=a; }
static double uscl(const RF*f){ double m=1; for(int i=0;i<f->n;i++) m+=fabs(f->c[i]); return f->cls>=ULEG?4*m:m; }
static void ucheck(const char*site,struct GenericFunction*g,const RF*r)
{
    mc_expect(site,g!=NULL,"NULL function"); mc_expect(site,generic_function_get_fc(g)==UFC[r->cls],"class changed");
    double t=1e-11*uscl(r);
    for(int i=0;i<UNP;i++){ double x=umap(UPT[i],r->lb,r->ub); mc_cmp(site,generic_function_1d_eval(g,x),ueval(r,x),t); }
}
/* compare with values */
static void ucheckv(const char*site,struct GenericFunction*g,int d,const double*v,double tol)
{
    mc_expect(site,g!=NULL,"NULL function");
    for(int i=0;i<UNP;i++){ double x=umap(UPT[i],UDOM[d][0],UDOM[d][1]); mc_cmp(site,generic_function_1d_eval(g,x),v[i],tol); }
}
static uint64_t uhash(uint64_t h,struct GenericFunction*g,double lb,double ub){ for(int i=0;i<UNP;i+=2) h=mc_hd(h,generic_function_1d_eval(g,umap(UPT[i],lb,ub))); return h; }
static void ustr(const RF*f,char*b,size_t n){ int k=snprintf(b,n,"%s x=[",UNAME[f->cls]); for(int i=0;i<f->n&&k<(int)n-30;i++) k+=snprintf(b+k,n-k,"%g ",f->x[i]); k+=snprintf(b+k,n-k,"] c=["); for(int i=0;i<f->n&&k<(int)n-30;i++) k+=snprintf(b+k,n-k,"%g ",f->c[i]); snprintf(b+k,n-k,"]"); }
/* f(x) -> 2^e f(x/2^k): coefficients and domain multiplied by powers of two, no rounding changes */
static void upow2(RF*f,int e,int k){ for(int i=0;i<f->n;i++){ f->c[i]=ldexp(f->c[i],e); f->x[i]=ldexp(f->x[i],k); } f->lb=ldexp(f->lb,k); f->ub=ldexp(f->ub,k); f->w=ldexp(f->w,k); }
/* compare g with the 2^(e,k)-scaled reference, relative to its scale */
static void uchecks(const char*site,struct GenericFunction*g,const RF*r,int e,int k)
{
    mc_expect(site,g!=NULL,"NULL function"); double t=1e-11*uscl(r);
    for(int i=0;i<UNP;i++){ double x=umap(UPT[i],r->lb,r->ub); mc_cmp(site,ldexp(generic_function_1d_eval(g,ldexp(x,k)),-e),ueval(r,x),t); }
}
#endif
