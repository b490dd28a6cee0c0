/* parameters of reference functions and trains, and exact derivatives with respect to them */
#ifndef PAR_H
#define PAR_H
#include "ftm.h"
#include "ucal.h"
#include "udiff.h"
#include "parameterization.h"
#include "linalg.h"
/* class 6 = kernel expansion whose centres are parameters too */
#define PC 7
static const char*PN[]={"linelm","constelm","kernel","legendre","chebyshev","hermite","kernel-centres"};
static int ucls(int c){ return c==6?UKER:c; }
static int pn(const RF*f,int ad){ return ad?2*f->n:f->n; }
static void pget(const RF*f,int ad,double*p){ memcpy(p,f->c,f->n*sizeof(double)); if(ad) memcpy(p+f->n,f->x,f->n*sizeof(double)); }
static void pset(RF*f,int ad,const double*p){ memcpy(f->c,p,f->n*sizeof(double)); if(ad) memcpy(f->x,p+f->n,f->n*sizeof(double)); }
static double pgrad(const RF*f,int q,double x){ if(q>=f->n){ int i=q-f->n; double z=(x-f->x[i])/f->w; return 1.5*f->c[i]*exp(-z*z)*2*z/f->w; } RF e=*f; for(int i=0;i<e.n;i++) e.c[i]=i==q; return ueval(&e,x); }
static struct GenericFunction*pbuild(RF*f,int ad){ if(!ad) return ubuild(f); double p[2*UMAX]; pget(f,1,p); struct KernelApproxOpts*o=uopts(f); kernel_approx_opts_set_center_adapt(o,1); struct GenericFunction*g=generic_function_create_with_params(KERNEL,o,2*f->n,p); kernel_approx_opts_free(o); return g; }
static double*dirty(size_t n){ double*p=malloc((n?n:1)*sizeof(double)); for(size_t i=0;i<n;i++) p[i]=7.5e300; return p; }

static int tcs(int cs){ return cs==7?2:cs; }
static int tnp(const RT*t,int k,int ad){ int n=0; for(int q=0;q<t->r[k]*t->r[k+1];q++) n+=pn(&t->f[k][q],ad); return n; }
static int ttot(const RT*t,int ad){ int n=0; for(int k=0;k<t->d;k++) n+=tnp(t,k,ad); return n; }
static void tget(const RT*t,int ad,double*p){ for(int k=0;k<t->d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++){ pget(&t->f[k][q],ad,p); p+=pn(&t->f[k][q],ad); } }
static void tset(RT*t,int ad,const double*p){ for(int k=0;k<t->d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++){ pset(&t->f[k][q],ad,p); p+=pn(&t->f[k][q],ad); } }
static void tpt(const RT*t,int e,double*x){ for(int k=0;k<t->d;k++){ const RF*f=&t->f[k][0]; x[k]=e<6?umap(FXP[e][k],f->lb,f->ub):umap(UPT[(e*5+k*7)%UNP],f->lb,f->ub); } }
static double tscl(const RT*t){ double s=1; for(int k=0;k<t->d;k++){ double m=0; for(int i=0;i<t->r[k];i++){ double w=0; for(int j=0;j<t->r[k+1];j++) w+=uscl(&t->f[k][i+j*t->r[k]]); if(w>m) m=w; } s*=m; } return s+1; }
static void tlr(const RT*t,const double*x,double L[FD+1][FR],double R[FD+1][FR],double E[FD][FR*FR])
{ for(int k=0;k<t->d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++) E[k][q]=ueval(&t->f[k][q],x[k]); L[0][0]=1; for(int k=0;k<t->d;k++) for(int j=0;j<t->r[k+1];j++){ L[k+1][j]=0; for(int i=0;i<t->r[k];i++) L[k+1][j]+=L[k][i]*E[k][i+j*t->r[k]]; } R[t->d][0]=1; for(int k=t->d-1;k>=0;k--) for(int i=0;i<t->r[k];i++){ R[k][i]=0; for(int j=0;j<t->r[k+1];j++) R[k][i]+=E[k][i+j*t->r[k]]*R[k+1][j]; } }
static void tgrad(const RT*t,int ad,const double*x,double*g,double*ge)
{ double L[FD+1][FR],R[FD+1][FR],E[FD][FR*FR]; tlr(t,x,L,R,E); for(int k=0;k<t->d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++) for(int z=0;z<pn(&t->f[k][q],ad);z++){ double d=pgrad(&t->f[k][q],z,x[k]); if(ge) *ge++=d; *g++=L[k][q%t->r[k]]*d*R[k+1][q/t->r[k]]; } }
static void tcheck(const char*site,struct FunctionTrain*f,const RT*t){ double x[FD],tol=1e-12*tscl(t); for(int k=0;k<=t->d;k++) mc_expect(site,(int)function_train_get_rank(f,k)==t->r[k],"rank %d is %zu",k,function_train_get_rank(f,k)); for(int e=0;e<12;e++){ tpt(t,e,x); mc_cmp(site,function_train_eval(f,x),rt_eval(t,x),tol); } }
static void ro_adapt(RO*o,int ad){ if(ad) for(int k=0;k<o->d;k++) kernel_approx_opts_set_center_adapt(o->u[k],1); }
#endif
