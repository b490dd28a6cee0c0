/* reference integrals / inner products of RF, as defined by each representation */
#ifndef UCAL_H
#define UCAL_H
#include "uni.h"
static const double *u_gl(int w){ static double X[40],W[40]; static int init; if(!init){ init=1; for(int i=0;i<40;i++){ double x=cos(M_PI*(i+0.75)/40.5),dp=1; for(int it=0;it<100;it++){ double p0=1,p1=x; for(int k=2;k<=40;k++){ double p=((2*k-1)*x*p1-(k-1)*p0)/k;p0=p1;p1=p;} dp=40*(x*p1-p0)/(x*x-1); double dx=p1/dp; x-=dx; if(fabs(dx)<1e-16) break; } X[i]=x; W[i]=1/((1-x*x)*dp*dp); } } return w?W:X; } /* weights sum to 1 */
static double u_quad(const RF*f,const RF*g){ const double*X=u_gl(0),*W=u_gl(1); double s=0; for(int i=0;i<40;i++){ double x=f->lb+(X[i]+1)/2*(f->ub-f->lb); s+=W[i]*ueval(f,x)*(g?ueval(g,x):1); } return s*(f->ub-f->lb); }
static double u_integ(const RF*f)
{ if(f->cls==ULIN||f->cls==UCONST){ double s=0; for(int i=0;i+1<f->n;i++) s+=(f->x[i+1]-f->x[i])*0.5*(f->c[i]+f->c[i+1]); return s; } if(f->cls==UHERM) return f->c[0]; if(f->cls==ULEG) return f->c[0]*(f->ub-f->lb); return u_quad(f,NULL); }
static double u_inner(const RF*f,const RF*g)
{ if(f->cls==ULIN||f->cls==UCONST){ RF a,b; uaxpby(1,f,0,g,&a); uaxpby(0,f,1,g,&b); double s=0; for(int i=0;i+1<a.n;i++) s+=(a.x[i+1]-a.x[i])*0.5*(a.c[i]*b.c[i]+a.c[i+1]*b.c[i+1]); return s; }
  if(f->cls==UHERM||f->cls==ULEG){ double s=0; for(int i=0;i<f->n&&i<g->n;i++) s+=f->c[i]*g->c[i]; return f->cls==ULEG?s*(f->ub-f->lb):s; } return u_quad(f,g); }
#endif
