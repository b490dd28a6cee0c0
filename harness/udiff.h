/* reference derivatives of RF */
#ifndef UDIFF_H
#define UDIFF_H
#include "uni.h"
static void umono(const RF*f,double*m) /* monomial coefficients in t (t=x for hermite) */
{
    double p0[UMAX]={0},p1[UMAX]={0},p[UMAX]; memset(m,0,sizeof(double)*UMAX); p1[0]=1;
    for(int k=0;k<f->n;k++){ double nk=f->cls==ULEG?sqrt(2*k+1.0):1; for(int i=0;i<=k;i++) m[i]+=f->c[k]*nk*p1[i]; memset(p,0,sizeof p);
        for(int i=0;i<=k+1;i++){ double t=i?p1[i-1]:0; if(f->cls==ULEG) p[i]=((2*k+1)*t-k*p0[i])/(k+1); else if(f->cls==UCHEB) p[i]=k==0?t:2*t-p0[i]; else p[i]=(t-sqrt(k)*p0[i])/sqrt(k+1.0); }
        memcpy(p0,p1,sizeof p0); memcpy(p1,p,sizeof p1); }
}
static double upolyd(const RF*f,double x,int o){ double m[UMAX]; umono(f,m); double s=f->cls==UHERM?1:2/(f->ub-f->lb),t=f->cls==UHERM?x:2*(x-f->lb)/(f->ub-f->lb)-1; int n=f->n; for(int q=0;q<o;q++){ for(int i=0;i+1<n;i++) m[i]=m[i+1]*(i+1)*s; m[n>0?n-1:0]=0; n--; } double v=0; for(int i=(n>0?n:1)-1;i>=0;i--) v=v*t+m[i]; return v; }
static void ufd(const RF*f,RF*r)
{ int n=f->n; const double*x=f->x,*c=f->c; RF o=*f; double*d=o.c; 
  if(f->cls==UCONST){ for(int i=0;i<n;i++){ int j=i<n-1?i:i-1; d[i]=(c[j+1]-c[j])/(x[j+1]-x[j]); } *r=o; return; }
  d[0]=(c[1]-c[0])/(x[1]-x[0]); d[n-1]=(c[n-1]-c[n-2])/(x[n-1]-x[n-2]); for(int i=1;i<n-1;i++) d[i]=(c[i+1]-c[i-1])/(x[i+1]-x[i-1]);
  if(n>5) for(int i=2;i<n-2;i++){ double P=x[i+2]-x[i],p=x[i+1]-x[i],q=x[i]-x[i-1],Q=x[i]-x[i-2]; double r=(P*P*P+Q*Q*Q)/(p*p*p+q*q*q); d[i]=(r*(c[i+1]-c[i-1])-(c[i+2]-c[i-2]))/(r*(p+q)-(P+Q)); } *r=o; }
/* o-th derivative as a function of the representation */
static double uop(const RF*f,double x,int o)
{
    if(o==0) return ueval(f,x);
    if(f->cls==ULIN||f->cls==UCONST){ RF r; ufd(f,&r); if(o==2){ RF q; ufd(&r,&q); return ueval(&q,x); } return ueval(&r,x); }
    return upolyd(f,x,o);
}
/* pointwise derivative evaluation */
static double udpt(const RF*f,double x)
{
    if(f->cls==UCONST) return 0;
    if(f->cls==UKER){ double s=0; for(int i=0;i<f->n;i++){ double z=(x-f->x[i])/f->w; s+=1.5*f->c[i]*exp(-z*z)*(-2*z/f->w);} return s; }
    if(f->cls!=ULIN) return upolyd(f,x,1);
    int n=f->n; const double*X=f->x,*c=f->c; if(x<X[0]||x>X[n-1]) return 0;
    for(int i=0;i<n;i++) if(x==X[i]){ int a=i>0?i-1:i,b=i<n-1?i+1:i; return (c[b]-c[a])/(X[b]-X[a]); }
    int i=0; while(i<n-2&&x>=X[i+1]) i++; return (c[i+1]-c[i])/(X[i+1]-X[i]);
}
#endif
