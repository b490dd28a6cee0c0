/* C13: quadrature rules integrate exactly what their order promises. */
#include "mc.h"
#include "lib_quadrature.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *mc_property="C13";
/* reference Gauss-Legendre nodes by Newton iteration in long double */
static void refgl(int n,long double*x,long double*w)
{
    const long double P=3.14159265358979323846264338327950288L;
    for(int i=0;i<n;i++){ long double z=-cosl(P*(i+0.75L)/(n+0.5L)),pp=1;
        for(int it=0;it<100;it++){ long double p1=1,p2=0; for(int j=0;j<n;j++){ long double p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} 
            pp=n*(z*p1-p2)/(z*z-1); long double dz=p1/pp; z-=dz; if(fabsl(dz)<1e-19L) break; }
        { long double p1=1,p2=0; for(int j=0;j<n;j++){ long double p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} pp=n*(z*p1-p2)/(z*z-1);} 
        x[i]=z; w[i]=1/((1-z*z)*pp*pp); }
}
static void canary(double*b,int n){ for(int i=0;i<n;i++) b[i]=-777.25; }
static int cmpd(const void*a,const void*b){ double x=*(double*)a,y=*(double*)b; return x<y?-1:x>y; }
static void d_gl(void)
{
    int N=1+mc_choose(mc_thorough?320:260,"N"); int api=mc_choose(3,"api"); mc_shard();
    if(api==1 && N>199) mc_skip();
    if(api==2 && N>199){ double*a=0,*b=0; int r=getLegPtsWts2(N,&a,&b); mc_step(); mc_expect("tab-range",r!=0,"N=%d accepted",N); return; }
    mc_note("gauss_legendre N=%d api %d",N,api);
    double*p=malloc((N+2)*sizeof(double)),*w=malloc((N+2)*sizeof(double)); canary(p,N+2);canary(w,N+2);
    if(api==0) gauss_legendre(N,p,w);
    else if(api==1) { if(N<2) mc_skip(); getLegPtsWts(N,p,w); }
    else { double*a=0,*b=0; int r=getLegPtsWts2(N,&a,&b); mc_expect("tab-ret",r==0,"ret %d",r); memcpy(p,a,N*sizeof(double)); memcpy(w,b,N*sizeof(double)); }
    mc_step();
    mc_expect("overrun",p[N]==-777.25&&w[N]==-777.25,"wrote past N");
    long double*x=malloc(N*sizeof(*x)),*v=malloc(N*sizeof(*x)); refgl(N,x,v);
    double tolp=N<200?1e-14:2e-13,tolw=N<200?1e-14:1e-13; double s=0;
    for(int i=0;i<N;i++){ mc_cmp("gl-node",p[i],(double)x[i],tolp); mc_cmp("gl-weight",w[i],(double)v[i],tolw); s+=w[i]; }
    mc_cmp("gl-sum",s,1.0,1e-12);
    /* exact moments through the promised degree 2N-1 (orthonormality of Legendre P_k with 1) */
    for(int k=1;k<=2*N-1;k++){ double m=0; for(int i=0;i<N;i++){ double p1=1,p2=0; for(int j=0;j<k;j++){double p3=p2;p2=p1;p1=((2*j+1)*p[i]*p2-j*p3)/(j+1);} m+=w[i]*p1; } mc_cmp("gl-exact",m,0.0,2e-12); if(k>40&&k<2*N-6&&!mc_thorough) k+=6; }
    mc_state(mc_hda(mc_hda(mc_h0(),N,p),N,w)); free(p);free(w);free(x);free(v);
}
static void d_hermite(void)
{
    int N=2+mc_choose(mc_thorough?80:50,"N"); mc_shard(); mc_note("gauss_hermite N=%d",N);
    double*p=malloc((N+2)*sizeof(double)),*w=malloc((N+2)*sizeof(double)); canary(p,N+2);canary(w,N+2);
    int r=gauss_hermite(N,p,w); mc_step(); mc_expect("ret",r==0,"ret %d",r);
    mc_expect("overrun",p[N]==-777.25&&w[N]==-777.25,"wrote past N");
    double s=0; for(int i=0;i<N;i++){ s+=w[i]; mc_expect("positive",w[i]>=0,"negative weight"); if(i) mc_expect("ascending",p[i]>p[i-1],"nodes not ascending"); mc_cmp("symmetric",p[i],-p[N-1-i],1e-11*(1+fabs(p[i]))); mc_cmp("symmetric-w",w[i],w[N-1-i],1e-12); }
    mc_cmp("sum",s,1.0,1e-12);
    /* orthonormal Hermite up to degree: sum w h_i h_j = delta, i+j<=2N-1 */
    int M=N<14?N:14; for(int i=0;i<M;i++) for(int j=i;j<M;j++){ if(i+j>2*N-1) continue; double m=0; for(int q=0;q<N;q++){ double a=0,b=0,h1=1,h0=0; for(int k=0;k<=j;k++){ if(k==i) a=h1; if(k==j) b=h1; double h=(p[q]*h1-sqrt(k)*h0)/sqrt(k+1.0); h0=h1;h1=h; } m+=w[q]*a*b; } mc_cmp("herm-exact",m,i==j?1.0:0.0,1e-10); }
    mc_state(mc_hda(mc_hda(mc_h0(),N,p),N,w)); free(p);free(w);
}
static double moment(int k){ return k%2?0.0:2.0/(k+1); }
/* Chebyshev T_k integrals keep conditioning good: int_{-1}^1 T_k = 2/(1-k^2) for even k */
static double chebint(int k){ return k%2?0.0:2.0/(1.0-(double)k*k); }
static double T(int k,double x){ double a=1,b=x; if(!k) return 1; for(int j=1;j<k;j++){double c=2*x*b-a;a=b;b=c;} return b; }
static void d_cc(void)
{
    int N=1+mc_choose(mc_thorough?200:100,"N"), rule=mc_choose(4,"rule"); mc_shard();
    mc_note("rule %d N=%d",rule,N);
    double*p=malloc((N+2)*sizeof(double)),*w=malloc((N+2)*sizeof(double)); canary(p,N+2);canary(w,N+2);
    if(rule==0){ clenshaw_curtis(N,p,w); mc_step(); for(int k=0;k<N;k++){ double m=0; for(int i=0;i<N;i++) m+=w[i]*T(k,p[i]); mc_cmp("cc-exact",m,chebint(k),1e-12);} 
        for(int k=0;k<N&&k<12;k++){ double m=0; for(int i=0;i<N;i++) m+=w[i]*pow(p[i],k); mc_cmp("cc-moment",m,moment(k),1e-12);} }
    else if(rule==1){ fejer2(N,p,w); mc_step(); for(int k=0;k<N;k++){ double m=0; for(int i=0;i<N;i++) m+=w[i]*T(k,p[i]); mc_cmp("fejer-exact",m,chebint(k),1e-12);} }
    else if(rule==2){ int r=cheb_gauss(N,p,w); mc_step(); mc_expect("ret",r==0,"ret"); for(int k=0;k<2*N;k++){ double m=0; for(int i=0;i<N;i++) m+=w[i]*T(k,p[i]); mc_cmp("cheb-exact",m,k?0.0:M_PI,1e-11);} }
    else { static const double AB[5][2]={{0,1},{-3,-1},{-1,1},{2,7.5},{-0.25,4}}; int q=mc_choose(5,"ab"); double a=AB[q][0],b=AB[q][1]; mc_note(" [%g,%g]",a,b);
        clenshaw_curtis(N,p,w); rescale_cc(N,p,w,a,b); mc_step(); for(int k=0;k<N&&k<9;k++){ double m=0,ex=(pow(b,k+1)-pow(a,k+1))/(k+1),sc=pow(fmax(fabs(a),fabs(b)),k)*(b-a); for(int i=0;i<N;i++) m+=w[i]*pow(p[i],k); mc_cmp("rescale-exact",m,ex,1e-12*sc);} 
        for(int i=0;i<N;i++) mc_expect("in-interval",p[i]>=a-1e-12&&p[i]<=b+1e-12,"node outside"); }
    mc_expect("overrun",p[N]==-777.25&&w[N]==-777.25,"wrote past N");
    if(rule<3) for(int i=0;i<N;i++){ mc_expect("inside",p[i]>=-1&&p[i]<=1,"node %g",p[i]); mc_expect("positive",w[i]>0,"weight %g",w[i]); }
    double*s=malloc(N*sizeof(double)); memcpy(s,p,N*sizeof(double)); qsort(s,N,sizeof(double),cmpd); for(int i=1;i<N;i++) mc_expect("distinct",s[i]>s[i-1],"repeated node"); free(s);
    mc_state(mc_hda(mc_hda(mc_hu(mc_h0(),rule),N,p),N,w)); free(p);free(w);
}
static void d_uniform(void)
{
    int N=2+mc_choose(mc_thorough?120:60,"N"), rule=mc_choose(2,"rule"), hq=mc_choose(4,"h"); mc_shard();
    static const double H[4]={1,0.125,0.3,7}; double h=H[hq]; if(rule==1&&N<3) mc_skip();
    mc_note("%s N=%d h=%g",rule?"simpson":"trap",N,h);
    double*w=rule?simpson_w(N,h):trap_w(N,h); mc_step();
    int deg= rule? ((N%2)?3:1):1; double L=(N-1)*h;
    for(int k=0;k<=deg;k++){ double m=0; for(int i=0;i<N;i++) m+=w[i]*pow(i*h/L,k); mc_cmp(rule?"simpson-exact":"trap-exact",m,L/(k+1),1e-12*L); }
    /* locality: interior weights follow the composite pattern, so quadratic/cubic error on any prefix stays at the end */
    if(rule&&N%2==0){ double m=0; int n2=N-1; for(int i=0;i<N;i++) m+=w[i]*pow(i*h/L,2); double want=pow((n2-1)*h/L,3)*L/3 + 0.5*h*(pow((N-2)*h/L,2)+pow((N-1)*h/L,2)); mc_cmp("simpson-even",m,want,1e-12*L); }
    mc_state(mc_hda(mc_hu(mc_h0(),rule),N,w)); free(w);
}
const mc_driver mc_drivers[]={{"gauss_legendre",d_gl,1,3},{"gauss_hermite",d_hermite,1,3},{"chebyshev_family",d_cc,1,3},{"uniform",d_uniform,1,3},{0}};
