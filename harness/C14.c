/* C14: discrete Fourier transform. */
#include "mc.h"
#include <complex.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
int fft_slow(size_t,const double complex*,size_t,double complex*,size_t);
int ifft_slow(size_t,const double complex*,size_t,double complex*,size_t);
int fft_base(size_t,const double complex*,size_t,double complex*,size_t);
int ifft_base(size_t,double complex*,size_t,double complex*,size_t);
int fft(size_t,const double complex*,size_t,double complex*,size_t);
int ifft(size_t,double complex*,size_t,double complex*,size_t);
const char *mc_property="C14";

static void dft(int N,const double complex*x,int sgn,double complex*X)
{
    const long double P=3.14159265358979323846264338327950288L;
    for(int k=0;k<N;k++){ long double re=0,im=0;
        for(int j=0;j<N;j++){ long double a=sgn*2*P*(long double)(((long)k*j)%N)/N; long double c=cosl(a),s=sinl(a);
            long double xr=creal(x[j]),xi=cimag(x[j]); re+=c*xr-s*xi; im+=c*xi+s*xr; }
        X[k]=(double)re+I*(double)im; }
}
static double mx(int N,const double complex*x){ double m=1e-300; for(int i=0;i<N;i++) if(cabs(x[i])>m) m=cabs(x[i]); return m; }
static void cmpv(const char*site,int N,const double complex*g,int sg,const double complex*w,double tol)
{ for(int i=0;i<N;i++){ mc_cmp(site,creal(g[i*sg]),creal(w[i]),tol); mc_cmp(site,cimag(g[i*sg]),cimag(w[i]),tol);} }
static uint64_t hv(int N,const double complex*x){ uint64_t h=mc_hu(mc_h0(),N); for(int i=0;i<N;i++){ h=mc_hd(h,creal(x[i])); h=mc_hd(h,cimag(x[i])); } return h; }

/* forward, inverse, round trip, dirty output buffer, input untouched */
static void check_pair(int N,const double complex*x)
{
    double complex *in=malloc(sizeof(*in)*N),*X=malloc(sizeof(*X)*N),*R=malloc(sizeof(*R)*N),*y=malloc(sizeof(*y)*N);
    memcpy(in,x,sizeof(*in)*N); for(int i=0;i<N;i++){ X[i]=7.5-3*I; y[i]=-2.25+I; }
    dft(N,x,-1,R); double tol=1e-12*N*mx(N,x);
    int r=fft(N,in,1,X,1); mc_step();
    mc_expect("fft-ret",r==0,"fft returned %d for N=%d",r,N);
    cmpv("fft=dft",N,X,1,R,tol);
    mc_expect("fft-input",!memcmp(in,x,sizeof(*in)*N),"fft changed its input");
    double complex*Xc=malloc(sizeof(*Xc)*N); memcpy(Xc,X,sizeof(*X)*N);
    r=ifft(N,X,1,y,1); mc_step();
    mc_expect("ifft-ret",r==0,"ifft returned %d for N=%d",r,N);
    cmpv("ifft(fft(x))=x",N,y,1,x,tol);
    for(int i=0;i<N;i++) mc_expect("ifft-input",creal(X[i])==creal(Xc[i])&&cimag(X[i])==cimag(Xc[i]),"ifft changed its input at %d",i);
    dft(N,x,1,R); for(int i=0;i<N;i++) R[i]/=N;
    memcpy(in,x,sizeof(*in)*N); r=ifft(N,in,1,y,1); mc_step(); cmpv("ifft=idft",N,y,1,R,tol);
    /* fft(ifft(x)) = x */
    r=fft(N,y,1,X,1); mc_step(); cmpv("fft(ifft(x))=x",N,X,1,x,tol);
    mc_state(hv(N,Xc));
    free(in);free(X);free(R);free(y);free(Xc);
}
static const double complex A4[4]={0,1,-2,3*I};
/* every vector over a 4-letter alphabet for N<=4 (thorough: 8), 3-letter for 8 */
static void d_small(void)
{
    int Ns[4]={1,2,4,8}; int N=Ns[mc_choose(4,"N")]; int base=(N==8&&!mc_thorough)?3:4;
    double complex x[8]; mc_note("N=%d x=",N);
    for(int i=0;i<N;i++){ int c=mc_choose(base,"x"); x[i]=A4[base==3?(c==2?3:c):c]; mc_note("(%g,%g)",creal(x[i]),cimag(x[i])); if(i==(N<3?N-1:2)) mc_shard(); }
    check_pair(N,x);
}
/* every unit impulse (times 1 or i) and dense generic vectors, N=1..512 (thorough 2048) */
static void d_impulse(void)
{
    int kmax=mc_thorough?12:10; int k=mc_choose(kmax,"log2N"); int N=1<<k;
    int full = N<=64 || (mc_thorough && N<=256);
    int np= full? N : 9; int p=mc_choose(np+3,"pos"); mc_shard();
    double complex*x=calloc(N,sizeof(*x)); mc_note("N=%d ",N);
    if(p<np){ int q= full? p : (int)((long)p*(N-1)/(np-1)); x[q]= (q%2)? 1.5*I : 1.0; mc_note("impulse at %d",q); }
    else { for(int i=0;i<N;i++){ if(p==np) x[i]=cos(1.7*i*i+0.3)+I*sin(2.1*i+0.5*i*i); else if(p==np+1) x[i]=(i%3)-1.0+0.25*(i%7); else x[i]=(i==N/2?1e6:1e-3*i)+I*(i%2); } mc_note("dense %d",p-np); }
    check_pair(N,x); free(x);
}
/* sizes that are not powers of two: refused, output untouched */
static void d_refuse(void)
{
    int N=mc_choose(mc_thorough?1100:300,"N"); mc_shard(); if(N>0 && (N&(N-1))==0) mc_skip();
    mc_note("N=%d",N);
    double complex*x=calloc(N+1,sizeof(*x)),*X=calloc(N+1,sizeof(*x)); for(int i=0;i<=N;i++){x[i]=i+1;X[i]=-i-7;}
    int r=fft(N,x,1,X,1); mc_step(); mc_expect("fft-refuse",r!=0,"fft accepted N=%d",N);
    for(int i=0;i<=N;i++) mc_expect("fft-refuse-out",creal(X[i])==-i-7,"output written for N=%d",N);
    r=ifft(N,x,1,X,1); mc_step(); mc_expect("ifft-refuse",r!=0,"ifft accepted N=%d",N);
    for(int i=0;i<=N;i++) { mc_expect("ifft-refuse-out",creal(X[i])==-i-7,"output written for N=%d",N); mc_expect("ifft-refuse-in",creal(x[i])==i+1,"input written for N=%d",N); }
    mc_state(mc_hu(5,N)); free(x);free(X);
}
/* direct sums: every size, strides on both sides; strided fft_base for powers of two */
static void d_slow(void)
{
    int N=1+mc_choose(mc_thorough?48:24,"N"), sx=1+mc_choose(3,"sx"), sX=1+mc_choose(3,"sX"), kind=mc_choose(3,"kind"), which=mc_choose(3,"which"); mc_shard();
    if(which==2 && (N&(N-1))) mc_skip();
    mc_note("N=%d strides %d %d kind %d which %d",N,sx,sX,kind,which);
    double complex*x=calloc(N*sx,sizeof(*x)),*X=calloc(N*sX,sizeof(*x)),*v=calloc(N,sizeof(*x)),*R=calloc(N,sizeof(*x));
    for(int i=0;i<N*sx;i++) x[i]=99+I; for(int i=0;i<N*sX;i++) X[i]=-5;
    for(int i=0;i<N;i++){ v[i]= kind==0? (i==N/3) : kind==1? cos(3*i+1)+I*sin(i*i) : (i%2?-1:2)+I*i; x[i*sx]=v[i]; }
    dft(N,v,which==1?1:-1,R); if(which==1) for(int i=0;i<N;i++) R[i]/=N;
    int r= which==0? fft_slow(N,x,sx,X,sX) : which==1? ifft_slow(N,x,sx,X,sX) : fft_base(N,x,sx,X,sX); mc_step();
    mc_expect("slow-ret",r==0,"ret %d",r);
    cmpv(which==2?"fft_base-strided":"slow=dft",N,X,sX,R,1e-12*N*N);
    for(int i=0;i<N*sX;i++) if(i%sX) mc_expect("stride-gap",X[i]==-5,"wrote between strides");
    mc_state(hv(N,R)); free(x);free(X);free(v);free(R);
}
const mc_driver mc_drivers[]={{"small",d_small,1,3},{"impulse",d_impulse,1,3},{"refuse",d_refuse,1,3},{"strided",d_slow,1,3},{0}};
