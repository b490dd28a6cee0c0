/* C18: densities, linear maps and sensitivities match their definitions. */
#include "par.h"
#include "big.h"
#include "lib_probability.h"
#include "array.h"
#include <float.h>
const char *mc_property="C18";

/* ---- normal distribution function and its inverse ---- */
static double refcdf(double z){ return 0.5*erfc(-z*M_SQRT1_2); }
static double reficdf(double p){ double a=-40,b=40; int hi=p>0.5; double t=hi?1-p:p; for(int i=0;i<200;i++){ double m=0.5*(a+b); if(refcdf(m)<t) a=m; else b=m; } return hi?-0.5*(a+b):0.5*(a+b); }
static void normal(void)
{
    int N=mc_thorough?8192:2048; int blk=mc_choose(65,"block"); mc_shard(); int m=mc_choose(3,"mean"),s=mc_choose(3,"deviation"); static const double M[3]={0,-2.5,3},S[3]={1,0.25,4};
    uint64_t h=mc_h0(); double prev=-1e300; int n=blk<64?N/64:30;
    for(int i=0;i<n;i++){ double p=blk<64?(blk*(N/64)+i+0.5)/N:i<15?pow(10,-(i+1)):1-pow(10,-(i-14)); if(p<=0||p>=1||(blk==64&&i>=25)) continue;
        double z=reficdf(p),x=M[m]+S[s]*z,tol=S[s]*(1e-13*(1+fabs(z))+(p>0.5?4e-16/(exp(-z*z/2)/2.5066):0)); mc_cmp("inverse",icdf_normal(M[m],S[s],p),x,tol*10); mc_cmp("standard-inverse",icdfnorm(p),z,10*tol/S[s]);
        mc_cmp("rational-inverse",icdfnorm_rational(p),z,1e-8*(1+fabs(z))+10*tol/S[s]); mc_cmp("distribution",cdf_normal(M[m],S[s],x),p,1e-14); double c=cdf_normal(M[m],S[s],x); if(blk<64){ mc_expect("monotone",c>prev,"distribution function decreases"); prev=c; } h=mc_hd(h,c); mc_steps(4); }
    for(int i=0;i<9;i++){ double z=(i-4)*2.5; mc_cmp("distribution-tail",cdf_normal(M[m],S[s],M[m]+S[s]*z),refcdf(z),1e-15); }
    mc_state(h);
}
/* ---- linear maps ---- */
static void mkA(double*A,int di,int dout,int lt,int v){ for(int j=0;j<di;j++) for(int i=0;i<dout;i++) A[i+j*dout]=lt&&i<j?0:i==j?(v%2&&i==1?-1:1)*(0.75+0.5*((i+v)%3)):v==2?0:fgen(41+v,i,j,di); }
static void maps(void)
{
    static const int MDI[]={1,2,3,4,9}; int di=MDI[mc_choose(5,"in")],dout=MDI[mc_choose(5,"out")],v=mc_choose(4,"variant"); mc_shard(); int hist=mc_choose(6,"history"); int sq=di==dout; if(hist&&!sq) mc_skip();
    double A[81]={0},b[9]={0},x[9],det=1,A0[81],b0[9]; mkA(A,di,dout,sq,v); for(int i=0;i<dout;i++){ b[i]=fgen(51,i,v,0); if(sq) det*=A[i+i*dout]; } for(int i=0;i<di;i++) x[i]=fgen(52,i,v,1); memcpy(A0,A,sizeof A); memcpy(b0,b,sizeof b);
    struct LinearTransform*l=linear_transform_alloc(di,dout,A,b,det); if(sq) l->mt=LT; mc_expect("map-copies",l->A!=A&&l->b!=b,"keeps the caller's arrays");
    /* histories: 0 apply, 1 invert, 2 copy then invert the copy, 3 invert then copy, 4 copy, drop the original, invert, 5 invert twice */
    if(hist==1||hist==3||hist==5) linear_transform_invert(l); if(hist==5) linear_transform_invert(l); struct LinearTransform*c=l;
    if(hist==2||hist==3||hist==4) c=linear_transform_copy(l); if(hist==4){ linear_transform_free(l); l=NULL; } if(hist==2||hist==4) linear_transform_invert(c); mc_steps(3);
    mc_expect("map-dims",(int)c->dimin==di&&(int)c->dimout==dout,"dimensions changed"); double*y=linear_transform_apply(c->dimin,c->dimout,c->A,x,c->b); uint64_t h=mc_hu(mc_h0(),hist);
    for(int i=0;i<dout;i++){ double w=b0[i]; for(int j=0;j<di;j++) w+=A0[i+j*dout]*x[j]; mc_cmp("map-apply",y[i],w,1e-14*40); h=mc_hd(h,y[i]); }
    if(hist){ mc_expect("map-inverse",c->Ainv&&c->binv,"no inverse"); double*z=linear_transform_apply(c->dimout,c->dimin,c->Ainv,y,c->binv); for(int i=0;i<di;i++) mc_cmp("map-inverse-apply",z[i],x[i],1e-12); free(z);
        for(int i=0;i<di;i++) for(int j=0;j<di;j++){ double s=0; for(int k=0;k<di;k++) s+=c->Ainv[i+k*di]*A0[k+j*di]; mc_cmp("map-inverse-matrix",s,i==j,1e-12); } mc_cmp("map-determinant",c->det,det,1e-13); mc_cmp("map-inverse-determinant",c->detinv*det,1,1e-12); }
    mc_expect("map-arguments",!memcmp(A,A0,sizeof A)&&!memcmp(b,b0,sizeof b),"arguments changed"); mc_state(h); free(y); if(c!=l) linear_transform_free(c); if(l) linear_transform_free(l);
}
/* ---- densities given by a train and a lower triangular map ---- */
static double rt_d(const RT*t,const double*x,const int*o){ double a[FR],b[FR]; a[0]=1; for(int k=0;k<t->d;k++){ for(int j=0;j<t->r[k+1];j++){ b[j]=0; for(int i=0;i<t->r[k];i++) b[j]+=a[i]*uop(&t->f[k][i+j*t->r[k]],x[k],o[k]); } memcpy(a,b,sizeof a);} return a[0]; }
static void density(void)
{
    int d=(int[]){1,2,3,5}[mc_choose(4,"dimension")],rp=mc_choose(4,"ranks"),cs=mc_choose(3,"class"),v=mc_choose(5,"map"); mc_shard(); int pat=mc_choose(2,"pattern"),first=mc_choose(4,"first query"); static const int C[3]={3,5,0};
    RT*t=malloc(sizeof *t); rt_make(t,d,rp,C[cs],0,1,pat?PGEN2:PONE); double L[25]={0},b[5]={0},Li[25]={0},det=1; for(int i=0;i<d;i++) L[i+i*d]=1;
    if(v<4){ mkA(L,d,d,1,v); for(int i=0;i<d;i++) b[i]=fgen(61,i,v,0); } for(int i=0;i<d;i++) det*=L[i+i*d];
    for(int j=0;j<d;j++) for(int i=0;i<d;i++){ double s=i==j; for(int k=j;k<i;k++) s-=L[i+k*d]*Li[k+j*d]; Li[i+j*d]=i<j?0:s/L[i+i*d]; }
    struct ProbabilityDensity*p=probability_density_alloc(); p->pdf=rt_build(t); p->type=GENERAL; if(v<4){ p->transform=1; p->lt=linear_transform_alloc(d,d,L,b,det); p->lt->mt=LT; } mc_key("%s",v<4?"transformed":"plain");
    double*lb=probability_density_lb_base(p),*ub=probability_density_ub_base(p); for(int k=0;k<d;k++) if(C[cs]!=UHERM){ mc_expect("base-bounds",lb[k]==t->f[k][0].lb&&ub[k]==t->f[k][0].ub,"bounds %g %g",lb[k],ub[k]); } free(lb); free(ub);
    uint64_t h=mc_h0(); double S=tscl(t); S=S>50?50:S;
    for(int e=0;e<6;e++){ double y[5],x[5]; for(int k=0;k<d;k++) y[k]=umap(FXP[e==2||e==4?0:e][k]*(e==2?0.5:e==4?-0.71:1),-1,1); if(C[cs]==ULIN&&e>=2) for(int k=0;k<d;k++) if(fabs(y[k])==1) y[k]*=0.97;
        if(v<4) for(int i=0;i<d;i++){ x[i]=b[i]; for(int j=0;j<=i;j++) x[i]+=L[i+j*d]*y[j]; } else memcpy(x,y,sizeof x);
        int edge=0; for(int k=0;k<d;k++) if(fabs(y[k])==1) edge=1; if(v<4&&edge){ if(C[cs]!=UHERM) continue; }
        int o[FD]={0}; double f=rt_d(t,y,o),sc=v<4?1/fabs(det):1; double g[5],H[25]; for(int i=0;i<d;i++){ o[i]++; g[i]=rt_d(t,y,o); for(int j=0;j<d;j++){ o[j]++; H[i+j*d]=rt_d(t,y,o); o[j]--; } o[i]--; }
        for(int q=0;q<3;q++){ int w=(first+q)%3; if(first==3&&w!=0) continue;
          if(w==0){ double V=probability_density_eval(p,x); mc_cmp("value",V,f*sc,1e-11*S*sc); h=mc_hd(h,V); }
          else if(fabs(f)<0.03*S/50) continue;
          else if(w==1){ double*G=probability_density_log_gradient_eval(p,x); for(int i=0;i<d;i++){ double s=0; for(int k=0;k<d;k++) s+=g[k]/f*(v<4?Li[k+i*d]:k==i); mc_cmp("log-gradient",G[i],s,1e-8*(1+fabs(s))*S); h=mc_hd(h,G[i]); } free(G); }
          else { double*K=probability_density_log_hessian_eval(p,x); for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double s=0; for(int k=0;k<d;k++) for(int m=0;m<d;m++) s+=(H[k+m*d]/f-g[k]*g[m]/f/f)*(v<4?Li[k+i*d]:k==i)*(v<4?Li[m+j*d]:m==j); mc_cmp("log-hessian",K[i+j*d],s,1e-7*(1+fabs(s))*S); h=mc_hd(h,K[i+j*d]); } free(K); } mc_step(); }
    }
    if(C[cs]!=UHERM) for(int k=0;k<d;k++) for(int sd=0;sd<2;sd++){ double y[5],x[5]; for(int i=0;i<d;i++) y[i]=0.19; y[k]=sd?1.25:-1.25; if(v<4) for(int i=0;i<d;i++){ x[i]=b[i]; for(int j=0;j<=i;j++) x[i]+=L[i+j*d]*y[j]; } else memcpy(x,y,sizeof x); mc_cmp("outside",probability_density_eval(p,x),0,0); mc_step(); }
    mc_state(h); probability_density_free(p); free(t);
}
/* ---- normal densities ---- */
static double chol(int d,const double*C,double*L){ double det=1; memset(L,0,sizeof(double)*d*d); for(int j=0;j<d;j++){ double s=C[j+j*d]; for(int k=0;k<j;k++) s-=L[j+k*d]*L[j+k*d]; L[j+j*d]=sqrt(s); det*=L[j+j*d]; for(int i=j+1;i<d;i++){ double q=C[i+j*d]; for(int k=0;k<j;k++) q-=L[i+k*d]*L[j+k*d]; L[i+j*d]=q/L[j+j*d]; } } return det; }
static void mkcov(int d,int v,double*C){ double B[64]; for(int i=0;i<d*d;i++) B[i]=v==0?(i%(d+1)==0):v==1?0.5*fgen(71,i,d,0):v==2?(i%(d+1)==0?0.25+i:0):2*fgen(72,i,d,0); for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double s=v==1||v==3?(i==j)*0.3:0; for(int k=0;k<d;k++) s+=B[i+k*d]*B[j+k*d]; C[i+j*d]=s; } }
static void gauss(void)
{
    int d=(int[]){1,2,3,7}[mc_choose(4,"dimension")],cv=mc_choose(5,"covariance"),mv=mc_choose(3,"mean"); mc_shard(); if(cv==4&&mv) mc_skip();
    double m[8]={0},C[64]={0},L[64],m0[8],C0[64]; if(cv<4){ mkcov(d,cv,C); for(int i=0;i<d;i++) m[i]=mv==0?0:mv==1?fgen(73,i,0,0):-4+3*i; } else mkcov(d,0,C); memcpy(m0,m,sizeof m); memcpy(C0,C,sizeof C); double det=chol(d,C,L);
    struct ProbabilityDensity*p=cv<4?probability_density_mvn(d,m,C):probability_density_standard_normal(d); mc_expect("normal",p&&p->type==GAUSSIAN,"no Gaussian density"); mc_expect("normal-arguments",!memcmp(m,m0,sizeof m)&&!memcmp(C,C0,sizeof C),"arguments changed"); mc_key("%s",cv<4?"mvn":"standard");
    double pk=1/det; for(int i=0;i<d;i++) pk/=sqrt(2*M_PI); mc_cmp("normalisation",function_train_integrate(p->pdf),1,2e-4*d); uint64_t h=mc_h0();
    static const double Z3[9][3]={{0,0,0},{0.5,-0.3,0.2},{1.1,0.7,-0.4},{-2,0.1,1.3},{0.3,2.2,-1.7},{-1,-1,-1},{3,0,0},{0,-3.1,0.4},{0,0,2.6}};
    for(int e=0;e<9;e++){ double Z[9][8]; for(int i=0;i<8;i++) Z[e][i]=i<3?Z3[e][i]:0.3*fgen(75,i,e,0)*(e>0); double x[8],q=0; for(int i=0;i<d;i++){ x[i]=m[i]; for(int j=0;j<=i;j++) x[i]+=L[i+j*d]*Z[e][j]; q+=Z[e][i]*Z[e][i]; } double V=probability_density_eval(p,x),w=pk*exp(-q/2); mc_cmp("normal-value",V,w,5e-5*pk*d); h=mc_hd(h,V);
        if(q<5&&e){ double*G=probability_density_log_gradient_eval(p,x); for(int i=0;i<d;i++){ /* -(L^-T z)_i */ double u[8]; for(int a=d-1;a>=0;a--){ u[a]=Z[e][a]; for(int c=a+1;c<d;c++) u[a]-=L[c+a*d]*u[c]; u[a]/=L[a+a*d]; } mc_cmp("normal-log-gradient",G[i],-u[i],0.05*(1+fabs(u[i]))/L[i+i*d]); } free(G); } mc_steps(2); }
    mc_state(h); probability_density_free(p);
}
static void sample(void)
{
    int d=(int[]){1,2,3,7}[mc_choose(4,"dimension")],cv=mc_choose(5,"covariance"),seed=mc_choose(4,"seed"); mc_shard(); double m[8],C[64],L[64],z[8]; mkcov(d,cv<4?cv:0,C); chol(d,C,L); for(int i=0;i<d;i++) m[i]=cv<4?fgen(74,i,cv,0):0;
    mc_key("%s",cv<4?"mvn":"standard"); struct ProbabilityDensity*p=cv<4?probability_density_mvn(d,m,C):probability_density_standard_normal(d); mc_srand(seed+5); for(int r=0;r<3;r++) for(int i=0;i<d;i++){ double q=randn(); if(r==0) z[i]=q; } if(3*d%2) randn(); /* deviates come in pairs */
    mc_srand(seed+5); double*s=probability_density_sample(p); if(d%2) randn(); mc_step(); uint64_t h=mc_h0(); for(int i=0;i<d;i++){ double w=m[i]; for(int j=0;j<=i;j++) w+=L[i+j*d]*z[j]; mc_cmp("sample",s[i],w,1e-12*(1+fabs(w))); h=mc_hd(h,s[i]); } mc_state(h); free(s); probability_density_free(p);
}
/* ---- Laplace approximation: exact for quadratic negative log densities ---- */
typedef struct { int d; double H[64],c[8]; int calls; } LQ;
static double lq_f(size_t d,const double*x,double*g,void*a){ LQ*q=a; double v=0; for(int i=0;i<q->d;i++){ double s=0; for(int j=0;j<q->d;j++) s+=q->H[i+j*q->d]*(x[j]-q->c[j]); if(g) g[i]=s; v+=0.5*s*(x[i]-q->c[i]); } q->calls++; return v; }
static double*lq_h(double*x,void*a){ LQ*q=a; double*h=malloc(sizeof(double)*q->d*q->d); memcpy(h,q->H,sizeof(double)*q->d*q->d); return h; }
static void laplace(void)
{
    int d=(int[]){1,2,3,7}[mc_choose(4,"dimension")],cv=mc_choose(4,"curvature"),st=mc_choose(3,"start"); mc_shard(); LQ q={d}; mkcov(d,cv,q.H); for(int i=0;i<d;i++) q.c[i]=fgen(81,i,cv,0); double s[8]={0},s0[8]; for(int i=0;i<d;i++) s[i]=st==0?0:st==1?q.c[i]:fgen(82,i,st,0)*2; memcpy(s0,s,sizeof s);
    struct ProbabilityDensity*p=probability_density_laplace(lq_f,lq_h,&q,d,s); mc_step(); mc_expect("laplace-start",!memcmp(s,s0,sizeof s),"starting point changed"); uint64_t h=mc_h0();
    for(int i=0;i<d;i++){ mc_cmp("laplace-mean",p->lt->b[i],q.c[i],1e-3); h=mc_hd(h,p->lt->b[i]); } for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double r=0; for(int k=0;k<d;k++){ double S=0; for(int m=0;m<d;m++) S+=p->lt->A[i+m*d]*p->lt->A[k+m*d]; r+=S*q.H[k+j*d]; } mc_cmp("laplace-covariance",r,i==j,1e-10); }
    mc_state(h); probability_density_free(p);
}
/* ---- sensitivities ---- */
typedef struct { int d,order,n[256]; const double*V; double S; } SA;
static void scb(double v,size_t n,size_t*l,void*a){ SA*s=a; int m=0; mc_expect("sensitivity-visit",n>=1&&(int)n<=s->d,"%zu variables",n); for(size_t i=0;i<n;i++){ mc_expect("sensitivity-visit",(int)l[i]<s->d&&(i==0||l[i]>l[i-1]),"label"); m|=1<<l[i]; } mc_expect("sensitivity-visit",(int)n<=s->order,"interaction of %zu variables reported at order %d",n,s->order); mc_cmp("sensitivity-visit-value",v,s->V[m],s->S); s->n[m]++; }
static void sobol(void)
{
    int d=1+mc_choose(5,"dimension"),rp=mc_choose(8,"ranks"),cs=mc_choose(3,"class"),pat=mc_choose(5,"pattern"); mc_shard(); int order=1+mc_choose(5,"order"),gs=mc_choose(2,"sizes"); if(order>d) mc_skip(); static const int P[5]={PGEN,PGEN2,PONE,PZROW,PDELTA};
    RT*t=malloc(sizeof *t); rt_make(t,d,rp,cs==1?5:3,gs,0,P[pat]); if(cs==2) for(int k=1;k<d;k+=2) for(int q=0;q<t->r[k]*t->r[k+1];q++){ t->f[k][q].cls=UHERM; } 
    double V[32]={0},mean=0,tot=0,sc=1; int n[FD],N=1; for(int k=0;k<d;k++){ n[k]=t->f[k][0].n; N*=n[k]; }
    for(int q=0;q<N;q++){ int r=q,m=0; double a[FR]={1},b[FR]; for(int k=0;k<d;k++){ int c=r%n[k]; r/=n[k]; if(c) m|=1<<k; for(int j=0;j<t->r[k+1];j++){ b[j]=0; for(int i=0;i<t->r[k];i++) b[j]+=a[i]*t->f[k][i+j*t->r[k]].c[c]; } memcpy(a,b,sizeof a); } if(m){ V[m]+=a[0]*a[0]; tot+=a[0]*a[0]; } else mean=a[0]; }
    sc+=tot+mean*mean; double tol=1e-11*sc*(1<<d); mc_key("%dd",d); mc_note("%dd order %d",d,order); struct FunctionTrain*f=rt_build(t); double x0[FD],v0; tpt(t,0,x0); v0=function_train_eval(f,x0);
    struct C3SobolSensitivity*s=c3_sobol_sensitivity_calculate(f,order); mc_step(); uint64_t h=mc_hu(mc_h0(),order); mc_cmp("variance",c3_sobol_sensitivity_get_variance(s),tot,tol);
    for(int k=0;k<d;k++){ mc_cmp("main",c3_sobol_sensitivity_get_main(s,k),V[1<<k],tol); if(tot>1e-6*sc){ double T=0; for(int m=1;m<1<<d;m++) if(m>>k&1) T+=V[m]; mc_cmp("total",c3_sobol_sensitivity_get_total(s,k),T/tot,tol/tot*4); h=mc_hd(h,T/tot); } }
    for(int m=1;m<1<<d;m++){ size_t l[FD],c=0; for(int k=0;k<d;k++) if(m>>k&1) l[c++]=k; if((int)c>order) continue; double v=c3_sobol_sensitivity_get_interaction(s,c,l); mc_cmp("interaction",v,V[m],tol); h=mc_hd(h,v); mc_step(); }
    SA sa={d,order}; sa.V=V; sa.S=tol; memset(sa.n,0,sizeof sa.n); c3_sobol_sensitivity_apply_external(s,scb,&sa); for(int m=1;m<1<<d;m++) if(__builtin_popcount(m)<=order) mc_expect("sensitivity-visits",sa.n[m]==1,"subset %d visited %d times",m,sa.n[m]);
    mc_cmp("train-unchanged",function_train_eval(f,x0),v0,0); mc_state(h); c3_sobol_sensitivity_free(s); function_train_free(f); free(t);
}
/* sensitivities of functions of more variables */
static void bigsobol(void)
{
    int d=(int[]){6,7,8}[mc_choose(3,"dimension")],cs=mc_choose(3,"class"),rk=mc_choose(3,"ranks"); mc_shard(); int order=(int[]){1,2,3,5,8}[mc_choose(5,"order")],zero=mc_choose(2,"inactive variable"); if(order>d) mc_skip(); BT A; A.d=d; for(int k=0;k<=d;k++) A.r[k]=k==0||k==d?1:rk==0?1+k%3:rk==1?2:1+(k+1)%4;
    for(int k=0;k<d;k++){ int sz=A.r[k]*A.r[k+1]; A.cls[k]=cs==1||(cs==2&&k%2)?UHERM:ULEG; A.f[k]=malloc(sizeof(RF)*sz); for(int q=0;q<sz;q++){ RF*f=&A.f[k][q]; bgrid(f,A.cls[k],k%3,2+k%2,0); for(int c=0;c<f->n;c++) f->c[c]=zero&&k==d/2&&c?0:fgen(95,k*16+q,c,rk)/(1+c); } A.n[k]=A.f[k][0].n; }
    double*V=calloc(1<<d,8),mean=0,tot=0; int N=1; for(int k=0;k<d;k++) N*=A.n[k]; for(int q=0;q<N;q++){ int r=q,m=0; double a[BR]={1},b[BR]; for(int k=0;k<d;k++){ int c=r%A.n[k]; r/=A.n[k]; if(c) m|=1<<k; for(int j=0;j<A.r[k+1];j++){ b[j]=0; for(int i=0;i<A.r[k];i++) b[j]+=a[i]*A.f[k][i+j*A.r[k]].c[c]; } memcpy(a,b,sizeof a); } if(m){ V[m]+=a[0]*a[0]; tot+=a[0]*a[0]; } else mean=a[0]; }
    double tol=1e-11*(tot+mean*mean)*(order>3?1<<d:20); mc_key("big %dd",d); struct FunctionTrain*f=bt_build(&A); struct C3SobolSensitivity*s=c3_sobol_sensitivity_calculate(f,order); mc_step(); uint64_t h=mc_hu(mc_h0(),order); mc_cmp("big-variance",c3_sobol_sensitivity_get_variance(s),tot,tol);
    for(int k=0;k<d;k++){ mc_cmp("big-main",c3_sobol_sensitivity_get_main(s,k),V[1<<k],tol); double T=0; for(int m=1;m<1<<d;m++) if(m>>k&1) T+=V[m]; mc_cmp("big-total",c3_sobol_sensitivity_get_total(s,k),T/tot,tol/tot*4); h=mc_hd(h,T/tot); }
    for(int m=1;m<1<<d;m++){ size_t l[BD],c=0; for(int k=0;k<d;k++) if(m>>k&1) l[c++]=k; if((int)c>order) continue; mc_cmp("big-interaction",c3_sobol_sensitivity_get_interaction(s,c,l),V[m],tol); mc_step(); }
    SA sa={d,order}; sa.V=V; sa.S=tol; memset(sa.n,0,sizeof sa.n); c3_sobol_sensitivity_apply_external(s,scb,&sa); for(int m=1;m<1<<d;m++) if(__builtin_popcount(m)<=order) mc_expect("big-visits",sa.n[m]==1,"subset %d visited %d times",m,sa.n[m]);
    bt_check("big-input",f,&A,3,1e-13); mc_state(h); c3_sobol_sensitivity_free(s); function_train_free(f); bt_free(&A); free(V);
}
const mc_driver mc_drivers[]={{"normal",normal,1,MC_BOTH},{"map",maps,1,MC_BOTH},{"density",density,1,MC_BOTH},{"gaussian",gauss,1,MC_BOTH},{"sample",sample,1,MC_BOTH},{"laplace",laplace,1,MC_BOTH},{"sensitivity",sobol,1,MC_BOTH},{"bigsobol",bigsobol,1,MC_BOTH},{0}};
