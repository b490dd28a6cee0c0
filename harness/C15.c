/* C15: dense factorisations and matrix utilities. */
#include "mc.h"
#include "linalg.h"
#include "matrix_util.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
const char *mc_property="C15";
#define MX 40
typedef struct { int m,n; double a[MX*MX]; } M;                 /* row i, column j: a[j*m+i] */
#define E_(A,i,j) ((A)->a[(j)*(A)->m+(i)])
static double fro(const M*A){ double s=0; for(int i=0;i<A->m*A->n;i++) s+=A->a[i]*A->a[i]; return sqrt(s); }
static void mul(const M*A,int ta,const M*B,int tb,M*C){ int m=ta?A->n:A->m,k=ta?A->m:A->n,n=tb?B->m:B->n; M R; R.m=m; R.n=n; for(int i=0;i<m;i++) for(int j=0;j<n;j++){ long double s=0; for(int l=0;l<k;l++) s+=(long double)(ta?E_(A,l,i):E_(A,i,l))*(tb?E_(B,j,l):E_(B,l,j)); R.a[j*m+i]=(double)s; } *C=R; }
static void cmpm(const char*site,const M*A,const M*B,double tol){ for(int i=0;i<A->m*A->n;i++) mc_cmp(site,A->a[i],B->a[i],tol); }
static void cmpI(const char*site,const M*A,double tol){ for(int j=0;j<A->n;j++) for(int i=0;i<A->m;i++) mc_cmp(site,E_(A,i,j),i==j,tol); }
/* one-sided Jacobi: singular values, descending */
static int jsvd(const M*A0,double*s){ M A; if(A0->m>=A0->n) A=*A0; else { A.m=A0->n; A.n=A0->m; for(int i=0;i<A.m;i++) for(int j=0;j<A.n;j++) E_(&A,i,j)=A0->a[i*A0->m+j]; }
    for(int sweep=0;sweep<60;sweep++){ int rot=0; for(int p=0;p<A.n;p++) for(int q=p+1;q<A.n;q++){ double x=0,y=0,z=0; for(int i=0;i<A.m;i++){ double u=E_(&A,i,p),v=E_(&A,i,q); x+=u*u; y+=v*v; z+=u*v; } if(fabs(z)<=1e-17*sqrt(x*y)||z==0) continue; rot=1; double t=(y-x)/(2*z); t=(t>=0?1:-1)/(fabs(t)+sqrt(1+t*t)); double c=1/sqrt(1+t*t),sn=c*t; for(int i=0;i<A.m;i++){ double u=E_(&A,i,p),v=E_(&A,i,q); E_(&A,i,p)=c*u-sn*v; E_(&A,i,q)=sn*u+c*v; } } if(!rot) break; }
    for(int j=0;j<A.n;j++){ double x=0; for(int i=0;i<A.m;i++) x+=E_(&A,i,j)*E_(&A,i,j); s[j]=sqrt(x); } for(int i=0;i<A.n;i++) for(int j=i+1;j<A.n;j++) if(s[j]>s[i]){ double t=s[i]; s[i]=s[j]; s[j]=t; } return A.n; }
/* every matrix over a small alphabet (small shapes), patterns of prescribed rank (larger shapes); shards */
static const double AL[3]={0,1,-2};
static int SH[][2]={{1,1},{1,2},{2,1},{2,2},{1,3},{3,1},{2,3},{3,2},{1,4},{4,1},{1,5},{5,1},{3,3},{4,2},{2,4}}; static int NSH=15;
static int LS[][2]={{4,3},{3,4},{4,4},{5,2},{2,5},{6,3},{3,7},{5,5},{8,5},{6,6},{7,1},{1,8},{12,4},{9,10},{17,12},{13,19},{33,20},{24,36}}; static int NLS=18;
static double gv(int i,int j,int s){ static const int T[]={3,-1,4,1,-5,9,2,-6,5,3,-5,8,9,-7,9,3,2,3,-8,4,6}; return T[(i*5+j*7+s*3+i*j)%21]/4.0+(i==j)*0.5*s; }
static int rankp; static double cap;
static void gen(M*A)
{
    int big=mc_choose(2,"big"); rankp=-1; cap=1;
    if(!big){ int k=mc_choose(NSH,"shape"); A->m=SH[k][0]; A->n=SH[k][1]; int N=A->m*A->n; for(int i=0;i<N;i++){ A->a[i]=AL[mc_choose(3,"a")]; if(i==(N<3?N-1:2)) mc_shard(); } }
    else { int k=mc_choose(NLS,"shape"); A->m=LS[k][0]; A->n=LS[k][1]; int mn=A->m<A->n?A->m:A->n; int r=mc_choose(11,"rank"); if(r==10&&mn>10) r=mn; if(r>mn) mc_skip(); int s=mc_choose(mc_thorough?8:4,"seed"); double sc=(double[]){1,1e-5,1e6}[mc_choose(3,"scale")]; mc_shard(); int dec=mc_choose(2,"spec"); rankp=r; cap=sc;
        for(int j=0;j<A->n;j++) for(int i=0;i<A->m;i++){ double v=0; for(int l=0;l<r;l++) v+=gv(i,l+s,s)*gv(l,j+2*s,s+1)*(dec?pow(0.1,l):1); E_(A,i,j)=v*sc; } }
    mc_note("%dx%d",A->m,A->n); if(A->m*A->n<=9) for(int i=0;i<A->m*A->n;i++) mc_note(" %g",A->a[i]); else mc_note(" rank %d",rankp);
    mc_state(mc_hda(mc_hu(mc_h0(),A->m*100+A->n),A->m*A->n,A->a));
}
static double*spread(const M*A,int ld,double fill){ double*p=malloc(8*(size_t)ld*A->n); for(int i=0;i<ld*A->n;i++) p[i]=fill; for(int j=0;j<A->n;j++) memcpy(p+j*ld,A->a+j*A->m,8*A->m); return p; }
static void collect(const double*p,int m,int n,int ld,M*A){ A->m=m; A->n=n; for(int j=0;j<n;j++) memcpy(A->a+j*m,p+j*ld,8*m); }
static void padok(const char*site,const double*p,int m,int n,int ld,double fill){ for(int j=0;j<n;j++) for(int i=m;i<ld;i++) mc_expect(site,p[j*ld+i]==fill,"padding written at row %d column %d",i,j); }

static void d_qr(void)
{
    M A; gen(&A); if(A.m<A.n) mc_skip(); int ld=A.m+mc_choose(3,"ld"); double*p=spread(&A,ld,77); mc_key("%dx%d",A.m,A.n); int r=qr(A.m,A.n,p,ld); mc_step(); mc_expect("qr-ret",r==0,"returned %d",r); padok("qr-pad",p,A.m,A.n,ld,77); M Q,T,R; collect(p,A.m,A.n,ld,&Q); free(p);
    mul(&Q,1,&Q,0,&T); cmpI("qr-orth",&T,1e-13); mul(&Q,1,&A,0,&R); double f=fro(&A); for(int j=0;j<A.n;j++) for(int i=j+1;i<A.n;i++) mc_cmp("qr-tri",E_(&R,i,j),0,1e-13*(f+1e-300)); mul(&Q,0,&R,0,&T); cmpm("qr-prod",&T,&A,1e-13*(f+1e-300));
}
static void d_rq(void)
{
    M A; gen(&A); if(A.n<A.m) mc_skip(); int ld=A.m+mc_choose(3,"ld"),bm=1+mc_choose(3,"bm"),ldb=bm+mc_choose(2,"ldb"); M B; B.m=bm; B.n=A.m; for(int i=0;i<bm*A.m;i++) B.a[i]=gv(i,1,2); double*p=spread(&A,ld,77),*b=spread(&B,ldb,55); rq_with_rmult(A.m,A.n,p,ld,bm,A.m,b,ldb); mc_step(); padok("rq-pad",p,A.m,A.n,ld,77); padok("rq-padb",b,bm,A.m,ldb,55);
    M Q,T,R,C; collect(p,A.m,A.n,ld,&Q); collect(b,bm,A.m,ldb,&C); free(p); free(b); mul(&Q,0,&Q,1,&T); cmpI("rq-orth",&T,1e-13); mul(&A,0,&Q,1,&R); double f=fro(&A); for(int j=0;j<A.m;j++) for(int i=j+1;i<A.m;i++) mc_cmp("rq-tri",E_(&R,i,j),0,1e-13*(f+1e-300)); mul(&R,0,&Q,0,&T); cmpm("rq-prod",&T,&A,1e-13*(f+1e-300)); mul(&B,0,&R,0,&T); cmpm("rq-mult",&C,&T,1e-12*(f+1e-300)*8);
}
static void usv(const double*u,const double*s,const double*vt,int m,int n,int r,int ldu,int ldv,M*A){ A->m=m; A->n=n; for(int j=0;j<n;j++) for(int i=0;i<m;i++){ double x=0; for(int k=0;k<r;k++) x+=u[k*ldu+i]*s[k]*vt[j*ldv+k]; A->a[j*m+i]=x; } }
static void d_svd(void)
{
    M A; gen(&A); int m=A.m,n=A.n,mn=m<n?m:n,ld=m+mc_choose(2,"ld"); double*p=spread(&A,ld,77),*u=malloc(8*m*m),*s=malloc(8*mn),*vt=malloc(8*n*n),w[MX]; for(int i=0;i<m*m;i++) u[i]=9; for(int i=0;i<n*n;i++) vt[i]=9; svd(m,n,ld,p,u,s,vt); mc_step(); double f=fro(&A)+1e-300; jsvd(&A,w);
    for(int i=0;i<mn;i++){ mc_cmp("svd-s",s[i],w[i],1e-13*f); mc_expect("svd-order",s[i]>=0&&(!i||s[i]<=s[i-1]),"singular value %d",i); } M U,V,T; collect(u,m,m,m,&U); collect(vt,n,n,n,&V); mul(&U,1,&U,0,&T); cmpI("svd-u",&T,1e-13); mul(&V,0,&V,1,&T); cmpI("svd-v",&T,1e-13); usv(u,s,vt,m,n,mn,m,n,&T); cmpm("svd-prod",&T,&A,1e-13*f); free(p); free(u); free(s); free(vt);
}
static void d_tsvd(void)
{
    M A; gen(&A); int m=A.m,n=A.n,mn=m<n?m:n,ld=m+mc_choose(2,"ld"); double w[MX]; jsvd(&A,w); double f=fro(&A); int dk=mc_choose(9,"delta"); double delta=dk==0?1e-24*f*f:dk==1?1e-8*f*f:dk==2?0.01*f*f:dk==3?0.2*f*f:dk==4?0.7*f*f:dk==5?2*f*f:dk==6?1e-30:dk==7?0:1e5; if(dk==0&&f==0) mc_skip();
    double tail[MX+1]; tail[mn]=0; for(int i=mn-1;i>=0;i--) tail[i]=tail[i+1]+w[i]*w[i]; int lo=1,hi=mn; for(int k=1;k<=mn;k++){ if(tail[k]<delta*(1-1e-9)-1e-25*f*f){ hi=k; break; } } for(int k=1;k<=mn;k++){ if(tail[k]<delta*(1+1e-9)+1e-25*f*f){ lo=k; break; } } /* the returned rank is the smallest with tail < delta, up to rounding of the tail */
    double*p=spread(&A,ld,77),*u=0,*s=0,*vt=0; size_t r=truncated_svd(m,n,ld,p,&u,&s,&vt,delta); mc_step(); mc_key("d%d",dk); mc_expect("tsvd-rank",(int)r>=lo&&(int)r<=hi,"rank %zu, smallest sufficient %d..%d for delta %g",r,lo,hi,delta); for(size_t i=0;i<r;i++) mc_cmp("tsvd-s",s[i],w[i],1e-13*f+1e-300); M U,V,T; collect(u,m,r,m,&U); collect(vt,r,n,r,&V); mul(&U,1,&U,0,&T); cmpI("tsvd-u",&T,1e-13); mul(&V,0,&V,1,&T); cmpI("tsvd-v",&T,1e-13); usv(u,s,vt,m,n,r,m,r,&T); double e=0; for(int i=0;i<m*n;i++) e+=pow(T.a[i]-A.a[i],2); mc_cmp("tsvd-err",e,tail[r],1e-12*f*f+1e-300); free(p); free(u); free(s); free(vt);
}
static void d_pinv(void)
{
    M A; gen(&A); int m=A.m,n=A.n,mn=m<n?m:n,ld=m+mc_choose(2,"ld"); double w[MX]; jsvd(&A,w); double f=fro(&A)+1e-300; int ck=mc_choose(4,"cut"); double cut=ck==0?1e-11*f:ck==1?1e-4*f:ck==2?0.3*f:0.9*f; int rk=0; for(int i=0;i<mn;i++){ if(fabs(w[i]-cut)<1e-9*f) mc_skip(); if(w[i]>=cut) rk++; } if(ck==0) for(int i=0;i<mn;i++) if(w[i]>1e-13*f&&w[i]<1e-8*f) mc_skip();
    double*p=spread(&A,ld,77),*o=malloc(8*m*n); for(int i=0;i<m*n;i++) o[i]=33; size_t r=pinv(m,n,ld,p,o,cut); mc_step(); mc_expect("pinv-rank",(int)r==rk,"rank %zu, %d singular values above the cutoff",r,rk); M P,T,X,Y; collect(o,n,m,n,&P); free(p); free(o); double smin=rk?w[rk-1]:f; double g=fro(&P); double tol=1e-13*(f/smin)*(f/smin)*20;
    /* Moore-Penrose conditions for the truncated matrix: A P symmetric idempotent of rank rk, P A P = P, and A P A = the truncated A */
    mul(&A,0,&P,0,&X); for(int i=0;i<m;i++) for(int j=0;j<m;j++) mc_cmp("pinv-sym",E_(&X,i,j),E_(&X,j,i),tol); double tr=0; for(int i=0;i<m;i++) tr+=E_(&X,i,i); mc_cmp("pinv-trace",tr,rk,tol); mul(&P,0,&A,0,&Y); for(int i=0;i<n;i++) for(int j=0;j<n;j++) mc_cmp("pinv-sym2",E_(&Y,i,j),E_(&Y,j,i),tol); mul(&P,0,&X,0,&T); cmpm("pinv-pap",&T,&P,tol*(g+1e-300)); mul(&X,0,&A,0,&T); double e=0,wt=0; for(int i=0;i<m*n;i++) e+=pow(T.a[i]-A.a[i],2); for(int i=rk;i<mn;i++) wt+=w[i]*w[i]; mc_cmp("pinv-apa",e,wt,tol*f*f);
}
static void d_ls(void)
{
    M A; gen(&A); int m=A.m,n=A.n,mn=m<n?m:n; int yk=mc_choose(5,"y"); double w[MX]; jsvd(&A,w); double f=fro(&A)+1e-300; double smin=1; for(int i=0;i<mn;i++){ if(w[i]>1e-13*f&&w[i]<1e-6*f) mc_skip(); if(w[i]>1e-6*f) smin=w[i]; } double k=f/smin;
    double*y=malloc(8*m),*y0=malloc(8*m),*x=malloc(8*n),*p=spread(&A,m,0); for(int i=0;i<m;i++) y[i]=y0[i]=yk==0?0:yk==1?(i==0):yk==2?gv(i,3,1):yk==3?A.a[i]:1; for(int i=0;i<n;i++) x[i]=99; linear_ls(m,n,p,y,x); mc_step(); mc_expect("ls-y",!memcmp(y,y0,8*m),"right-hand side changed");
    double xn=0,yn=0; for(int i=0;i<n;i++) xn+=x[i]*x[i]; for(int i=0;i<m;i++) yn+=y[i]*y[i]; xn=sqrt(xn); yn=sqrt(yn); double r[MX]; for(int i=0;i<m;i++){ double v=-y[i]; for(int j=0;j<n;j++) v+=E_(&A,i,j)*x[j]; r[i]=v; } for(int j=0;j<n;j++){ double v=0; for(int i=0;i<m;i++) v+=E_(&A,i,j)*r[i]; mc_cmp("ls-normal",v,0,1e-12*k*f*(yn+f*xn)+1e-300); }
    /* minimum norm: x is in the row space; project x out by pinv(A)A with own Gram-Schmidt of rows */
    double q[MX][MX]; int nq=0; for(int pass=0;pass<mn;pass++){ int best=-1; double bn=1e-9*f; double bv[MX]; for(int i=0;i<m;i++){ double v[MX]; for(int j=0;j<n;j++) v[j]=E_(&A,i,j); for(int rep=0;rep<2;rep++) for(int l=0;l<nq;l++){ double d=0; for(int j=0;j<n;j++) d+=v[j]*q[l][j]; for(int j=0;j<n;j++) v[j]-=d*q[l][j]; } double s=0; for(int j=0;j<n;j++) s+=v[j]*v[j]; if(sqrt(s)>bn){ bn=sqrt(s); best=i; memcpy(bv,v,sizeof bv); } } if(best<0) break; for(int j=0;j<n;j++) q[nq][j]=bv[j]/bn; nq++; }
    double v[MX]; memcpy(v,x,8*n); if(w[mn-1]>1e-6*f||f<1e-200) for(int l=0;l<nq;l++){ double d=0; for(int j=0;j<n;j++) d+=x[j]*q[l][j]; for(int j=0;j<n;j++) v[j]-=d*q[l][j]; } if(w[mn-1]>1e-6*f||f<1e-200) for(int j=0;j<n;j++) mc_cmp("ls-minnorm",v[j],0,1e-11*k*(xn+yn/f)+1e-300); free(y); free(y0); free(x); free(p);
}
static double det(M A){ double d=1; int n=A.m; for(int c=0;c<n;c++){ int p=c; for(int i=c+1;i<n;i++) if(fabs(E_(&A,i,c))>fabs(E_(&A,p,c))) p=i; if(E_(&A,p,c)==0) return 0; if(p!=c){ d=-d; for(int j=0;j<n;j++){ double t=E_(&A,p,j); E_(&A,p,j)=E_(&A,c,j); E_(&A,c,j)=t; } } d*=E_(&A,c,c); for(int i=c+1;i<n;i++){ double f=E_(&A,i,c)/E_(&A,c,c); for(int j=c;j<n;j++) E_(&A,i,j)-=f*E_(&A,c,j); } } return d; }
static void d_maxvol(void)
{
    M A; gen(&A); int n=A.m,r=A.n; if(n<r) mc_skip(); double w[MX]; jsvd(&A,w); double f=fro(&A); if(w[r-1]>1e-13*f&&w[r-1]<1e-6*f) mc_skip(); double*p=spread(&A,n,0),*inv=malloc(8*r*r); size_t*rows=malloc(sizeof(size_t)*r); for(int i=0;i<r;i++) rows[i]=9999; int info=maxvol_rhs(p,n,r,rows,inv); mc_step(); mc_expect("maxvol-input",!memcmp(p,A.a,8*n*r),"input changed"); int full=w[r-1]>1e-6*f&&f>0;
    if(!full){ if(rankp<0) mc_expect("maxvol-singular",info!=0,"returned 0 for a matrix without invertible submatrix"); }
    else { mc_expect("maxvol-ret",info==0,"returned %d",info); int seen[MX]={0}; for(int i=0;i<r;i++){ mc_expect("maxvol-rows",rows[i]<(size_t)n&&!seen[rows[i]],"row %zu",rows[i]); seen[rows[i]]=1; } M S,V,T,B; S.m=S.n=r; for(int i=0;i<r;i++) for(int j=0;j<r;j++) E_(&S,i,j)=E_(&A,rows[i],j); collect(inv,r,r,r,&V); double k=f/w[r-1]; mul(&S,0,&V,0,&T); cmpI("maxvol-inv",&T,1e-11*k*k); mul(&A,0,&V,0,&B); for(int i=0;i<n*r;i++) mc_expect("maxvol-dom",fabs(B.a[i])<=1.01+1e-6,"entry %g: swapping one row would increase the volume",B.a[i]);
        /* no swap of one row increases the volume by more than 1% */ double d0=fabs(det(S)); for(int i=0;i<r;i++) for(int q=0;q<n;q++){ M S2=S; for(int j=0;j<r;j++) E_(&S2,i,j)=E_(&A,q,j); mc_expect("maxvol-swap",fabs(det(S2))<=d0*1.0101,"row swap increases the volume"); } }
    free(p); free(inv); free(rows);
}
/* skeleton decompositions of matrices of exact rank r from every set of r starting columns */
static M SK; static int skcalls; static double*SX,*SY;
static double skf(int i,int j,int dir,void*a){ if(a!=&SK||i<0||j<0||i>=SK.m||j>=SK.n||dir<0||dir>1) mc_fail("skf-args","(%d,%d)",i,j); skcalls++; return E_(&SK,i,j); }
static int skf2(double*t,double fix,size_t dir,size_t N,double*o,void*a){ if(a!=&SK) mc_fail("skf2-arg","argument"); skcalls++; int k=(int)lrint(fix*2)-1; if(dir==0){ if(t!=SX||N!=(size_t)SK.m||k<0||k>=SK.n) mc_fail("skf2-x","column fibre"); for(size_t i=0;i<N;i++) o[i]=E_(&SK,i,k); } else { if(t!=SY||N!=(size_t)SK.n||k<0||k>=SK.m) mc_fail("skf2-y","row fibre"); for(size_t j=0;j<N;j++) o[j]=E_(&SK,k,j); } return 0; }
static void d_skel(void)
{
    int big=mc_choose(6,"big"),which=mc_choose(3,"which"),n,m,r; if(big){ static const int BZ[5][3]={{20,15,7},{13,30,9},{32,9,5},{11,11,10},{18,25,3}}; n=BZ[big-1][0]; m=BZ[big-1][1]; r=BZ[big-1][2]; } else { n=2+mc_choose(mc_thorough?7:5,"n"); m=2+mc_choose(mc_thorough?7:5,"m"); r=1+mc_choose(4,"r"); } if(r>n||r>m) mc_skip(); int s=mc_choose(mc_thorough?6:3,"seed"); mc_shard(); SK.m=n; SK.n=m; for(int i=0;i<n;i++) for(int j=0;j<m;j++){ double v=0; for(int l=0;l<r;l++) v+=big?sin(1.7*(i+1)*(l+1)+s)*cos(0.9*(j+2)*(l+2)-s):gv(i,l+s,s)*gv(l+s,j,s+2); E_(&SK,i,j)=v; } double w[MX]; jsvd(&SK,w); if(w[r-1]<1e-3*w[0]) mc_skip();
    size_t cols[12],rows[12]={0}; int c0=big?mc_choose(3,"c"):0; for(int i=0;i<r;i++){ cols[i]=big?(size_t)(c0==0?i:c0==1?m-r+i:i*(m-1)/(r>1?r-1:1)):(size_t)mc_choose(9,"c"); if(cols[i]>=(size_t)m||(i&&cols[i]<=cols[i-1])) mc_skip(); } M C; C.m=n; C.n=r; for(int j=0;j<r;j++) for(int i=0;i<n;i++) E_(&C,i,j)=E_(&SK,i,cols[j]); double wc[MX]; jsvd(&C,wc); if(wc[r-1]<1e-3*wc[0]) mc_skip();
    double x[MX],y[MX]; for(int i=0;i<n;i++) x[i]=(i+1)/2.0; for(int i=0;i<m;i++) y[i]=(i+1)/2.0; SX=x; SY=y; skcalls=0; mc_note("which=%d %dx%d rank %d seed %d",which,n,m,r,s); int ret; double*out=NULL; double f=fro(&SK);
    if(which==0){ double*rm=malloc(8*n*m); for(int i=0;i<n;i++) for(int j=0;j<m;j++) rm[i*m+j]=E_(&SK,i,j); ret=skeleton(rm,n,m,r,rows,cols,1e-10); for(int i=0;i<n;i++) for(int j=0;j<m;j++) mc_expect("skel-input",rm[i*m+j]==E_(&SK,i,j),"input changed"); free(rm); }
    else if(which==1) ret=skeleton_func(skf,&SK,n,m,r,rows,cols,1e-10);
    else { struct sk_decomp*k=NULL; init_skf(&k,r,n,m); for(int i=0;i<r;i++) k->cols_kept[i]=cols[i]; ret=skeleton_func2(skf2,&SK,&k,x,y,1e-10); for(int i=0;i<r;i++){ cols[i]=k->cols_kept[i]; rows[i]=k->rows_kept[i]; } mc_expect("skel-crank",k->cross_rank==(size_t)r,"cross rank %zu",k->cross_rank); out=malloc(8*n*m); sk_decomp_to_full(k,out); mc_expect("skel-once",skcalls==(int)(k->row_vals->nfibers+k->col_vals->nfibers),"%d fibre evaluations, %zu fibres stored",skcalls,k->row_vals->nfibers+k->col_vals->nfibers); mc_expect("skel-fib",k->row_vals->nfibers<=(size_t)n&&k->col_vals->nfibers<=(size_t)m,"a fibre was evaluated twice"); free_skf(&k); mc_expect("skel-null",k==NULL,"pointer"); }
    mc_steps(1+skcalls); mc_expect("skel-ret",ret==1,"returned %d",ret); for(int i=0;i<r;i++){ mc_expect("skel-idx",rows[i]<(size_t)n&&cols[i]<(size_t)m,"index"); for(int j=0;j<i;j++) mc_expect("skel-distinct",rows[i]!=rows[j]&&cols[i]!=cols[j],"repeated row or column"); }
    /* A = A(:,cols) A(rows,cols)^-1 A(rows,:) */
    M X,Ci,T; X.m=X.n=r; C.m=n; C.n=r; M R; R.m=r; R.n=m; for(int i=0;i<r;i++) for(int j=0;j<r;j++) E_(&X,i,j)=E_(&SK,rows[i],cols[j]); for(int j=0;j<r;j++) for(int i=0;i<n;i++) E_(&C,i,j)=E_(&SK,i,cols[j]); for(int i=0;i<r;i++) for(int j=0;j<m;j++) E_(&R,i,j)=E_(&SK,rows[i],j);
    double d=det(X); mc_expect("skel-vol",fabs(d)>0,"chosen block is singular"); Ci.m=Ci.n=r; for(int c=0;c<r;c++) for(int q=0;q<r;q++){ M Z=X; for(int i=0;i<r;i++) E_(&Z,i,q)=i==c; E_(&Ci,q,c)=det(Z)/d; } mul(&C,0,&Ci,0,&T); mul(&T,0,&R,0,&T); cmpm("skel-rec",&T,&SK,1e-8*f); for(int i=0;i<n;i++) for(int j=0;j<m&&out;j++) mc_cmp("skel-full",out[i*m+j],E_(&SK,i,j),1e-8*f); free(out); mc_state(mc_hda(mc_hu(mc_h0(),rows[0]*8+cols[0]+which*100),n*m,SK.a));
}
/* batched products, Kronecker products, reductions, structures */
static void d_util(void)
{
    int which=mc_choose(6,"which"); int m=1+mc_choose(5,"m"),n=1+mc_choose(5,"n"),k=1+mc_choose(4,"k"),l=1+mc_choose(4,"l"); if(m==5) m=7; if(n==5) n=6; if(k==4) k=5; if(l==4) l=6; mc_shard(); int s=mc_choose(3,"seed"),p1=mc_choose(3,"pad1"),p2=mc_choose(2,"pad2"); mc_note("which=%d %d %d %d %d pads %d %d",which,m,n,k,l,p1,p2); mc_key("u%d",which); mc_state(mc_hu(mc_h0(),((which*5+m)*5+n)*5+k));
    M A,B; A.m=m; A.n=n; B.m=k; B.n=l; for(int i=0;i<m*n;i++) A.a[i]=(s==1&&i%3==0)?0:gv(i,s,1); for(int i=0;i<k*l;i++) B.a[i]=gv(s,i,2);
    if(which<=1){ /* N products C_j = B_j^T a_j / B_j a_j */ int N=k*l+1; int r1=m,r2=n,va=which?r2:r1,vc=which?r1:r2; int inca=va+p1,incb=r1*r2+p2,incc=vc+p1; double*a=malloc(8*inca*N),*b=malloc(8*incb*N),*c=malloc(8*incc*N),*a0=malloc(8*inca*N),*b0=malloc(8*incb*N); for(int i=0;i<inca*N;i++) a0[i]=a[i]=gv(i,1,s); for(int i=0;i<incb*N;i++) b0[i]=b[i]=gv(2,i,s); for(int i=0;i<incc*N;i++) c[i]=NAN; for(int j=0;j<N;j++) for(int i=vc;i<incc;i++) c[j*incc+i]=-31;
        if(which) c3linalg_multiple_mat_vec(N,r1,r2,a,inca,b,incb,c,incc); else c3linalg_multiple_vec_mat(N,r1,r2,a,inca,b,incb,c,incc); mc_step(); mc_expect("mv-in",!memcmp(a,a0,8*inca*N)&&!memcmp(b,b0,8*incb*N),"inputs changed");
        for(int j=0;j<N;j++){ for(int i=0;i<vc;i++){ double w=0; for(int q=0;q<va;q++) w+=a[j*inca+q]*(which?b[j*incb+q*r1+i]:b[j*incb+i*r1+q]); mc_cmp("mv",c[j*incc+i],w,1e-12*(1+fabs(w))); } for(int i=vc;i<incc;i++) mc_expect("mv-pad",c[j*incc+i]==-31,"padding"); } free(a); free(b); free(c); free(a0); free(b0); }
    else if(which==2){ int lda=m+p1,ldb=k+p2,ldc=m*k+p1; double*a=spread(&A,lda,7),*b=spread(&B,ldb,7),*o=malloc(8*ldc*n*l); for(int i=0;i<ldc*n*l;i++) o[i]=-9; kron_col(m,n,a,lda,k,l,b,ldb,o,ldc); mc_step(); for(int i=0;i<m;i++) for(int j=0;j<n;j++) for(int q=0;q<k;q++) for(int t=0;t<l;t++) mc_cmp("kron-col",o[(j*l+t)*ldc+i*k+q],E_(&A,i,j)*E_(&B,q,t),1e-13*100); for(int c=0;c<n*l;c++) for(int i=m*k;i<ldc;i++) mc_expect("kron-pad",o[c*ldc+i]==-9,"padding"); free(a); free(b); free(o); }
    else if(which==3){ struct mat X={m,n,A.a},Y={k,l,B.a}; /* row major */ struct mat*K=kron(&X,&Y); mc_step(); mc_expect("kron-shape",K->nrows==(size_t)m*k&&K->ncols==(size_t)n*l,"shape"); for(int i=0;i<m;i++) for(int j=0;j<n;j++) for(int q=0;q<k;q++) for(int t=0;t<l;t++) mc_cmp("kron",K->vals[(i*k+q)*n*l+j*l+t],A.a[i*n+j]*B.a[q*l+t],1e-11); freemat(K); }
    else if(which==4){ /* out = v^T kron(A,B) + scale*out */ double sc=(double[]){0,1,-0.5}[s]; int lda=m+p1,ldb=k+p2; double*a=spread(&A,lda,7),*b=spread(&B,ldb,7),*v=malloc(8*m*k),*o=malloc(8*n*l),o0[64]; for(int i=0;i<m*k;i++) v[i]=gv(i,2,1); for(int i=0;i<n*l;i++) o0[i]=o[i]=gv(4,i,0); vec_kron(m,n,a,lda,k,l,b,ldb,v,sc,o); mc_step(); for(int j=0;j<n;j++) for(int t=0;t<l;t++){ double w=sc*o0[j*l+t]; for(int i=0;i<m;i++) for(int q=0;q<k;q++) w+=v[i*k+q]*E_(&A,i,j)*E_(&B,q,t); mc_cmp("vec-kron",o[j*l+t],w,1e-11*(1+fabs(w))); } free(a); free(b); free(v); free(o); }
    else { struct mat X={m,n,A.a},Y={m,l,B.a}; for(int i=0;i<m*l;i++) B.a[i]=gv(i,i,s); struct mat*H=horizcat(&X,&Y); mc_step(); mc_expect("hcat-shape",H->nrows==(size_t)m&&H->ncols==(size_t)n+l,"shape"); for(int i=0;i<m;i++) for(int j=0;j<n+l;j++) mc_cmp("hcat",H->vals[i*(n+l)+j],j<n?A.a[i*n+j]:B.a[i*l+j-n],0);
        struct mat*D0=diagv2m(m*n,A.a),*V=v2m(m*n,A.a,s&1); mc_steps(2); for(int i=0;i<m*n;i++){ mc_cmp("v2m",V->vals[i],A.a[i],0); for(int j=0;j<m*n;j++) mc_cmp("diagv2m",D0->vals[i*m*n+j],i==j?A.a[i]:0,0); } mc_expect("v2m-shape",(s&1)?V->nrows==1&&V->ncols==(size_t)m*n:V->ncols==1&&V->nrows==(size_t)m*n,"shape"); const struct mat*L[3]={&X,H,V}; struct mat*BD=block_diag(L,1+p1); mc_step(); size_t R=0,C=0; for(int q=0;q<=p1;q++){ R+=L[q]->nrows; C+=L[q]->ncols; } mc_expect("bd-shape",BD->nrows==R&&BD->ncols==C,"shape"); size_t r0=0,c0=0; double tot=0,tot2=0; for(size_t i=0;i<R*C;i++) tot+=fabs(BD->vals[i]); for(int q=0;q<=p1;q++){ for(size_t i=0;i<L[q]->nrows;i++) for(size_t j=0;j<L[q]->ncols;j++){ mc_cmp("bd",BD->vals[(r0+i)*C+c0+j],L[q]->vals[i*L[q]->ncols+j],0); tot2+=fabs(L[q]->vals[i*L[q]->ncols+j]); } r0+=L[q]->nrows; c0+=L[q]->ncols; } mc_cmp("bd-zero",tot,tot2,1e-11);
        struct mat O; mat_ones(&O,k,l); mc_expect("ones-shape",O.nrows==(size_t)k&&O.ncols==(size_t)l,"shape"); for(int i=0;i<k*l;i++) mc_cmp("ones",O.vals[i],1,0); free(O.vals);
        double n2=0,nd=0,mu=0; size_t z[64]; double mz=0; for(int i=0;i<m*n;i++){ n2+=A.a[i]*A.a[i]; nd+=pow(A.a[i]-B.a[i%(m*l)],2); mu+=A.a[i]; z[i]=(size_t)(i*i+s); mz+=z[i]; } double Bx[64]; for(int i=0;i<m*n;i++) Bx[i]=B.a[i%(m*l)]; mc_cmp("norm2",norm2(A.a,m*n),sqrt(n2),1e-12*(1+sqrt(n2))); mc_cmp("norm2diff",norm2diff(A.a,Bx,m*n),sqrt(nd),1e-12*(1+sqrt(nd))); mc_cmp("mean",mean(A.a,m*n),mu/(m*n),1e-12*(1+fabs(mu))); mc_cmp("mean-sz",mean_size_t(z,m*n),mz/(m*n),1e-12*mz+1e-300); freemat(H); freemat(D0); freemat(V); freemat(BD); }
}
/* fibre lists: every sequence of additions and lookups */
static void d_fiber(void)
{
    struct fiber_list*h=NULL; int D=mc_thorough?7:6; size_t idx[8]; double val[8]; int n=0; mc_note("ops");
    for(int t=0;t<D;t++){ int op=mc_choose(4,"op"); if(t==2) mc_shard(); if(op==3) break; size_t k=(size_t[]){0,5,1000000}[op]; int ex=IndexExists(h,k),w=-1; for(int i=n-1,q=0;i>=0;i--,q++) if(idx[i]==k){ w=q; break; } mc_expect("fib-exists",ex==w,"IndexExists(%zu)=%d want %d",k,ex,w); if(ex>=0){ double*v=getIndex(h,ex); mc_expect("fib-val",v[0]==val[n-1-w]&&v[1]==-val[n-1-w],"values"); } double v[2]={t+0.5,-(t+0.5)}; AddFiber(&h,k,v,2); v[0]=v[1]=99; idx[n]=k; val[n]=t+0.5; n++; mc_steps(2); for(int i=0;i<n;i++) mc_expect("fib-get",getIndex(h,i)[0]==val[n-1-i],"fibre %d",i); }
    mc_state(mc_hb(mc_h0(),idx,n*sizeof(size_t))); DeleteFiberList(&h); mc_expect("fib-del",h==NULL,"head");
}
const mc_driver mc_drivers[]={{"qr",d_qr,1,MC_BOTH},{"rq",d_rq,1,MC_BOTH},{"svd",d_svd,1,MC_BOTH},{"tsvd",d_tsvd,1,MC_BOTH},{"pinv",d_pinv,1,MC_BOTH},{"ls",d_ls,1,MC_BOTH},{"maxvol",d_maxvol,1,MC_BOTH},{"skel",d_skel,1,MC_BOTH},{"util",d_util,1,MC_BOTH},{"fiber",d_fiber,1,MC_BOTH},{0}};
