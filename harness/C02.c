/* C02: all evaluation paths of a function train agree, whatever was evaluated before. */
#include "ftm.h"
#include "big.h"
const char *mc_property="C02";
static double *dirty(size_t n){ double*p=malloc(n*sizeof(double)); for(size_t i=0;i<n;i++) p[i]=1e300; return p; }
static int nodal(int cs){ return cs==0||cs==1; }
static void point(const RT*A,int e,double*x){ for(int k=0;k<A->d;k++){ const RF*f=&A->f[k][0]; if(e<6) x[k]=umap(FXP[e][k],f->lb,f->ub); else x[k]=umap(UPT[(e*5+k*7)%UNP],f->lb,f->ub); } }
static double scl(const RT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=uscl(&A->f[k][q])-0.9; s*=m; } return s; }
static void pidx(const RT*A,int e,size_t*ix,double*x){ for(int k=0;k<A->d;k++){ int n=A->f[k][0].n; ix[k]=(e*(k+2)+k+e/2)%n; x[k]=A->f[k][0].x[ix[k]]; } }
/* variant 1 of an operation repeats the point of variant 0 in all but one coordinate */
static void point1(const RT*A,int e,int v,double*x){ point(A,e,x); if(v){ double y[FD]; point(A,e+1,y); int k=(e+A->d/2)%A->d; x[k]=y[k]; } }
#define NOPS 11
static void one(struct FunctionTrain**ft,RT*A,int cs,int op,int v)
{
    int d=A->d; double x[FD],tol=1e-12*scl(A)+1e-13; size_t ix[FD];
    if(op==0){ for(int e=0;e<3;e++){ point1(A,e,v,x); double xc[FD]; memcpy(xc,x,sizeof x); mc_cmp("eval",function_train_eval(*ft,x),rt_eval(A,x),tol); mc_expect("eval",!memcmp(x,xc,d*sizeof(double)),"point modified"); } }
    else if(op==1){ int N=(int[]){1,4}[v]; double*xs=dirty(N*d),*o=dirty(N); for(int e=0;e<N;e++) point(A,e+v*4,xs+e*d); function_train_evals(*ft,N,xs,o); for(int e=0;e<N;e++) mc_cmp("evals",o[e],rt_eval(A,xs+e*d),tol); free(xs);free(o); }
    else if(op==2){ if(!nodal(cs)) mc_skip(); for(int e=0;e<4;e++){ pidx(A,e+v*4,ix,x); mc_cmp("eval_ind",function_train_eval_ind(*ft,ix),rt_eval(A,x),tol); } }
    else if(op==3){ if(!nodal(cs)) mc_skip(); for(int dv=0;dv<d;dv++){ pidx(A,1+v*2+dv,ix,x); int n=A->f[dv][0].n,N=v?n:1+n/2; size_t*in=malloc(N*sizeof(size_t)); double*o=dirty(N); for(int i=0;i<N;i++) in[i]=(size_t)((n-1-i*(v?1:2)+2*n)%n);
        function_train_eval_fiber_ind(*ft,ix,N,in,dv,o); for(int i=0;i<N;i++){ x[dv]=A->f[dv][0].x[in[i]]; mc_cmp("fiber_ind",o[i],rt_eval(A,x),tol); } free(in);free(o); } }
    else if(op==4){ double*pt=dirty(2*d),*o=dirty(2*d),y[FD]; point1(A,1,v,x); point(A,3+v,y); for(int k=0;k<d;k++){ pt[2*k]=y[k]; } point(A,7+v,y); for(int k=0;k<d;k++) pt[2*k+1]=y[k];
        double c=function_train_eval_co_perturb(*ft,x,pt,o); mc_cmp("co_perturb-centre",c,rt_eval(A,x),tol); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=pt[k]; mc_cmp("co_perturb",o[k],rt_eval(A,y),tol); } free(pt);free(o); }
    else if(op==5){ if(!nodal(cs)) mc_skip(); size_t*pt=malloc(2*d*sizeof(size_t)); double*o=dirty(2*d),y[FD]; pidx(A,2+v,ix,x); for(int k=0;k<d;k++){ pt[2*k]=(ix[k]+1)%A->f[k][0].n; pt[2*k+1]=(ix[k]+A->f[k][0].n-1)%A->f[k][0].n; }
        double c=function_train_eval_co_perturb_ind(*ft,ix,pt,o); mc_cmp("co_perturb_ind-centre",c,rt_eval(A,x),tol); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=A->f[k/2][0].x[pt[k]]; mc_cmp("co_perturb_ind",o[k],rt_eval(A,y),tol); } free(pt);free(o); }
    else if(op==6){ for(int k=0;k<d;k++){ point(A,2+v*3+k,x); double*o=dirty(A->r[k+1]); size_t od=999; function_train_eval_up_to_core(*ft,k,x,o,&od); mc_expect("upto",od==(size_t)A->r[k+1],"out_dim %zu",od);
        double a[FR]={1},b[FR]; for(int c=0;c<=k;c++){ for(int j=0;j<A->r[c+1];j++){ b[j]=0; for(int i=0;i<A->r[c];i++) b[j]+=a[i]*ueval(&A->f[c][i+j*A->r[c]],x[c]); } memcpy(a,b,sizeof a); }
        for(size_t j=0;j<od;j++) mc_cmp("upto",o[j],a[j],tol); free(o); } }
    else if(op==7){ double f=v?-0.5:2; function_train_scale(*ft,f); for(int q=0;q<A->r[0]*A->r[1];q++) uscale(f,&A->f[0][q]); }
    else if(op==8){ struct FunctionTrain*c=function_train_copy(*ft); if(v){ function_train_free(*ft); *ft=c; } else { point(A,4,x); mc_cmp("copy",function_train_eval(c,x),rt_eval(A,x),tol); function_train_free(c); } }
    else if(op==9){ int k=v?d-1:0; /* new coefficients in one core */
        for(int q=0;q<A->r[k]*A->r[k+1];q++) for(int i=0;i<A->f[k][q].n;i++) A->f[k][q].c[i]=fgen(41,k*16+q,i,v);
        size_t np=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) np+=A->f[k][q].n; double*p=dirty(np); size_t o=0; for(int q=0;q<A->r[k]*A->r[k+1];q++){ memcpy(p+o,A->f[k][q].c,A->f[k][q].n*sizeof(double)); o+=A->f[k][q].n; }
        function_train_core_update_params(*ft,k,np,p); free(p); }
    else { struct FT1DArray*a=ft1d_array_alloc(2); struct FunctionTrain*c=function_train_copy(*ft); function_train_scale(c,3); a->ft[0]=*ft; a->ft[1]=c; point(A,3+v,x); double*o=dirty(2); ft1d_array_eval2(a,x,o); double w=rt_eval(A,x); mc_cmp("array",o[0],w,tol); mc_cmp("array",o[1],3*w,3*tol); double*o2=ft1d_array_eval(a,x); mc_cmp("array",o2[0],w,tol); mc_cmp("array",o2[1],3*w,3*tol); free(o);free(o2); a->ft[0]=function_train_copy(*ft); ft1d_array_free(a); }
    mc_step();
}
static void hist(int depth,int lite)
{
    int d=2+mc_choose(lite?3:4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(lite?4:8,"ranks"); mc_shard();
    int gs=mc_choose(lite?1:2,"grid"),pat=mc_choose(lite?1:NPAT,"pattern"); if(!lite&&pat>2&&depth>1&&pat!=PZROW&&pat!=PONE) mc_skip(); if(pat==PONE&&cs>=3) mc_skip(); /* rounding drops trailing zero coefficients */
    RT A; rt_make(&A,d,lite?2*rp+1:rp,cs,lite?1:gs,0,pat); struct FunctionTrain*ft=rt_build(&A); uint64_t h=mc_h0();
    for(int s=0;s<depth;s++){ int op=mc_choose(NOPS,"op"),v=mc_choose(2,"variant"); if(lite&&op>=8&&op!=9) mc_skip(); mc_note("op%d.%d ",op,v); one(&ft,&A,cs,op,v); }
    one(&ft,&A,cs,0,0); double x[FD]; point(&A,1,x); for(int k=0;k<=d;k++) h=mc_hu(h,ft->ranks[k]); h=mc_hu(h,cs); h=mc_hd(h,function_train_eval(ft,x)); mc_state(h);
    function_train_free(ft);
}
static void b_h2(void){ hist(2,0); }
static void b_h3(void){ hist(3,1); }
static void b_h4(void){ hist(4,1); }
/* exhaustive grid: every index tuple, every path */
static void b_grid(void)
{
    int d=2+mc_choose(3,"dim"),cs=mc_choose(2,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(3,"grid"),pat=mc_choose(NPAT,"pattern");
    RT A; rt_make(&A,d,rp,cs,gs,0,pat); struct FunctionTrain*ft=rt_build(&A); double tol=1e-12*scl(&A)+1e-13; int n=1; for(int k=0;k<d;k++) n*=A.f[k][0].n; uint64_t h=mc_h0();
    for(int q=0;q<n;q++){ size_t ix[FD]; double x[FD]; int r=q; for(int k=0;k<d;k++){ ix[k]=r%A.f[k][0].n; r/=A.f[k][0].n; x[k]=A.f[k][0].x[ix[k]]; } double w=rt_eval(&A,x);
        mc_cmp("eval",function_train_eval(ft,x),w,tol); mc_cmp("eval_ind",function_train_eval_ind(ft,ix),w,tol); h=mc_hd(h,w);
        size_t pt[2*FD]; double o[2*FD]; for(int k=0;k<d;k++){ pt[2*k]=(ix[k]+1)%A.f[k][0].n; pt[2*k+1]=0; } mc_cmp("pind",function_train_eval_co_perturb_ind(ft,ix,pt,o),w,tol); mc_steps(3);
        for(int k=0;k<2*d;k++){ double s=x[k/2]; x[k/2]=A.f[k/2][0].x[pt[k]]; mc_cmp("pind",o[k],rt_eval(&A,x),tol); x[k/2]=s; } }
    mc_state(h); function_train_free(ft);
}
/* larger trains: many variables, high ranks, fine grids; every path, twice in a row on one train */
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"); mc_shard(); int first=mc_choose(5,"first"); BT t; bt_make(&t,sh,cs,0); struct FunctionTrain*f=bt_build(&t); int d=t.d; double x[BD],y[BD],sc; uint64_t h=mc_hu(mc_h0(),sh*8+cs);
    for(int s=0;s<6;s++){ int op=(first+s)%5; mc_step();
        if(op==0) for(int e=0;e<8;e++){ bt_pt(&t,e,x); double w=bt_eval(&t,x,&sc); mc_cmp("big-eval",function_train_eval(f,x),w,1e-13*sc); h=mc_hd(h,w); }
        else if(op==1){ int N=s<3?70:5; double*xs=dirty(N*d),*o=dirty(N); for(int e=0;e<N;e++) bt_pt(&t,e,xs+e*d); function_train_evals(f,N,xs,o); for(int e=0;e<N;e++){ double w=bt_eval(&t,xs+e*d,&sc); mc_cmp("big-evals",o[e],w,1e-13*sc); } free(xs);free(o); }
        else if(op==2){ double*pt=dirty(2*d),*o=dirty(2*d); bt_pt(&t,3+s,x); bt_pt(&t,6+s,y); for(int k=0;k<d;k++) pt[2*k]=y[k]; bt_pt(&t,4+s,y); for(int k=0;k<d;k++) pt[2*k+1]=y[k]; double w=bt_eval(&t,x,&sc); mc_cmp("big-co_perturb",function_train_eval_co_perturb(f,x,pt,o),w,1e-13*sc); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=pt[k]; w=bt_eval(&t,y,&sc); mc_cmp("big-co_perturb",o[k],w,1e-13*sc); } free(pt);free(o); }
        else if(op==3&&nodal(cs)){ size_t*ix=malloc(d*sizeof(size_t)),*pt=malloc(2*d*sizeof(size_t)); double*o=dirty(2*d); for(int k=0;k<d;k++){ int n=t.n[k]; ix[k]=(s*3+5*k)%n; x[k]=t.f[k][0].x[ix[k]]; pt[2*k]=(ix[k]+1)%n; pt[2*k+1]=n-1; } double w=bt_eval(&t,x,&sc); mc_cmp("big-eval_ind",function_train_eval_ind(f,ix),w,1e-13*sc); mc_cmp("big-pind",function_train_eval_co_perturb_ind(f,ix,pt,o),w,1e-13*sc); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=t.f[k/2][0].x[pt[k]]; w=bt_eval(&t,y,&sc); mc_cmp("big-pind",o[k],w,1e-13*sc); } free(ix);free(pt);free(o); }
        else if(op==4&&nodal(cs)) for(int dv=0;dv<d;dv++){ int n=t.n[dv]; size_t*ix=malloc(d*sizeof(size_t)),*in=malloc(n*sizeof(size_t)); double*o=dirty(n); for(int k=0;k<d;k++){ ix[k]=(s*5+3*k+dv)%t.n[k]; x[k]=t.f[k][0].x[ix[k]]; } for(int i=0;i<n;i++) in[i]=n-1-i; function_train_eval_fiber_ind(f,ix,n,in,dv,o); for(int i=0;i<n;i++){ x[dv]=t.f[dv][0].x[in[i]]; double w=bt_eval(&t,x,&sc); mc_cmp("big-fiber",o[i],w,1e-13*sc); } free(ix);free(in);free(o); } }
    mc_state(h); function_train_free(f); bt_free(&t);
}
/* every path is exact for trains of every magnitude: multiplying cores by powers of two multiplies every result by exactly that factor */
static void b_scaled(void)
{
    int d=1+mc_choose(4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(4,"ranks"); mc_shard(); int gs=mc_choose(2,"grid"),how=mc_choose(4,"how"),e=(int[]){-60,-33,-20,20,45,90}[mc_choose(6,"exponent")]; if(d==1&&(rp||how>1)) mc_skip(); if(cs>=3&&e<-33) mc_skip();
    static RT A,S; rt_make(&A,d,2*rp+1,cs,gs,0,PGEN); S=A; int z=rt_pow2(&S,how,e); struct FunctionTrain*f=rt_build(&S); double x[FD],y[FD],t=1e-12*scl(&A)+1e-13; uint64_t h=mc_hu(mc_h0(),cs*8+d); size_t ix[FD];
    #define SC(site,v,w) mc_cmp(site,ldexp(v,-z),w,t)
    for(int p=0;p<8;p++){ point(&A,p,x); SC("scaled-eval",function_train_eval(f,x),rt_eval(&A,x)); h=mc_hd(h,rt_eval(&A,x)); }
    double*xs=dirty(5*d),*o=dirty(5+2*d),*pt=dirty(2*d); for(int p=0;p<5;p++) point(&A,p+2,xs+p*d); function_train_evals(f,5,xs,o); for(int p=0;p<5;p++) SC("scaled-evals",o[p],rt_eval(&A,xs+p*d));
    point(&A,1,x); point(&A,5,y); for(int k=0;k<d;k++) pt[2*k]=y[k]; point(&A,8,y); for(int k=0;k<d;k++) pt[2*k+1]=y[k]; if(d>1){ SC("scaled-co_perturb",function_train_eval_co_perturb(f,x,pt,o),rt_eval(&A,x)); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=pt[k]; SC("scaled-co_perturb",o[k],rt_eval(&A,y)); } mc_step(); }
    if(nodal(cs)){ for(int p=0;p<4;p++){ pidx(&A,p,ix,x); SC("scaled-eval_ind",function_train_eval_ind(f,ix),rt_eval(&A,x)); }
        if(d>1) for(int dv=0;dv<d;dv++){ int n=A.f[dv][0].n; size_t in[UMAX]; double ov[UMAX]; pidx(&A,dv+1,ix,x); for(int i=0;i<n;i++) in[i]=n-1-i; function_train_eval_fiber_ind(f,ix,n,in,dv,ov); for(int i=0;i<n;i++){ x[dv]=A.f[dv][0].x[in[i]]; SC("scaled-fiber_ind",ov[i],rt_eval(&A,x)); } }
        size_t pi[2*FD]; pidx(&A,2,ix,x); for(int k=0;k<d;k++){ pi[2*k]=(ix[k]+1)%A.f[k][0].n; pi[2*k+1]=0; } if(d>1){ SC("scaled-co_perturb_ind",function_train_eval_co_perturb_ind(f,ix,pi,o),rt_eval(&A,x)); for(int k=0;k<2*d;k++){ memcpy(y,x,sizeof y); y[k/2]=A.f[k/2][0].x[pi[k]]; SC("scaled-co_perturb_ind",o[k],rt_eval(&A,y)); } } mc_steps(3); }
    #undef SC
    mc_steps(2); mc_state(h); free(xs);free(o);free(pt); function_train_free(f);
}
const mc_driver mc_drivers[]={{"scaled",b_scaled,1,3},{"history2",b_h2,1,3},{"history3",b_h3,1,3},{"history4",b_h4,1,2},{"grid",b_grid,1,3},{"big",b_big,1,3},{0}};
