/* C04: derivatives of function trains. */
#include "ftm.h"
#include "udiff.h"
#include "diffusion.h"
#include "big.h"
const char *mc_property="C04";
static double rt_abs(const RT*A,const double*x,const int*op,int pt){ double a[FR]={1},b[FR]; for(int k=0;k<A->d;k++){ for(int j=0;j<A->r[k+1];j++){ b[j]=0; for(int i=0;i<A->r[k];i++){ const RF*f=&A->f[k][i+j*A->r[k]]; double m=0; for(int q=0;q<f->n;q++) m+=fabs(f->c[q]); double L=f->ub-f->lb,g=m*(f->cls>=ULEG?8:1); for(int q=0;q<op[k];q++) g*=f->cls>=ULEG?40/L:20/L; b[j]+=a[i]*g; } } memcpy(a,b,sizeof a);} return 1e-14*a[0]+1e-15; }
static double rt_op(const RT*A,const double*x,const int*op,int pt){ double a[FR]={1},b[FR]; for(int k=0;k<A->d;k++){ for(int j=0;j<A->r[k+1];j++){ b[j]=0; for(int i=0;i<A->r[k];i++){ const RF*f=&A->f[k][i+j*A->r[k]]; b[j]+=a[i]*(pt&&op[k]==1?udpt(f,x[k]):uop(f,x[k],op[k])); } } memcpy(a,b,sizeof a);} return a[0]; }
static double scl(const RT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=uscl(&A->f[k][q])-0.99; s*=m; } return s; }
static int pts(const RT*A,int e,double*x) /* 0..13: extra points, mixed points, nodes */
{ if(e>=14) return 0; for(int k=0;k<A->d;k++){ const RF*f=&A->f[k][0]; x[k]=e<6?umap(FXP[e][k],f->lb,f->ub):e<10?umap(UPT[(e*5+k*7)%UNP],f->lb,f->ub):umap(UMN[(e+k*2)%UNM],f->lb,f->ub); } return 1; }
static void unchanged(struct FunctionTrain*f,const RT*A){ double x[FD]; for(int e=0;pts(A,e,x);e++) mc_cmp("input",function_train_eval(f,x),rt_eval(A,x),1e-12*scl(A)+1e-13); }
static void b_grad(void)
{
    int d=1+mc_choose(5,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(4,"grid"),pat=mc_choose(NPAT,"pattern");
    RT A; rt_make(&A,d,rp,cs,gs,0,pat); struct FunctionTrain*f=rt_build(&A); double x[FD],t=1e-11*scl(&A)*50; uint64_t h=mc_hu(mc_h0(),cs);
    for(int e=0;pts(&A,e,x);e++){ double*g=malloc(d*sizeof(double)); for(int k=0;k<d;k++) g[k]=1e300; function_train_gradient_eval(f,x,g); mc_step(); for(int k=0;k<d;k++){ int op[FD]={0}; op[k]=1; mc_cmp("gradient_eval",g[k],rt_op(&A,x,op,1),rt_abs(&A,x,op,1)); h=mc_hd(h,g[k]); } free(g); }
    mc_state(h);
    if(cs!=2){ struct FT1DArray*G=function_train_gradient(f); mc_step(); mc_expect("gradient",G->size==(size_t)d,"size %zu",G->size);
        for(int e=0;pts(&A,e,x);e++){ double*v=ft1d_array_eval(G,x); for(int k=0;k<d;k++){ int op[FD]={0}; op[k]=1; mc_cmp("gradient",v[k],rt_op(&A,x,op,0),rt_abs(&A,x,op,0)); } free(v); }
        struct FT1DArray*H=function_train_hessian(f); mc_step(); mc_expect("hessian",H->size==(size_t)(d*d),"size %zu",H->size);
        for(int e=0;pts(&A,e,x);e+=2) for(int i=0;i<d;i++) for(int j=0;j<d;j++){ int op[FD]={0}; op[i]++; op[j]++; mc_cmp("hessian",function_train_eval(H->ft[i*d+j],x),rt_op(&A,x,op,0),rt_abs(&A,x,op,0)); }
        ft1d_array_free(H);
        if(cs!=1&&cs!=6){ struct FT1DArray*D=function_train_hessian_diag(f); mc_step(); mc_expect("hessian_diag",D->size==(size_t)d,"size"); for(int e=0;pts(&A,e,x);e++) for(int i=0;i<d;i++){ int op[FD]={0}; op[i]=2; mc_cmp("hessian_diag",function_train_eval(D->ft[i],x),rt_op(&A,x,op,0),rt_abs(&A,x,op,0)); } ft1d_array_free(D); }
        ft1d_array_free(G); }
    unchanged(f,&A); function_train_free(f);
}
static void b_jac(void)
{
    int d=2+mc_choose(3,"dim"),cs=(int[]){0,3,4,1,6}[mc_choose(5,"class")],m=1+mc_choose(3,"size"); mc_shard(); int rp=mc_choose(4,"ranks"),gs=mc_choose(2,"grid");
    static RT A[3]; struct FT1DArray*a=ft1d_array_alloc(m); for(int i=0;i<m;i++){ rt_make(&A[i],d,(rp+i)%8,cs,gs,0,i==0?PGEN:i==1?PGEN2:PGEN3); a->ft[i]=rt_build(&A[i]); }
    struct FT1DArray*J=ft1d_array_jacobian(a); mc_step(); mc_expect("jacobian",J->size==(size_t)(m*d),"size %zu",J->size); double x[FD]; uint64_t h=mc_h0();
    for(int e=0;pts(&A[0],e,x);e++) for(int i=0;i<d;i++) for(int j=0;j<m;j++){ int op[FD]={0}; op[i]=1; double w=rt_op(&A[j],x,op,0); mc_cmp("jacobian",function_train_eval(J->ft[i*m+j],x),w,rt_abs(&A[j],x,op,0)); h=mc_hd(h,w); }
    mc_state(h); for(int i=0;i<m;i++) unchanged(a->ft[i],&A[i]); ft1d_array_free(J); ft1d_array_free(a);
}
static struct GenericFunction*opscale(const struct GenericFunction*f,void*o){ struct GenericFunction*g=generic_function_copy(f); generic_function_scale(*(double*)o,g); return g; }
static void b_lap(void)
{
    int d=2+mc_choose(4,"dim"),cs=(int[]){0,3,4,5}[mc_choose(4,"class")],rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(4,"grid"),pat=mc_choose(NPAT,"pattern");
    RT A; rt_make(&A,d,rp,cs,gs,0,pat); struct FunctionTrain*f=rt_build(&A); RO o; ro_make(&o,d,cs,gs,0); double x[FD],t=1e-10*scl(&A)*500; uint64_t h=mc_h0();
    struct FunctionTrain*L=exact_laplace(f,o.m),*L2=exact_laplace_op(f,NULL,o.m); mc_steps(2);
    double fac[FD]; struct Operator os[FD],*op[FD]; for(int k=0;k<d;k++){ fac[k]=fgen(51,k,0,0); os[k].f=opscale; os[k].opts=&fac[k]; op[k]=&os[k]; }
    struct FunctionTrain*L3=exact_laplace_op(f,op,o.m); mc_step(); double fs=0; for(int k=0;k<d;k++) fs+=fac[k];
    for(int e=0;pts(&A,e,x);e++){ double w=0; t=0; for(int k=0;k<d;k++){ int q[FD]={0}; q[k]=2; w+=rt_op(&A,x,q,0); t+=rt_abs(&A,x,q,0); } mc_cmp("laplace",function_train_eval(L,x),w,t); mc_cmp("laplace_op-null",function_train_eval(L2,x),w,t); mc_cmp("laplace_op",function_train_eval(L3,x),fs*rt_eval(&A,x),t); h=mc_hd(h,w); }
    mc_state(h); unchanged(f,&A); function_train_free(L);function_train_free(L2);function_train_free(L3);function_train_free(f); ro_free(&o);
}
static void b_diff(void)
{
    int d=2+mc_choose(3,"dim"),cs=(int[]){0,3}[mc_choose(2,"class")],ra=mc_choose(4,"ranks a"),rf=mc_choose(4,"ranks f"); mc_shard(); int gs=mc_choose(3,"grid"),pa=mc_choose(NPAT,"a"),pf=mc_choose(NPAT,"f");
    RT A,F; rt_make(&A,d,2*ra,cs,gs,0,pa); rt_make(&F,d,2*rf+1,cs,gs,0,pf); struct FunctionTrain*a=rt_build(&A),*f=rt_build(&F); RO o; ro_make(&o,d,cs,gs,0);
    struct FunctionTrain*L=exact_diffusion(a,f,o.m); mc_step(); double x[FD],t=1e-10*scl(&A)*scl(&F)*500; uint64_t h=mc_h0();
    for(int e=0;e<14;e++){ for(int k=0;k<d;k++){ const RF*g=&A.f[k][0]; x[k]=cs==0?g->x[(e*(k+1)+k+e/3)%g->n]:umap(UPT[(e*5+k*7)%UNP],g->lb,g->ub); }
        double w=0; t=0; for(int k=0;k<d;k++){ int q0[FD]={0},q1[FD]={0},q2[FD]={0}; q1[k]=1; q2[k]=2; w+=rt_op(&A,x,q1,0)*rt_op(&F,x,q1,0)+rt_op(&A,x,q0,0)*rt_op(&F,x,q2,0); t+=(rt_abs(&A,x,q1,0)*rt_abs(&F,x,q1,0)+rt_abs(&A,x,q0,0)*rt_abs(&F,x,q2,0))*1e14; } mc_cmp("diffusion",function_train_eval(L,x),w,t); h=mc_hd(h,w); }
    mc_state(h); unchanged(a,&A); unchanged(f,&F); function_train_free(L);function_train_free(a);function_train_free(f); ro_free(&o);
}
/* periodic operators on uniform grids */
static void perd(const RF*f,RF*r){ int n=f->n; double dx=f->x[1]-f->x[0],len=dx*n; *r=*f; for(int j=0;j<n;j++){ double s=0; for(int l=0;l<n;l++) for(int k=0;k<n;k++){ double p=2*M_PI/len*(k-n/2.0); s-=p*p*cos(p*(f->x[j]-f->x[l]))/n*f->c[l]; } r->c[j]=s; } }
static void b_per(void)
{
    int d=2+mc_choose(3,"dim"),n=4+2*mc_choose(3,"n"),rp=mc_choose(8,"ranks"); mc_shard(); int pat=mc_choose(NPAT,"pattern"),same=mc_choose(2,"same"); static RT A,P; rt_ranks(&A,d,rp);
    double sp=0.25; for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++){ RF*f=&A.f[k][q]; memset(f,0,sizeof*f); f->cls=ULIN; f->n=same?n:n+2*(k%2); f->lb=same?0:-0.5*k; for(int i=0;i<f->n;i++){ f->x[i]=f->lb+sp*(same?1:1+k%2)*i; f->c[i]=pat==PZERO?0:pat==PDELTA?(i==q%f->n):fgen(60+pat,k*16+q,i,0); } f->ub=f->x[f->n-1]; }
    P=A; for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++) perd(&A.f[k][q],&P.f[k][q]);
    struct FunctionTrain*f=rt_build(&A); RO o; o.d=d; o.m=multi_approx_opts_alloc(d); for(int k=0;k<d;k++){ o.f[k]=A.f[k][0]; o.cls[k]=ULIN; o.u[k]=uopts(&o.f[k]); o.o[k]=one_approx_opts_alloc(LINELM,o.u[k]); multi_approx_opts_set_dim(o.m,k,o.o[k]); }
    struct FT1DArray*H=function_train_hessian_diag_periodic(f); struct FunctionTrain*L=exact_laplace_periodic(f,o.m),*L2=NULL,*Op=NULL; mc_steps(2); struct OperatorForLaplace*lo=NULL;
    if(same){ lo=build_lp_operator(d,n,A.f[0][0].x); L2=exact_laplace_op(f,operator_for_laplace_get_op(lo),o.m); mc_step(); }
    double x[FD],t=1e-9*scl(&A)*pow(M_PI/sp,2); uint64_t h=mc_h0();
    for(int e=0;e<12;e++){ for(int k=0;k<d;k++) x[k]=e<8?A.f[k][0].x[(e*(k+1)+e/3+k)%A.f[k][0].n]:A.f[k][0].lb+(A.f[k][0].ub-A.f[k][0].lb)*(0.1+0.17*((e+k)%5)); double w=0;
        for(int k=0;k<d;k++){ static RT T; T=A; memcpy(T.f[k],P.f[k],sizeof T.f[k]); double v=rt_eval(&T,x); { int z[FD]={0}; t=rt_abs(&T,x,z,0)+100*rt_abs(&A,x,z,0); } mc_cmp("hessian_periodic",function_train_eval(H->ft[k],x),v,t); w+=v; }
        mc_cmp("laplace_periodic",function_train_eval(L,x),w,t*d); if(L2) mc_cmp("laplace_lp",function_train_eval(L2,x),w,t*d); h=mc_hd(h,w); }
    mc_state(h); for(int e=0;e<4;e++){ for(int k=0;k<d;k++) x[k]=A.f[k][0].x[(e+k)%4]; mc_cmp("input",function_train_eval(f,x),rt_eval(&A,x),1e-12*scl(&A)+1e-13); }
    ft1d_array_free(H); function_train_free(L); if(L2){ function_train_free(L2); destroy_operator_for_laplace(lo); } function_train_free(f); ro_free(&o);
}
/* larger trains */
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"); mc_shard(); BT A; bt_make(&A,sh,cs,0); struct FunctionTrain*f=bt_build(&A); int d=A.d,op[BD]={0}; double x[BD],sc; uint64_t h=mc_hu(mc_h0(),sh*8+cs); double*g=malloc(d*sizeof(double));
    for(int e=0;e<8;e++){ bt_pt(&A,e,x); for(int k=0;k<d;k++) g[k]=1e300; function_train_gradient_eval(f,x,g); mc_step(); for(int k=0;k<d;k++){ op[k]=3; double w=bt_op(&A,x,op,&sc); mc_cmp("big-gradient_eval",g[k],w,1e-12*sc); op[k]=0; h=mc_hd(h,w); } } free(g); mc_state(h);
    if(cs!=2){ struct FT1DArray*G=function_train_gradient(f),*H=function_train_hessian(f),*D=cs!=1&&cs!=6?function_train_hessian_diag(f):NULL; mc_steps(3); mc_expect("big-size",G->size==(size_t)d&&H->size==(size_t)(d*d)&&(!D||D->size==(size_t)d),"sizes");
        for(int e=2;e<5;e++){ bt_pt(&A,e,x); for(int i=0;i<d;i++){ op[i]=1; double w=bt_op(&A,x,op,&sc); mc_cmp("big-gradient",function_train_eval(G->ft[i],x),w,1e-12*sc); op[i]=0; if(D){ op[i]=2; w=bt_op(&A,x,op,&sc); mc_cmp("big-hessian_diag",function_train_eval(D->ft[i],x),w,1e-12*sc); op[i]=0; }
            for(int j=0;j<d;j++){ op[i]++; op[j]++; w=bt_op(&A,x,op,&sc); mc_cmp("big-hessian",function_train_eval(H->ft[i*d+j],x),w,1e-12*sc); op[i]=op[j]=0; } } }
        ft1d_array_free(G); ft1d_array_free(H); if(D) ft1d_array_free(D); }
    if(cs==0||(cs>=3&&cs<6)){ BO o; bo_make(&o,&A); struct FunctionTrain*L=exact_laplace(f,o.m); mc_step(); for(int e=2;e<6;e++){ bt_pt(&A,e,x); double w=0,S=0; for(int k=0;k<d;k++){ op[k]=2; w+=bt_op(&A,x,op,&sc); S+=sc; op[k]=0; } mc_cmp("big-laplace",function_train_eval(L,x),w,1e-12*S); } function_train_free(L); bo_free(&o); }
    if(cs==0||(cs>=3&&cs<6)){ BO o; bo_make(&o,&A); double fac[BD],fs=0; struct Operator os[BD],*ops[BD]; for(int k=0;k<d;k++){ fac[k]=fgen(51,k,0,0); fs+=fac[k]; os[k].f=opscale; os[k].opts=&fac[k]; ops[k]=&os[k]; } struct FunctionTrain*L2=exact_laplace_op(f,NULL,o.m),*L3=exact_laplace_op(f,ops,o.m); mc_steps(2); for(int e=2;e<6;e++){ bt_pt(&A,e,x); double w=0,S=0; for(int k=0;k<d;k++){ op[k]=2; w+=bt_op(&A,x,op,&sc); S+=sc; op[k]=0; } mc_cmp("big-laplace_op-null",function_train_eval(L2,x),w,1e-12*S); w=fs*bt_op(&A,x,op,&sc); mc_cmp("big-laplace_op",function_train_eval(L3,x),w,1e-12*sc*d); } function_train_free(L2);function_train_free(L3);
        if((cs==0||cs==3)&&sh!=0&&sh!=3&&(mc_thorough||sh!=7)&&sh!=2&&(cs==0||sh!=4)&&(cs==0||sh!=5)){ BT B; bt_make(&B,sh,cs,1); struct FunctionTrain*b=bt_build(&B),*L=exact_diffusion(b,f,o.m); mc_step(); for(int e=2;e<9;e++){ bt_pt(&A,e,x); if(cs==0) for(int k=0;k<d;k++) x[k]=A.f[k][0].x[(e*(k+3)+k)%A.n[k]]; double w=0,S=0,sa=0,s1,s2,s3,s4; for(int k=0;k<d;k++){ double a0=bt_op(&B,x,op,&s1),a1,f1,f2; op[k]=1; a1=bt_op(&B,x,op,&s2); f1=bt_op(&A,x,op,&s3); op[k]=2; f2=bt_op(&A,x,op,&s4); op[k]=0; w+=a1*f1+a0*f2; S+=s2*s3+s1*s4; sa+=fabs(a1*f1)+fabs(a0*f2); } mc_cmp("big-diffusion",function_train_eval(L,x),w,1e-11*sa+1e-21*S); } bt_check("big-input",b,&B,4,1e-13); function_train_free(L);function_train_free(b); bt_free(&B); } bo_free(&o); }
    bt_check("big-input",f,&A,4,1e-13); function_train_free(f); bt_free(&A);
}
/* periodic second derivatives in more variables, larger ranks and longer (uniform) grids */
static void b_bigp(void)
{
    int sh=mc_choose(BNS,"shape"),same=mc_choose(2,"same"); mc_shard(); int v=mc_choose(mc_thorough?4:2,"values"); BT A,P; bt_make(&A,sh,0,v); int d=A.d,n=A.n[0]%2?A.n[0]+1:A.n[0]; if(n<4) n=4; if(n>20) n=20;
    for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++){ RF*f=&A.f[k][q]; f->n=same?n:n+2*(k%3); f->lb=same?0:-0.5*k; for(int i=0;i<f->n;i++){ f->x[i]=f->lb+0.25*(same?1:1+k%2)*i; f->c[i]=fgen(90+v,k*400+q,i,sh)/sqrt(A.r[k]); } f->ub=f->x[f->n-1]; A.n[k]=f->n; }
    P=A; for(int k=0;k<d;k++){ int sz=A.r[k]*A.r[k+1]; P.f[k]=malloc(sizeof(RF)*sz); for(int q=0;q<sz;q++) perd(&A.f[k][q],&P.f[k][q]); }
    struct FunctionTrain*f=bt_build(&A); BO o; bo_make(&o,&A); struct FT1DArray*H=function_train_hessian_diag_periodic(f); struct FunctionTrain*L=exact_laplace_periodic(f,o.m),*L2=NULL; struct OperatorForLaplace*lo=NULL; mc_steps(2); if(same){ lo=build_lp_operator(d,n,A.f[0][0].x); L2=exact_laplace_op(f,operator_for_laplace_get_op(lo),o.m); mc_step(); }
    double x[BD],sc; uint64_t h=mc_hu(mc_h0(),sh); for(int e=0;e<6;e++){ bt_pt(&A,e,x); double w=0,S=0; for(int k=0;k<d;k++){ BT T=A; T.f[k]=P.f[k]; double t=bt_eval(&T,x,&sc); mc_cmp("big-hessian_periodic",function_train_eval(H->ft[k],x),t,1e-12*sc); w+=t; S+=sc; } mc_cmp("big-laplace_periodic",function_train_eval(L,x),w,1e-12*S); if(L2) mc_cmp("big-laplace_lp",function_train_eval(L2,x),w,1e-12*S); h=mc_hd(h,w); }
    mc_state(h); bt_check("big-input",f,&A,4,1e-13); ft1d_array_free(H); function_train_free(L); if(L2){ function_train_free(L2); destroy_operator_for_laplace(lo); } function_train_free(f); bo_free(&o); for(int k=0;k<d;k++) free(P.f[k]); bt_free(&A);
}
/* derivatives are linear: powers of two on the cores multiply every derivative by exactly that factor */
static void b_scaled(void)
{
    int d=1+mc_choose(4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(2,"ranks"); mc_shard(); int gs=mc_choose(2,"grid"),how=mc_choose(4,"how"),e=(int[]){-60,-33,-20,20,45,90}[mc_choose(6,"exponent")]; if(d==1&&(rp||how>1)) mc_skip(); if(cs>=3&&((how==3?-abs(e):e)<-20)) mc_skip();
    static RT A,S; rt_make(&A,d,rp?2:5,cs,gs,0,PGEN); S=A; int z=rt_pow2(&S,how,e); struct FunctionTrain*f=rt_build(&S); double x[FD],g[FD]; double rl=cs>=3?1e6:1; uint64_t h=mc_hu(mc_h0(),cs*8+d);
    #define SC(site,v,w,t) mc_cmp(site,ldexp(v,-z),w,t)
    for(int p=0;pts(&A,p,x);p++){ function_train_gradient_eval(f,x,g); mc_step(); for(int k=0;k<d;k++){ int op[FD]={0}; op[k]=1; SC("scaled-gradient_eval",g[k],rt_op(&A,x,op,1),rt_abs(&A,x,op,1)); } h=mc_hd(h,g[0]); } mc_state(mc_hu(h,how));
    if(cs!=2){ struct FT1DArray*G=function_train_gradient(f),*H=function_train_hessian(f),*D=cs!=1&&cs!=6?function_train_hessian_diag(f):NULL; mc_steps(3);
        for(int p=0;pts(&A,p,x);p+=3) for(int i=0;i<d;i++){ int op[FD]={0}; op[i]=1; SC("scaled-gradient",function_train_eval(G->ft[i],x),rt_op(&A,x,op,0),rl*rt_abs(&A,x,op,0)); if(D){ op[i]=2; SC("scaled-hessian_diag",function_train_eval(D->ft[i],x),rt_op(&A,x,op,0),rl*rt_abs(&A,x,op,0)); } op[i]=0;
            for(int j=0;j<d;j++){ op[i]++; op[j]++; SC("scaled-hessian",function_train_eval(H->ft[i*d+j],x),rt_op(&A,x,op,0),rl*rt_abs(&A,x,op,0)); op[i]=op[j]=0; } }
        ft1d_array_free(G); ft1d_array_free(H); if(D) ft1d_array_free(D); }
    if(d>1&&(cs==0||(cs>=3&&cs<6))){ RO o; ro_make(&o,d,cs,gs,0); struct FunctionTrain*L=exact_laplace(f,o.m),*P=exact_diffusion(f,f,o.m); mc_steps(2); for(int p=0;pts(&A,p,x);p+=2){ double w=0,t=0; for(int k=0;k<d;k++){ int q[FD]={0}; q[k]=2; w+=rt_op(&A,x,q,0); t+=rt_abs(&A,x,q,0); } SC("scaled-laplace",function_train_eval(L,x),w,rl*t); }
        for(int p=0;p<6&&(cs==0||z>=-20);p++){ for(int k=0;k<d;k++){ const RF*u=&A.f[k][0]; x[k]=cs==0?u->x[(p*(k+1)+k)%u->n]:umap(UPT[(p*5+k*7)%UNP],u->lb,u->ub); } double w=0,t=0; for(int k=0;k<d;k++){ int q0[FD]={0},q1[FD]={0},q2[FD]={0}; q1[k]=1; q2[k]=2; w+=rt_op(&A,x,q1,0)*rt_op(&A,x,q1,0)+rt_op(&A,x,q0,0)*rt_op(&A,x,q2,0); t+=(rt_abs(&A,x,q1,0)*rt_abs(&A,x,q1,0)+rt_abs(&A,x,q0,0)*rt_abs(&A,x,q2,0))*1e14; } mc_cmp("scaled-diffusion",ldexp(function_train_eval(P,x),-2*z),w,rl*t); }
        function_train_free(L); function_train_free(P); ro_free(&o); }
    #undef SC
    function_train_free(f);
}
/* the diffusion operator in compressed form, and its block products with one core */
static void dshape(BT*T,int d,const int*r,int cs,int n,int v){ T->d=d; for(int k=0;k<=d;k++) T->r[k]=r[k]; for(int k=0;k<d;k++){ int sz=r[k]*r[k+1]; T->cls[k]=cs; T->f[k]=malloc(sizeof(RF)*sz); for(int q=0;q<sz;q++){ RF*f=&T->f[k][q]; bgrid(f,cs,k%3,n,0); for(int c=0;c<f->n;c++) f->c[c]=fgen(60+v,k*16+q,c,d)/(cs==ULEG?1+c:1)+(c==0&&q==0?1.5:0); } T->n[k]=T->f[k][0].n; } }
static double dval(const BT*A,const BT*F,const double*x,double*S){ int op[BD]={0}; double w=0,s1; *S=0; for(int k=0;k<A->d;k++){ double a0=bt_op(A,x,op,&s1),a1,f1,f2; op[k]=1; a1=bt_op(A,x,op,&s1); f1=bt_op(F,x,op,&s1); op[k]=2; f2=bt_op(F,x,op,&s1); op[k]=0; w+=a1*f1+a0*f2; *S+=fabs(a1*f1)+fabs(a0*f2); } return w; }
static void b_dmrg(void)
{
    static const struct { int d,a[7],f[7]; } S[8]={ {2,{1,1,1},{1,1,1}},{2,{1,2,1},{1,1,1}},{2,{1,2,1},{1,2,1}},{3,{1,1,2,1},{1,2,1,1}},{3,{1,2,2,1},{1,1,2,1}},{4,{1,2,1,1,1},{1,1,2,2,1}},{5,{1,1,2,1,2,1},{1,2,1,2,1,1}},{6,{1,1,1,1,1,1,1},{1,1,1,1,1,1,1}} };
    int z=mc_choose(8,"shape"),cs=mc_choose(2,"class")?ULEG:ULIN; mc_shard(); int v=mc_choose(3,"values"),eps=mc_choose(2,"eps"),d=S[z].d; BT A,F; dshape(&A,d,S[z].a,cs,cs==ULEG?3:12,v); dshape(&F,d,S[z].f,cs,cs==ULEG?3:12,v+3);
    BO o; bo_make(&o,&A); if(cs==ULEG) for(int k=0;k<d;k++) ope_opts_set_nparams(o.u[k],8); struct FunctionTrain*a=bt_build(&A),*f=bt_build(&F),*r=dmrg_diffusion(a,f,eps?1e-9:1e-10,8,eps?1e-20:1e-22,0,o.m); mc_step(); mc_expect("dmrg-diffusion",r&&r->dim==(size_t)d&&r->ranks[0]==1&&r->ranks[d]==1,"shape");
    double x[BD],sc,m=0,e2=0; uint64_t h=mc_hu(mc_h0(),z*2+cs); for(int e=0;e<50;e++){ for(int k=0;k<d;k++){ RF*g=&A.f[k][0]; x[k]=cs==ULIN?g->x[(e*(k+3)+k+e/7)%g->n]:umap(UPT[(e*5+k*7+e/9)%UNP],g->lb,g->ub); } double w=dval(&A,&F,x,&sc),u=function_train_eval(r,x); m=fmax(m,sc); e2=fmax(e2,fabs(u-w)); h=mc_hd(h,w); } mc_cmp("dmrg-diffusion",e2,0,1e-6*m); mc_state(h);
    for(int k=1;k<d;k++) mc_expect("dmrg-diffusion-rank",(int)r->ranks[k]<=2*A.r[k]*F.r[k],"rank %d is %zu, the operator has %d",k,r->ranks[k],2*A.r[k]*F.r[k]);
    bt_check("dmrg-input",a,&A,4,1e-12); bt_check("dmrg-input",f,&F,4,1e-12); function_train_free(a);function_train_free(f);function_train_free(r); bo_free(&o); bt_free(&A); bt_free(&F);
}
static void b_block(void)
{
    int cs=mc_choose(2,"class")?ULEG:ULIN,ra=1+mc_choose(3,"a rows"),ca=1+mc_choose(3,"a cols"),rf=1+mc_choose(3,"f rows"); mc_shard(); int cf=1+mc_choose(3,"f cols"),r=1+mc_choose(4,"r"),what=mc_choose(4,"which"); int rr[3]={1,1,1};
    if(what==1&&cf!=ca) mc_skip(); if(what==3&&rf!=ra) mc_skip(); /* the end cores are columns (rows): equal ranks */ if(what==1&&ca!=1) mc_skip(); if(what==3&&ra!=1) mc_skip(); (void)rr;
    RF Af[9],Ff[9]; struct Qmarray*A=qmarray_alloc(ra,ca),*F=qmarray_alloc(rf,cf); for(int q=0;q<ra*ca;q++){ bgrid(&Af[q],cs,1,cs==ULEG?3:6,0); for(int c=0;c<Af[q].n;c++) Af[q].c[c]=fgen(31,q,c,ra); A->funcs[q]=ubuild(&Af[q]); } for(int q=0;q<rf*cf;q++){ bgrid(&Ff[q],cs,1,cs==ULEG?3:6,0); for(int c=0;c<Ff[q].n;c++) Ff[q].c[c]=fgen(32,q,c,rf); F->funcs[q]=ubuild(&Ff[q]); }
    struct Qmarray*dA=qmarray_deriv(A),*dF=qmarray_deriv(F),*ddF=qmarray_deriv(dF); int right=what>=2,K=right?2*ca*cf:2*ra*rf; double*mat=malloc(sizeof(double)*K*r),*m0=malloc(sizeof(double)*K*r); for(int i=0;i<K*r;i++) mat[i]=m0[i]=fgen(33,i,r,what);
    int nr=what==0||what==1?r:what==2?2*ra*rf:ra*rf,nc=what==0?2*ca*cf:what==1?ca*cf:r; struct Qmarray*out=qmarray_alloc(nr,nc); (what==0?dmrg_diffusion_midleft:what==1?dmrg_diffusion_lastleft:what==2?dmrg_diffusion_midright:dmrg_diffusion_firstright)(dA,A,ddF,dF,F,mat,r,out); mc_step(); uint64_t h=mc_hu(mc_h0(),what*100+ra*27+ca*9+rf*3+cf);
    for(int e=0;e<4;e++){ double x=cs==ULIN?Af[0].x[(e*2+1)%Af[0].n]:umap(UPT[e*5+2],Af[0].lb,Af[0].ub); 
        for(int i=0;i<nr;i++) for(int j=0;j<nc;j++){ double w=0,sc=0; /* block core [[AF,0],[D,AF]], D=A'F'+AF'' */
            #define EN(p,ia,ja,jf,kf) do{ double a0=ueval(&Af[(ia)+(ja)*ra],x),a1=uop(&Af[(ia)+(ja)*ra],x,1),f0=ueval(&Ff[(jf)+(kf)*rf],x),f1=uop(&Ff[(jf)+(kf)*rf],x,1),f2=uop(&Ff[(jf)+(kf)*rf],x,2); af=a0*f0; dd=a1*f1+a0*f2; ds=fabs(a1*f1)+fabs(a0*f2); }while(0)
            double af,dd,ds; if(!right){ int half=what==1?1:j<ca*cf?1:2,jj=half==1?j:j-ca*cf,ja=jj/cf,jf=jj%cf; for(int p=0;p<ra*rf;p++){ EN(p,p/rf,ja,p%rf,jf); double m1=m0[i+p*r],m2=m0[i+(p+ra*rf)*r]; if(half==1){ w+=m1*af+m2*dd; sc+=fabs(m1*af)+fabs(m2)*ds; } else { w+=m2*af; sc+=fabs(m2*af); } } }
            else { int top=what==2&&i<ra*rf,ii=what==2&&!top?i-ra*rf:i,ia=ii/rf,jf=ii%rf; for(int p=0;p<ca*cf;p++){ EN(p,ia,p/cf,jf,p%cf); double m1=m0[p+j*K],m2=m0[p+ca*cf+j*K]; if(top){ w+=m1*af; sc+=fabs(m1*af); } else { w+=m1*dd+m2*af; sc+=fabs(m1)*ds+fabs(m2*af); } } }
            mc_cmp("diffusion-block",generic_function_1d_eval(out->funcs[i+j*nr],x),w,1e-11*sc+1e-11); h=mc_hd(h,w); } }
    mc_state(h); for(int i=0;i<K*r;i++) mc_expect("diffusion-block-input",mat[i]==m0[i],"matrix changed"); for(int q=0;q<ra*ca;q++) mc_cmp("diffusion-block-input",generic_function_1d_eval(A->funcs[q],Af[q].lb),ueval(&Af[q],Af[q].lb),1e-12); for(int q=0;q<rf*cf;q++) mc_cmp("diffusion-block-input",generic_function_1d_eval(F->funcs[q],Ff[q].lb),ueval(&Ff[q],Ff[q].lb),1e-12);
    qmarray_free(out);qmarray_free(A);qmarray_free(F);qmarray_free(dA);qmarray_free(dF);qmarray_free(ddF);free(mat);free(m0);
}
const mc_driver mc_drivers[]={{"scaled",b_scaled,1,3},{"gradient",b_grad,1,3},{"jacobian",b_jac,1,3},{"laplace",b_lap,1,3},{"diffusion",b_diff,1,3},{"periodic",b_per,1,3},{"big",b_big,1,3},{"bigp",b_bigp,1,3},{"dmrg",b_dmrg,1,3},{"block",b_block,1,3},{0}};
