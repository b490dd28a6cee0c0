/* C03: integrals, inner products, norms and distances of function trains. */
#include "ftm.h"
#include "ucal.h"
#include "big.h"
const char *mc_property="C03";
static double rt_int(const RT*A,int weighted){ double a[FR]={1},b[FR]; for(int k=0;k<A->d;k++){ for(int j=0;j<A->r[k+1];j++){ b[j]=0; for(int i=0;i<A->r[k];i++){ const RF*f=&A->f[k][i+j*A->r[k]]; b[j]+=a[i]*(weighted&&f->cls>=ULEG?f->c[0]:u_integ(f)); } } memcpy(a,b,sizeof a);} return a[0]; }
static double rt_inner(const RT*A,const RT*B,int weighted)
{
    static double a[FR*FR],b[FR*FR]; a[0]=1;
    for(int k=0;k<A->d;k++){ for(int j=0;j<A->r[k+1];j++) for(int l=0;l<B->r[k+1];l++){ double s=0; for(int i=0;i<A->r[k];i++) for(int m=0;m<B->r[k];m++){ const RF*f=&A->f[k][i+j*A->r[k]],*g=&B->f[k][m+l*B->r[k]]; double v; if(weighted){ v=0; for(int q=0;q<f->n&&q<g->n;q++) v+=f->c[q]*g->c[q]; } else v=u_inner(f,g); s+=a[i*FR+m]*v; } b[j*FR+l]=s; } memcpy(a,b,sizeof a); }
    return a[0];
}
static double vol(const RT*A){ double v=1; for(int k=0;k<A->d;k++) v*=1+A->f[k][0].ub-A->f[k][0].lb; return v; }
static double nrm(const RT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=fabs(u_inner(&A->f[k][q],&A->f[k][q])); s*=sqrt(m); } return s; }
static double scl(const RT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=uscl(&A->f[k][q])-0.99; s*=m; } return s; }
static void unchanged(const char*site,struct FunctionTrain*f,const RT*A){ double x[FD]; for(int e=0;e<6;e++){ for(int k=0;k<A->d;k++) x[k]=umap(FXP[e][k],A->f[k][0].lb,A->f[k][0].ub); mc_cmp(site,function_train_eval(f,x),rt_eval(A,x),1e-12*scl(A)+1e-13); } }

static void b_single(void)
{
    int d=1+mc_choose(5,"dim"),cs=mc_choose(7,"class"),gs=mc_choose(4,"grid"); mc_shard(); int rp=mc_choose(8,"ranks"),pat=mc_choose(NPAT,"pattern");
    RT A; rt_make(&A,d,rp,cs,gs,0,pat); struct FunctionTrain*f=rt_build(&A); double t=1e-12*nrm(&A)*(1+vol(&A))+1e-14,w=rt_int(&A,0),n2=rt_inner(&A,&A,0);
    for(int r=0;r<2;r++){ mc_cmp("integrate",function_train_integrate(f),w,t); mc_step(); }
    mc_cmp("norm2",pow(function_train_norm2(f),2),fabs(n2),1e-12*nrm(&A)*nrm(&A)+1e-14); mc_step();
    if(cs==2||cs==3||cs==5){ mc_cmp("integrate_weighted",function_train_integrate_weighted(f),rt_int(&A,1),t); mc_step(); }
    if(cs==3||cs==5){ mc_cmp("inner_weighted",function_train_inner_weighted(f,f),rt_inner(&A,&A,1),t*(1+nrm(&A))); mc_step(); }
    if(d>1){ mc_cmp("norm2diff-self",function_train_norm2diff(f,f),0,1e-7*(1+sqrt(fabs(n2)))); mc_cmp("relnorm-self",function_train_relnorm2diff(f,f),0,1e-7); mc_steps(2); }
    mc_state(mc_hd(mc_hd(mc_hu(mc_h0(),cs*10+d),w),n2)); unchanged("input",f,&A); function_train_free(f);
}
static void b_pair(void)
{
    int d=2+mc_choose(3,"dim"),cs=mc_choose(7,"class"),ga=mc_choose(4,"grid a"),gb=mc_choose(4,"grid b"); if((cs==1||cs==6||cs==2)&&ga!=gb) mc_skip(); mc_shard();
    int ra=mc_choose(mc_thorough?8:4,"ranks a"),rb=mc_choose(mc_thorough?8:4,"ranks b"),pa=mc_choose(NPAT,"pattern a"),pb=mc_choose(NPAT,"pattern b"); if(!mc_thorough&&pa>=PDUP&&pb>=PDUP&&pa!=pb) mc_skip();
    if(!mc_thorough&&cs==2&&d==4&&(ra+rb)%2) mc_skip();
    RT A,B; rt_make(&A,d,mc_thorough?ra:2*ra,cs,ga,0,pa); rt_make(&B,d,mc_thorough?rb:2*rb+1,cs,gb,0,pb);
    struct FunctionTrain*f=rt_build(&A),*g=rt_build(&B); double t=1e-12*nrm(&A)*nrm(&B)*(cs==3||cs==5?1+vol(&A):1)+1e-14,w=rt_inner(&A,&B,0);
    mc_cmp("inner",function_train_inner(f,g),w,t); mc_cmp("inner-sym",function_train_inner(g,f),w,t); mc_cmp("inner2",function_train_inner2(f,g),w,t); mc_cmp("inner2-sym",function_train_inner2(g,f),w,t); mc_cmp("inner_rl",function_train_inner_rl(f,g),w,t); mc_cmp("inner_rl-sym",function_train_inner_rl(g,f),w,t); mc_cmp("c3dot",c3dot(f,g),w,t); mc_steps(7);
    if(cs==3||cs==5){ double v=rt_inner(&A,&B,1); mc_cmp("inner_weighted",function_train_inner_weighted(f,g),v,t); mc_cmp("inner_weighted",function_train_inner_weighted(g,f),v,t); mc_steps(2); }
    double aa=rt_inner(&A,&A,0),bb=rt_inner(&B,&B,0),S=aa+bb-2*w;
    if(ga==gb||cs>=ULEG){ /* common grid: |a-b|^2 = aa+bb-2ab in the representation's inner product */
        double nd=function_train_norm2diff(f,g); mc_cmp("norm2diff",nd*nd,fmax(S,0),1e-10*(1+aa+bb)); double rd=function_train_relnorm2diff(f,g); mc_step(); mc_step();
        if(fabs(bb)>1e-8) mc_cmp("relnorm2diff",rd*rd,fmax(S,0)/bb,1e-10*(1+aa+bb)/bb); else if(bb==0) mc_cmp("relnorm2diff-0",rd*rd,fmax(S,0),1e-10*(1+aa)); }
    if((cs==0&&ga==gb)||cs==3){ struct FunctionTrain*p=function_train_product(f,g); mc_cmp("product-integral",function_train_integrate(p),w,t*10); mc_steps(2); function_train_free(p); }
    mc_state(mc_hd(mc_hd(mc_hu(mc_h0(),cs*10+d),w),S)); unchanged("input a",f,&A); unchanged("input b",g,&B); function_train_free(f);function_train_free(g);
}
/* integration over every subset of the variables */
static void b_subset(void)
{
    int d=2+mc_choose(4,"dim"),cs=(int[]){2,3,5}[mc_choose(3,"class")],rp=mc_choose(8,"ranks"); mc_shard(); int pat=mc_choose(NPAT,"pattern"),m=1+mc_choose((1<<d)-2,"subset");
    RT A; rt_make(&A,d,rp,cs,1,0,pat); struct FunctionTrain*f=rt_build(&A); size_t*dc=malloc(d*sizeof(size_t)); int nc=0,keep[FD],nk=0; for(int k=0;k<d;k++) if(m>>k&1) dc[nc++]=k; else keep[nk++]=k;
    dc=realloc(dc,nc*sizeof(size_t));
    struct FunctionTrain*g=function_train_integrate_weighted_subset(f,nc,dc); mc_step(); mc_expect("subset-dim",g->dim==(size_t)nk,"dimension %zu",g->dim);
    for(int e=0;e<8;e++){ double y[FD],x[FD]; for(int k=0;k<nk;k++){ const RF*q=&A.f[keep[k]][0]; y[k]=x[keep[k]]=umap(e<6?FXP[e][keep[k]]:UPT[(e*3+k*5)%UNP],q->lb,q->ub); }
        double a[FR]={1},b[FR]; for(int k=0;k<d;k++){ for(int j=0;j<A.r[k+1];j++){ b[j]=0; for(int i=0;i<A.r[k];i++){ const RF*q=&A.f[k][i+j*A.r[k]]; b[j]+=a[i]*((m>>k&1)?(q->cls>=ULEG?q->c[0]:u_integ(q)):ueval(q,x[k])); } } memcpy(a,b,sizeof a); }
        mc_cmp("subset",function_train_eval(g,y),a[0],1e-14*scl(&A)*vol(&A)+1e-14); mc_state(mc_hd(mc_hu(mc_h0(),d*100+cs),a[0])); }
    for(int k=0;k<nk;k++) mc_expect("subset-shape",g->cores[k]->nrows==g->ranks[k]&&g->cores[k]->ncols==g->ranks[k+1],"shape");
    unchanged("subset-input",f,&A); function_train_free(f);function_train_free(g);free(dc);
}
/* bilinearity: inner(a+s*b,c) through sums */
static void b_bilinear(void)
{
    int d=2+mc_choose(3,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(4,"ranks"); mc_shard(); int gs=mc_choose(3,"grid"),p=mc_choose(NPAT,"pattern"); double s=(double[]){-1,0,2.5}[mc_choose(3,"factor")];
    RT A,B,C; rt_make(&A,d,rp,cs,gs,0,p); rt_make(&B,d,rp+2,cs,gs,0,PGEN2); rt_make(&C,d,rp+4,cs,gs,0,PGEN3); struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*c=rt_build(&C); c3axpy(s,b,&a,0,NULL);
    double w=rt_inner(&A,&C,0)+s*rt_inner(&B,&C,0),t=1e-12*(nrm(&A)+3*nrm(&B)+1)*(nrm(&C)+1)*(1+vol(&A)); mc_cmp("bilinear",function_train_inner(a,c),w,t); mc_cmp("bilinear",function_train_inner(c,a),w,t); double iw=rt_int(&A,0)+s*rt_int(&B,0); mc_cmp("linear-int",function_train_integrate(a),iw,t); mc_steps(3);
    double n2=rt_inner(&A,&A,0)+2*s*rt_inner(&A,&B,0)+s*s*rt_inner(&B,&B,0); mc_cmp("norm-sum",pow(function_train_norm2(a),2),fmax(n2,0),1e-11*(1+pow(nrm(&A)+3*nrm(&B),2)));
    mc_state(mc_hd(mc_h0(),w)); function_train_free(a);function_train_free(b);function_train_free(c);
}
/* larger trains */
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"); mc_shard(); int vb=mc_choose(2,"grids"); if(vb&&(cs==1||cs==6||cs==2)) mc_skip(); BT A,B; bt_make(&A,sh,cs,0); bt_make(&B,sh,cs,vb?4:1); struct FunctionTrain*f=bt_build(&A),*g=bt_build(&B); double sc,aa=bt_inner(&A,&A),bb=bt_inner(&B,&B),ab=bt_inner(&A,&B),na=bt_amp(&A),nb=bt_amp(&B); int op[BD]; for(int k=0;k<BD;k++) op[k]=4;
    double w=bt_op(&A,NULL,op,&sc); mc_cmp("big-integrate",function_train_integrate(f),w,1e-12*sc); if(cs==3){ double v=1; for(int k=0;k<A.d;k++) v*=A.f[k][0].ub-A.f[k][0].lb; mc_cmp("big-weighted",function_train_integrate_weighted(f),w/v,1e-12*sc/v); mc_step(); }
    double t=1e-11*na*nb; mc_cmp("big-inner",function_train_inner(f,g),ab,t); mc_cmp("big-inner",function_train_inner(g,f),ab,t); mc_cmp("big-inner2",function_train_inner2(f,g),ab,t); mc_cmp("big-inner_rl",function_train_inner_rl(f,g),ab,t); mc_cmp("big-norm",pow(function_train_norm2(f),2),fabs(aa),1e-11*na*na); mc_steps(6);
    if(!vb||cs>=ULEG){ double S=fmax(0,aa+bb-2*ab),nd=function_train_norm2diff(f,g); mc_cmp("big-norm2diff",nd*nd,S,1e-10*(na+nb)*(na+nb)); mc_step(); }
    bt_check("big-input",f,&A,4,1e-13); bt_check("big-input",g,&B,4,1e-13); mc_state(mc_hd(mc_hd(mc_h0(),aa),ab)); function_train_free(f);function_train_free(g); bt_free(&A); bt_free(&B);
}
/* multilinearity for every magnitude: powers of two on the cores multiply every integral, inner product and norm exactly */
static void b_scaled(void)
{
    int d=1+mc_choose(4,"dim"),cs=mc_choose(7,"class"),ea=(int[]){-40,-24,-14,14,24,40}[mc_choose(6,"exponent a")]; mc_shard(); int eb=(int[]){-40,-24,-14,0,24,40}[mc_choose(6,"exponent b")],ha=mc_choose(4,"how a"),hb=mc_choose(2,"how b"),ra=mc_choose(2,"ranks"); if(d==1&&(ha>1||hb||ra)) mc_skip(); if(cs>=3&&((ha==3||ea<0)||eb<0)) mc_skip(); /* polynomial coefficients below an absolute threshold are dropped */
    static RT A,B,SA,SB; rt_make(&A,d,ra?5:1,cs,0,0,PGEN); rt_make(&B,d,ra?2:3,cs,0,0,PGEN2); SA=A; SB=B; int za=rt_pow2(&SA,ha,ea),zb=rt_pow2(&SB,hb,eb); struct FunctionTrain*f=rt_build(&SA),*g=rt_build(&SB);
    double na=nrm(&A),nb=nrm(&B),V=1+vol(&A),w=rt_int(&A,0),aa=rt_inner(&A,&A,0),ab=rt_inner(&A,&B,0),bb=rt_inner(&B,&B,0),t=1e-12*na*nb*V+1e-14;
    mc_cmp("scaled-integrate",ldexp(function_train_integrate(f),-za),w,1e-12*na*V+1e-14); mc_cmp("scaled-norm2",ldexp(function_train_norm2(f),-za),sqrt(fabs(aa)),1e-11*na+1e-14); mc_steps(2);
    if(cs==2||cs==3||cs==5){ mc_cmp("scaled-weighted",ldexp(function_train_integrate_weighted(f),-za),rt_int(&A,1),1e-12*na*V+1e-14); mc_step(); } if(cs==3||cs==5){ mc_cmp("scaled-inner_weighted",ldexp(function_train_inner_weighted(f,g),-za-zb),rt_inner(&A,&B,1),t); mc_step(); }
    mc_cmp("scaled-inner",ldexp(function_train_inner(f,g),-za-zb),ab,t); mc_cmp("scaled-inner",ldexp(function_train_inner(g,f),-za-zb),ab,t); mc_cmp("scaled-inner2",ldexp(function_train_inner2(f,g),-za-zb),ab,t); mc_cmp("scaled-inner_rl",ldexp(function_train_inner_rl(f,g),-za-zb),ab,t); mc_steps(4);
    if(d>1){ int m=za>zb?za:zb; double S=fmax(0,ldexp(aa,2*(za-m))+ldexp(bb,2*(zb-m))-ldexp(2*ab,za+zb-2*m)),nd=ldexp(function_train_norm2diff(f,g),-m); mc_cmp("scaled-norm2diff",nd*nd,S,1e-10*(na*na+nb*nb)); mc_step();
        if(zb>=-24&&bb>1e-6){ double rd=ldexp(function_train_relnorm2diff(f,g),zb-m); mc_cmp("scaled-relnorm2diff",rd*rd,S/bb,1e-10*(na*na+nb*nb)/bb); mc_step(); } }
    mc_state(mc_hd(mc_hu(mc_h0(),cs*8+d+za*100+zb*10000),ab)); function_train_free(f);function_train_free(g);
}
/* grids with more nodes than any fixed-size buffer, equal or different in the two trains */
typedef struct { int n; double*x,*c; } FN;
static void fn_grid(FN*f,int n,int k,int var){ f->n=n; f->x=malloc(8*n); f->c=malloc(8*n); for(int i=0;i<n;i++){ double t=(double)i/(n-1); f->x[i]=i==0?-1.0-k:i==n-1?2.0:-1.0-k+(3.0+k)*(t+(var?0.2:0.1)*t*(1-t)); f->c[i]=sin(3*f->x[i]+var*2+k)+0.1*((i*7+k)%11); } }
static double fn_inner(const FN*a,const FN*b)
{
    int i=0,j=0,first=1; double px=0,pv=0,w=0;
    while(i<a->n||j<b->n){ double t,u,v; t=j>=b->n||(i<a->n&&a->x[i]<=b->x[j])?a->x[i]:b->x[j];
        if(i<a->n&&a->x[i]==t) u=a->c[i]; else { double q=(t-a->x[i-1])/(a->x[i]-a->x[i-1]); u=a->c[i-1]*(1-q)+a->c[i]*q; } if(j<b->n&&b->x[j]==t) v=b->c[j]; else { double q=(t-b->x[j-1])/(b->x[j]-b->x[j-1]); v=b->c[j-1]*(1-q)+b->c[j]*q; }
        if(i<a->n&&a->x[i]==t) i++; if(j<b->n&&b->x[j]==t) j++; if(!first) w+=(t-px)*0.5*(pv+u*v); first=0; px=t; pv=u*v; }
    return w;
}
static double fn_int(const FN*a){ double w=0; for(int i=0;i+1<a->n;i++) w+=(a->x[i+1]-a->x[i])*0.5*(a->c[i]+a->c[i+1]); return w; }
static struct GenericFunction*fn_build(const FN*a){ struct LinElemExpAopts*o=lin_elem_exp_aopts_alloc(a->n,a->x); struct GenericFunction*g=generic_function_create_with_params(LINELM,o,a->n,a->c); lin_elem_exp_aopts_free(o); return g; }
static void b_fine(void)
{
    static const int NB[]={17,4999,5000,5001,9999,10000,12000}; int d=1+mc_choose(3,"dim"),a=mc_choose(7,"nodes a"),b=mc_choose(7,"nodes b"); mc_shard(); int at=mc_choose(d,"fine variable"),r=1+mc_choose(2,"rank"); if(d==1&&r==2) mc_skip(); if(a==0&&b==0) mc_skip(); FN F[2][3][4]; struct FunctionTrain*f[2]; int R[2][4];
    for(int s=0;s<2;s++){ f[s]=function_train_alloc(d); for(int k=0;k<=d;k++) f[s]->ranks[k]=R[s][k]=k==0||k==d?1:s==0?r:3-r; for(int k=0;k<d;k++){ f[s]->cores[k]=qmarray_alloc(R[s][k],R[s][k+1]); for(int q=0;q<R[s][k]*R[s][k+1];q++){ fn_grid(&F[s][k][q],k==at?NB[s?b:a]:6+s,k,s); for(int i=0;i<F[s][k][q].n;i++) F[s][k][q].c[i]+=0.3*q*cos(5*F[s][k][q].x[i]+q); f[s]->cores[k]->funcs[q]=fn_build(&F[s][k][q]); } } }
    mc_note("%d variables, %d and %d nodes in variable %d",d,NB[a],NB[b],at); double G[2][2],W[2],na[2]; for(int s=0;s<2;s++){ double v[2]={1},u[2]; for(int k=0;k<d;k++){ for(int j=0;j<R[s][k+1];j++){ u[j]=0; for(int i=0;i<R[s][k];i++) u[j]+=v[i]*fn_int(&F[s][k][i+j*R[s][k]]); } v[0]=u[0]; if(R[s][k+1]>1) v[1]=u[1]; } W[s]=v[0]; }
    for(int s=0;s<2;s++) for(int z=0;z<2;z++){ double v[4]={1},u[4]; for(int k=0;k<d;k++){ for(int j=0;j<R[s][k+1];j++) for(int l=0;l<R[z][k+1];l++){ double q=0; for(int i=0;i<R[s][k];i++) for(int m=0;m<R[z][k];m++) q+=v[i+2*m]*fn_inner(&F[s][k][i+j*R[s][k]],&F[z][k][m+l*R[z][k]]); u[j+2*l]=q; } memcpy(v,u,sizeof v); } G[s][z]=v[0]; }
    for(int s=0;s<2;s++){ na[s]=sqrt(G[s][s]); mc_cmp("fine-integrate",function_train_integrate(f[s]),W[s],1e-11*na[s]); mc_cmp("fine-norm2",function_train_norm2(f[s]),na[s],1e-12*na[s]); mc_steps(2); }
    double t=1e-12*na[0]*na[1]; mc_cmp("fine-inner",function_train_inner(f[0],f[1]),G[0][1],t); mc_cmp("fine-inner",function_train_inner(f[1],f[0]),G[0][1],t); mc_cmp("fine-inner2",function_train_inner2(f[0],f[1]),G[0][1],t); mc_cmp("fine-inner_rl",function_train_inner_rl(f[1],f[0]),G[0][1],t); mc_steps(4);
    mc_state(mc_hd(mc_hd(mc_h0(),G[0][1]),W[0])); for(int s=0;s<2;s++){ for(int k=0;k<d;k++) for(int q=0;q<R[s][k]*R[s][k+1];q++){ free(F[s][k][q].x); free(F[s][k][q].c); } function_train_free(f[s]); }
}
const mc_driver mc_drivers[]={{"fine",b_fine,1,3},{"scaled",b_scaled,1,3},{"single",b_single,1,3},{"pair",b_pair,1,3},{"subset",b_subset,1,3},{"bilinear",b_bilinear,1,3},{"big",b_big,1,3},{0}};
