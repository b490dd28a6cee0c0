/* C05: rounding / orthogonalisation / rank truncation stay within the requested error with the smallest sufficient ranks. */
#include "ftm.h"
#include "ucal.h"
#include "big.h"
const char *mc_property="C05";
extern void dgesdd_(char*,int*,int*,double*,int*,double*,double*,int*,double*,int*,double*,int*,int*,int*);
/* sample grid with inner-product weights: sum_q w_q f(x_q) g(x_q) is the inner product of the representation */
typedef struct { int d,m[FD],n; double x[FD][12],w[FD][12]; } NG;
static void glq(int n,double*X,double*W){ for(int i=0;i<n;i++){ double x=cos(M_PI*(i+0.75)/(n+0.5)),dp=1; for(int it=0;it<100;it++){ double p0=1,p1=x; for(int k=2;k<=n;k++){ double p=((2*k-1)*x*p1-(k-1)*p0)/k;p0=p1;p1=p;} dp=n*(x*p1-p0)/(x*x-1); double dx=p1/dp; x-=dx; if(fabs(dx)<1e-16) break; } X[i]=x; W[i]=1/((1-x*x)*dp*dp); } }
/* Gauss-Hermite for the standard normal: roots of He_6 by Newton from sorted starts */
static void ghq(int n,double*X,double*W)
{ int c=0; for(double s=-4.5;s<4.5&&c<n;s+=0.01){ double v[2]; for(int e=0;e<2;e++){ double x=s+0.01*e,p0=1,p1=x; for(int k=1;k<n;k++){ double p=x*p1-k*p0;p0=p1;p1=p;} v[e]=p1; } if(v[0]*v[1]<=0&&v[0]!=0){ double a=s,b=s+0.01; for(int it=0;it<80;it++){ double m=(a+b)/2,p0=1,p1=m; for(int k=1;k<n;k++){ double p=m*p1-k*p0;p0=p1;p1=p;} if(p1*v[0]>0) a=m; else b=m; } X[c++]=(a+b)/2; } }
  double f=1; for(int k=2;k<=n;k++) f*=k; for(int i=0;i<n;i++){ double p0=1,p1=X[i]; for(int k=1;k<n-1;k++){ double p=X[i]*p1-k*p0;p0=p1;p1=p;} W[i]=f/(n*n*p1*p1); } }
static void ng_make(NG*g,const RT*A)
{ g->d=A->d; g->n=1; for(int k=0;k<A->d;k++){ const RF*f=&A->f[k][0]; int c=f->cls;
    if(c==ULIN||c==UCONST){ g->m[k]=f->n; for(int i=0;i<f->n;i++){ g->x[k][i]=f->x[i]; g->w[k][i]=0.5*((i+1<f->n?f->x[i+1]-f->x[i]:0)+(i?f->x[i]-f->x[i-1]:0)); } }
    else if(c==UHERM){ g->m[k]=6; ghq(6,g->x[k],g->w[k]); }
    else { int n=c==UKER?10:6; g->m[k]=n; glq(n,g->x[k],g->w[k]); for(int i=0;i<n;i++){ g->x[k][i]=f->lb+(g->x[k][i]+1)/2*(f->ub-f->lb); g->w[k][i]*=f->ub-f->lb; } }
    g->n*=g->m[k]; } }
static double ng_pt(const NG*g,int q,double*x){ double w=1; for(int k=0;k<g->d;k++){ int i=q%g->m[k]; q/=g->m[k]; x[k]=g->x[k][i]; w*=g->w[k][i]; } return sqrt(w); }
static double*ng_rt(const NG*g,const RT*A){ double*v=malloc(g->n*sizeof(double)),x[FD]; for(int q=0;q<g->n;q++){ double w=ng_pt(g,q,x); v[q]=w*rt_eval(A,x); } return v; }
static double*ng_ft(const NG*g,struct FunctionTrain*f){ double*v=malloc(g->n*sizeof(double)),x[FD]; for(int q=0;q<g->n;q++){ double w=ng_pt(g,q,x); v[q]=w*function_train_eval(f,x); } return v; }
static double nrm2(int n,const double*a,const double*b){ double s=0; for(int i=0;i<n;i++){ double t=a[i]-(b?b[i]:0); s+=t*t; } return sqrt(s); }
/* tails[k][r]: sum of squares of the singular values r, r+1, ... of the k-th unfolding */
static double TL[FD+1][16];
static void tails(const NG*g,const double*v)
{ int m=1; for(int k=1;k<g->d;k++){ m*=g->m[k-1]; int n=g->n/m,mn=m<n?m:n,lw=200000,info; double*a=malloc(g->n*sizeof(double)),*s=malloc(mn*sizeof(double)),*w=malloc(lw*sizeof(double)); int*iw=malloc(8*mn*sizeof(int)),one=1; memcpy(a,v,g->n*sizeof(double));
    dgesdd_("N",&m,&n,a,&m,s,NULL,&one,NULL,&one,w,&lw,iw,&info); for(int r=0;r<16;r++){ TL[k][r]=0; for(int i=mn-1;i>=r;i--) TL[k][r]+=s[i]*s[i]; } free(a);free(s);free(w);free(iw); } }
static int minrank(int k,double d2){ int r=1; while(r<15&&TL[k][r]>=d2) r++; return r; }
static const double SPEC[3]={1,1.0/32,1.0/1024};
static void make(RT*A,int d,int rp,int cs,int gs,int pat,int spec,double scale)
{
    rt_make(A,d,rp,cs,gs,0,pat);
    for(int k=0;k<d;k++) for(int j=0;j<A->r[k+1];j++) for(int i=0;i<A->r[k];i++){ RF*f=&A->f[k][i+j*A->r[k]]; if(f->cls>=ULEG){ f->n=5; int jj=pat==PDUP&&k<d-1?0:j; for(int q=0;q<5;q++){ double v=fgen(pat==PGEN2?77:pat==PGEN3?1234:5,k*16+i*4+jj,q,d)*(q>2?0.25:1); if(pat==PZERO||(pat==PZROW&&k==d/2&&i==0)) v=0; if(pat==PDELTA) v=(q==(i+j+k)%5); f->c[q]=v; } }
        uscale(pow(SPEC[spec],k<d-1?j:0)*(k==d-1?scale:1),f); }
}
static double amp(const RT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=fabs(u_inner(&A->f[k][q],&A->f[k][q])); s*=sqrt(m); } return s; }
static void shape(const char*s,struct FunctionTrain*f,int d){ mc_expect(s,f!=NULL,"NULL"); mc_expect(s,f->dim==(size_t)d,"dim"); mc_expect(s,f->ranks[0]==1&&f->ranks[d]==1,"outer ranks"); for(int k=0;k<d;k++) mc_expect(s,f->cores[k]&&f->cores[k]->nrows==f->ranks[k]&&f->cores[k]->ncols==f->ranks[k+1],"core %d has the wrong shape",k); }
static void opts(RO*o,const RT*A){ o->d=A->d; o->m=multi_approx_opts_alloc(A->d); for(int k=0;k<A->d;k++){ o->f[k]=A->f[k][0]; o->cls[k]=o->f[k].cls; o->u[k]=uopts(&o->f[k]); o->o[k]=one_approx_opts_alloc(UFC[o->cls[k]],o->u[k]); multi_approx_opts_set_dim(o->m,k,o->o[k]); } }
static void input_same(struct FunctionTrain*f,const RT*A){ double x[FD]; for(int k=0;k<=A->d;k++) mc_expect("input",f->ranks[k]==(size_t)A->r[k],"input rank changed"); for(int e=0;e<6;e++){ for(int k=0;k<A->d;k++) x[k]=umap(FXP[e][k],A->f[k][0].lb,A->f[k][0].ub); mc_cmp("input",function_train_eval(f,x),rt_eval(A,x),1e-12*(amp(A)*100)+1e-300); } }

static const double EPS[5]={1e-9,1e-5,1e-2,0.2,0.7};
/* error bound, ranks: the result against the exact values v (weighted), given eps and cap */
static const char*nm(const char*a,const char*b){ static char T[64][64]; static int n; char t[64]; snprintf(t,sizeof t,"%s-%s",a,b); for(int i=0;i<n;i++) if(!strcmp(T[i],t)) return T[i]; strcpy(T[n],t); return T[n++]; }
static void judge(const char*site,const NG*g,const double*v,struct FunctionTrain*r,double eps,int cap,double floor_)
{
    int d=g->d; shape(site,r,d); double*o=ng_ft(g,r),nv=nrm2(g->n,v,NULL),err=nrm2(g->n,o,v),b2=0; int capped=0;
    if(nv==0){ mc_cmp(site,err,0,floor_); for(int k=1;k<d;k++) mc_expect(site,r->ranks[k]==1,"zero function has rank %zu",r->ranks[k]); free(o); return; }
    tails(g,v); double d2=d>1?eps*eps*nv*nv/(d-1):0;
    for(int k=1;k<d;k++){ int mr=minrank(k,d2*(1-1e-6)-0*floor_); double fl=floor_*floor_; while(mr>1&&TL[k][mr-1]<=fl) mr--; if(d2<=4*fl) mr=15; if(cap&&mr>cap) mr=cap;
        mc_expect(nm(site,"rank"),(int)r->ranks[k]<=mr&&r->ranks[k]>=1,"rank %d is %zu, the accuracy needs only %d",k,r->ranks[k],mr);
        b2+=TL[k][r->ranks[k]]; if(cap&&(int)r->ranks[k]==cap) capped=1; }
    if(!capped){ mc_cmp(nm(site,"error"),err>eps*nv?err:0,0,eps*nv*(1+1e-9)+floor_); }
    mc_cmp(nm(site,"optimal"),err>sqrt(b2)?err-sqrt(b2):0,0,1e-9*sqrt(b2)+floor_);
    free(o);
}
static void b_round(void)
{
    int d=1+mc_choose(mc_thorough?5:4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(8,"ranks"); mc_shard();
    static const int PT[5]={PGEN,PZERO,PDUP,PZROW,PONE}; int pat=PT[mc_choose(5,"pattern")],gs=mc_choose(cs==0||cs==1?2:1,"grid"),spec=mc_choose(3,"spectrum"),sc=mc_choose(3,"scale"),ei=mc_choose(5,"eps"),cap=mc_choose(4,"cap"),op; 
    if(cs==UKER&&(pat==PZERO||d>3||FRK[rp][1]>2||FRK[rp][2]>2)) mc_skip(); if(!mc_thorough&&sc&&(pat==PZERO||gs||spec==0)) mc_skip(); if(!mc_thorough&&d==4&&((rp+ei)%2||spec==0)) mc_skip(); if(d==1&&(cap||spec||rp)) mc_skip(); if(cs==UCHEB&&spec) mc_skip(); /* Chebyshev inner products carry an absolute error of about 1e-16 */
    RT A; make(&A,d,rp,cs,0,pat,spec,sc==1?1e4:sc==2?1e-4:1); if(gs){ /* four of the five nodes */ for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++){ RF*f=&A.f[k][q]; for(int i=1+k%3;i+1<f->n;i++){ f->x[i]=f->x[i+1]; f->c[i]=f->c[i+1]; } f->n--; } }
    mc_note("%s %s",FCS[cs],FPN[pat]); mc_key("%s-%s",FCS[cs],FPN[pat]);
    NG g; ng_make(&g,&A); double*v=ng_rt(&g,&A),fl=(cs==UKER?1e-6:1e-11)*amp(&A)+(cs==UCHEB?1e-7:3e-12); RO o; opts(&o,&A); struct FunctionTrain*f=rt_build(&A),*r;
    r=cap?function_train_round_maxrank_all(f,EPS[ei],o.m,cap):function_train_round(f,EPS[ei],o.m); mc_step();
    judge(cap?"maxrank":"round",&g,v,r,EPS[ei],cap,fl); input_same(f,&A);
    for(int k=0;k<=d;k++) mc_expect("rank-grows",r->ranks[k]<=(size_t)A.r[k],"rank %d grew",k);
    uint64_t h=mc_hu(mc_h0(),cs*8+d); for(int k=0;k<=d;k++) h=mc_hu(h,r->ranks[k]); mc_state(mc_hd(h,function_train_norm2(r)));
    struct FunctionTrain*r2=function_train_round(r,1e-9,o.m); double*w=ng_ft(&g,r); judge("round-again",&g,w,r2,1e-9,0,fl+2e-9*nrm2(g.n,w,NULL)*(cs==UKER?100:1)); free(w); function_train_free(r2);
    function_train_free(f);function_train_free(r); free(v); ro_free(&o);
}
/* pure orthogonalisation: same function, right-orthonormal cores */
static void b_orth(void)
{
    int d=2+mc_choose(4,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int pat=mc_choose(NPAT,"pattern"),spec=mc_choose(3,"spectrum"),sc=mc_choose(3,"scale"); if(cs==UKER&&(d>3||FRK[rp][1]>2||FRK[rp][2]>2||pat==PZERO)) mc_skip(); if(d==5&&spec) mc_skip(); if(cs==UCHEB&&spec) mc_skip();
    RT A; make(&A,d,rp,cs,0,pat,spec,sc==1?1e4:sc==2?1e-4:1); mc_note("%s %s",FCS[cs],FPN[pat]); mc_key("%s-%s",FCS[cs],FPN[pat]); NG g; ng_make(&g,&A); RO o; opts(&o,&A); struct FunctionTrain*f=rt_build(&A);
    struct FunctionTrain*r=function_train_orthor(f,o.m); mc_step(); shape("orthor",r,d); for(int k=0;k<=d;k++) mc_expect("orthor-rank",r->ranks[k]<=(size_t)A.r[k],"rank grew");
    double fl=(cs==UKER?1e-6:1e-11)*amp(&A)+(cs==UCHEB?1e-7:3e-12); if(d<5){ double*v=ng_rt(&g,&A),*w=ng_ft(&g,r); for(int q=0;q<g.n;q++) mc_cmp("orthor",w[q],v[q],fl); free(v);free(w); }
    for(int k=1;k<d;k++){ int nr=r->ranks[k],nc=r->ranks[k+1]; for(int i=0;i<nr;i++) for(int j=0;j<nr;j++){ double s=0; for(int c=0;c<nc;c++) for(int q=0;q<g.m[k];q++) s+=g.w[k][q]*generic_function_1d_eval(r->cores[k]->funcs[i+c*nr],g.x[k][q])*generic_function_1d_eval(r->cores[k]->funcs[j+c*nr],g.x[k][q]); mc_cmp("right-orthonormal",s,i==j,cs==UKER?1e-4:cs==UCHEB?1e-6:1e-9); } }
    mc_state(mc_hd(mc_hu(mc_h0(),cs*8+d),function_train_norm2(r))); function_train_free(f);function_train_free(r); ro_free(&o); /* the input is documented as overwritten */
}
/* linear algebra with rounding */
static void b_axpy(void)
{
    int d=1+mc_choose(4,"dim"),cs=(int[]){0,1,3,5,6}[mc_choose(5,"class")],ra=mc_choose(4,"ranks a"),rb=mc_choose(4,"ranks b"); mc_shard(); if(d==4&&!mc_thorough&&(ra+rb)%2) mc_skip(); if(d==1&&(ra||rb)) mc_skip();
    static const int PT[4]={PGEN,PZERO,PDUP,PGEN2}; int pa=PT[mc_choose(4,"pattern a")],pb=PT[mc_choose(4,"pattern b")],ei=mc_choose(5,"eps"),ai=mc_choose(5,"factor"),hist=mc_choose(2,"again"); double a=(double[]){1,-1,0,1e-3,50}[ai];
    RT A,B; make(&A,d,ra,cs,0,pa,1,1); make(&B,d,(int[]){0,1,2,4}[rb],cs,0,pb,2,1); for(int k=1;k<d;k++) if(A.r[k]+B.r[k]>5) mc_skip(); mc_note("%s a=%g",FCS[cs],a); mc_key("%s",FCS[cs]);
    NG g; ng_make(&g,&A); double*va=ng_rt(&g,&A),*vb=ng_rt(&g,&B); RO o; opts(&o,&A); struct FunctionTrain*x=rt_build(&A),*y=rt_build(&B);
    double fl=1e-11*(fabs(a)*amp(&A)+amp(&B))+(cs==UCHEB?1e-7:3e-12),cancel=fabs(a)*nrm2(g.n,va,NULL)+nrm2(g.n,vb,NULL); for(int q=0;q<g.n;q++) vb[q]+=a*va[q];
    if(nrm2(g.n,vb,NULL)<1e-12*cancel&&nrm2(g.n,vb,NULL)>0) mc_skip();   /* exact cancellation: relative error undefined */
    c3axpy(a,x,&y,EPS[ei],o.m); mc_step(); judge("c3axpy",&g,vb,y,EPS[ei],0,fl);
    if(hist){ double*w=ng_ft(&g,y); int ok=1; for(int k=1;k<d;k++) if(y->ranks[k]+A.r[k]>5) ok=0; if(!ok) mc_skip(); for(int q=0;q<g.n;q++) w[q]+=0.5*va[q]; if(nrm2(g.n,w,NULL)<1e-12*cancel&&nrm2(g.n,w,NULL)>0) mc_skip(); c3axpy(0.5,x,&y,EPS[ei],o.m); mc_step(); judge("c3axpy-again",&g,w,y,EPS[ei],0,fl*2); free(w); }
    uint64_t h=mc_hu(mc_h0(),cs*8+d); for(int k=0;k<=d;k++) h=mc_hu(h,y->ranks[k]); mc_state(mc_hd(h,function_train_norm2(y)));
    input_same(x,&A); function_train_free(x);function_train_free(y); free(va);free(vb); ro_free(&o);
}
/* arrays of trains: accumulated error of at most one rounding per operation */
static void b_arr(void)
{
    int d=2+mc_choose(2,"dim"),cs=(int[]){0,3,1}[mc_choose(3,"class")],op=mc_choose(6,"op"); mc_shard(); int n=1+mc_choose(2,"n"),ei=mc_choose(4,"eps"),base=mc_choose(4,"base"),bi=mc_choose(3,"beta"),st=mc_choose(2,"strides"),sx=1+st,sy=2-st; double eps=EPS[ei],al=-1.5,be=(double[]){1,0,-2}[bi]; int prod=op>=2&&op<=4; if(cs!=0&&prod) mc_skip();
    static RT X[4],Y[3],Z[3]; NG g; double*vx[4],*vy[3],*vz[3]; struct FT1DArray*fx=ft1d_array_alloc(4),*fy=ft1d_array_alloc(3),*fz=ft1d_array_alloc(3);
    for(int i=0;i<4;i++){ make(&X[i],d,(base+i)%2?0:(prod?0:1),cs,0,i%3==0?PGEN:i%3==1?PGEN2:PGEN3,1,1+i*0.5); if(i==0) ng_make(&g,&X[0]); vx[i]=ng_rt(&g,&X[i]); fx->ft[i]=rt_build(&X[i]); }
    for(int i=0;i<3;i++){ make(&Y[i],d,prod?1:0,cs,0,i==0?PGEN3:i==1?PGEN:PGEN2,1,2-i*0.75); vy[i]=ng_rt(&g,&Y[i]); fy->ft[i]=rt_build(&Y[i]); make(&Z[i],d,0,cs,0,PGEN2,0,1); vz[i]=ng_rt(&g,&Z[i]); fz->ft[i]=rt_build(&Z[i]); }
    /* unweighted product values: v holds sqrt(w)*f */
    double*sw=malloc(g.n*sizeof(double)),x[FD]; for(int q=0;q<g.n;q++) sw[q]=ng_pt(&g,q,x);
    RO o; opts(&o,&X[0]); double arr[4]={1,-0.5,2,0.25},S=0; double*want[3]; for(int i=0;i<3;i++){ want[i]=malloc(g.n*sizeof(double)); memcpy(want[i],vz[i],g.n*sizeof(double)); } int m=1; struct FT1DArray*res=fz;
    #define ADD(i,c,p,t) { double*_t=malloc(g.n*sizeof(double)); for(int q=0;q<g.n;q++){ _t[q]=(c)*(p)[q]*((t)?(t)[q]/sw[q]:1); want[i][q]+=_t[q]; } S+=nrm2(g.n,_t,NULL); free(_t); }
    double*none=NULL;
    int zi[2]={0,0}; if(op==0) zi[1]=sy; else if(op==4) zi[1]=sx; else if(op==5) zi[1]=sy; m=op==0?n:op>=4?2:1; if(op!=0) for(int i=0;i<m;i++) for(int q=0;q<g.n;q++) want[zi[i]][q]*=be; for(int i=0;i<m;i++) S+=nrm2(g.n,want[zi[i]],NULL);
    if(op==0){ c3vaxpy(n,al,fx,sx,&fz,sy,eps,o.m); for(int i=0;i<n;i++) ADD(i*sy,al,vx[i*sx],none); }
    else if(op==1){ c3vaxpy_arr(n,al,fx,sx,arr,sy,be,&fz->ft[0],eps,o.m); for(int i=0;i<n;i++) ADD(0,al*arr[sy*i],vx[sx*i],none); }
    else if(op==2){ c3vprodsum(n,al,fx,sx,fy,sy,be,&fz->ft[0],eps,o.m); for(int i=0;i<n;i++) ADD(0,al,vx[sx*i],vy[sy*i]); }
    else if(op==3){ c3gemv(al,n,fx,sx,fy->ft[0],be,fz->ft[0],eps,o.m); for(int i=0;i<n;i++) ADD(0,al,vx[sx*i],vy[0]); }
    else if(op==4){ c3vgemv(2,n,al,fx,2,fy,sy,be,&fz,sx,eps,o.m); for(int i=0;i<2;i++) for(int j=0;j<n;j++) ADD(i*sx,al,vx[i+2*j],vy[sy*j]); }
    else { c3vgemv_arr(st,2,n,al,arr,2,fx,sx,be,&fz,sy,eps,o.m); for(int i=0;i<2;i++) for(int j=0;j<n;j++) ADD(i*sy,al*arr[st?2*i+j:i+2*j],vx[sx*j],none); }
    mc_step(); uint64_t h=mc_hu(mc_h0(),op*8+d);
    for(int y=0;y<m;y++){ int i=zi[y]; shape("array",fz->ft[i],d); double*w=ng_ft(&g,fz->ft[i]); mc_cmp("array-error",nrm2(g.n,w,want[i]),0,eps*3*S*(1+eps)+1e-10*S); free(w); h=mc_hd(h,function_train_norm2(fz->ft[i])); for(int k=1;k<d;k++) mc_expect("array-rank",fz->ft[i]->ranks[k]<=5,"rank %zu",fz->ft[i]->ranks[k]); }
    mc_state(h); for(int i=0;i<4;i++) input_same(fx->ft[i],&X[i]); for(int i=0;i<3;i++) input_same(fy->ft[i],&Y[i]); for(int i=0;i<3;i++){ int used=0; for(int y=0;y<m;y++) used|=zi[y]==i; if(!used) input_same(fz->ft[i],&Z[i]); }
    ft1d_array_free(fx);ft1d_array_free(fy);ft1d_array_free(fz); for(int i=0;i<4;i++) free(vx[i]); for(int i=0;i<3;i++){ free(vy[i]);free(vz[i]);free(want[i]); } free(sw); ro_free(&o);
}
/* products and diffusion computed in compressed form */
static void b_dmrg(void)
{
    int d=2+mc_choose(3,"dim"),op=mc_choose(2,"op"),cs=op?3:(int[]){0,3}[mc_choose(2,"class")],ra=mc_choose(4,"ranks a"),rb=mc_choose(4,"ranks b"); mc_shard(); int pat=(int[]){PGEN,PDUP,PONE}[mc_choose(3,"pattern")],start=op?0:mc_choose(3,"start"),spec=mc_choose(2,"spectrum");
    RT A,B,Z; rt_make(&A,d,ra,cs,0,0,pat); rt_make(&B,d,(int[]){0,1,2,4}[rb],cs,0,0,PGEN2); if(cs==0) for(int k=1;k<d;k++) if(A.r[k]*B.r[k]>5) mc_skip(); if(op) for(int k=1;k<d;k++) if(A.r[k]*B.r[k]>4) mc_skip();
    if(cs==3) for(int k=0;k<d;k++){ for(int q=0;q<A.r[k]*A.r[k+1];q++){ A.f[k][q].n=3; A.f[k][q].c[2]=fgen(3,k,q,2); } for(int q=0;q<B.r[k]*B.r[k+1];q++){ B.f[k][q].n=3; B.f[k][q].c[2]=fgen(4,k,q,2); } }
    rt_make(&Z,d,start==1?1:5,cs,0,0,PGEN3); mc_note("%s op%d start%d",FCS[cs],op,start); RT P=A; if(cs==3) for(int k=0;k<d;k++) P.f[k][0].n=5; NG g; ng_make(&g,&P); RO o; opts(&o,&P); if(cs==3) for(int k=0;k<d;k++) ope_opts_set_nparams(o.u[k],8);
    struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*z=start?rt_build(&Z):NULL; double*v;
    if(op==0){ double x[FD]; v=malloc(g.n*sizeof(double)); for(int q=0;q<g.n;q++){ double w=ng_pt(&g,q,x); v[q]=w*rt_eval(&A,x)*rt_eval(&B,x); } }
    else { struct FunctionTrain*e=exact_diffusion(a,b,o.m); v=ng_ft(&g,e); function_train_free(e); }
    struct FunctionTrain*r=op?dmrg_diffusion(a,b,1e-10,6,1e-22,0,o.m):dmrg_product(z,a,b,1e-10,6,1e-22,0,o.m); mc_step(); shape("dmrg",r,d); double*w=ng_ft(&g,r),S=nrm2(g.n,v,NULL); (void)spec;
    mc_cmp(op?"dmrg-diffusion":"dmrg-product",nrm2(g.n,w,v),0,1e-7*(S+1e-3)); uint64_t h=mc_hu(mc_h0(),cs*8+d); for(int k=0;k<=d;k++) h=mc_hu(h,r->ranks[k]); mc_state(mc_hd(h,S));
    tails(&g,v); for(int k=1;k<d;k++){ int mr=minrank(k,1e-17*S*S); mc_expect("dmrg-rank",(int)r->ranks[k]<=mr+0,"rank %d is %zu, exact rank %d",k,r->ranks[k],mr); }
    input_same(a,&A); input_same(b,&B); function_train_free(a);function_train_free(b);function_train_free(r); if(z) function_train_free(z); free(v);free(w); ro_free(&o);
}
/* coefficient truncation of polynomial trains: relative squared error of each univariate function at most the threshold */
static void b_trunc(void)
{
    int d=1+mc_choose(3,"dim"),rp=mc_choose(8,"ranks"); mc_shard(); int spec=mc_choose(3,"decay"),ti=mc_choose(5,"threshold"),pat=(int[]){PGEN,PZERO,PONE,PDELTA}[mc_choose(4,"pattern")]; double th=(double[]){1e-14,1e-6,1e-3,0.1,0.5}[ti];
    RT A; make(&A,d,rp,3,0,pat,0,1); double dec=(double[]){1,0.1,1e-3}[spec]; for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++){ double s=1; for(int i=0;i<5;i++){ A.f[k][q].c[i]*=s; s*=dec; } }
    struct FunctionTrain*f=rt_build(&A); function_train_truncate(f,th); mc_step(); shape("truncate",f,d); uint64_t h=mc_h0();
    const double*X=u_gl(0),*W=u_gl(1); for(int k=0;k<d;k++) for(int q=0;q<A.r[k]*A.r[k+1];q++){ RF*u=&A.f[k][q]; double e=0,s=0; for(int i=0;i<40;i++){ double x=u->lb+(X[i]+1)/2*(u->ub-u->lb),v=ueval(u,x),t=generic_function_1d_eval(f->cores[k]->funcs[q],x)-v; e+=W[i]*t*t; s+=W[i]*v*v; } h=mc_hd(h,e); mc_cmp("truncate-error",e>th*s?e:0,0,(s<=th?s:th*s)*(1+1e-9)+1e-24); }
    mc_state(h); function_train_free(f);
}
/* larger trains: the rounded train is read back function by function, distances are computed by the reference */
static void bt_read(BT*r,const struct FunctionTrain*f,const BT*like)
{
    r->d=like->d; for(int k=0;k<=r->d;k++) r->r[k]=f->ranks[k];
    for(int k=0;k<r->d;k++){ int sz=r->r[k]*r->r[k+1]; r->cls[k]=like->cls[k]; r->n[k]=like->n[k]; r->f[k]=malloc(sz*sizeof(RF)); for(int q=0;q<sz;q++){ RF*u=&r->f[k][q]; *u=like->f[k][0]; struct GenericFunction*g=f->cores[k]->funcs[q];
        if(u->cls<=UCONST) for(int i=0;i<u->n;i++) u->c[i]=generic_function_1d_eval(g,u->x[i]);
        else { const double*X=u_gl(0),*W=u_gl(1); double v[40]; for(int p=0;p<40;p++) v[p]=generic_function_1d_eval(g,u->lb+(X[p]+1)/2*(u->ub-u->lb)); for(int i=0;i<u->n;i++){ double p0=0,p1=1; u->c[i]=0; for(int p=0;p<40;p++){ p0=0;p1=1; for(int k2=0;k2<i;k2++){ double t=((2*k2+1)*X[p]*p1-k2*p0)/(k2+1); p0=p1; p1=t; } u->c[i]+=W[p]*v[p]*p1*sqrt(2*i+1.0); } } } } }
}
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=(int[]){0,1,3}[mc_choose(3,"class")],op=mc_choose(5,"op"); mc_shard(); int ei=mc_choose(3,"eps"); double eps=(double[]){1e-6,1e-3,0.1}[ei]; if(op==2&&ei) mc_skip();
    BT A; bt_make(&A,sh,cs,0); int d=A.d; for(int k=0;k<d-1;k++) for(int j=0;j<A.r[k+1];j++) for(int i=0;i<A.r[k];i++) uscale(pow(0.25,j),&A.f[k][i+j*A.r[k]]);
    struct FunctionTrain*f=bt_build(&A),*r=NULL,*s=NULL; BO o; bo_make(&o,&A); double fac=1; int mr=1; for(int k=1;k<d;k++) if(A.r[k]>mr) mr=A.r[k];
    if(op==0) r=function_train_round(f,eps,o.m); else if(op==1||op==3){ s=function_train_copy(f); function_train_scale(s,-0.5); struct FunctionTrain*t=function_train_sum(f,s); fac=0.5; r=op==1?function_train_round(t,eps,o.m):function_train_round_maxrank_all(t,eps,o.m,mr); function_train_free(t); }
    else if(op==2){ s=function_train_copy(f); r=function_train_orthor(s,o.m); eps=0; } else { r=function_train_copy(f); c3axpy(-0.75,f,&r,eps,o.m); fac=0.25; }
    mc_step(); shape("big",r,d); for(int k=1;k<d;k++) mc_expect("big-rank",(int)r->ranks[k]<=A.r[k]&&r->ranks[k]>=1,"rank %d is %zu, the function has rank at most %d",k,r->ranks[k],A.r[k]);
    BT R; bt_read(&R,r,&A); double aa=bt_inner(&A,&A),rr=bt_inner(&R,&R),ar=bt_inner(&A,&R),e2=fac*fac*aa+rr-2*fac*ar,n2=fac*fac*aa; mc_cmp("big-error",e2>eps*eps*n2?e2:0,0,eps*eps*n2*(1+1e-9)+1e-13*(fac*fac*aa+rr)); uint64_t h=mc_hu(mc_h0(),sh*8+cs); for(int k=0;k<=d;k++) h=mc_hu(h,r->ranks[k]); mc_state(mc_hd(h,rr));
    int full=1; for(int k=1;k<d;k++) if(A.r[k]>A.n[k]*A.r[k+1]) full=0; /* otherwise the rows cannot be independent */
    if(op==2&&full) for(int k=1;k<d;k++) for(int i=0;i<R.r[k];i++) for(int j=0;j<R.r[k];j++){ double v=0; for(int c=0;c<R.r[k+1];c++) v+=u_inner(&R.f[k][i+c*R.r[k]],&R.f[k][j+c*R.r[k]]); mc_cmp("big-orthonormal",v,i==j,1e-9); }
    bt_check("big-input",f,&A,4,1e-13); function_train_free(f);function_train_free(r); if(s) function_train_free(s); bt_free(&A); bt_free(&R); bo_free(&o);
}
/* rounding is homogeneous: multiplying cores by powers of two changes neither the ranks nor the relative result */
static void b_scaled(void)
{
    int d=1+mc_choose(4,"dim"),cs=(int[]){0,1,3,6}[mc_choose(4,"class")],rp=mc_choose(8,"ranks"); mc_shard(); int spec=mc_choose(2,"spectrum"),how=(int[]){0,1,3}[mc_choose(3,"how")],e=(int[]){-27,-20,-10,10,24,40}[mc_choose(6,"exponent")],ei=mc_choose(3,"eps"),op=mc_choose(4,"op"); if(d==1&&(rp||how||spec)) mc_skip(); if(cs>1&&(e<0||how==3)) mc_skip(); if(op==2&&(ei||d==1)) mc_skip(); double eps=(double[]){1e-8,1e-3,0.2}[ei];
    static RT A,S; make(&A,d,rp,cs,0,PGEN,spec,1); S=A; int z=rt_pow2(&S,how,e); if(d==1) z=e; RO o; opts(&o,&A); NG g; ng_make(&g,&A); struct FunctionTrain*f=rt_build(&A),*h=rt_build(&S),*r,*q; mc_note("%s ",FCS[cs]); mc_key("%s",FCS[cs]);
    if(op==0){ r=function_train_round(f,eps,o.m); q=function_train_round(h,eps,o.m); } else if(op==1){ r=function_train_round_maxrank_all(f,eps,o.m,2); q=function_train_round_maxrank_all(h,eps,o.m,2); }
    else if(op==2){ r=function_train_orthor(f,o.m); q=function_train_orthor(h,o.m); f=h=NULL; }
    else { RT B; make(&B,d,(rp+3)%8,cs,0,PGEN2,spec,1); for(int k=1;k<d;k++) if(A.r[k]+B.r[k]>5) mc_skip(); r=rt_build(&B); rt_pow2(&B,how,e); q=rt_build(&B); c3axpy(-0.625,f,&r,eps,o.m); c3axpy(-0.625,h,&q,eps,o.m); }
    mc_steps(2); shape("scaled",q,d); uint64_t hh=mc_hu(mc_h0(),cs*8+d); for(int k=0;k<=d;k++){ mc_expect("scaled-rank",r->ranks[k]==q->ranks[k],"rank %d is %zu, %zu for the same function times 2^%d",k,r->ranks[k],q->ranks[k],z); hh=mc_hu(hh,q->ranks[k]); }
    double*v=ng_ft(&g,r),*w=ng_ft(&g,q); for(int i=0;i<g.n;i++) w[i]=ldexp(w[i],-z); mc_cmp("scaled-value",nrm2(g.n,v,w),0,1e-9*amp(&A)+1e-13); mc_state(mc_hd(hh,v[0]));
    if(f){ input_same(f,&A); double x[FD]; for(int p=0;p<4;p++){ for(int k=0;k<d;k++) x[k]=g.x[k][(p+k)%g.m[k]]; mc_cmp("scaled-input",ldexp(function_train_eval(h,x),-z),rt_eval(&A,x),1e-12*amp(&A)+1e-13); } function_train_free(f); function_train_free(h); }
    free(v);free(w); function_train_free(r);function_train_free(q); ro_free(&o);
}
/* squared singular values of every unfolding of a reference train, from the Gram matrices of its two interfaces */
static void jacobi(int n,double*a,double*w){ for(int it=0;it<60;it++){ double off=0,dg=0; for(int i=0;i<n;i++){ dg+=fabs(a[i+i*n]); for(int j=0;j<i;j++) off+=fabs(a[i+j*n]); } if(off<=1e-17*dg) break; for(int p=0;p<n;p++) for(int q=p+1;q<n;q++){ if(a[p+q*n]==0) continue; double th=(a[q+q*n]-a[p+p*n])/(2*a[p+q*n]),t=(th>=0?1:-1)/(fabs(th)+sqrt(th*th+1)),c=1/sqrt(t*t+1),sn=t*c; for(int k=0;k<n;k++){ double x=a[k+p*n],y=a[k+q*n]; a[k+p*n]=c*x-sn*y; a[k+q*n]=sn*x+c*y; } for(int k=0;k<n;k++){ double x=a[p+k*n],y=a[q+k*n]; a[p+k*n]=c*x-sn*y; a[q+k*n]=sn*x+c*y; } } } for(int i=0;i<n;i++) w[i]=a[i+i*n]; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(w[j]>w[i]){ double t=w[i]; w[i]=w[j]; w[j]=t; } }
static void bt_gram(const BT*A,int k0,int right,double*g) /* Gram of the left (cores < k0) or right (cores >= k0) interface */
{ double*a=calloc(BR*BR,8),*b=calloc(BR*BR,8); a[0]=1; if(!right) for(int k=0;k<k0;k++){ int r=A->r[k],s=A->r[k+1]; memset(b,0,BR*BR*8); for(int i=0;i<r;i++) for(int m=0;m<r;m++) for(int j=0;j<s;j++) for(int l=0;l<s;l++) b[j*BR+l]+=a[i*BR+m]*u_inner(&A->f[k][i+j*r],&A->f[k][m+l*r]); double*t=a;a=b;b=t; }
  else for(int k=A->d-1;k>=k0;k--){ int r=A->r[k],s=A->r[k+1]; memset(b,0,BR*BR*8); for(int i=0;i<r;i++) for(int m=0;m<r;m++) for(int j=0;j<s;j++) for(int l=0;l<s;l++) b[i*BR+m]+=a[j*BR+l]*u_inner(&A->f[k][i+j*r],&A->f[k][m+l*r]); double*t=a;a=b;b=t; }
  int n=A->r[k0]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) g[i+j*n]=a[i*BR+j]; free(a);free(b); }
static void bt_sv2(const BT*A,int k0,double*w){ int n=A->r[k0]; double*L=calloc(n*n,8),*G=malloc(n*n*8),*M=calloc(n*n,8); bt_gram(A,k0,0,G); double tr=0; for(int i=0;i<n;i++) tr+=G[i+i*n]; for(int j=0;j<n;j++){ double v=G[j+j*n]; for(int k=0;k<j;k++) v-=L[j+k*n]*L[j+k*n]; if(v<=1e-15*tr) continue; L[j+j*n]=sqrt(v); for(int i=j+1;i<n;i++){ double t=G[i+j*n]; for(int k=0;k<j;k++) t-=L[i+k*n]*L[j+k*n]; L[i+j*n]=t/L[j+j*n]; } }
  bt_gram(A,k0,1,G); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double t=0; for(int p=0;p<n;p++) for(int q=0;q<n;q++) t+=L[p+i*n]*G[p+q*n]*L[q+j*n]; M[i+j*n]=t; } for(int i=0;i<n;i++) for(int j=0;j<i;j++) M[i+j*n]=M[j+i*n]=(M[i+j*n]+M[j+i*n])/2; jacobi(n,M,w); free(L);free(G);free(M); }
/* rank-capped and plain rounding of larger trains against the singular values of the unfoldings */
static void b_bigcap(void)
{
    int sh=(int[]){0,2,3,4,7,8}[mc_choose(6,"shape")],cs=(int[]){0,1,3}[mc_choose(3,"class")]; mc_shard(); int cap=(int[]){0,1,3,5,8}[mc_choose(5,"cap")],var=mc_choose(2,"values"),dec=mc_choose(2,"decay"); double eps=(double[]){1e-9,1e-4,0.05}[mc_choose(3,"eps")];
    BT A; bt_make(&A,sh,cs,var); int d=A.d; for(int k=0;k<d-1;k++) for(int j=0;j<A.r[k+1];j++) for(int i=0;i<A.r[k];i++) uscale(pow(dec?0.6:0.2,j),&A.f[k][i+j*A.r[k]]);
    struct FunctionTrain*f=bt_build(&A); BO o; bo_make(&o,&A); struct FunctionTrain*r=cap?function_train_round_maxrank_all(f,eps,o.m,cap):function_train_round(f,eps,o.m); mc_step(); shape("bigcap",r,d);
    double aa=bt_inner(&A,&A),bound=0,low=0,w[BR],d2=eps*eps*aa/(d-1); int capped=0; uint64_t h=mc_hu(mc_h0(),sh*8+cs);
    for(int k=1;k<d;k++){ bt_sv2(&A,k,w); int n=A.r[k]; double tail=0,tc=0; int mr=n; for(int q=n-1;q>=0;q--){ if(w[q]<0) w[q]=0; tail+=w[q]; if(tail<d2*(1-1e-6)-1e-14*aa&&q>0) mr=q; if(cap&&q>=cap) tc=tail; } double tr_=0; for(int q=n-1;q>=(int)r->ranks[k];q--) tr_+=w[q]; bound+=fmax(tc,d2); low=fmax(low,tr_); if(cap&&mr>=cap) capped=1; int lim=cap&&cap<mr?cap:mr; mc_expect("bigcap-rank",(int)r->ranks[k]<=lim&&r->ranks[k]>=1,"rank %d is %zu, at most %d needed",k,r->ranks[k],lim); h=mc_hu(h,r->ranks[k]); }
    BT R; bt_read(&R,r,&A); double rr=bt_inner(&R,&R),ar=bt_inner(&A,&R),e2=aa+rr-2*ar; mc_cmp("bigcap-error",e2>bound?e2-bound:0,0,1e-7*bound+1e-13*aa); mc_cmp("bigcap-optimal",e2<low?low-e2:0,0,1e-6*low+1e-13*aa); if(!capped) mc_cmp("bigcap-eps",e2>eps*eps*aa?e2:0,0,eps*eps*aa*(1+1e-7)+1e-13*aa); mc_state(mc_hd(h,rr));
    bt_check("bigcap-input",f,&A,4,1e-13); function_train_free(f);function_train_free(r); bt_free(&A);bt_free(&R); bo_free(&o);
}
/* alternating minimal energy product in more variables */
static void b_bigdmrg(void)
{
    static const struct { int d,a[8],b[8]; } S[7]={ {5,{1,2,3,2,2,1},{1,2,2,3,1,1}},{6,{1,2,2,2,2,2,1},{1,2,2,1,2,2,1}},{7,{1,2,2,1,2,2,2,1},{1,1,2,2,1,2,1,1}},{2,{1,4,1},{1,2,1}},{3,{1,3,3,1},{1,2,3,1}},{6,{1,2,2,4,2,2,1},{1,1,2,2,2,1,1}},{7,{1,2,2,2,4,2,2,1},{1,1,2,4,2,2,1,1}} }; /* the last two: two nodes per variable, ranks that one sweep from rank one cannot reach */
    int z=mc_choose(7,"shape"),cs=mc_choose(2,"class")?3:0; mc_shard(); int var=mc_choose(2,"values"),start=mc_choose(3,"start"); int d=S[z].d; if(z>4&&cs==3) mc_skip(); BT A,B,Z; BT*T[3]={&A,&B,&Z};
    for(int t=0;t<3;t++){ T[t]->d=d; for(int k=0;k<=d;k++) T[t]->r[k]=t==0?S[z].a[k]:t==1?S[z].b[k]:start==2||k==0||k==d?1:1+k%2; for(int k=0;k<d;k++){ int sz=T[t]->r[k]*T[t]->r[k+1]; T[t]->cls[k]=cs; T[t]->f[k]=malloc(sizeof(RF)*sz); for(int q=0;q<sz;q++){ RF*f=&T[t]->f[k][q]; bgrid(f,cs==3?ULEG:ULIN,k%3,z>4?2:cs==3?3:11,0); for(int c=0;c<f->n;c++) f->c[c]=fgen(60+t+3*var,k*16+q,c,z)+(c==0&&q==0?1.5:0); } T[t]->n[k]=T[t]->f[k][0].n; } }
    BO o; bo_make(&o,&A); if(cs==3) for(int k=0;k<d;k++) ope_opts_set_nparams(o.u[k],8); struct FunctionTrain*a=bt_build(&A),*b=bt_build(&B),*zz=start?bt_build(&Z):NULL,*r=dmrg_product(zz,a,b,1e-10,6,1e-22,0,o.m); mc_step(); shape("bigdmrg",r,d); for(int k=1;k<d;k++) mc_expect("bigdmrg-rank",(int)r->ranks[k]<=A.r[k]*B.r[k],"rank %d is %zu, product has %d",k,r->ranks[k],A.r[k]*B.r[k]);
    double x[BD],sc,m=0,e2=0; uint64_t h=mc_hu(mc_h0(),z); for(int e=0;e<60;e++){ for(int k=0;k<d;k++){ RF*f=&A.f[k][0]; x[k]=cs==0?f->x[(e*(k+3)+k+e/7)%f->n]:umap(UPT[(e*5+k*7+e/9)%UNP],f->lb,f->ub); } double w=bt_eval(&A,x,&sc)*bt_eval(&B,x,&sc),v=function_train_eval(r,x); m=fmax(m,fabs(w)); e2=fmax(e2,fabs(v-w)); h=mc_hd(h,w); } mc_cmp("bigdmrg",e2,0,1e-6*m); mc_state(h);
    bt_check("bigdmrg-input",a,&A,4,1e-12); bt_check("bigdmrg-input",b,&B,4,1e-12); function_train_free(a);function_train_free(b);function_train_free(r); if(zz) function_train_free(zz); bo_free(&o); for(int t=0;t<3;t++) bt_free(T[t]);
}
const mc_driver mc_drivers[]={{"scaled",b_scaled,1,3},{"round",b_round,1,3},{"orth",b_orth,1,3},{"axpy",b_axpy,1,3},{"array",b_arr,1,3},{"dmrg",b_dmrg,1,3},{"truncate",b_trunc,1,3},{"big",b_big,1,3},{"bigcap",b_bigcap,1,3},{"bigdmrg",b_bigdmrg,1,3},{0}};
