/* Larger reference trains (more variables, ranks and nodes than the exhaustively combined ones): a fixed list of shapes,
 * every class, heap-allocated. Included after ftm.h, ucal.h. */
#ifndef BIG_H
#define BIG_H
#include "ftm.h"
#include "ucal.h"
#include "udiff.h"
#define BD 12
#define BR 40
typedef struct { int d,r[BD+1],cls[BD],n[BD]; RF*f[BD]; } BT;
#define BNS 9
static const struct { int d,r[BD+1],n; } BSH[BNS]={ {2,{1,12,1},14},{10,{1,2,2,2,2,2,2,2,2,2,1},4},{6,{1,4,6,7,6,3,1},5},{3,{1,8,11,1},12},{7,{1,2,5,1,3,4,2,1},3},{2,{1,2,1},55},{8,{1,1,1,1,1,1,1,1,1},6},{4,{1,9,9,9,1},6},{12,{1,2,3,2,1,2,3,2,1,2,3,2,1},2} };
static int bcls(int cs,int k){ static const int mix[3]={ULIN,ULEG,UCONST}; return cs==6?mix[k%3]:cs; }
static void bgrid(RF*f,int cls,int dom,int n,int var)
{
    memset(f,0,sizeof *f); f->cls=cls; f->lb=UDOM[dom][0]; f->ub=UDOM[dom][1]; if(cls==UHERM){ f->lb=-1; f->ub=1; } f->n=n;
    if(cls==UKER){ if(n>9) f->n=n=9; f->w=1.5*(f->ub-f->lb)/n; }
    if(cls>=ULEG&&n>16) f->n=n=16;
    if(cls<=UKER) for(int i=0;i<n;i++) f->x[i]=umap(i==0?-1:i==n-1?1:-1+(2*i+0.5*fgen(71+var,i,n,0))/(n-1),f->lb,f->ub);
}
static void bt_make(BT*t,int sh,int cs,int var)   /* var: different values; 4+: also another grid / number of coefficients */
{
    t->d=BSH[sh].d; for(int k=0;k<=t->d;k++) t->r[k]=BSH[sh].r[k];
    for(int k=0;k<t->d;k++){ int sz=t->r[k]*t->r[k+1]; t->cls[k]=bcls(cs,k); t->f[k]=malloc(sz*sizeof(RF)); int n=BSH[sh].n; if(var>=4) n=n>20?6:n>5?n-3:n+1; if(t->cls[k]>=ULEG&&n>3&&t->d>3) n=3;
        for(int q=0;q<sz;q++){ RF*f=&t->f[k][q]; bgrid(f,t->cls[k],(k+1)%3,n,var>=4); double s=1.0/sqrt(t->r[k]); for(int i=0;i<f->n;i++) f->c[i]=s*fgen(80+var,k*400+q,i,sh)/(f->cls>=ULEG?1+i:1); } t->n[k]=t->f[k][0].n; }
}
static void bt_free(BT*t){ for(int k=0;k<t->d;k++) free(t->f[k]); }
static struct FunctionTrain*bt_build(BT*t){ struct FunctionTrain*ft=function_train_alloc(t->d); for(int k=0;k<=t->d;k++) ft->ranks[k]=t->r[k]; for(int k=0;k<t->d;k++){ ft->cores[k]=qmarray_alloc(t->r[k],t->r[k+1]); for(int q=0;q<t->r[k]*t->r[k+1];q++) ft->cores[k]->funcs[q]=ubuild(&t->f[k][q]); } return ft; }
/* op per variable: 0 value, 1 derivative function, 2 second derivative function, 3 pointwise derivative, 4 integral; *sc: magnitude without cancellation */
static double bt_op(const BT*t,const double*x,const int*op,double*sc)
{
    double a[BR],b[BR],A[BR],B[BR]; a[0]=A[0]=1;
    for(int k=0;k<t->d;k++){ for(int j=0;j<t->r[k+1];j++){ b[j]=B[j]=0; for(int i=0;i<t->r[k];i++){ const RF*f=&t->f[k][i+j*t->r[k]]; int o=op?op[k]:0; double v=o==0?ueval(f,x[k]):o==1?uop(f,x[k],1):o==2?uop(f,x[k],2):o==3?udpt(f,x[k]):u_integ(f); b[j]+=a[i]*v;
        if(sc){ double m=0,L=f->ub-f->lb; for(int q=0;q<f->n;q++) m+=fabs(f->c[q])*(f->cls>=ULEG?1+q:1)*(f->cls==UHERM?4:1); if(o==1||o==3) m*=f->n*f->n*2/L+2; if(o==2) m*=f->n*f->n*f->n*f->n*4/(L*L)+4; if(o==4) m*=L+1; B[j]+=A[i]*m; } } } memcpy(a,b,sizeof a); memcpy(A,B,sizeof A); }
    if(sc) *sc=A[0]; return a[0];
}
static double bt_eval(const BT*t,const double*x,double*sc){ return bt_op(t,x,NULL,sc); }
static double bt_inner(const BT*A,const BT*B)
{
    double*a=malloc(sizeof(double)*BR*BR),*b=malloc(sizeof(double)*BR*BR); a[0]=1;
    for(int k=0;k<A->d;k++){ int ra=A->r[k],rb=B->r[k],sa=A->r[k+1],sb=B->r[k+1]; for(int j=0;j<sa;j++) for(int l=0;l<sb;l++) b[j*BR+l]=0;
        for(int i=0;i<ra;i++) for(int m=0;m<rb;m++) for(int j=0;j<sa;j++) for(int l=0;l<sb;l++) b[j*BR+l]+=a[i*BR+m]*u_inner(&A->f[k][i+j*ra],&B->f[k][m+l*rb]);
        double*s=a; a=b; b=s; }
    double v=a[0]; free(a); free(b); return v;
}
static double bt_amp(const BT*A){ double s=1; for(int k=0;k<A->d;k++){ double m=0; for(int q=0;q<A->r[k]*A->r[k+1];q++) m+=fabs(u_inner(&A->f[k][q],&A->f[k][q])); s*=sqrt(m); } return s; }
/* points 0..: interior off-node points and, for every third, nodes */
static void bt_pt(const BT*t,int e,double*x){ for(int k=0;k<t->d;k++){ const RF*f=&t->f[k][0]; if(e%3==2&&f->cls<UKER) x[k]=f->x[(e*(k+3)+k)%f->n]; else x[k]=umap(e==0?-1:e==1?1:UPT[(e*5+k*7)%UNP],f->lb,f->ub); } }
static void bt_check(const char*site,struct FunctionTrain*f,const BT*t,int np,double tol){ double x[BD],sc; mc_expect(site,f&&f->dim==(size_t)t->d,"no train of the right dimension"); for(int e=0;e<np;e++){ bt_pt(t,e,x); double w=bt_eval(t,x,&sc); mc_cmp(site,function_train_eval(f,x),w,tol*sc+1e-300); } }
/* approximation options */
typedef struct { struct MultiApproxOpts*m; struct OneApproxOpts*o[BD]; void*u[BD]; int cls[BD],d; } BO;
static void bo_make(BO*o,BT*t){ o->d=t->d; o->m=multi_approx_opts_alloc(t->d); for(int k=0;k<t->d;k++){ o->cls[k]=t->cls[k]; o->u[k]=uopts(&t->f[k][0]); o->o[k]=one_approx_opts_alloc(UFC[o->cls[k]],o->u[k]); multi_approx_opts_set_dim(o->m,k,o->o[k]); } }
static void bo_free(BO*o){ for(int k=0;k<o->d;k++){ uopts_free(o->cls[k],o->u[k]); one_approx_opts_free(o->o[k]); } multi_approx_opts_free(o->m); }
#endif
