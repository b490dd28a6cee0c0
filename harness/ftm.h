/* Reference model of function trains: (1) RT, a train of reference univariate functions (independent of the
 * library), (2) FM, the represented multivariate function itself as a tensor of values on sample points that
 * determine it (nodes for LINELM/CONSTELM, interpolation points for polynomials). */
#ifndef FTM_H
#define FTM_H
#include "uni.h"
#include "lib_clinalg.h"
#include "ft.h"
#define FD 5
#define FR 6
#define FNP 12
typedef struct { int d,r[FD+1]; RF f[FD][FR*FR]; } RT;           /* f[k][i+j*r[k]] */
typedef struct { int d,cls[FD],m[FD]; double lb[FD],ub[FD],x[FD][FNP]; double *v; int n; } FM;

static double fgen(unsigned a,unsigned b,unsigned c,unsigned e)  /* fixed table of generic values in +-[0.3,1.3], multiples of 1/64 */
{
    unsigned h=a*2654435761u^(b+1)*2246822519u^(c+1)*3266489917u^(e+1)*668265263u; h^=h>>15;h*=2246822519u;h^=h>>13;h*=3266489917u;h^=h>>16;
    double v=0.3125+(h%64)/64.0; return (h>>8)&1?v:-v;
}
/* grid sets: which sub-grid / how many coefficients in each dimension */
static int fmask(int gs,int k){ static const int t[4][FD]={{7,7,7,7,7},{5,3,7,6,1},{2,7,1,5,4},{0,0,0,0,0}}; return t[gs][k]; }
static int fdom(int ds,int k){ return ds==0?k%3:0; }
/* class sets: 0 linelm 1 constelm 2 kernel 3 legendre 4 chebyshev 5 hermite 6 mixed linelm/legendre/constelm */
static int fcls(int cs,int k){ static const int mix[FD]={ULIN,ULEG,UCONST,ULIN,ULEG}; return cs==6?mix[k]:cs; }
static const char*FCS[]={"linelm","constelm","kernel","legendre","chebyshev","hermite","mixed"};
/* rank profiles */
static const int FRK[8][FD+1]={{1,1,1,1,1,1},{1,2,2,2,2,1},{1,2,1,3,2,1},{1,3,2,1,2,1},{1,1,2,3,1,1},{1,3,3,2,3,1},{1,2,3,2,1,1},{1,3,1,2,3,1}};
static void rt_ranks(RT*t,int d,int rp){ t->d=d; for(int k=0;k<=d;k++) t->r[k]=(k==0||k==d)?1:FRK[rp][k]; }
/* coefficient patterns */
enum { PGEN, PGEN2, PZERO, PZROW, PDUP, PDELTA, PGEN3, PONE, NPAT };
static const char*FPN[]={"generic","generic2","zero","zero-row","rank-deficient","delta","generic3","constant-leading"};
static void rt_make(RT*t,int d,int rp,int cs,int gs,int ds,int pat)
{
    rt_ranks(t,d,rp);
    for(int k=0;k<d;k++) for(int j=0;j<t->r[k+1];j++) for(int i=0;i<t->r[k];i++){
        RF*f=&t->f[k][i+j*t->r[k]]; ugrid(f,fcls(cs,k),fdom(ds,k),fmask(gs,k));
        if(f->cls>=ULEG) f->n=2+(gs+k)%2;
        int jj=j; if(pat==PDUP&&k<d-1) jj=0;
        for(int q=0;q<f->n;q++){ double v=fgen(pat==PGEN2?77:pat==PGEN3?1234:5,k*16+i*4+jj,q,d);
            if(pat==PZERO) v=0; if(pat==PZROW&&k==d/2&&i==0) v=0;
            if(pat==PDELTA) v=(q==(i+j+k)%f->n);
            if(pat==PONE&&i==0&&j==0&&f->cls!=UKER) v=(q==0||f->cls==ULIN||f->cls==UCONST)?0.75:0;
            f->c[q]=v; }
    }
}
static void rt_row(const RT*t,const double*x,double*row){ double a[FR],b[FR]; a[0]=1; for(int k=0;k<t->d;k++){ for(int j=0;j<t->r[k+1];j++){ b[j]=0; for(int i=0;i<t->r[k];i++) b[j]+=a[i]*ueval(&t->f[k][i+j*t->r[k]],x[k]); } memcpy(a,b,sizeof a);} *row=a[0]; }
static double rt_eval(const RT*t,const double*x){ double v; rt_row(t,x,&v); return v; }
static struct FunctionTrain *rt_build(RT*t)
{
    struct FunctionTrain*ft=function_train_alloc(t->d);
    for(int k=0;k<=t->d;k++) ft->ranks[k]=t->r[k];
    for(int k=0;k<t->d;k++){ ft->cores[k]=qmarray_alloc(t->r[k],t->r[k+1]); for(int q=0;q<t->r[k]*t->r[k+1];q++) ft->cores[k]->funcs[q]=ubuild(&t->f[k][q]); }
    return ft;
}
/* approximation options for the first function of every core */
typedef struct { struct MultiApproxOpts*m; struct OneApproxOpts*o[FD]; void*u[FD]; int cls[FD]; RF f[FD]; int d; } RO;
static void ro_make(RO*o,int d,int cs,int gs,int ds)
{
    o->d=d; o->m=multi_approx_opts_alloc(d);
    for(int k=0;k<d;k++){ ugrid(&o->f[k],fcls(cs,k),fdom(ds,k),fmask(gs,k)); if(o->f[k].cls>=ULEG) o->f[k].n=2+(gs+k)%2; o->cls[k]=o->f[k].cls; o->u[k]=uopts(&o->f[k]); o->o[k]=one_approx_opts_alloc(UFC[o->cls[k]],o->u[k]); multi_approx_opts_set_dim(o->m,k,o->o[k]); }
}
static void ro_free(RO*o){ for(int k=0;k<o->d;k++){ uopts_free(o->cls[k],o->u[k]); one_approx_opts_free(o->o[k]); } multi_approx_opts_free(o->m); }

/* ---- FM ---- */
static void fm_frame(FM*m,int d,int cs,int ds)  /* LIN/CONST: master nodes; others: 7 points */
{
    static const double P[7]={-0.97,-0.71,-0.31,0.02,0.36,0.71,0.93};
    m->d=d; m->n=1;
    for(int k=0;k<d;k++){ m->cls[k]=fcls(cs,k); int D=fdom(ds,k); m->lb[k]=UDOM[D][0]; m->ub[k]=UDOM[D][1]; if(m->cls[k]==UHERM){m->lb[k]=-1;m->ub[k]=1;}
        if(m->cls[k]==ULIN||m->cls[k]==UCONST){ m->m[k]=UNM; for(int i=0;i<UNM;i++) m->x[k][i]=umap(UMN[i],m->lb[k],m->ub[k]); }
        else { m->m[k]=7; for(int i=0;i<7;i++) m->x[k][i]=umap(P[i],m->lb[k],m->ub[k]); }
        m->n*=m->m[k]; }
    m->v=calloc(m->n,sizeof(double));
}
static void fm_nodes(FM*m,const RT*t) /* restrict the frame to the nodes of t (LIN/CONST common grids) */
{
    m->n=1; for(int k=0;k<m->d;k++){ if(m->cls[k]==ULIN||m->cls[k]==UCONST){ m->m[k]=t->f[k][0].n; memcpy(m->x[k],t->f[k][0].x,sizeof(double)*m->m[k]); } m->n*=m->m[k]; }
}
static void fm_pt(const FM*m,int q,double*x){ for(int k=0;k<m->d;k++){ x[k]=m->x[k][q%m->m[k]]; q/=m->m[k]; } }
static void fm_fill(FM*m,const RT*t){ double x[FD]; for(int q=0;q<m->n;q++){ fm_pt(m,q,x); m->v[q]=rt_eval(t,x);} }
static FM fm_like(const FM*a){ FM r=*a; r.v=malloc(sizeof(double)*a->n); memcpy(r.v,a->v,sizeof(double)*a->n); return r; }
static double fm_max(const FM*m){ double s=0; for(int q=0;q<m->n;q++) if(fabs(m->v[q])>s) s=fabs(m->v[q]); return s; }
/* one-dimensional interpolation weights at x */
static void fm_w(const FM*m,int k,double x,double*w)
{
    int n=m->m[k]; const double*p=m->x[k]; for(int i=0;i<n;i++) w[i]=0;
    if(m->cls[k]==ULIN||m->cls[k]==UCONST){ if(x<p[0]||x>p[n-1]) return; int i=0; while(i<n-2&&x>=p[i+1]) i++; double s=(x-p[i])/(p[i+1]-p[i]);
        if(m->cls[k]==ULIN){ w[i]=1-s; w[i+1]=s; } else if(x-p[i]<p[i+1]-x) w[i]=1; else w[i+1]=1; return; }
    for(int i=0;i<n;i++){ double l=1; for(int j=0;j<n;j++) if(j!=i) l*=(x-p[j])/(p[i]-p[j]); w[i]=l; }
}
static double fm_eval(const FM*m,const double*x)
{
    double w[FD][FNP]; for(int k=0;k<m->d;k++) fm_w(m,k,x[k],w[k]);
    double s=0; for(int q=0;q<m->n;q++){ int r=q; double p=m->v[q]; for(int k=0;k<m->d&&p!=0;k++){ p*=w[k][r%m->m[k]]; r/=m->m[k]; } s+=p; } return s;
}
/* contract with one weight vector per dimension */
static double fm_dot(const FM*m,double w[FD][FNP]){ double s=0; for(int q=0;q<m->n;q++){ int r=q; double p=m->v[q]; for(int k=0;k<m->d;k++){ p*=w[k][r%m->m[k]]; r/=m->m[k]; } s+=p; } return s; }
/* extra points: off-node interior points, per-coordinate boundaries */
static const double FXP[6][FD]={{-0.93,0.19,0.53,-0.16,0.71},{0.36,-0.71,-0.31,0.93,0.02},{-1,1,-1,1,-1},{1,-1,0.62,-0.55,1},{1,1,1,1,1},{-0.31,0.97,-0.5,0.3,-0.93}};
static int fm_off(const FM*m){ for(int k=0;k<m->d;k++) if(m->cls[k]==UKER) return 0; return 1; }
/* compare the train with the model at every sample point and the extra points */
static void fm_check(const char*site,struct FunctionTrain*ft,const FM*m,double rtol)
{
    mc_expect(site,ft!=NULL,"NULL train"); mc_expect(site,ft->dim==(size_t)m->d,"dimension %zu",ft->dim);
    mc_expect(site,ft->ranks[0]==1&&ft->ranks[m->d]==1,"outer ranks %zu %zu",ft->ranks[0],ft->ranks[m->d]);
    for(int k=0;k<m->d;k++) mc_expect(site,ft->cores[k]!=NULL&&ft->cores[k]->nrows==ft->ranks[k]&&ft->cores[k]->ncols==ft->ranks[k+1],"core %d shape does not match the ranks",k);
    double x[FD],tol=rtol*(1+fm_max(m)); int st=m->n>700?7:m->n>300?3:1;
    for(int q=0;q<m->n;q+=st){ fm_pt(m,q,x); mc_cmp(site,function_train_eval(ft,x),m->v[q],tol); }
    if(fm_off(m)) for(int e=0;e<6;e++){ for(int k=0;k<m->d;k++) x[k]=umap(FXP[e][k],m->lb[k],m->ub[k]); double w=fm_eval(m,x); mc_cmp(site,function_train_eval(ft,x),w,tol*3+(fabs(w))*rtol*100); }
}
static uint64_t fm_hash(uint64_t h,struct FunctionTrain*ft,const FM*m){ double x[FD]; for(int k=0;k<=m->d;k++) h=mc_hu(h,ft->ranks[k]); for(int q=0;q<m->n;q+=1+m->n/16){ fm_pt(m,q,x); h=mc_hd(h,function_train_eval(ft,x)); } return h; }
/* powers of two on the cores: the represented function is multiplied by exactly 2^(returned exponent) */
static int rt_pow2(RT*t,int how,int e) /* how: 0 first core, 1 last core, 2 every core, 3 alternating (overall at most 2^e) */
{
    int tot=0; for(int k=0;k<t->d;k++){ int z=how==0?(k==0?e:0):how==1?(k==t->d-1?e:0):how==2?e:(k%2?-e:e); tot+=z; for(int q=0;q<t->r[k]*t->r[k+1];q++) uscale(ldexp(1,z),&t->f[k][q]); } return tot;
}
/* compare a train with 2^e times the model, the tolerance being relative to that scale */
static void fm_checks(const char*site,struct FunctionTrain*ft,const FM*m,int e,double rtol)
{
    mc_expect(site,ft!=NULL,"NULL train"); double x[FD],tol=rtol*(1+fm_max(m)); int st=m->n>700?7:m->n>300?3:1;
    for(int q=0;q<m->n;q+=st){ fm_pt(m,q,x); mc_cmp(site,ldexp(function_train_eval(ft,x),-e),m->v[q],tol); }
}
#endif
