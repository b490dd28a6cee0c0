/* C16: tensors and tensor trains against full arrays. */
#include "mc.h"
#include "tensor.h"
#include "tensortrain.h"
#include "tt_multilinalg.h"
#include "tt_integrate.h"
#include "candecomp.h"
#include "convert_decomp.h"
#include "cross.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
const char *mc_property="C16";
#define MD 5
#define MF 4096
typedef struct { size_t d,n[MD],N; double v[MF]; } F;           /* first index fastest */
static void fset(F*f,size_t d,const size_t*n){ f->d=d; f->N=1; for(size_t i=0;i<d;i++){ f->n[i]=n[i]; f->N*=n[i]; } }
static void midx(const F*f,size_t k,size_t*ix){ for(size_t i=0;i<f->d;i++){ ix[i]=k%f->n[i]; k/=f->n[i]; } }
static double fn(const F*f){ double s=0; for(size_t i=0;i<f->N;i++) s+=f->v[i]*f->v[i]; return sqrt(s); }
static double gv(int i,int j,int s){ static const int T[]={3,-1,4,1,-5,9,2,-6,5,3,-5,8,9,-7,9,3,2,3,-8,4,6}; return T[(i*5+j*7+s*3+i*j)%21]/4.0; }
static int rankof(const F*f,size_t k,double tol){ size_t m=1; for(size_t i=0;i<k;i++) m*=f->n[i]; size_t n=f->N/m; double*a=malloc(8*f->N); memcpy(a,f->v,8*f->N); int r=0; char*ur=calloc(m,1); double nrm=fn(f); /* full pivoting elimination */
    for(size_t s=0;s<m&&s<n;s++){ double best=0; size_t pi=0,pj=0; for(size_t i=0;i<m;i++) if(!ur[i]) for(size_t j=0;j<n;j++) if(fabs(a[j*m+i])>best){ best=fabs(a[j*m+i]); pi=i; pj=j; } if(best<=tol*nrm||best==0) break; r++; ur[pi]=1; for(size_t i=0;i<m;i++) if(!ur[i]){ double q=a[pj*m+i]/a[pj*m+pi]; for(size_t j=0;j<n;j++) a[j*m+i]-=q*a[j*m+pi]; a[pj*m+i]=0; } } free(a); free(ur); return r; }
/* structure of a train is consistent and its entries are those of f within tol (norm) */
static void check_tt(const char*site,struct tt*t,const F*f,double tolabs)
{
    mc_expect("tt-dim",t->dim==f->d,"dimension"); mc_expect("tt-ends",t->ranks[0]==1&&t->ranks[t->dim]==1,"end ranks %zu %zu",t->ranks[0],t->ranks[t->dim]); for(size_t i=0;i<f->d;i++){ mc_expect("tt-nvals",t->nvals[i]==f->n[i],"mode %zu",i); struct tensor*c=t->cores[i]; mc_expect("tt-core",c->nvals[0]==t->ranks[i]&&c->nvals[1]==t->nvals[i]&&c->nvals[2]==t->ranks[i+1],"core %zu is %zux%zux%zu, ranks %zu %zu",i,c->nvals[0],c->nvals[1],c->nvals[2],t->ranks[i],t->ranks[i+1]); }
    double e=0; size_t ix[MD]; for(size_t k=0;k<f->N;k++){ midx(f,k,ix); double x=ttelem(t,ix); mc_step(); if(!(fabs(x)<1e300)) mc_fail(site,"entry %zu is %g",k,x); e+=(x-f->v[k])*(x-f->v[k]); } mc_cmp(site,sqrt(e),0,tolabs);
}
static struct tensor*mkten(const F*f){ struct tensor*t; size_t n[MD]; memcpy(n,f->n,sizeof n); init_tensor(&t,f->d,n); memcpy(t->vals,f->v,8*f->N); return t; }
static const size_t SH[][5]={{2,2,2},{2,2,3},{2,3,2},{2,1,3},{2,4,2},{3,2,2,2}}; 
static const size_t LS[][6]={{2,20,25},{3,12,10,14},{4,7,6,8,9},{2,4,5},{2,6,3},{3,2,3,4},{3,4,3,2},{3,3,1,3},{4,2,3,2,2},{4,3,2,2,3},{4,2,2,4,2},{5,2,2,2,2,2},{3,5,2,3},{5,2,3,2,2,2}};
static void gen(F*f)
{
    int big=mc_choose(2,"big"); if(!big){ int k=mc_choose(6,"shape"); fset(f,SH[k][0],SH[k]+1); for(size_t i=0;i<f->N;i++){ f->v[i]=(double[]){0,1,-2}[mc_choose(3,"a")]; if(i==2) mc_shard(); } }
    else { int k=mc_choose(14,"shape"); fset(f,LS[k][0],LS[k]+1); int r=mc_choose(4,"rank"),s=mc_choose(mc_thorough?6:3,"seed"); double sc=(double[]){1,1e-6,1e5}[mc_choose(3,"scale")]; mc_shard(); int dec=mc_choose(2,"dec"); size_t ix[MD]; for(size_t q=0;q<f->N;q++){ midx(f,q,ix); double v=0; for(int l=0;l<(r==3?6:r);l++){ double p=dec?pow(0.05,l):1; for(size_t i=0;i<f->d;i++) p*=gv((int)ix[i]+3*(int)i,l+s,s+l); v+=p; } f->v[q]=v*sc; } }
    mc_note("shape"); for(size_t i=0;i<f->d;i++) mc_note(" %zu",f->n[i]); if(f->N<=8){ mc_note(" vals"); for(size_t i=0;i<f->N;i++) mc_note(" %g",f->v[i]); } mc_state(mc_hda(mc_hu(mc_h0(),f->d),f->N,f->v));
}
static void d_conv(void)
{
    F f; gen(&f); double eps=(double[]){1e-12,1e-6,0.02,0.3}[mc_choose(4,"eps")]; struct tensor*a=mkten(&f); mc_key("eps%g",eps); size_t ix[MD]; for(size_t k=0;k<f.N;k++){ midx(&f,k,ix); mc_expect("elem",tensor_elem(a,ix)==f.v[k],"tensor_elem"); }
    struct tt*t=full_to_tt(a,eps); mc_step(); mc_expect("conv-in",!memcmp(a->vals,f.v,8*f.N),"input changed"); double nr=fn(&f); check_tt("conv",t,&f,eps*nr*1.0000001+1e-13*nr+1e-300);
    size_t l=1; for(size_t i=1;i<f.d;i++){ l*=f.n[i-1]; size_t mx=l<f.N/l?l:f.N/l; mc_expect("conv-rmax",t->ranks[i]<=mx&&t->ranks[i]>=1,"rank %zu of an unfolding %zu x %zu",t->ranks[i],l,f.N/l); if(eps<1e-9&&nr>0){ int r=rankof(&f,i,1e-9); mc_expect("conv-rank",(int)t->ranks[i]==(r?r:1),"rank %zu, exact rank %d",t->ranks[i],r); } }
    mc_cmp("conv-norm",tt_norm(t),nr,eps*nr*1.001+1e-13*nr+1e-300);
    /* rounding a copy to a coarser tolerance */
    double e2=(double[]){1e-12,0.1,0.7}[mc_choose(3,"eps2")]; F g=f; for(size_t k=0;k<f.N;k++){ midx(&f,k,ix); g.v[k]=ttelem(t,ix); } struct tt*c=copy_tt(t); double n2=tt_norm(t); struct tt*b=tt_round(c,e2); mc_step(); check_tt("round",b,&g,e2*n2*1.0000001+1e-12*n2+1e-300); check_tt("round-orig",t,&g,0); for(size_t i=1;i<f.d;i++) mc_expect("round-rank",b->ranks[i]<=t->ranks[i],"rank grew"); freett(b); freett(c); freett(t); free_tensor(&a);
}
/* operation sequences on a pool of two trains */
static struct tt*start(int k,F*f,size_t d,const size_t*n)
{
    fset(f,d,n); size_t ix[MD]; if(k==0){ for(size_t q=0;q<f->N;q++) f->v[q]=1; return tt_ones(d,n); }
    if(k==1||k==2){ size_t dx=k==1?0:d-1; double x[8]; for(size_t i=0;i<n[dx];i++) x[i]=0.5*i-0.75; size_t nn[MD]; memcpy(nn,n,d*sizeof(size_t)); for(size_t q=0;q<f->N;q++){ midx(f,q,ix); f->v[q]=x[ix[dx]]; } return tt_x(x,dx,d,nn); }
    if(k==3){ for(size_t q=0;q<f->N;q++) f->v[q]=gv(q,1,0); } else if(k==4){ for(size_t q=0;q<f->N;q++){ midx(f,q,ix); double a=1,b=1; for(size_t i=0;i<d;i++){ a*=gv(ix[i],i,1); b*=gv(ix[i]+2,i,2); } f->v[q]=a+0.5*b; } } else for(size_t q=0;q<f->N;q++) f->v[q]=0;
    struct tensor*a=mkten(f); struct tt*t=full_to_tt(a,1e-13); free_tensor(&a); return t;
}
static void observe(struct tt*A,const F*a,struct tt*B,const F*b)
{
    double na=fn(a),nb=fn(b),w=0; for(size_t i=0;i<a->N;i++) w+=a->v[i]*b->v[i]; mc_cmp("dot",tt_dot(A,B),w,1e-11*(na*nb)+1e-300); mc_cmp("dot-sym",tt_dot(B,A),w,1e-11*(na*nb)+1e-300); mc_cmp("norm",tt_norm(A),na,3e-7*na+1e-300);
    double W[MD][8],*wp[MD]; size_t ix[MD]; for(size_t i=0;i<a->d;i++){ wp[i]=W[i]; for(size_t j=0;j<a->n[i];j++) W[i][j]=0.25*(j+1)-0.1*i*j; } double s=0,sa=0; for(size_t k=0;k<a->N;k++){ midx(a,k,ix); double p=a->v[k]; for(size_t i=0;i<a->d;i++) p*=W[i][ix[i]]; s+=p; sa+=fabs(p); } mc_cmp("integrate",tt_integrate(A,wp),s,1e-11*(sa+na)+1e-300); mc_steps(4);
}
static void d_ops(void)
{
    int sh=mc_choose(6,"shape"); static const size_t N_[][5]={{2,3,2},{2,2,4},{3,2,3,2},{3,3,2,2},{4,2,3,2,2},{4,2,2,2,3}}; size_t d=N_[sh][0]; const size_t*n=N_[sh]+1; int k0=mc_choose(6,"a"),k1=mc_choose(6,"b"); mc_shard(); F f[2]; struct tt*t[2]; t[0]=start(k0,&f[0],d,n); t[1]=start(k1,&f[1],d,n); mc_note("shape %d starts %d %d ops",sh,k0,k1); int D=mc_thorough?4:3; check_tt("start",t[0],&f[0],1e-12*(fn(&f[0])+1)); observe(t[0],&f[0],t[1],&f[1]); double err[2]={1e-12,1e-12};
    for(int s=0;s<D;s++){ int op=mc_choose(8,"op"); mc_note(" %d",op); struct tt*r; F g=f[0]; size_t big=0; for(size_t i=1;i<d;i++){ size_t x=t[0]->ranks[i]*t[1]->ranks[i]; if(x>big) big=x; } double er=err[0];
        switch(op){ case 0: r=ttadd(t[0],t[1]); for(size_t i=0;i<g.N;i++) g.v[i]+=f[1].v[i]; for(size_t i=1;i<d;i++) mc_expect("add-rank",r->ranks[i]==t[0]->ranks[i]+t[1]->ranks[i],"ranks do not add"); er=err[0]+err[1]; break;
        case 1: if(big>64) mc_skip(); r=ttmult(t[0],t[1]); for(size_t i=0;i<g.N;i++) g.v[i]*=f[1].v[i]; for(size_t i=1;i<d;i++) mc_expect("mult-rank",r->ranks[i]==t[0]->ranks[i]*t[1]->ranks[i],"ranks do not multiply"); er=err[0]*(1+fn(&f[1]))+err[1]*(1+fn(&f[0])); break;
        case 2: r=copy_tt(t[0]); ttscal(r,-2.5); for(size_t i=0;i<g.N;i++) g.v[i]*=-2.5; er*=2.5; break;
        case 3: { struct tt*c=copy_tt(t[0]); r=tt_round(c,1e-11); freett(c); for(size_t i=1;i<d;i++) mc_expect("round-rank",r->ranks[i]<=t[0]->ranks[i],"rank grew"); size_t l=1; for(size_t i=1;i<d;i++){ l*=g.n[i-1]; size_t mx=l<g.N/l?l:g.N/l; mc_expect("round-rmax",r->ranks[i]<=mx,"rank %zu of an unfolding of size %zu",r->ranks[i],mx); if(fn(&g)>1e-6&&err[0]<1e-10*fn(&g)) mc_expect("round-exact",(int)r->ranks[i]<=(rankof(&g,i,1e-9)>0?rankof(&g,i,1e-9):1),"rank %zu larger than the exact rank",r->ranks[i]); } er+=2e-11*fn(&g); break; }
        case 4: r=ttadd(t[0],t[0]); for(size_t i=0;i<g.N;i++) g.v[i]*=2; er*=2; break;
        case 5: r=copy_tt(t[0]); break;
        case 6: { struct tt*x=t[0]; t[0]=t[1]; t[1]=x; F y=f[0]; f[0]=f[1]; f[1]=y; double z=err[0]; err[0]=err[1]; err[1]=z; continue; }
        default: r=copy_tt(t[0]); ttscal(r,0.0); for(size_t i=0;i<g.N;i++) g.v[i]=0; er=1e-300; }
        mc_step(); check_tt("operand",t[0],&f[0],err[0]*(fn(&f[0])+1)*4); freett(t[0]); t[0]=r; f[0]=g; err[0]=er; check_tt("result",r,&g,er*(fn(&g)+1)*4); if(er<1e-9) observe(t[0],&f[0],t[1],&f[1]); }
    uint64_t h=mc_hda(mc_hu(mc_h0(),sh),f[0].N,f[0].v); mc_state(h); freett(t[0]); freett(t[1]);
}
/* three-way tensors as matrices of vectors */
static struct tensor*t3(size_t a,size_t b,size_t c,int s){ struct tensor*t; size_t n[3]={a,b,c}; init_tensor(&t,3,n); for(size_t i=0;i<a*b*c;i++) t->vals[i]=gv(i,s,s+1); return t; }
#define T3(t,i,j,k) ((t)->vals[(i)+(j)*(t)->nvals[0]+(k)*(t)->nvals[0]*(t)->nvals[1]])
static void d_core(void)
{
    size_t a0=1+mc_choose(4,"a0"),n=1+mc_choose(5,"n"),a2=1+mc_choose(4,"a2"),b0=1+mc_choose(4,"b0"),b2=1+mc_choose(4,"b2"); if(a0==4) a0=8; if(n==5) n=11; if(a2==4) a2=7; if(b0==4) b0=6; if(b2==4) b2=9; mc_shard(); int s=mc_choose(2,"s"); mc_note("%zu %zu %zu / %zu %zu",a0,n,a2,b0,b2); struct tensor*A=t3(a0,n,a2,s),*B=t3(b0,n,b2,s+2),*H=t3(a0,n,b2,s+1),*V=t3(b0,n,a2,s+1),*r;
    for(size_t i=0;i<a0*n*a2;i++) if(s&&i%3==0) A->vals[i]=0;
    r=tensor_stack2h_3d(A,H); mc_expect("h-shape",r->nvals[0]==a0&&r->nvals[1]==n&&r->nvals[2]==a2+b2,"shape"); for(size_t i=0;i<a0;i++) for(size_t j=0;j<n;j++) for(size_t k=0;k<a2+b2;k++) mc_cmp("stack-h",T3(r,i,j,k),k<a2?T3(A,i,j,k):T3(H,i,j,k-a2),0); free_tensor(&r);
    r=tensor_stack2v_3d(A,V); mc_expect("v-shape",r->nvals[0]==a0+b0&&r->nvals[1]==n&&r->nvals[2]==a2,"shape"); for(size_t i=0;i<a0+b0;i++) for(size_t j=0;j<n;j++) for(size_t k=0;k<a2;k++) mc_cmp("stack-v",T3(r,i,j,k),i<a0?T3(A,i,j,k):T3(V,i-a0,j,k),0); free_tensor(&r);
    r=tensor_blockdiag_3d(A,B); mc_expect("bd-shape",r->nvals[0]==a0+b0&&r->nvals[1]==n&&r->nvals[2]==a2+b2,"shape"); for(size_t i=0;i<a0+b0;i++) for(size_t j=0;j<n;j++) for(size_t k=0;k<a2+b2;k++) mc_cmp("blockdiag",T3(r,i,j,k),i<a0&&k<a2?T3(A,i,j,k):i>=a0&&k>=a2?T3(B,i-a0,j,k-a2):0,0); free_tensor(&r);
    r=tensor_kron_3d(A,B); mc_expect("k-shape",r->nvals[0]==a0*b0&&r->nvals[1]==n&&r->nvals[2]==a2*b2,"shape"); for(size_t i=0;i<a0;i++) for(size_t p=0;p<b0;p++) for(size_t j=0;j<n;j++) for(size_t k=0;k<a2;k++) for(size_t q=0;q<b2;q++) mc_cmp("kron3",T3(r,i*b0+p,j,k*b2+q),T3(A,i,j,k)*T3(B,p,j,q),1e-12); free_tensor(&r);
    for(int tr=0;tr<2;tr++){ r=tensor_copy_3d(A,tr); mc_expect("c-shape",r->nvals[0]==(tr?a2:a0)&&r->nvals[1]==n&&r->nvals[2]==(tr?a0:a2),"shape of the copy"); for(size_t i=0;i<a0;i++) for(size_t j=0;j<n;j++) for(size_t k=0;k<a2;k++) mc_cmp("copy3",tr?T3(r,k,j,i):T3(r,i,j,k),T3(A,i,j,k),0); size_t e[3]={tr?a2-1:a0-1,n-1,tr?a0-1:a2-1}; mc_cmp("copy-elem",tensor_elem(r,e),T3(A,a0-1,n-1,a2-1),0); free_tensor(&r); }
    double w[11]={0.5,-1,2,0.25,3,-0.75,1.5,0.125,-2,1,0.3}; double*o=tensor_sum2(A,w); for(size_t i=0;i<a0;i++) for(size_t k=0;k<a2;k++){ double x=0; for(size_t j=0;j<n;j++) x+=w[j]*T3(A,i,j,k); mc_cmp("sum2",o[k*a0+i],x,1e-12); } free(o);
    r=tensor_ones_3d(a0,n,a2); for(size_t i=0;i<a0*n*a2;i++) mc_cmp("ones3",r->vals[i],1,0); mc_expect("ones-shape",r->nvals[0]==a0&&r->nvals[1]==n&&r->nvals[2]==a2,"shape"); free_tensor(&r); r=tensor_x_3d(n,w); mc_expect("x-shape",r->nvals[0]==1&&r->nvals[1]==n&&r->nvals[2]==1,"shape"); for(size_t i=0;i<n;i++) mc_cmp("x3",r->vals[i],w[i],0); free_tensor(&r);
    mc_steps(9); mc_state(mc_hda(mc_hu(mc_h0(),a0*27+a2*9+b0*3+b2),a0*n*a2,A->vals)); free_tensor(&A); free_tensor(&B); free_tensor(&H); free_tensor(&V);
}
/* canonical decompositions */
static void d_cd(void)
{
    size_t d=2+mc_choose(4,"d"),r=1+mc_choose(5,"r"); if(r==5) r=11; static F f; size_t n[MD]; int bign=mc_choose(2,"big"); for(size_t i=0;i<d;i++) n[i]=bign?(d==5?5:d==4?7:13)-i%3:1+mc_choose(3,"n"); mc_shard(); int s=mc_choose(2,"s"); fset(&f,d,n); struct candecomp cd; struct mat*c[MD],m[MD]; cd.dim=d; cd.rank=r; cd.cores=c; for(size_t i=0;i<d;i++){ c[i]=&m[i]; m[i].nrows=n[i]; m[i].ncols=r; m[i].vals=malloc(8*n[i]*r); for(size_t j=0;j<n[i]*r;j++) m[i].vals[j]=gv(j,i,s); } size_t ix[MD]; for(size_t k=0;k<f.N;k++){ midx(&f,k,ix); double v=0; for(size_t l=0;l<r;l++){ double p=1; for(size_t i=0;i<d;i++) p*=m[i].vals[ix[i]*r+l]; v+=p; } f.v[k]=v; mc_cmp("cdelem",cdelem(&cd,ix),v,1e-11*(1+fabs(v))); mc_step(); }
    struct tt*t=cd2tt(&cd); mc_step(); mc_note("d=%zu r=%zu",d,r); check_tt("cd2tt",t,&f,1e-11*(1+fn(&f))); for(size_t i=1;i<d;i++) mc_expect("cd-rank",t->ranks[i]==r,"rank %zu",t->ranks[i]); struct tt*b=tt_round(t,1e-11); mc_step(); check_tt("cd-round",b,&f,1e-10*(1+fn(&f))); mc_state(mc_hda(mc_hu(mc_h0(),d),f.N,f.v)); freett(t); freett(b); for(size_t i=0;i<d;i++) free(m[i].vals);
}
/* cross approximation of sums of exponentials: every submatrix of every unfolding is regular */
static F CF; static long ncalls; static double farg; static int viaf; static struct func_to_array FA; static double*PT[MD],PTS[MD][8];
static double expo(const double*x,size_t d,int r){ double v=0; for(int l=0;l<r;l++){ double p=1; for(size_t i=0;i<d;i++) p*=pow(1.2+0.6*l+0.1*i,x[i]); v+=p*(l%2?0.5:1); } return v; }
static int CR; static double ff(double*x,void*a){ if(a!=&farg) mc_fail("cross-arg","argument"); for(size_t i=0;i<CF.d;i++){ int ok=0; for(size_t j=0;j<CF.n[i];j++) ok|=x[i]==PTS[i][j]; if(!ok) mc_fail("cross-pt","point outside the grid"); } return expo(x,CF.d,CR); }
static void Acb(size_t nv,size_t*ix,size_t fi,double*o,void*a){ if(fi>=CF.d||nv!=CF.n[fi]) mc_fail("cross-fib","fibre direction %zu of length %zu",fi,nv); for(size_t i=0;i<CF.d;i++) if(i!=fi&&ix[i]>=CF.n[i]) mc_fail("cross-range","index %zu in mode %zu of size %zu",ix[i],i,CF.n[i]); ncalls++; if(viaf) wrap_func_for_cross(nv,ix,fi,o,&FA); else wrap_full_tensor_for_cross(nv,ix,fi,o,a); }
static void ixset(const struct index_set*x,const size_t*n,size_t dim,size_t N){ mc_expect("naive-shape",x->dim==dim&&x->N==N,"%zu indices of length %zu, expected %zu of %zu",x->N,x->dim,N,dim); size_t tot=1; for(size_t i=0;i<dim;i++) tot*=n[i]; for(size_t a=0;a<N;a++){ for(size_t i=0;i<dim;i++) mc_expect("naive-range",x->indices[a][i]<n[i],"index %zu in a mode of size %zu",x->indices[a][i],n[i]); if(N<=tot) for(size_t b=0;b<a;b++) mc_expect("naive-distinct",memcmp(x->indices[a],x->indices[b],dim*sizeof(size_t))!=0,"indices %zu and %zu agree",b,a); } }
static void d_cross(void)
{
    static const size_t N_[][6]={{2,4,5},{2,5,3},{3,4,3,5},{3,3,4,4},{3,2,5,3},{4,3,3,4,3},{4,4,2,3,4},{4,2,3,2,4},{5,3,2,3,2,3},{3,8,7,8},{2,8,8},{4,6,7,5,6},{5,4,5,4,3,4}}; int sh=mc_choose(13,"shape"); size_t d=N_[sh][0]; fset(&CF,d,N_[sh]+1); CR=mc_choose(5,"r"); if(CR==4&&sh<9) mc_skip(); if(CR==4) CR=sh==10?4:3; viaf=mc_choose(2,"f"); int ad=mc_choose(3,"adapt"); mc_shard(); int extra=mc_choose(3,"extra"),kick=1+mc_choose(3,"kick"); if(!ad&&kick>1) mc_skip(); size_t ix[MD]; for(size_t i=0;i<d;i++){ PT[i]=PTS[i]; for(size_t j=0;j<8;j++) PTS[i][j]=j*(1+0.1*i)+0.2; } for(size_t k=0;k<CF.N;k++){ midx(&CF,k,ix); double x[MD]; for(size_t i=0;i<d;i++) x[i]=PTS[i][ix[i]]; CF.v[k]=expo(x,d,CR); } FA.nvals=CF.n; FA.dim=d; FA.pts=PT; FA.f=ff; FA.args=&farg;
    struct tensor*t=mkten(&CF); size_t rk[MD+1]; rk[0]=rk[d]=1; size_t ex[MD+1]; size_t l=1; for(size_t i=1;i<d;i++){ l*=CF.n[i-1]; size_t m=l<CF.N/l?l:CF.N/l; ex[i]=CR<1?1:((size_t)CR<m?(size_t)CR:m); rk[i]=ex[i]; }
    /* requested ranks: exact, one more where possible, or one */
    for(size_t i=1;i<d;i++){ if(extra==1) rk[i]=ex[i]+1; else if(extra==2) rk[i]=1; } for(int pass=0;pass<4;pass++){ for(size_t i=1;i<d;i++){ if(rk[i]>rk[i-1]*CF.n[i-1]) rk[i]=rk[i-1]*CF.n[i-1]; if(rk[i]>rk[i+1]*CF.n[i]) rk[i]=rk[i+1]*CF.n[i]; } } int suff=1; for(size_t i=1;i<d;i++) suff&=rk[i]>=ex[i];
    mc_note("shape %d rank %d f%d adapt%d extra%d kick%d",sh,CR,viaf,ad,extra,kick); mc_key("ad%d",ad); struct tt_cross_opts*o=init_cross_opts_with_naive_set(d,rk,CF.n); ncalls=0; for(size_t i=0;i+1<d;i++){ ixset(o->right[i],CF.n+i+1,d-1-i,rk[i+1]); if(i) ixset(o->left[i],CF.n,i,rk[i]); } struct tt*a; double nr=fn(&CF); size_t maxfib=0; for(size_t i=0;i<d;i++) maxfib+=CF.N/CF.n[i];
    if(ad==0){ a=tt_cross(Acb,o,t); mc_steps(ncalls); for(size_t i=0;i<=d;i++) mc_expect("cross-rank",a->ranks[i]==rk[i],"rank %zu",a->ranks[i]); if(suff){ check_tt("cross",a,&CF,1e-7*nr+1e-300); } }
    else { a=tt_cross_adapt(Acb,o,kick,ad==1?0:20,1e-9,t); mc_steps(ncalls); if(ad==2||suff) check_tt("cross-adapt",a,&CF,1e-6*nr+1e-300); if(ad==2&&CR) for(size_t i=1;i<d;i++) mc_expect("cross-arank",a->ranks[i]<=ex[i],"rank %zu above the exact rank %zu",a->ranks[i],ex[i]); }
    mc_expect("cross-once",(size_t)ncalls<=maxfib,"%ld fibre evaluations, only %zu fibres exist",ncalls,maxfib); long nf=0; for(size_t i=0;i<d;i++) nf+=o->fibers[i]->nfibers; mc_expect("cross-stored",nf==ncalls,"%ld fibres stored, %ld evaluated",nf,ncalls); mc_expect("cross-tensor",!memcmp(t->vals,CF.v,8*CF.N),"tensor changed"); mc_state(mc_hu(mc_hu(mc_h0(),nf),sh*100+CR)); freett(a); free_cross_opts(&o); free_tensor(&t);
}
static void d_fib(void)
{
    struct cross_fiber_list*h=NULL; int D=mc_thorough?6:5; size_t P[8][5],Q[8][5]; double val[8]; int n=0; int pi=mc_choose(4,"pre"),qi=mc_choose(4,"post"),pl=pi==3?5:pi,ql=qi==3?5:qi; if(pi==3&&qi!=3&&qi) mc_skip(); mc_note("pre %d post %d ops",pl,ql);
    for(int s=0;s<D;s++){ int op=mc_choose(7,"op"); if(s==1) mc_shard(); if(op==6) break; size_t p[5]={0},q[5]={0}; if(pl){ p[0]=op%2; p[pl-1]+=2*(op/4); } if(ql){ q[0]=1; q[ql-1]+=(op/2)%2; } if(pl==1) p[0]%=2; /* the last position decides */ int w=-1; for(int i=n-1,k=0;i>=0;i--,k++) if(!memcmp(P[i],p,sizeof p)&&!memcmp(Q[i],q,sizeof q)){ w=k; break; } int ex=CrossIndexExists(h,p,q); mc_step(); mc_expect("fib-exists",ex==w,"found at %d want %d",ex,w); if(ex>=0) mc_expect("fib-val",getCrossFiberListIndex(h,ex)[1]==-val[n-1-w],"value"); double v[2]={s+1.5,-(s+1.5)}; AddCrossFiber(&h,pl,ql,p,q,v,2); memcpy(P[n],p,sizeof p); memcpy(Q[n],q,sizeof q); val[n++]=s+1.5; }
    mc_state(mc_hb(mc_hu(mc_h0(),pl*3+ql),P,sizeof(size_t)*5*n)); DeleteCrossFiberList(&h); mc_expect("fib-del",h==NULL,"head");
}
/* the same operations on trains multiplied by powers of two */
static void d_scaled(void)
{
    static const size_t N_[][5]={{2,3,2},{3,2,3,2},{4,2,3,2,2}}; int sh=mc_choose(3,"shape"),k0=mc_choose(5,"a"),k1=mc_choose(5,"b"); mc_shard(); static const int EX[]={-60,-33,-17,-8,0,10,24,40}; int e0=EX[mc_choose(8,"e0")],e1=EX[mc_choose(8,"e1")]; size_t d=N_[sh][0]; const size_t*n=N_[sh]+1; F a,b,g; struct tt*A=start(k0,&a,d,n),*B=start(k1,&b,d,n); mc_key("e%d e%d",e0,e1);
    ttscal(A,ldexp(1,e0)); ttscal(B,ldexp(1,e1)); for(size_t i=0;i<a.N;i++){ a.v[i]=ldexp(a.v[i],e0); b.v[i]=ldexp(b.v[i],e1); } double na=fn(&a),nb=fn(&b),w=0; check_tt("s-scal",A,&a,1e-11*na+1e-300); for(size_t i=0;i<a.N;i++) w+=a.v[i]*b.v[i];
    mc_cmp("s-dot",tt_dot(A,B)/(na*nb+1e-300),w/(na*nb+1e-300),1e-11); mc_cmp("s-norm",tt_norm(A),na,3e-7*na+1e-300); mc_steps(4); g=a;
    struct tt*r=ttadd(A,B); for(size_t i=0;i<g.N;i++) g.v[i]=a.v[i]+b.v[i]; check_tt("s-add",r,&g,1e-11*(na+nb)+1e-300); struct tt*c=tt_round(r,1e-9); check_tt("s-add-round",c,&g,1.1e-9*fn(&g)+2e-11*(na+nb)+1e-300); freett(c); freett(r);
    r=ttmult(A,B); for(size_t i=0;i<g.N;i++) g.v[i]=a.v[i]*b.v[i]; check_tt("s-mult",r,&g,1e-11*na*nb+1e-300); freett(r); mc_steps(3);
    struct tt*z=copy_tt(A); c=tt_round(z,0.2); check_tt("s-round",c,&a,0.2*na*1.0000001+1e-300); size_t rk[MD+1]; memcpy(rk,c->ranks,(d+1)*sizeof(size_t)); freett(c); freett(z); z=copy_tt(A); ttscal(z,ldexp(1,-e0)); c=tt_round(z,0.2); for(size_t i=0;i<=d;i++) mc_expect("s-round-rank",c->ranks[i]==rk[i],"rank %zu is %zu at scale 1, %zu at 2^%d",i,c->ranks[i],rk[i],e0); freett(c); freett(z);
    struct tensor*q=mkten(&a); c=full_to_tt(q,1e-10); check_tt("s-full",c,&a,1.1e-10*na+1e-300); freett(c); free_tensor(&q); mc_steps(4);
    mc_state(mc_hu(mc_hu(mc_hda(mc_h0(),a.N,a.v),k1),e1+100)); freett(A); freett(B);
}
const mc_driver mc_drivers[]={{"conv",d_conv,1,MC_BOTH},{"ops",d_ops,1,MC_BOTH},{"core",d_core,1,MC_BOTH},{"cd",d_cd,1,MC_BOTH},{"cross",d_cross,1,MC_BOTH},{"fib",d_fib,1,MC_BOTH},{"scaled",d_scaled,1,MC_BOTH},{0}};
