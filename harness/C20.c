/* C20: matrices of univariate functions (Qmarray, Quasimatrix) behave as matrices at every point. */
#include "ftm.h"
#include "big.h"
#include "ucal.h"
#include "udiff.h"
#include "qmarray.h"
#include "linalg.h"
const char *mc_property="C20";
#define MS 8
#define NE 160
typedef struct { int r,c; RF f[NE]; } RM;          /* column major */
enum { QGEN,QGEN2,QZERO,QDUPC,QZCOL,QDUPR,QUNIT,QCOMB,NQP };
static const char*QPN[]={"generic","generic2","zero","repeated-column","zero-column","repeated-row","unit","dependent-column"};
static int RMN; /* number of polynomial coefficients, 0: from the grid */
static void rm_make(RM*m,int r,int c,int cls,int dom,int mask,int pat,int salt)
{
    m->r=r; m->c=c;
    for(int j=0;j<c;j++) for(int i=0;i<r;i++){ RF*f=&m->f[i+j*r]; ugrid(f,cls,dom,mask); if(cls>=ULEG) f->n=RMN?RMN:2+mask%4;
        int jj=pat==QDUPC&&j>0?0:j, ii=pat==QDUPR&&i>0?0:i;
        for(int q=0;q<f->n;q++){ double v=fgen(salt+(pat==QGEN2?91:3),ii*8+jj,q,r*10+c); if(pat==QZERO||(pat==QZCOL&&j==c/2)) v=0; if(pat==QUNIT) v=(q==(i+j)%f->n)&&(i==j%r); f->c[q]=v; }
        if(pat==QCOMB&&j==c-1&&c>1) for(int q=0;q<f->n;q++) f->c[q]=m->f[i].c[q]*2-(c>2?m->f[i+r].c[q]*0.5:0); }
}
static struct Qmarray*rm_build(RM*m){ struct Qmarray*q=qmarray_alloc(m->r,m->c); for(int i=0;i<m->r*m->c;i++) q->funcs[i]=ubuild(&m->f[i]); return q; }
static void rm_at(const RM*m,double x,double*o){ for(int i=0;i<m->r*m->c;i++) o[i]=ueval(&m->f[i],x); }
static double rm_scl(const RM*m){ double s=0; for(int i=0;i<m->r*m->c;i++){ double v=uscl(&m->f[i])-0.99; if(v>s) s=v; } return s; }
static void shape(const char*s,const struct Qmarray*q,int r,int c){ mc_expect(s,q!=NULL&&q->nrows==(size_t)r&&q->ncols==(size_t)c,"shape %zux%zu, expected %dx%d",q?q->nrows:0,q?q->ncols:0,r,c); for(int i=0;i<r*c;i++) mc_expect(s,q->funcs[i]!=NULL,"entry %d missing",i); }
/* sample points: for products of piecewise functions only the nodes of the common grid */
static int npts(const RF*f,int nodal){ return nodal&&(f->cls==ULIN||f->cls==UCONST)?f->n:UNP; }
static double ptx(const RF*f,int i,int nodal){ return nodal&&(f->cls==ULIN||f->cls==UCONST)?f->x[i]:umap(UPT[i],f->lb,f->ub); }
static void mm(int r,int k,int c,const double*a,int ta,const double*b,int tb,double*o) /* o = op(a) op(b); a stored (r x k) or (k x r) */
{ for(int j=0;j<c;j++) for(int i=0;i<r;i++){ double s=0; for(int q=0;q<k;q++) s+=(ta?a[q+i*k]:a[i+q*r])*(tb?b[j+q*c]:b[q+j*k]); o[i+j*r]=s; } }
static void cmpq(const char*site,const struct Qmarray*q,double x,const double*w,double tol){ int n=q->nrows*q->ncols; for(int i=0;i<n;i++) mc_cmp(site,generic_function_1d_eval(q->funcs[i],x),w[i],tol); }
static void same(const char*site,struct Qmarray*q,const RM*m){ double w[NE]; for(int p=0;p<UNP;p+=2){ double x=umap(UPT[p],m->f[0].lb,m->f[0].ub); rm_at(m,x,w); cmpq(site,q,x,w,1e-12*(1+rm_scl(m))); } }
static uint64_t hq(uint64_t h,const struct Qmarray*q,const RF*f){ h=mc_hu(h,q->nrows*10+q->ncols); for(size_t i=0;i<q->nrows*q->ncols;i++) for(int p=1;p<UNP;p+=5) h=mc_hd(h,generic_function_1d_eval(q->funcs[i],umap(UPT[p],f->lb,f->ub))); return h; }
static struct GenericFunction*op_neg(const struct GenericFunction*f,void*a){ return generic_function_daxpby(*(double*)a,f,0,NULL); }

static void b_struct(void)
{
    int cls=mc_choose(6,"class"),r=1+mc_choose(3,"rows"),c=1+mc_choose(3,"cols"); mc_shard(); int mask=mc_choose(4,"grid"),pat=mc_choose(NQP,"pattern"),dom=cls==UHERM?0:mc_choose(3,"domain"),r2=1+mc_choose(3,"rows b"),c2=1+mc_choose(3,"cols b");
    static const int MK[4]={7,5,0,2}; mask=MK[mask]; mc_note("%s %s",UNAME[cls],QPN[pat]);
    RM A,H,V,S; rm_make(&A,r,c,cls,dom,mask,pat,0); rm_make(&H,r,c2,cls,dom,mask,QGEN2,5); rm_make(&V,r2,c,cls,dom,mask,QGEN2,9); rm_make(&S,r,c,cls,dom,mask,QGEN2,13); RM B; rm_make(&B,r2,c2,cls,dom,mask,QGEN,21);
    struct Qmarray*a=rm_build(&A),*h=rm_build(&H),*v=rm_build(&V),*b=rm_build(&B),*s=rm_build(&S);
    struct Qmarray*cp=qmarray_copy(a),*fc=qmarray_first_cols(a,(c+1)/2),*tr=qmarray_transpose(a),*sh=qmarray_stackh(a,h),*sv=qmarray_stackv(a,v),*bd=qmarray_blockdiag(a,b); mc_steps(6);
    shape("copy",cp,r,c);shape("first_cols",fc,r,(c+1)/2);shape("transpose",tr,c,r);shape("stackh",sh,r,c+c2);shape("stackv",sv,r+r2,c);shape("blockdiag",bd,r+r2,c+c2);
    mc_expect("size",qmarray_get_nrows(a)==(size_t)r&&qmarray_get_ncols(a)==(size_t)c,"get size");
    double neg=-1.5; struct Operator op={op_neg,&neg}; struct Qmarray*oe=qmarray_operate_elements(a,&op),*oc=qmarray_operate_elements(a,NULL); shape("operate",oe,r,c);shape("operate",oc,r,c); mc_steps(2);
    struct Qmarray*ax=qmarray_copy(s); qmarray_axpy(0.75,a,ax); struct Qmarray*ax0=qmarray_copy(s); qmarray_axpy(0,a,ax0); mc_steps(2);
    double T=1e-13*(1+rm_scl(&A)+rm_scl(&B)+rm_scl(&H)+rm_scl(&V)+rm_scl(&S)); double *m2=malloc(sizeof(double)*r*c);
    for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[40],wh[40],wv[40],wb[40],ws[40],w[80]; rm_at(&A,x,wa);rm_at(&H,x,wh);rm_at(&V,x,wv);rm_at(&B,x,wb);rm_at(&S,x,ws);
        cmpq("copy",cp,x,wa,T);cmpq("first_cols",fc,x,wa,T); for(int i=0;i<r;i++) for(int j=0;j<c;j++) w[j+i*c]=wa[i+j*r]; cmpq("transpose",tr,x,w,T);
        memcpy(w,wa,sizeof(double)*r*c);memcpy(w+r*c,wh,sizeof(double)*r*c2);cmpq("stackh",sh,x,w,T);
        for(int j=0;j<c;j++){ for(int i=0;i<r;i++) w[i+j*(r+r2)]=wa[i+j*r]; for(int i=0;i<r2;i++) w[r+i+j*(r+r2)]=wv[i+j*r2]; } cmpq("stackv",sv,x,w,T);
        for(int i=0;i<(r+r2)*(c+c2);i++) w[i]=0; for(int j=0;j<c;j++) for(int i=0;i<r;i++) w[i+j*(r+r2)]=wa[i+j*r]; for(int j=0;j<c2;j++) for(int i=0;i<r2;i++) w[r+i+(c+j)*(r+r2)]=wb[i+j*r2]; cmpq("blockdiag",bd,x,w,T);
        for(int i=0;i<r*c;i++) w[i]=neg*wa[i]; cmpq("operate",oe,x,w,T);cmpq("operate-null",oc,x,wa,T); for(int i=0;i<r*c;i++) w[i]=ws[i]+0.75*wa[i]; cmpq("axpy",ax,x,w,T);cmpq("axpy0",ax0,x,ws,T);
        for(int i=0;i<r*c;i++) m2[i]=NAN; qmarray_eval(a,x,m2); mc_step(); for(int i=0;i<r*c;i++) mc_cmp("eval",m2[i],wa[i],T);
        for(int i=0;i<r*c;i++) m2[i]=NAN; qmarray_deriv_eval(a,x,m2); mc_step(); for(int i=0;i<r*c;i++) mc_cmp("deriv_eval",m2[i],udpt(&A.f[i],x),T*400);
        for(int i=0;i<r;i++) for(int j=0;j<c;j++) mc_cmp("get_func",generic_function_1d_eval(qmarray_get_func(a,i,j),x),wa[i+j*r],T); }
    /* independence of copies */
    generic_function_scale(3,cp->funcs[0]);generic_function_scale(3,tr->funcs[0]);generic_function_scale(3,sh->funcs[0]);generic_function_scale(3,sv->funcs[0]);generic_function_scale(3,bd->funcs[0]);generic_function_scale(3,fc->funcs[0]);generic_function_scale(3,oc->funcs[0]); same("independent",a,&A); same("operand",h,&H);same("operand",v,&V);same("operand",b,&B);
    /* rows and columns */
    for(int i=0;i<r;i++){ struct Quasimatrix*q=qmarray_extract_row(a,i); mc_expect("extract_row",quasimatrix_get_size(q)==(size_t)c,"size"); struct Qmarray*y=qmarray_copy(s); qmarray_set_row(y,i,q); mc_steps(2); for(int p=0;p<UNP;p+=3){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[40],ws[40]; rm_at(&A,x,wa);rm_at(&S,x,ws); for(int j=0;j<c;j++){ mc_cmp("extract_row",generic_function_1d_eval(quasimatrix_get_func(q,j),x),wa[i+j*r],T); ws[i+j*r]=wa[i+j*r]; } cmpq("set_row",y,x,ws,T); } quasimatrix_free(q); qmarray_free(y); }
    for(int j=0;j<c;j++){ struct Quasimatrix*q=qmarray_extract_column(a,j); mc_expect("extract_col",quasimatrix_get_size(q)==(size_t)r,"size"); struct Qmarray*y=qmarray_copy(s),*z=qmarray_copy(s); qmarray_set_column(y,j,q); qmarray_set_column_gf(z,j,a->funcs+j*r); mc_steps(3); for(int p=0;p<UNP;p+=3){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[40],ws[40]; rm_at(&A,x,wa);rm_at(&S,x,ws); for(int i=0;i<r;i++){ mc_cmp("extract_col",generic_function_1d_eval(quasimatrix_get_func(q,i),x),wa[i+j*r],T); ws[i+j*r]=wa[i+j*r]; } cmpq("set_col",y,x,ws,T);cmpq("set_col_gf",z,x,ws,T); } quasimatrix_free(q); qmarray_free(y);qmarray_free(z); }
    /* functionals */
    double*IV=qmarray_integrate(a),n2=0,d2=0; for(int i=0;i<r*c;i++){ mc_cmp("integrate",IV[i],u_integ(&A.f[i]),T*10); n2+=u_inner(&A.f[i],&A.f[i]); RF d; uaxpby(1,&A.f[i],-1,&S.f[i],&d); d2+=u_inner(&d,&d); } free(IV); mc_cmp("norm2",pow(qmarray_norm2(a),2),n2,T*(1+n2)*10); mc_cmp("norm2diff",pow(qmarray_norm2diff(a,s),2),d2,T*(1+d2)*10); mc_steps(3);
    if(cls==ULEG||cls==UHERM||cls==UKER){ IV=qmarray_integrate_weighted(a); for(int i=0;i<r*c;i++) mc_cmp("integrate_weighted",IV[i],cls==UKER?u_integ(&A.f[i]):A.f[i].c[0],T*10); free(IV); mc_step(); }
    if(cls!=UKER){ struct Qmarray*d=qmarray_deriv(a); shape("deriv",d,r,c); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),w[40]; for(int i=0;i<r*c;i++) w[i]=uop(&A.f[i],x,1); cmpq("deriv",d,x,w,T*400); } qmarray_free(d); mc_step();
        if(cls!=UCONST){ d=qmarray_dderiv(a); shape("dderiv",d,r,c); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),w[40]; for(int i=0;i<r*c;i++) w[i]=uop(&A.f[i],x,2); cmpq("dderiv",d,x,w,T*40000); } qmarray_free(d); mc_step(); } }
    if(cls==ULIN||cls==UCONST){ double N[4]={A.f[0].x[0],umap(-0.2,A.f[0].lb,A.f[0].ub),umap(0.45,A.f[0].lb,A.f[0].ub),A.f[0].x[A.f[0].n-1]}; struct Qmarray*d=qmarray_create_nodal(a,4,N); shape("create_nodal",d,r,c); for(int p=0;p<4;p++){ double w[40]; rm_at(&A,N[p],w); cmpq("create_nodal",d,N[p],w,T); } qmarray_free(d); mc_step(); }
    same("unchanged",a,&A); mc_state(hq(mc_h0(),a,A.f));
    free(m2); qmarray_free(a);qmarray_free(h);qmarray_free(v);qmarray_free(b);qmarray_free(s);qmarray_free(cp);qmarray_free(fc);qmarray_free(tr);qmarray_free(sh);qmarray_free(sv);qmarray_free(bd);qmarray_free(oe);qmarray_free(oc);qmarray_free(ax);qmarray_free(ax0);
}
/* products: matrix of functions with dense matrices and with each other, and their integrals */
static void cmpd(const char*site,double*got,const double*w,int n,double t){ for(int i=0;i<n;i++) mc_cmp(site,got[i],w[i],t); free(got); }
static void b_prod(void)
{
    int cls=(int[]){ULIN,ULEG,UCONST,UCHEB,UHERM,UKER}[mc_choose(6,"class")],n=1+mc_choose(3,"n"),k=1+mc_choose(3,"k"),m=1+mc_choose(3,"m"); mc_shard(); int mask=(int[]){7,5,0}[mc_choose(3,"grid")],pa=mc_choose(NQP,"pattern a"),pb=mc_choose(NQP,"pattern b"),dom=cls==UHERM?0:mc_choose(2,"domain"); mc_note("%s",UNAME[cls]);
    RM A,B,At,Bt; rm_make(&A,n,k,cls,dom,mask,pa,1); rm_make(&B,k,m,cls,dom,mask,pb,2); rm_make(&At,k,n,cls,dom,mask,pa,3); rm_make(&Bt,m,k,cls,dom,mask,pb,4);
    struct Qmarray*a=rm_build(&A),*b=rm_build(&B),*at=rm_build(&At),*bt=rm_build(&Bt); double R[16],Rl[16]; for(int i=0;i<16;i++){ R[i]=fgen(7,i,n,m); Rl[i]=fgen(8,i,n,k); }
    double SA=rm_scl(&A)+rm_scl(&At),SB=rm_scl(&B)+rm_scl(&Bt),T=1e-12*(1+SA*4),T2=1e-12*(1+SA*SB*4);
    struct Qmarray*q1=qmam(a,R,m),*q2=qmatm(at,R,m),*q3=mqma(Rl,b,n); shape("qmam",q1,n,m);shape("qmatm",q2,n,m);shape("mqma",q3,n,m); mc_steps(3);
    struct Qmarray*p1=NULL,*p2=NULL,*p3=NULL,*p4=NULL; int pr=cls!=UKER; if(pr){ p1=qmaqma(a,b);p2=qmatqma(at,b);p3=qmaqmat(a,bt);p4=qmatqmat(at,bt); mc_steps(4); shape("qmaqma",p1,n,m);shape("qmatqma",p2,n,m);shape("qmaqmat",p3,n,m); /* a^T b^T is stored as its transpose (b a)^T, as consumers expect */ shape("qmatqmat",p4,n,m); }
    for(int nod=0;nod<2;nod++){ int N=npts(A.f,nod); for(int p=0;p<N;p++){ double x=ptx(A.f,p,nod),wa[40],wb[40],wt[40],wu[40],w[40]; rm_at(&A,x,wa);rm_at(&B,x,wb);rm_at(&At,x,wt);rm_at(&Bt,x,wu);
        if(!nod){ mm(n,k,m,wa,0,R,0,w);cmpq("qmam",q1,x,w,T); mm(n,k,m,wt,1,R,0,w);cmpq("qmatm",q2,x,w,T); mm(n,k,m,Rl,0,wb,0,w);cmpq("mqma",q3,x,w,1e-12*(1+SB*4)); }
        else if(pr){ mm(n,k,m,wa,0,wb,0,w);cmpq("qmaqma",p1,x,w,T2*10); mm(n,k,m,wt,1,wb,0,w);cmpq("qmatqma",p2,x,w,T2*10); mm(n,k,m,wa,0,wu,1,w);cmpq("qmaqmat",p3,x,w,T2*10); mm(n,k,m,wt,1,wu,1,w);cmpq("qmatqmat",p4,x,w,T2*10); } } }
    /* integrals */
    double w1[9],w2[9],w3[9],w4[9]; for(int j=0;j<m;j++) for(int i=0;i<n;i++){ double s1=0,s2=0,s3=0,s4=0; for(int q=0;q<k;q++){ s1+=u_inner(&A.f[i+q*n],&B.f[q+j*k]); s2+=u_inner(&At.f[q+i*k],&B.f[q+j*k]); s3+=u_inner(&A.f[i+q*n],&Bt.f[j+q*m]); s4+=u_inner(&At.f[q+i*k],&Bt.f[j+q*m]); } w1[i+j*n]=s1;w2[i+j*n]=s2;w3[i+j*n]=s3;w4[i*m+j]=s4; }
    double Ti=T2*(1+A.f[0].ub-A.f[0].lb)*4; cmpd("qmaqma_int",qmaqma_integrate(a,b),w1,n*m,Ti);cmpd("qmatqma_int",qmatqma_integrate(at,b),w2,n*m,Ti);cmpd("qmaqmat_int",qmaqmat_integrate(a,bt),w3,n*m,Ti);cmpd("qmatqmat_int",qmatqmat_integrate(at,bt),w4,n*m,Ti); mc_steps(4);
    if(cls==ULEG||cls==UHERM){ for(int j=0;j<m;j++) for(int i=0;i<n;i++){ double s=0; for(int q=0;q<k;q++) for(int e=0;e<A.f[0].n;e++) s+=At.f[q+i*k].c[e]*Bt.f[j+q*m].c[e]; w4[i*m+j]=s; } cmpd("qmatqmat_intw",qmatqmat_integrate_weighted(at,bt),w4,n*m,Ti); mc_step(); }
    same("input",a,&A);same("input",b,&B);same("input",at,&At);same("input",bt,&Bt); mc_state(hq(mc_h0(),q1,A.f));
    qmarray_free(a);qmarray_free(b);qmarray_free(at);qmarray_free(bt);qmarray_free(q1);qmarray_free(q2);qmarray_free(q3);qmarray_free(p1);qmarray_free(p2);qmarray_free(p3);qmarray_free(p4);
}
static void kronw(const double*b,int br,int bc,const double*c,int cr,int cc,double*o){ for(int j=0;j<bc;j++) for(int i=0;i<br;i++) for(int l=0;l<cc;l++) for(int q=0;q<cr;q++) o[i*cr+q+(j*cc+l)*br*cr]=b[i+j*br]*c[q+l*cr]; }
static void b_kron(void)
{
    int cls=(int[]){ULIN,ULEG,UCONST,UCHEB}[mc_choose(4,"class")],br=1+mc_choose(3,"br"),bc=1+mc_choose(3,"bc"); mc_shard(); int cr=1+mc_choose(3,"cr"),cc=1+mc_choose(3,"cc"),r=1+mc_choose(3,"r"),pa=mc_choose(mc_thorough?NQP:3,"pattern"),pb=mc_choose(2,"pattern"),mask=mc_choose(2,"grid")?5:7; if(!mc_thorough&&r>1&&(br*bc*cr*cc)>36) mc_skip();
    RM B,C; rm_make(&B,br,bc,cls,1,mask,pa,1); rm_make(&C,cr,cc,cls,1,mask,pb,2); struct Qmarray*b=rm_build(&B),*c=rm_build(&C); double T=1e-12*(1+rm_scl(&B)*rm_scl(&C)*9);
    static double L[3*81],Rr[3*81],K[6561],w[81*81]; for(int i=0;i<3*81;i++){ L[i]=fgen(31,i,r,1); Rr[i]=fgen(32,i,r,2); }
    struct Qmarray*k=qmarray_kron(b,c),*lk=qmarray_mat_kron(r,L,b,c),*kr=qmarray_kron_mat(r,Rr,b,c); int R=br*cr,Cn=bc*cc; shape("kron",k,R,Cn);shape("mat_kron",lk,r,Cn);shape("kron_mat",kr,R,r); mc_steps(3);
    struct Qmarray*vk=qmarray_vec_kron(L,b,c); shape("vec_kron",vk,bc,cc); double*vi=qmarray_vec_kron_integrate(L,b,c); mc_steps(2);
    for(int p=0;p<npts(B.f,1);p++){ double x=ptx(B.f,p,1),wb[9],wc[9]; rm_at(&B,x,wb);rm_at(&C,x,wc); kronw(wb,br,bc,wc,cr,cc,K); cmpq("kron",k,x,K,T); mm(r,R,Cn,L,0,K,0,w);cmpq("mat_kron",lk,x,w,T); mm(R,Cn,r,K,0,Rr,0,w);cmpq("kron_mat",kr,x,w,T);
        for(int j=0;j<cc;j++) for(int i=0;i<bc;i++){ double s=0; for(int q=0;q<br;q++) for(int e=0;e<cr;e++) s+=L[q+e*br]*wb[q+i*br]*wc[e+j*cr]; w[i+j*bc]=s; }
        for(int i=0;i<bc*cc;i++) mc_cmp("vec_kron",generic_function_1d_eval(vk->funcs[i],x),w[(i/cc)+(i%cc)*bc]*0+w[i],T); }
    for(int j=0;j<cc;j++) for(int i=0;i<bc;i++){ double s=0; for(int q=0;q<br;q++) for(int e=0;e<cr;e++) s+=L[q+e*br]*u_inner(&B.f[q+i*br],&C.f[e+j*cr]); mc_cmp("vec_kron_int",vi[i+j*bc],s,T*10); } free(vi);
    double*ki=qmarray_kron_integrate(b,c); mc_step(); for(int j=0;j<bc;j++) for(int i=0;i<br;i++) for(int l=0;l<cc;l++) for(int q=0;q<cr;q++) mc_cmp("kron_int",ki[i*cr+q+(j*cc+l)*R],u_inner(&B.f[i+j*br],&C.f[q+l*cr]),T*10); free(ki);
    if(cls==ULEG){ ki=qmarray_kron_integrate_weighted(b,c); vi=qmarray_vec_kron_integrate_weighted(L,b,c); mc_steps(2); for(int j=0;j<bc;j++) for(int l=0;l<cc;l++){ double v=0; for(int i=0;i<br;i++) for(int q=0;q<cr;q++){ double s=0; for(int e=0;e<B.f[0].n;e++) s+=B.f[i+j*br].c[e]*C.f[q+l*cr].c[e]; mc_cmp("kron_intw",ki[i*cr+q+(j*cc+l)*R],s,T*10); v+=L[i+q*br]*s; } mc_cmp("vec_kron_intw",vi[j+l*bc],v,T*10); } free(ki);free(vi); }
    same("input",b,&B);same("input",c,&C); mc_state(hq(mc_h0(),k,B.f)); qmarray_free(b);qmarray_free(c);qmarray_free(k);qmarray_free(lk);qmarray_free(kr);qmarray_free(vk);
}
static void b_blockkron(void)
{
    int cls=mc_choose(2,"class")?ULEG:ULIN,type=mc_choose(3,"type"),left=mc_choose(2,"left"),nb=1+mc_choose(3,"blocks"); mc_shard(); int rr=1+mc_choose(2,"right rows"),rc=1+mc_choose(2,"right cols"),r=1+mc_choose(2,"r"),br[3],bc[3]; char ty="DRC"[type];
    for(int i=0;i<nb;i++){ br[i]=type==1&&i?br[0]:1+mc_choose(2,"block rows"); bc[i]=type==2&&i?bc[0]:1+mc_choose(2,"block cols"); }
    RM B[3],G; struct Qmarray*bl[3]; int tr=0,tc=0; for(int i=0;i<nb;i++){ rm_make(&B[i],br[i],bc[i],cls,0,5,i%2?QGEN2:QGEN,i*3); bl[i]=rm_build(&B[i]); if(type==1){ tr=br[0]; tc+=bc[i]; } else if(type==2){ tr+=br[i]; tc=bc[0]; } else { tr+=br[i]; tc+=bc[i]; } }
    rm_make(&G,rr,rc,cls,0,5,QGEN,40); struct Qmarray*g=rm_build(&G); static double M[2*12*4]; for(int i=0;i<96;i++) M[i]=fgen(17,i,tr,tc);
    struct Qmarray*o=left?qmarray_alloc(r,tc*rc):qmarray_alloc(tr*rr,r); qmarray_block_kron_mat(ty,left,nb,bl,g,r,M,o); mc_step(); mc_note("%c left=%d",ty,left);
    shape("block",o,left?r:tr*rr,left?tc*rc:r);
    for(int p=0;p<npts(G.f,1);p++){ double x=ptx(G.f,p,1),blk[36]={0},t[9],wg[9],K[36*16],w[200]; int a0=0,b0=0; for(int i=0;i<nb;i++){ rm_at(&B[i],x,t); for(int j=0;j<bc[i];j++) for(int q=0;q<br[i];q++) blk[(a0+q)+(b0+j)*tr]=t[q+j*br[i]]; if(type!=1) a0+=br[i]; if(type!=2) b0+=bc[i]; }
        rm_at(&G,x,wg); kronw(blk,tr,tc,wg,rr,rc,K); if(left) mm(r,tr*rr,tc*rc,M,0,K,0,w); else mm(tr*rr,tc*rc,r,K,0,M,0,w); cmpq("block_kron",o,x,w,1e-10); }
    mc_state(hq(mc_h0(),o,G.f)); for(int i=0;i<nb;i++){ same("input",bl[i],&B[i]); qmarray_free(bl[i]); } same("input",g,&G); qmarray_free(g);qmarray_free(o);
}
/* independent inner product of two library functions that live in the space of f */
static double ginner(const struct GenericFunction*a,const struct GenericFunction*b,const RF*f)
{
    if(f->cls==ULIN||f->cls==UCONST){ double s=0; for(int i=0;i<f->n;i++){ double w=0.5*((i<f->n-1?f->x[i+1]-f->x[i]:0)+(i?f->x[i]-f->x[i-1]:0)); s+=w*generic_function_1d_eval(a,f->x[i])*generic_function_1d_eval(b,f->x[i]); } return s; }
    if(f->cls==UHERM){ double p[UMAX]={0},q[UMAX]={0}; generic_function_get_params(a,p);generic_function_get_params(b,q); int n=generic_function_get_num_params(a),m=generic_function_get_num_params(b); double s=0; for(int i=0;i<n&&i<m;i++) s+=p[i]*q[i]; return s; }
    const double*X=u_gl(0),*W=u_gl(1); double s=0; for(int i=0;i<40;i++){ double x=f->lb+(X[i]+1)/2*(f->ub-f->lb); s+=W[i]*generic_function_1d_eval(a,x)*generic_function_1d_eval(b,x); } return s*(f->ub-f->lb);
}
static void colorth(const char*s,const struct Qmarray*q,const RF*f,double t){ int n=q->nrows,c=q->ncols; for(int i=0;i<c;i++) for(int j=0;j<=i;j++){ double v=0; for(int k=0;k<n;k++) v+=ginner(q->funcs[k+i*n],q->funcs[k+j*n],f); mc_cmp(s,v,i==j,t); } }
static void roworth(const char*s,const struct Qmarray*q,const RF*f,double t){ int n=q->nrows,c=q->ncols; for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ double v=0; for(int k=0;k<c;k++) v+=ginner(q->funcs[i+k*n],q->funcs[j+k*n],f); mc_cmp(s,v,i==j,t); } }
static void isprod(const char*s,const struct Qmarray*q,const double*R,int left,const RM*A,double t)
{ double wa[NE],wq[NE],w[NE]; for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A->f[0].lb,A->f[0].ub); rm_at(A,x,wa); for(size_t i=0;i<q->nrows*q->ncols;i++) wq[i]=generic_function_1d_eval(q->funcs[i],x); if(left) mm(A->r,q->nrows,A->c,R,0,wq,0,w); else mm(A->r,q->ncols,A->c,wq,0,R,0,w); for(int i=0;i<A->r*A->c;i++) mc_cmp(s,w[i],wa[i],t); } }
static void tri(const char*s,const double*R,int n,int upper){ for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(upper?i>j:i<j) mc_cmp(s,R[i+j*n],0,1e-13); }
static void b_qr(void)
{
    int cls=(int[]){ULIN,ULEG,UCHEB,UHERM,UCONST,UKER}[mc_choose(6,"class")],r=1+mc_choose(4,"rows"),c=1+mc_choose(4,"cols"); mc_shard(); int mask=mc_choose(2,"grid")?5:7,pat=mc_choose(NQP,"pattern"),dom=cls==UHERM?0:mc_choose(3,"domain"); int sc=mc_choose(3,"scale"); if(sc&&!mc_thorough&&dom==2) mc_skip();
    RM A; RMN=4; rm_make(&A,r,c,cls,dom,mask,pat,1); RMN=0; for(int i=0;i<r*c;i++) uscale(sc==1?1e-4:sc==2?1e5:1,&A.f[i]);
    int ns=A.f[0].n; if(c>ns) mc_skip(); double S=sc==1?1e-4:sc==2?1e5:1,S0=S; S=S*(1+rm_scl(&A)/S)*r*c; double TO=cls==UKER?1e-7:1e-9,TP=(cls==UKER?1e-7:1e-9)*S; if(cls==UCHEB||cls==UKER||cls==UCONST){ TO*=10; }
    mc_note("%s %s",UNAME[cls],QPN[pat]); mc_key("%s-%s",UNAME[cls],QPN[pat]); void*u=uopts(&A.f[0]); struct OneApproxOpts*oo=one_approx_opts_alloc(UFC[cls],u); struct Qmarray*a=rm_build(&A);
    int meth=mc_choose(10,"method"); double*R=calloc(16,sizeof(double)); int nn=c;
    if(meth==1||meth==3||meth==5||meth==7) nn=r; if(nn>ns) mc_skip(); R=realloc(R,nn*nn*sizeof(double));
    (void)S0;
    if(meth==0){ struct Qmarray*q=qmarray_householder_simple("QR",a,R,oo); mc_step(); shape("hs-QR",q,r,c); colorth("hs-QR-orth",q,A.f,TO); isprod("hs-QR",q,R,0,&A,TP); tri("hs-R",R,c,1); qmarray_free(q); }
    if(meth==1){ struct Qmarray*q=qmarray_householder_simple("LQ",a,R,oo); mc_step(); shape("hs-LQ",q,r,c); roworth("hs-LQ-orth",q,A.f,TO); isprod("hs-LQ",q,R,1,&A,TP); tri("hs-L",R,r,0); qmarray_free(q); }
    if(meth==2){ struct Qmarray*q=NULL; double*rr=NULL; mc_expect("qr-ret",qmarray_qr(a,&q,&rr,oo)==0,"return"); mc_step(); shape("qr",q,r,c); colorth("qr-orth",q,A.f,TO); isprod("qr",q,rr,0,&A,TP); tri("qr-R",rr,c,1); qmarray_free(q); free(rr); }
    if(meth==3){ struct Qmarray*q=NULL; double*rr=NULL; mc_expect("lq-ret",qmarray_lq(a,&q,&rr,oo)==0,"return"); mc_step(); shape("lq",q,r,c); roworth("lq-orth",q,A.f,TO); isprod("lq",q,rr,1,&A,TP); tri("lq-L",rr,r,0); qmarray_free(q); free(rr); }
    if(meth==4){ struct Qmarray*q=qmarray_orth1d_columns(r,c,oo),*V=qmarray_alloc(r,c); colorth("orth1d-cols",q,A.f,TO); qmarray_householder(a,q,V,R); qmarray_qhouse(q,V); mc_steps(3); colorth("house-orth",q,A.f,TO); isprod("house",q,R,0,&A,TP); qmarray_free(q);qmarray_free(V); }
    if(meth==5){ struct Qmarray*q=qmarray_orth1d_rows(r,c,oo),*V=qmarray_alloc(r,c); roworth("orth1d-rows",q,A.f,TO); qmarray_householder_rows(a,q,V,R); qmarray_qhouse_rows(q,V); mc_steps(3); roworth("houser-orth",q,A.f,TO); isprod("houser",q,R,1,&A,TP); qmarray_free(q);qmarray_free(V); }
    if(meth==6||meth==7){ if((pat!=QGEN&&pat!=QGEN2)||sc) mc_skip(); if(cls==UKER) TO=1e-5; double*rr=NULL; int e=meth==6?qmarray_qr_gs(a,&rr):qmarray_lq_gs(a,&rr); mc_step(); mc_expect("gs-ret",e==0,"return"); if(meth==6){ colorth("qr_gs-orth",a,A.f,1e-6); isprod("qr_gs",a,rr,0,&A,TP*10); tri("gs-R",rr,c,1); } else { roworth("lq_gs-orth",a,A.f,1e-6); isprod("lq_gs",a,rr,1,&A,TP*10); tri("gs-L",rr,r,0); } free(rr); }
    if(meth==8){ struct Qmarray*U=NULL; double lam[4],vt[16]; mc_expect("svd-ret",qmarray_svd(a,&U,lam,vt,oo)==0,"return"); mc_step(); shape("svd",U,r,c); colorth("svd-orth",U,A.f,TO); for(int i=0;i<c;i++){ mc_expect("svd-pos",lam[i]>=0&&(i==0||lam[i]<=lam[i-1]),"singular values not sorted/nonnegative"); for(int j=0;j<=i;j++){ double s=0; for(int k=0;k<c;k++) s+=vt[i+k*c]*vt[j+k*c]; mc_cmp("svd-vt",s,i==j,1e-12); } } double M[16]; for(int i=0;i<c;i++) for(int j=0;j<c;j++) M[i+j*c]=lam[i]*vt[i+j*c]; isprod("svd",U,M,0,&A,TP); qmarray_free(U); }
    if(meth==9){ /* truncation: squared Frobenius tail below delta, smallest such rank */
        double G[16],n2=0; for(int i=0;i<r*c;i++) n2+=u_inner(&A.f[i],&A.f[i]); (void)G; int e=mc_choose(5,"delta"); double delta=(double[]){0,1e-20,0.05,0.5,2}[e]*n2; if(e==1) delta=1e-22*(1+n2);
        struct Qmarray*U=NULL; double*lam=NULL,*vt=NULL; size_t k=qmarray_truncated_svd(a,&U,&lam,&vt,delta,oo); mc_step(); mc_expect("tsvd-rank",k>=1&&k<=(size_t)c,"rank %zu",k); shape("tsvd",U,r,k); colorth("tsvd-orth",U,A.f,TO);
        double err=0; for(int j=0;j<c;j++) for(int i=0;i<r;i++){ /* ||a - U S Vt||^2 */ struct GenericFunction*g=ubuild(&A.f[i+j*r]); for(size_t q=0;q<k;q++) generic_function_axpy(-lam[q]*vt[q+j*k],U->funcs[i+q*r],g); err+=ginner(g,g,A.f); generic_function_free(g); }
        mc_expect("tsvd-err",err<=delta+1e-12*n2*(cls==UKER?1e4:1)+1e-20,"squared error %g > %g",err,delta); double full=0; for(size_t q=0;q<k;q++) full+=lam[q]*lam[q]; mc_cmp("tsvd-energy",full+err,n2,1e-9*n2*(cls==UKER?1e3:1)+1e-20);
        if(k>1&&delta>0) mc_expect("tsvd-min",err+lam[k-1]*lam[k-1]>=delta*(1-1e-9)-1e-12*n2*(cls==UKER?1e4:1),"rank %zu is not minimal",k);
        for(size_t q=1;q<k;q++) mc_expect("tsvd-sort",lam[q]<=lam[q-1],"order"); mc_state(mc_hu(mc_h0(),k*100+c)); qmarray_free(U);free(lam);free(vt); }
    mc_state(mc_hda(mc_hu(mc_h0(),meth*10+cls),meth<6?nn*nn:1,R)); free(R); qmarray_free(a); one_approx_opts_free(oo); uopts_free(cls,u);
}
/* LU with complete pivoting and maximum volume selection */
static void b_lu(void)
{
    int cls=(int[]){ULIN,UCONST,ULEG}[mc_choose(3,"class")],r=1+mc_choose(4,"rows"),c=1+mc_choose(3,"cols"); mc_shard(); int mask=(int[]){7,5,0,2}[mc_choose(4,"grid")],pat=mc_choose(NQP,"pattern"),dom=mc_choose(3,"domain"),salt=mc_choose(mc_thorough?12:4,"salt");
    RM A; RMN=4; rm_make(&A,r,c,cls,dom,mask,pat,salt); RMN=0; if(c>r*A.f[0].n||(c>A.f[0].n&&pat!=QGEN&&pat!=QGEN2)) mc_skip(); mc_note("%s %s",UNAME[cls],QPN[pat]); mc_key("%s-%s",UNAME[cls],QPN[pat]); int piece=cls!=ULEG; double S=rm_scl(&A)+0.01;
    void*u=uopts(&A.f[0]); struct OneApproxOpts*oo=one_approx_opts_alloc(UFC[cls],u); struct Qmarray*a=rm_build(&A),*L=qmarray_alloc(r,c); double U[9],px[3]; size_t pv[3]; for(int i=0;i<9;i++) U[i]=NAN;
    int full=pat==QGEN||pat==QGEN2;
    int info=qmarray_lu1d(a,L,U,pv,px,oo,NULL); mc_step(); shape("lu",L,r,c); int z=0; for(int k=0;k<c;k++){ mc_expect("lu-piv",pv[k]<(size_t)r&&px[k]>=A.f[0].lb-1e-12&&px[k]<=A.f[0].ub+1e-12,"pivot %d (%zu,%g) outside",k,pv[k],px[k]); if(fabs(U[k*c+k])<1e-10*S) z++; }
    if(info!=-z) mc_fail("lu-info","info %d with %d zero diagonal entries",info,z); if(full) mc_expect("lu-full",info==0,"generic matrix reported singular");
    isprod("lu",L,U,0,&A,1e-10*S*(piece?1:10)); for(int i=0;i<c;i++) for(int j=0;j<i;j++) mc_cmp("lu-U",U[j*c+i],0,1e-11*S);
    for(int k=0;k<c;k++) for(int j=0;j<=k;j++) mc_cmp("lu-L",generic_function_1d_eval(L->funcs[pv[j]+k*r],px[j]),j==k,1e-9); 
    for(int k=0;k<c;k++) for(int i=0;i<r;i++) for(int p=0;p<UNP;p++){ double v=generic_function_1d_eval(L->funcs[i+k*r],umap(UPT[p],A.f[0].lb,A.f[0].ub)); mc_expect("lu-max",fabs(v)<=1+(piece?1e-11:1e-3),"|L| = %g > 1: pivot was not the maximum",v); }
    qmarray_free(a);qmarray_free(L);
    a=rm_build(&A); double Ai[9],pm[3]; size_t qm[3]; int e=qmarray_maxvol1d(a,Ai,qm,pm,oo,NULL); mc_step(); mc_expect("maxvol-ret",e==-z||e==0,"return %d",e); same("maxvol-input",a,&A);
    for(int k=0;k<c;k++){ mc_expect("maxvol-piv",qm[k]<(size_t)r&&pm[k]>=A.f[0].lb-1e-12&&pm[k]<=A.f[0].ub+1e-12,"pivot %d (%zu,%g)",k,qm[k],pm[k]); for(int j=0;j<k;j++) mc_expect("maxvol-dup",qm[j]!=qm[k]||fabs(pm[j]-pm[k])>1e-13,"pivots %d and %d coincide",j,k); }
    if(full){ double P[9],w[9]; for(int i=0;i<c;i++) for(int j=0;j<c;j++) P[i+j*c]=ueval(&A.f[qm[i]+j*r],pm[i]); mm(c,c,c,P,0,Ai,0,w); for(int i=0;i<c;i++) for(int j=0;j<c;j++) mc_cmp("maxvol-inv",w[i+j*c],i==j,1e-8);
        for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[12]; rm_at(&A,x,wa); double B[12]; mm(r,c,c,wa,0,Ai,0,B); for(int i=0;i<r*c;i++) mc_expect("maxvol",fabs(B[i])<=1.03,"|A inv(A_piv)| = %g at x=%g: submatrix is not of (nearly) maximal volume",B[i],x); } }
    mc_state(mc_hda(mc_hu(mc_h0(),cls*10+r),c,pm)); qmarray_free(a); one_approx_opts_free(oo); uopts_free(cls,u);
}
/* quasimatrices (rows of functions) */
static void b_quasi(void)
{
    int cls=mc_choose(6,"class"),n=1+mc_choose(4,"n"); mc_shard(); int mask=(int[]){7,5,0,2}[mc_choose(4,"grid")],pat=mc_choose(NQP,"pattern"),dom=cls==UHERM?0:mc_choose(3,"domain"),b=1+mc_choose(3,"cols"); mc_note("%s %s",UNAME[cls],QPN[pat]);
    RM A,B; RMN=4; rm_make(&A,1,n,cls,dom,mask,pat,2); rm_make(&B,1,n,cls,dom,mask,QGEN2,6); RMN=0; double S=rm_scl(&A)+rm_scl(&B)+1;
    struct Quasimatrix*a=quasimatrix_alloc(n),*g=quasimatrix_alloc(n); for(int i=0;i<n;i++){ struct GenericFunction*f=ubuild(&A.f[i]); quasimatrix_set_func(a,f,i); quasimatrix_set_func(a,f,i); generic_function_scale(9,f); generic_function_free(f); f=ubuild(&B.f[i]); quasimatrix_set_func(g,f,i); generic_function_free(f); }
    double R[16],v[4]; for(int i=0;i<16;i++) R[i]=fgen(7,i,n,b); for(int i=0;i<4;i++) v[i]=fgen(9,i,n,1);
    struct Quasimatrix*c=quasimatrix_copy(a),*m1=qmm(a,R,b),*m2=qmmt(a,R,b),*d=quasimatrix_daxpby(0.5,a,-2,g),*d1=quasimatrix_daxpby(0.5,a,3,NULL),*d2=quasimatrix_daxpby(3,NULL,-2,g); struct GenericFunction*f=qmv(a,v); mc_steps(7);
    mc_expect("size",quasimatrix_get_size(c)==(size_t)n&&quasimatrix_get_size(m1)==(size_t)b&&quasimatrix_get_size(m2)==(size_t)b&&quasimatrix_get_size(d)==(size_t)n,"sizes"); mc_expect("daxpby-null",quasimatrix_daxpby(1,NULL,1,NULL)==NULL,"both NULL");
    for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[4],wb[4],s=0,t=1e-12*S*4; rm_at(&A,x,wa);rm_at(&B,x,wb); for(int i=0;i<n;i++){ mc_cmp("copy",generic_function_1d_eval(quasimatrix_get_func(c,i),x),wa[i],t); mc_cmp("daxpby",generic_function_1d_eval(quasimatrix_get_func(d,i),x),0.5*wa[i]-2*wb[i],t); mc_cmp("daxpby-x",generic_function_1d_eval(quasimatrix_get_func(d1,i),x),0.5*wa[i],t); mc_cmp("daxpby-y",generic_function_1d_eval(quasimatrix_get_func(d2,i),x),-2*wb[i],t); s+=v[i]*wa[i]; }
        mc_cmp("qmv",generic_function_1d_eval(f,x),s,t); for(int j=0;j<b;j++){ double s1=0,s2=0; for(int i=0;i<n;i++){ s1+=wa[i]*R[i+j*n]; s2+=wa[i]*R[i*b+j]; } mc_cmp("qmm",generic_function_1d_eval(quasimatrix_get_func(m1,j),x),s1,t); mc_cmp("qmmt",generic_function_1d_eval(quasimatrix_get_func(m2,j),x),s2,t); } }
    double in=0,nn=0; for(int i=0;i<n;i++){ in+=u_inner(&A.f[i],&B.f[i]); nn+=u_inner(&A.f[i],&A.f[i]); } mc_cmp("inner",quasimatrix_inner(a,g),in,1e-11*S*S*n); mc_cmp("inner",quasimatrix_inner(g,a),in,1e-11*S*S*n); mc_cmp("norm",pow(quasimatrix_norm(a),2),nn,1e-11*S*S*n); mc_steps(3);
    if(cls==ULIN||cls==UCONST||cls==ULEG){ double loc,val,best=0; size_t q=quasimatrix_absmax(a,&loc,&val,NULL); mc_step(); for(int i=0;i<n;i++) for(int p=0;p<UNP;p++) best=fmax(best,fabs(ueval(&A.f[i],umap(UPT[p],A.f[i].lb,A.f[i].ub)))); mc_expect("absmax",q<(size_t)n&&val>=best-1e-9*S&&fabs(fabs(ueval(&A.f[q],loc))-val)<=1e-9*S,"absmax %g at (%zu,%g), value there %g, larger value %g exists",val,q,loc,q<(size_t)n?ueval(&A.f[q],loc):0,best); }
    int ns=A.f[0].n; if(n<=ns&&n>0){ void*u=uopts(&A.f[0]); double*R2=calloc(n*n,sizeof(double)); struct Quasimatrix*ac=quasimatrix_copy(a); struct Quasimatrix*q=quasimatrix_householder_simple(ac,R2,u); mc_step(); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) mc_cmp("qr-orth",ginner(quasimatrix_get_func(q,i),quasimatrix_get_func(q,j),A.f),i==j,cls==UKER?1e-6:1e-8);
        for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); for(int j=0;j<n;j++){ double s=0; for(int i=0;i<n;i++) s+=generic_function_1d_eval(quasimatrix_get_func(q,i),x)*R2[i+j*n]; mc_cmp("qr",s,ueval(&A.f[j],x),(cls==UKER?1e-7:1e-9)*S*4); } } tri("qr-R",R2,n,1); quasimatrix_free(q); quasimatrix_free(ac); free(R2);
        if(cls==ULEG){ int rk=pat==QZERO?0:pat==QDUPC?1:pat==QZCOL?n-1:pat==QCOMB&&n>1?n-1:n; if(pat==QUNIT) rk=n; size_t got=quasimatrix_rank(a,u); mc_step(); mc_expect("rank",got==(size_t)rk,"rank %zu, expected %d",got,rk); }
        if((cls==ULEG||cls==ULIN)&&(pat==QGEN||pat==QGEN2)){ double U[16],p0[4],Ai[16]; struct Quasimatrix*al=quasimatrix_copy(a),*L=quasimatrix_alloc(n); int info=quasimatrix_lu1d(al,L,U,p0,u,NULL); mc_step(); mc_expect("lu-info",info==0,"info %d",info); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); for(int j=0;j<n;j++){ double s=0; for(int i=0;i<n;i++) s+=generic_function_1d_eval(quasimatrix_get_func(L,i),x)*U[i+j*n]; mc_cmp("lu",s,ueval(&A.f[j],x),1e-9*S); } } quasimatrix_free(al);quasimatrix_free(L);
            info=quasimatrix_maxvol1d(a,Ai,p0,u,NULL); mc_step(); mc_expect("maxvol-info",info==0,"info %d",info); double P[16],w[16]; for(int i=0;i<n;i++) for(int j=0;j<n;j++) P[i+j*n]=ueval(&A.f[j],p0[i]); mm(n,n,n,P,0,Ai,0,w); for(int i=0;i<n*n;i++) mc_cmp("maxvol-inv",w[i],i%n==i/n,1e-8); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[4],B2[4]; rm_at(&A,x,wa); mm(1,n,n,wa,0,Ai,0,B2); for(int i=0;i<n;i++) mc_expect("maxvol",fabs(B2[i])<=1.011,"|A inv| = %g",B2[i]); } }
        uopts_free(cls,u); }
    for(int i=0;i<n;i++) ucheck("unchanged",quasimatrix_get_func(a,i),&A.f[i]);
    mc_state(uhash(mc_hu(mc_h0(),n),f,A.f[0].lb,A.f[0].ub)); quasimatrix_free(a);quasimatrix_free(g);quasimatrix_free(c);quasimatrix_free(m1);quasimatrix_free(m2);quasimatrix_free(d);quasimatrix_free(d1);quasimatrix_free(d2);generic_function_free(f);
}
/* the same factorizations at other magnitudes: the input multiplied by a power of two, tolerances relative to it */
static void b_scaled(void)
{
    int cls=(int[]){ULIN,UCONST,ULEG}[mc_choose(3,"class")],r=1+mc_choose(4,"rows"),c=1+mc_choose(3,"cols"); mc_shard(); int mask=(int[]){7,5,2}[mc_choose(3,"grid")],pat=mc_choose(2,"pattern")?QCOMB:QGEN,dom=mc_choose(2,"domain"),e=(int[]){-32,-24,-17,-10,-4,8,20,33,60}[mc_choose(9,"exponent")],meth=mc_choose(11,"method");
    if(cls==ULEG&&e<0) mc_skip(); RM A; RMN=4; rm_make(&A,r,c,cls,dom,mask,pat,1); RMN=0; int ns=A.f[0].n; if(c>ns||(pat==QCOMB&&c<2)) mc_skip(); double sc=ldexp(1,e),S=rm_scl(&A)+0.01; for(int i=0;i<r*c;i++) uscale(sc,&A.f[i]); mc_key("%s-e%d-m%d",UNAME[cls],e,meth);
    if((pat==QCOMB)&&meth>=4) mc_skip(); void*u=uopts(&A.f[0]); struct OneApproxOpts*oo=one_approx_opts_alloc(UFC[cls],u); struct Qmarray*a=rm_build(&A); double TO=cls==UCONST?1e-8:1e-9,TP=1e-9*S*sc*r*c,R[16]={0}; uint64_t h=mc_h0();
    if((meth==1||meth==3)&&r>ns) mc_skip();
    if(meth==0){ struct Qmarray*q=qmarray_householder_simple("QR",a,R,oo); colorth("s-hs-QR-orth",q,A.f,TO); isprod("s-hs-QR",q,R,0,&A,TP); h=mc_hda(h,c*c,R); qmarray_free(q); }
    if(meth==1){ struct Qmarray*q=qmarray_householder_simple("LQ",a,R,oo); roworth("s-hs-LQ-orth",q,A.f,TO); isprod("s-hs-LQ",q,R,1,&A,TP); h=mc_hda(h,r*r,R); qmarray_free(q); }
    if(meth==2){ struct Qmarray*q=NULL; double*rr=NULL; qmarray_qr(a,&q,&rr,oo); colorth("s-qr-orth",q,A.f,TO); isprod("s-qr",q,rr,0,&A,TP); qmarray_free(q); free(rr); }
    if(meth==3){ struct Qmarray*q=NULL; double*rr=NULL; qmarray_lq(a,&q,&rr,oo); roworth("s-lq-orth",q,A.f,TO); isprod("s-lq",q,rr,1,&A,TP); qmarray_free(q); free(rr); }
    if(meth==4||meth==5){ double n2=0; for(int i=0;i<r*c;i++) n2+=u_inner(&A.f[i],&A.f[i]); double delta=meth==4?0:0.05*n2; struct Qmarray*U=NULL; double*lam=NULL,*vt=NULL; size_t k=qmarray_truncated_svd(a,&U,&lam,&vt,delta,oo); shape("s-tsvd",U,r,k); colorth("s-tsvd-orth",U,A.f,TO); h=mc_hda(h,k,lam);
        double full=0,err=0; for(int j=0;j<c;j++) for(int i=0;i<r;i++){ struct GenericFunction*g=ubuild(&A.f[i+j*r]); for(size_t q=0;q<k;q++) generic_function_axpy(-lam[q]*vt[q+j*k],U->funcs[i+q*r],g); err+=ginner(g,g,A.f); generic_function_free(g); } for(size_t q=0;q<k;q++) full+=lam[q]*lam[q]; mc_cmp("s-tsvd-energy",(full+err)/n2,1,1e-9); mc_expect("s-tsvd-err",err<=delta+1e-12*n2,"squared error %g of %g",err,n2); if(k>1&&delta>0) mc_expect("s-tsvd-min",err+lam[k-1]*lam[k-1]>=delta*(1-1e-9),"rank %zu is not minimal",k); qmarray_free(U);free(lam);free(vt); }
    if(meth==6||meth==7){ if(c>r*ns) mc_skip(); double U[9],px[3]; size_t pv[3]; if(meth==6){ struct Qmarray*L=qmarray_alloc(r,c); int info=qmarray_lu1d(a,L,U,pv,px,oo,NULL); mc_expect("s-lu-info",info==0,"info %d",info); isprod("s-lu",L,U,0,&A,1e-9*S*sc); for(int k=0;k<c;k++) for(int j=0;j<=k;j++) mc_cmp("s-lu-L",generic_function_1d_eval(L->funcs[pv[j]+k*r],px[j]),j==k,1e-9); h=mc_hda(h,c*c,U); qmarray_free(L); }
        else { int info=qmarray_maxvol1d(a,U,pv,px,oo,NULL); mc_expect("s-maxvol-info",info==0,"info %d",info); double P[9],w[9]; for(int i=0;i<c;i++) for(int j=0;j<c;j++) P[i+j*c]=ueval(&A.f[pv[i]+j*r],px[i]); mm(c,c,c,P,0,U,0,w); for(int i=0;i<c*c;i++) mc_cmp("s-maxvol-inv",w[i],i%c==i/c,1e-8); h=mc_hda(h,c*c,U); } }
    if(meth==8){ double n2=0; for(int i=0;i<r*c;i++) n2+=u_inner(&A.f[i],&A.f[i]); mc_cmp("s-norm2",qmarray_norm2(a)/sqrt(n2),1,1e-11); struct Qmarray*b=qmarray_copy(a); for(int i=0;i<r*c;i++) generic_function_scale(ldexp(1,-e),b->funcs[i]); for(int i=0;i<r*c;i++) for(int p=0;p<UNP;p+=3){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); mc_cmp("s-scale",generic_function_1d_eval(b->funcs[i],x),ldexp(ueval(&A.f[i],x),-e),1e-12*S); } double dd=qmarray_norm2diff(a,b); mc_cmp("s-norm2diff",dd/sqrt(n2),fabs(1-ldexp(1,-e)),1e-10*(1+ldexp(1,-e))); qmarray_free(b); }
    if(meth==9||meth==10){ if(r>1) mc_skip(); struct Quasimatrix*q=quasimatrix_alloc(c); for(int i=0;i<c;i++) quasimatrix_set_func(q,a->funcs[i],i); struct GenericFunction**z=NULL; (void)z;
        if(meth==9){ double n2=0; for(int i=0;i<c;i++) n2+=u_inner(&A.f[i],&A.f[i]); mc_cmp("s-q-norm",quasimatrix_norm(q)/sqrt(n2),1,1e-11); struct Quasimatrix*Q=quasimatrix_householder_simple(q,R,u); for(int i=0;i<c;i++) for(int j=0;j<=i;j++) mc_cmp("s-q-orth",ginner(quasimatrix_get_func(Q,i),quasimatrix_get_func(Q,j),A.f),i==j,TO); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); for(int j=0;j<c;j++){ double s=0; for(int i=0;i<c;i++) s+=generic_function_1d_eval(quasimatrix_get_func(Q,i),x)*R[i+j*c]; mc_cmp("s-q-qr",s/sc,ueval(&A.f[j],x)/sc,1e-9*S*c); } } quasimatrix_free(Q); }
        else { double U[9],p0[3]; int info=quasimatrix_maxvol1d(q,U,p0,u,NULL); mc_expect("s-q-maxvol",info==0,"info %d",info); double P[9],w[9]; for(int i=0;i<c;i++) for(int j=0;j<c;j++) P[i+j*c]=ueval(&A.f[j],p0[i]); mm(c,c,c,P,0,U,0,w); for(int i=0;i<c*c;i++) mc_cmp("s-q-maxvol-inv",w[i],i%c==i/c,1e-8); } quasimatrix_free(q); }
    mc_step(); mc_state(mc_hu(h,meth*100+cls)); qmarray_free(a); one_approx_opts_free(oo); uopts_free(cls,u);
}
/* larger matrices of functions on larger grids */
static void rm_big(RM*m,int r,int c,int cls,int dom,int n,int salt){ m->r=r; m->c=c; for(int q=0;q<r*c;q++){ RF*f=&m->f[q]; bgrid(f,cls,dom,n,salt%2); for(int i=0;i<f->n;i++) f->c[i]=fgen(salt*5+40,q,i,r*20+c)/(cls>=ULEG?1+i:1); } }
static void b_big(void)
{
    static const int SZ[][3]={{8,6,20},{5,9,24},{12,3,9},{1,10,31},{10,1,14},{7,7,12},{2,6,6},{3,12,13}}; int cls=(int[]){ULIN,UCONST,ULEG}[mc_choose(3,"class")],z=mc_choose(8,"size"); mc_shard(); int dom=mc_choose(3,"domain"),salt=mc_choose(mc_thorough?8:3,"values"),meth=mc_choose(9,"method"),r=SZ[z][0],c=SZ[z][1],n=SZ[z][2]; if(cls==ULEG&&n>12) n=12;
    static RM A,B,At,Bt; rm_big(&A,r,c,cls,dom,n,2*salt); void*u=uopts(&A.f[0]); struct OneApproxOpts*oo=one_approx_opts_alloc(UFC[cls],u); struct Qmarray*a=rm_build(&A); int ns=A.f[0].n; double S=rm_scl(&A)+0.01,TO=cls==UCONST?1e-8:1e-9,TP=1e-9*S*r*c; double*R=calloc(NE,sizeof(double)); uint64_t h=mc_h0(); mc_key("big %s m%d",UNAME[cls],meth);
    if(meth==0){ if(c>ns) mc_skip(); struct Qmarray*q=qmarray_householder_simple("QR",a,R,oo); shape("b-QR",q,r,c); colorth("b-QR-orth",q,A.f,TO); isprod("b-QR",q,R,0,&A,TP); tri("b-R",R,c,1); h=mc_hda(h,c*c,R); qmarray_free(q); }
    if(meth==1){ if(r>ns) mc_skip(); struct Qmarray*q=qmarray_householder_simple("LQ",a,R,oo); shape("b-LQ",q,r,c); roworth("b-LQ-orth",q,A.f,TO); isprod("b-LQ",q,R,1,&A,TP); tri("b-L",R,r,0); h=mc_hda(h,r*r,R); qmarray_free(q); }
    if(meth==2||meth==3){ if(c>ns) mc_skip(); double n2=0; for(int i=0;i<r*c;i++) n2+=u_inner(&A.f[i],&A.f[i]); double delta=meth==2?0:0.1*n2; struct Qmarray*U=NULL; double*lam=NULL,*vt=NULL; size_t k=qmarray_truncated_svd(a,&U,&lam,&vt,delta,oo); shape("b-tsvd",U,r,k); colorth("b-tsvd-orth",U,A.f,TO); h=mc_hda(h,k,lam);
        double full=0,err=0; for(int j=0;j<c;j++) for(int i=0;i<r;i++){ struct GenericFunction*g=ubuild(&A.f[i+j*r]); for(size_t q=0;q<k;q++) generic_function_axpy(-lam[q]*vt[q+j*k],U->funcs[i+q*r],g); err+=ginner(g,g,A.f); generic_function_free(g); } for(size_t q=0;q<k;q++){ full+=lam[q]*lam[q]; if(q) mc_expect("b-tsvd-sort",lam[q]<=lam[q-1],"order"); } mc_cmp("b-tsvd-energy",(full+err)/n2,1,1e-9); mc_expect("b-tsvd-err",err<=delta+1e-12*n2,"squared error %g of %g",err,n2); if(k>1&&delta>0) mc_expect("b-tsvd-min",err+lam[k-1]*lam[k-1]>=delta*(1-1e-9),"rank %zu is not minimal",k); qmarray_free(U);free(lam);free(vt); }
    if(meth==4){ if(c>r*ns) mc_skip(); double px[12]; size_t pv[12]; struct Qmarray*L=qmarray_alloc(r,c); int info=qmarray_lu1d(a,L,R,pv,px,oo,NULL); mc_expect("b-lu-info",info==0,"info %d",info); isprod("b-lu",L,R,0,&A,1e-8*S); for(int k=0;k<c;k++) for(int j=0;j<=k;j++) mc_cmp("b-lu-L",generic_function_1d_eval(L->funcs[pv[j]+k*r],px[j]),j==k,1e-8); for(int k=0;k<c;k++) for(int i=0;i<r;i++) for(int p=0;p<UNP;p++){ double v=generic_function_1d_eval(L->funcs[i+k*r],umap(UPT[p],A.f[0].lb,A.f[0].ub)); mc_expect("b-lu-max",fabs(v)<=1+(cls!=ULEG?1e-9:1e-3),"|L| = %g > 1: pivot was not the maximum",v); } h=mc_hda(h,c,px); qmarray_free(L); }
    if(meth==5){ if(c>r*ns) mc_skip(); double px[12],*P=malloc(NE*8),*w=malloc(NE*8); size_t pv[12]; int info=qmarray_maxvol1d(a,R,pv,px,oo,NULL); mc_expect("b-maxvol-info",info==0,"info %d",info); same("b-maxvol-input",a,&A); for(int i=0;i<c;i++) for(int j=0;j<c;j++) P[i+j*c]=ueval(&A.f[pv[i]+j*r],px[i]); mm(c,c,c,P,0,R,0,w); for(int i=0;i<c*c;i++) mc_cmp("b-maxvol-inv",w[i],i%c==i/c,1e-7); double wa[NE]; for(int p=0;p<UNP;p++){ rm_at(&A,umap(UPT[p],A.f[0].lb,A.f[0].ub),wa); mm(r,c,c,wa,0,R,0,w); for(int i=0;i<r*c;i++) mc_expect("b-maxvol",fabs(w[i])<=2 /* at most 10 exchanges are made */,"|A inv(A_piv)| = %g: submatrix is not of (nearly) maximal volume",w[i]); } h=mc_hda(h,c,px); free(P); free(w); }
    if(meth==6){ int m=c>6?3:7; rm_big(&B,c,m,cls,dom,n,2*salt+2); rm_big(&At,c,r,cls,dom,n,2*salt+4); rm_big(&Bt,m,c,cls,dom,n,2*salt+6); struct Qmarray*b=rm_build(&B),*at=rm_build(&At),*bt=rm_build(&Bt),*q[7]; double*D=malloc(NE*8),*Dl=malloc(NE*8); for(int i=0;i<NE;i++){ D[i]=fgen(7,i,1,m); Dl[i]=fgen(8,i,2,m); } q[0]=qmam(a,D,m);q[1]=qmatm(at,D,m);q[2]=mqma(Dl,b,r);q[3]=qmaqma(a,b);q[4]=qmatqma(at,b);q[5]=qmaqmat(a,bt);q[6]=qmatqmat(at,bt); double T=1e-11*(1+S*S)*c; static const char*SN[]={"b-qmam","b-qmatm","b-mqma","b-qmaqma","b-qmatqma","b-qmaqmat","b-qmatqmat"}; for(int i=0;i<7;i++) shape(SN[i],q[i],r,m);
        for(int p=0;p<npts(A.f,1);p++){ double x=ptx(A.f,p,1),wa[NE],wb[NE],wt[NE],wu[NE],w[NE]; rm_at(&A,x,wa);rm_at(&B,x,wb);rm_at(&At,x,wt);rm_at(&Bt,x,wu); mm(r,c,m,wa,0,D,0,w);cmpq(SN[0],q[0],x,w,T);mm(r,c,m,wt,1,D,0,w);cmpq(SN[1],q[1],x,w,T);mm(r,c,m,Dl,0,wb,0,w);cmpq(SN[2],q[2],x,w,T);mm(r,c,m,wa,0,wb,0,w);cmpq(SN[3],q[3],x,w,T);mm(r,c,m,wt,1,wb,0,w);cmpq(SN[4],q[4],x,w,T);mm(r,c,m,wa,0,wu,1,w);cmpq(SN[5],q[5],x,w,T);mm(r,c,m,wt,1,wu,1,w);cmpq(SN[6],q[6],x,w,T); }
        double w1[NE],w2[NE],w3[NE],w4[NE]; for(int j=0;j<m;j++) for(int i=0;i<r;i++){ double s1=0,s2=0,s3=0,s4=0; for(int k=0;k<c;k++){ s1+=u_inner(&A.f[i+k*r],&B.f[k+j*c]); s2+=u_inner(&At.f[k+i*c],&B.f[k+j*c]); s3+=u_inner(&A.f[i+k*r],&Bt.f[j+k*m]); s4+=u_inner(&At.f[k+i*c],&Bt.f[j+k*m]); } w1[i+j*r]=s1;w2[i+j*r]=s2;w3[i+j*r]=s3;w4[i*m+j]=s4; } T*=4; cmpd("b-qmaqma_int",qmaqma_integrate(a,b),w1,r*m,T);cmpd("b-qmatqma_int",qmatqma_integrate(at,b),w2,r*m,T);cmpd("b-qmaqmat_int",qmaqmat_integrate(a,bt),w3,r*m,T);cmpd("b-qmatqmat_int",qmatqmat_integrate(at,bt),w4,r*m,T); h=hq(h,q[0],A.f); for(int i=0;i<7;i++) qmarray_free(q[i]); qmarray_free(b);qmarray_free(at);qmarray_free(bt); free(D); free(Dl); mc_steps(10); }
    if(meth==7){ int br=2,bc=z%2?2:1; if(r*c*br*bc>NE) mc_skip(); rm_big(&B,br,bc,cls,dom,n,2*salt+2); struct Qmarray*b=rm_build(&B),*k=qmarray_kron(b,a); shape("b-kron",k,r*br,c*bc); for(int p=0;p<npts(A.f,1);p++){ double x=ptx(A.f,p,1),wa[NE],wb[NE],w[NE]; rm_at(&A,x,wa);rm_at(&B,x,wb); kronw(wb,br,bc,wa,r,c,w); cmpq("b-kron",k,x,w,1e-12*(1+S*S*4)); } double*I1=qmarray_integrate(a); mc_steps(2); for(int i=0;i<r*c;i++) mc_cmp("b-integrate",I1[i],u_integ(&A.f[i]),1e-11*(1+S)*(1+A.f[0].ub-A.f[0].lb)); free(I1); qmarray_free(b); h=hq(h,k,A.f); qmarray_free(k); }
    if(meth==8){ rm_big(&B,r,c,cls,dom,n>4?n-2:n,2*salt+3); struct Qmarray*b=rm_build(&B),*s2=qmarray_copy(b); qmarray_axpy(-1.75,a,s2); double n2=0,nd=0; for(int i=0;i<r*c;i++){ n2+=u_inner(&A.f[i],&A.f[i]); nd+=u_inner(&A.f[i],&A.f[i])-2*u_inner(&A.f[i],&B.f[i])+u_inner(&B.f[i],&B.f[i]); } mc_cmp("b-norm2",pow(qmarray_norm2(a),2),n2,1e-10*n2); if(cls==ULEG) mc_cmp("b-norm2diff",pow(qmarray_norm2diff(a,b),2),nd,1e-9*(n2+nd)); if(cls!=UCONST) for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[NE],wb[NE]; rm_at(&A,x,wa);rm_at(&B,x,wb); for(int i=0;i<r*c;i++) wb[i]-=1.75*wa[i]; cmpq("b-axpy",s2,x,wb,1e-11*(1+S)); } same("b-axpy-input",a,&A); mc_steps(3); qmarray_free(b); h=hq(h,s2,A.f); qmarray_free(s2); }
    mc_step(); mc_state(mc_hu(h,meth*1000+cls*100+z)); free(R); qmarray_free(a); one_approx_opts_free(oo); uopts_free(cls,u);
}
/* larger block Kronecker products, Householder/Gram-Schmidt/SVD variants, quasimatrices */
static void b_big2(void)
{
    int cls=(int[]){ULIN,UCONST,ULEG}[mc_choose(3,"class")],meth=mc_choose(10,"method"); mc_shard(); int z=mc_choose(6,"size"),dom=mc_choose(3,"domain"),salt=mc_choose(mc_thorough?6:2,"values"); uint64_t h=mc_h0(); mc_key("big2 %s m%d",UNAME[cls],meth);
    if(meth<3){ /* block kron, type D R C, from both sides */
        static const int NB[6]={6,4,2,5,3,1}; int nb=NB[z],type=meth,rr=1+(z*3+1)%4,rc=1+(z*5+2)%3,r=1+(z*7+3)%5,br[6],bc[6],tr=0,tc=0,n=z%2?9:4; static RM B[6],G; struct Qmarray*bl[6];
        for(int i=0;i<nb;i++){ br[i]=type==1&&i?br[0]:1+(i*2+z+salt)%4; bc[i]=type==2&&i?bc[0]:1+(i*3+z*2+salt)%4; rm_big(&B[i],br[i],bc[i],cls,dom,n,2*(salt+i)); bl[i]=rm_build(&B[i]); if(type==1){ tr=br[0]; tc+=bc[i]; } else if(type==2){ tr+=br[i]; tc=bc[0]; } else { tr+=br[i]; tc+=bc[i]; } }
        rm_big(&G,rr,rc,cls,dom,n,2*salt+30); struct Qmarray*g=rm_build(&G); int Rt=tr*rr,Ct=tc*rc; double S=rm_scl(&G)+1; double*M=malloc(sizeof(double)*5*(Rt+Ct)); for(int i=0;i<5*(Rt+Ct);i++) M[i]=fgen(17,i,tr,tc);
        for(int left=0;left<2;left++){ struct Qmarray*o=left?qmarray_alloc(r,Ct):qmarray_alloc(Rt,r); qmarray_block_kron_mat("DRC"[type],left,nb,bl,g,r,M,o); mc_step(); shape("b-block",o,left?r:Rt,left?Ct:r);
            double*blk=calloc(tr*tc,sizeof(double)),*K=malloc(sizeof(double)*Rt*Ct),*w=malloc(sizeof(double)*5*(Rt+Ct)),t[NE],wg[NE];
            for(int p=0;p<npts(G.f,1);p++){ double x=ptx(G.f,p,1); int a0=0,b0=0; memset(blk,0,sizeof(double)*tr*tc); for(int i=0;i<nb;i++){ rm_at(&B[i],x,t); for(int j=0;j<bc[i];j++) for(int q=0;q<br[i];q++) blk[(a0+q)+(b0+j)*tr]=t[q+j*br[i]]; if(type!=1) a0+=br[i]; if(type!=2) b0+=bc[i]; }
                rm_at(&G,x,wg); kronw(blk,tr,tc,wg,rr,rc,K); if(left) mm(r,Rt,Ct,M,0,K,0,w); else mm(Rt,Ct,r,K,0,M,0,w); cmpq(left?"b-block-left":"b-block-right",o,x,w,1e-10*S*S); }
            h=hq(h,o,G.f); qmarray_free(o); free(blk);free(K);free(w); }
        for(int i=0;i<nb;i++){ same("b-block-input",bl[i],&B[i]); qmarray_free(bl[i]); } same("b-block-input",g,&G); qmarray_free(g); free(M); mc_state(mc_hu(h,meth)); return; }
    if(meth==3){ /* matrix times kron etc. */
        static const int KS[6][5]={{6,2,3,5,4},{2,7,4,2,5},{5,5,2,2,7},{1,8,6,1,3},{8,1,1,7,6},{3,4,5,3,2}}; int br=KS[z][0],bc=KS[z][1],cr=KS[z][2],cc=KS[z][3],r=KS[z][4],R=br*cr,C=bc*cc; static RM B,Cm; int n=z%2?10:5; rm_big(&B,br,bc,cls,dom,n,2*salt); rm_big(&Cm,cr,cc,cls,dom,n,2*salt+8); struct Qmarray*b=rm_build(&B),*c=rm_build(&Cm); double T=1e-11*(1+rm_scl(&B)*rm_scl(&Cm))*R;
        double*L=malloc(8*(size_t)r*(R+C)),*Rr=L+r*R,*K=malloc(8*(size_t)R*C),*w=malloc(8*(size_t)(R+C)*(R+C)); for(int i=0;i<r*(R+C);i++) L[i]=fgen(31,i,r,1);
        struct Qmarray*lk=qmarray_mat_kron(r,L,b,c),*kr=qmarray_kron_mat(r,Rr,b,c),*vk=qmarray_vec_kron(L,b,c); double*vi=qmarray_vec_kron_integrate(L,b,c),*ki=qmarray_kron_integrate(b,c); mc_steps(5); shape("b-mat_kron",lk,r,C);shape("b-kron_mat",kr,R,r);shape("b-vec_kron",vk,bc,cc);
        for(int p=0;p<npts(B.f,1);p++){ double x=ptx(B.f,p,1),wb[NE],wc[NE]; rm_at(&B,x,wb);rm_at(&Cm,x,wc); kronw(wb,br,bc,wc,cr,cc,K); mm(r,R,C,L,0,K,0,w);cmpq("b-mat_kron",lk,x,w,T); mm(R,C,r,K,0,Rr,0,w);cmpq("b-kron_mat",kr,x,w,T); for(int j=0;j<cc;j++) for(int i=0;i<bc;i++){ double s=0; for(int q=0;q<br;q++) for(int e=0;e<cr;e++) s+=L[q+e*br]*wb[q+i*br]*wc[e+j*cr]; w[i+j*bc]=s; } cmpq("b-vec_kron",vk,x,w,T); }
        for(int j=0;j<cc;j++) for(int i=0;i<bc;i++){ double s=0; for(int q=0;q<br;q++) for(int e=0;e<cr;e++){ double v=u_inner(&B.f[q+i*br],&Cm.f[e+j*cr]); s+=L[q+e*br]*v; mc_cmp("b-kron_int",ki[q*cr+e+(i*cc+j)*R],v,T*10); } mc_cmp("b-vec_kron_int",vi[i+j*bc],s,T*10); }
        h=hq(hq(h,lk,B.f),kr,B.f); same("b-kron-input",b,&B);same("b-kron-input",c,&Cm); qmarray_free(b);qmarray_free(c);qmarray_free(lk);qmarray_free(kr);qmarray_free(vk); free(vi);free(ki);free(L);free(K);free(w); mc_state(mc_hu(h,3)); return; }
    if(meth<9){ static const int SZ[6][3]={{6,8,16},{9,7,12},{11,3,9},{1,9,21},{8,1,14},{4,10,11}}; int r=SZ[z][0],c=SZ[z][1],n=SZ[z][2]; if(cls==ULEG&&n>12) n=12; static RM A; rm_big(&A,r,c,cls,dom,n,2*salt+1); int ns=A.f[0].n,rows=meth==5||meth==7; if((rows?r:c)>ns*(meth<6?1:rows?c:r)) mc_skip(); if((rows?r:c)>ns) mc_skip(); int nn=rows?r:c; void*u=uopts(&A.f[0]); struct OneApproxOpts*oo=one_approx_opts_alloc(UFC[cls],u); struct Qmarray*a=rm_build(&A); double S=rm_scl(&A)+0.01,TO=cls==UCONST?1e-7:1e-8,TP=1e-9*S*r*c,*R=calloc(nn*nn,sizeof(double));
        if(meth==4){ struct Qmarray*q=qmarray_orth1d_columns(r,c,oo),*V=qmarray_alloc(r,c); colorth("b-orth1d-cols",q,A.f,TO); qmarray_householder(a,q,V,R); qmarray_qhouse(q,V); colorth("b-house-orth",q,A.f,TO); isprod("b-house",q,R,0,&A,TP); tri("b-house-R",R,c,1); h=mc_hda(h,c*c,R); qmarray_free(q);qmarray_free(V); }
        if(meth==5){ struct Qmarray*q=qmarray_orth1d_rows(r,c,oo),*V=qmarray_alloc(r,c); roworth("b-orth1d-rows",q,A.f,TO); qmarray_householder_rows(a,q,V,R); qmarray_qhouse_rows(q,V); roworth("b-houser-orth",q,A.f,TO); isprod("b-houser",q,R,1,&A,TP); h=mc_hda(h,r*r,R); qmarray_free(q);qmarray_free(V); }
        if(meth==6){ double*rr=NULL; int e=qmarray_qr_gs(a,&rr); mc_expect("b-gs-ret",e==0,"return"); colorth("b-qr_gs-orth",a,A.f,1e-6); isprod("b-qr_gs",a,rr,0,&A,TP); tri("b-gs-R",rr,c,1); h=mc_hda(h,c*c,rr); free(rr); }
        if(meth==7){ double*rr=NULL; int e=qmarray_lq_gs(a,&rr); mc_expect("b-gs-ret",e==0,"return"); roworth("b-lq_gs-orth",a,A.f,1e-6); isprod("b-lq_gs",a,rr,1,&A,TP); tri("b-gs-L",rr,r,0); h=mc_hda(h,r*r,rr); free(rr); }
        if(meth==8){ struct Qmarray*U=NULL; double*lam=malloc(c*8),*vt=malloc(c*c*8); mc_expect("b-svd-ret",qmarray_svd(a,&U,lam,vt,oo)==0,"return"); shape("b-svd",U,r,c); colorth("b-svd-orth",U,A.f,TO); for(int i=0;i<c;i++){ mc_expect("b-svd-pos",lam[i]>=0&&(i==0||lam[i]<=lam[i-1]),"singular values not sorted/nonnegative"); for(int j=0;j<=i;j++){ double s=0; for(int k=0;k<c;k++) s+=vt[i+k*c]*vt[j+k*c]; mc_cmp("b-svd-vt",s,i==j,1e-12); } } for(int i=0;i<c;i++) for(int j=0;j<c;j++) R[i+j*c]=lam[i]*vt[i+j*c]; isprod("b-svd",U,R,0,&A,TP); h=mc_hda(h,c,lam); qmarray_free(U); free(lam);free(vt); }
        mc_step(); mc_state(mc_hu(h,meth*100+z)); free(R); qmarray_free(a); one_approx_opts_free(oo); uopts_free(cls,u); return; }
    /* quasimatrices */
    static const int QN[6][3]={{7,9,14},{10,4,12},{12,12,13},{5,1,30},{9,6,9},{11,2,20}}; int n=QN[z][0],b=QN[z][1],nn=QN[z][2]; if(cls==ULEG&&nn>12) nn=12; static RM A,B; rm_big(&A,1,n,cls,dom,nn,2*salt); rm_big(&B,1,n,cls,dom,nn,2*salt+8); double S=rm_scl(&A)+rm_scl(&B)+1,t=1e-12*S*n; double*R=malloc(8*n*b),*v=malloc(8*n); for(int i=0;i<n*b;i++) R[i]=fgen(7,i,n,b); for(int i=0;i<n;i++) v[i]=fgen(9,i,n,1);
    struct Quasimatrix*a=quasimatrix_alloc(n),*g=quasimatrix_alloc(n); for(int i=0;i<n;i++){ struct GenericFunction*f=ubuild(&A.f[i]); quasimatrix_set_func(a,f,i); generic_function_free(f); f=ubuild(&B.f[i]); quasimatrix_set_func(g,f,i); generic_function_free(f); }
    struct Quasimatrix*c=quasimatrix_copy(a),*m1=qmm(a,R,b),*m2=qmmt(a,R,b),*d=quasimatrix_daxpby(0.5,a,-2,g); struct GenericFunction*f=qmv(a,v); mc_steps(5);
    for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub),wa[12],wb[12],s=0; rm_at(&A,x,wa);rm_at(&B,x,wb); for(int i=0;i<n;i++){ mc_cmp("b-q-copy",generic_function_1d_eval(quasimatrix_get_func(c,i),x),wa[i],t); mc_cmp("b-q-daxpby",generic_function_1d_eval(quasimatrix_get_func(d,i),x),0.5*wa[i]-2*wb[i],t); s+=v[i]*wa[i]; } mc_cmp("b-qmv",generic_function_1d_eval(f,x),s,t); for(int j=0;j<b;j++){ double s1=0,s2=0; for(int i=0;i<n;i++){ s1+=wa[i]*R[i+j*n]; s2+=wa[i]*R[i*b+j]; } mc_cmp("b-qmm",generic_function_1d_eval(quasimatrix_get_func(m1,j),x),s1,t); mc_cmp("b-qmmt",generic_function_1d_eval(quasimatrix_get_func(m2,j),x),s2,t); } }
    double in=0,n2=0; for(int i=0;i<n;i++){ in+=u_inner(&A.f[i],&B.f[i]); n2+=u_inner(&A.f[i],&A.f[i]); } mc_cmp("b-q-inner",quasimatrix_inner(a,g),in,1e-11*S*S*n); mc_cmp("b-q-norm",pow(quasimatrix_norm(a),2),n2,1e-11*S*S*n);
    { double loc,val,best=0; size_t q=quasimatrix_absmax(a,&loc,&val,NULL); for(int i=0;i<n;i++) for(int p=0;p<UNP;p++) best=fmax(best,fabs(ueval(&A.f[i],umap(UPT[p],A.f[i].lb,A.f[i].ub)))); mc_expect("b-q-absmax",q<(size_t)n&&val>=best-1e-9*S&&fabs(fabs(ueval(&A.f[q],loc))-val)<=1e-9*S,"absmax %g at (%zu,%g), larger value %g exists",val,q,loc,best); }
    int ns=A.f[0].n; if(n<=ns){ void*u=uopts(&A.f[0]); double*R2=calloc(n*n,sizeof(double)); struct Quasimatrix*ac=quasimatrix_copy(a),*q=quasimatrix_householder_simple(ac,R2,u); mc_step(); for(int i=0;i<n;i++) for(int j=0;j<=i;j++) mc_cmp("b-q-orth",ginner(quasimatrix_get_func(q,i),quasimatrix_get_func(q,j),A.f),i==j,1e-7); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); for(int j=0;j<n;j++){ double s=0; for(int i=0;i<n;i++) s+=generic_function_1d_eval(quasimatrix_get_func(q,i),x)*R2[i+j*n]; mc_cmp("b-q-qr",s,ueval(&A.f[j],x),1e-8*S); } } tri("b-q-R",R2,n,1); quasimatrix_free(q); quasimatrix_free(ac); 
        if(cls!=UCONST){ double*U=R2,p0[12],*Ai=malloc(8*n*n),*P=malloc(8*n*n),*w=malloc(8*n*n); struct Quasimatrix*al=quasimatrix_copy(a),*L=quasimatrix_alloc(n); int info=quasimatrix_lu1d(al,L,U,p0,u,NULL); mc_expect("b-q-lu-info",info==0,"info %d",info); for(int p=0;p<UNP;p++){ double x=umap(UPT[p],A.f[0].lb,A.f[0].ub); for(int j=0;j<n;j++){ double s=0; for(int i=0;i<n;i++) s+=generic_function_1d_eval(quasimatrix_get_func(L,i),x)*U[i+j*n]; mc_cmp("b-q-lu",s,ueval(&A.f[j],x),1e-8*S); } } for(int k=0;k<n;k++) for(int j=0;j<=k;j++) mc_cmp("b-q-lu-L",generic_function_1d_eval(quasimatrix_get_func(L,k),p0[j]),j==k,1e-7); quasimatrix_free(al);quasimatrix_free(L);
            info=quasimatrix_maxvol1d(a,Ai,p0,u,NULL); mc_expect("b-q-maxvol-info",info==0,"info %d",info); for(int i=0;i<n;i++) for(int j=0;j<n;j++) P[i+j*n]=ueval(&A.f[j],p0[i]); mm(n,n,n,P,0,Ai,0,w); for(int i=0;i<n*n;i++) mc_cmp("b-q-maxvol-inv",w[i],i%n==i/n,1e-6); h=mc_hda(h,n,p0); free(Ai);free(P);free(w); }
        free(R2); uopts_free(cls,u); }
    for(int i=0;i<n;i++) ucheck("b-q-unchanged",quasimatrix_get_func(a,i),&A.f[i]);
    mc_state(uhash(mc_hu(h,n),f,A.f[0].lb,A.f[0].ub)); quasimatrix_free(a);quasimatrix_free(g);quasimatrix_free(c);quasimatrix_free(m1);quasimatrix_free(m2);quasimatrix_free(d);generic_function_free(f); free(R);free(v);
}
const mc_driver mc_drivers[]={{"struct",b_struct,1,3},{"prod",b_prod,1,3},{"kron",b_kron,1,3},{"blockkron",b_blockkron,1,3},{"qr",b_qr,1,3},{"lu",b_lu,1,3},{"quasi",b_quasi,1,3},{"scaled",b_scaled,1,3},{"big",b_big,1,3},{"big2",b_big2,1,3},{0}};
