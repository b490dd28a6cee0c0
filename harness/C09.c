/* C09: saving then loading gives the same object back. */
#include "par.h"
#include "big.h"
#include "lib_probability.h"
#include "array.h"
#include "stringmanip.h"
#include "fourier.h"
#include <complex.h>
#include <float.h>
#undef I
const char *mc_property="C09";

/* ---- observations: everything a caller can ask of an object, as a vector of numbers ---- */
typedef struct { double*v; size_t n,cap; } OB;
static void ob(OB*o,double v){ if(o->n==o->cap){ o->cap=o->cap?2*o->cap:256; o->v=realloc(o->v,o->cap*sizeof(double)); } o->v[o->n++]=v; }
static void ob_same(const char*site,OB*a,OB*b)
{
    mc_expect(site,a->n==b->n,"%zu observations instead of %zu",b->n,a->n);
    for(size_t i=0;i<a->n;i++) if(memcmp(&a->v[i],&b->v[i],sizeof(double))&&!(isnan(a->v[i])&&isnan(b->v[i]))&&a->v[i]!=b->v[i]) mc_fail(site,"observation %zu: loaded %.17g, original %.17g",i,b->v[i],a->v[i]);
    mc_steps(a->n); free(a->v); free(b->v); a->v=b->v=NULL; a->n=b->n=a->cap=b->cap=0;
}
enum { KLIN,KCON,KKER,KKAD,KLEG,KCHE,KHER,KFOU,KPW,KLEGK,NK };
static const char*KN[]={"linelm","constelm","kernel","kernel-centres","legendre","chebyshev","hermite","fourier","piecewise","legendre-christoffel"};
static int OPAT; /* extreme coefficients: the library refuses to evaluate to infinity, look at the stored numbers only */
static void obs_u(OB*o,struct GenericFunction*g,int k,double lb,double ub,int mutate)
{
    if(OPAT==7){ ob(o,generic_function_get_fc(g)); ob(o,generic_function_get_lb(g)); ob(o,generic_function_get_ub(g)); if(k==KFOU||k==KPW) return; size_t n=generic_function_get_num_params(g); double*p=dirty(n); ob(o,n); generic_function_get_params(g,p); for(size_t i=0;i<n;i++){ ob(o,p[i]); ob(o,signbit(p[i])!=0); } free(p); return; }
    ob(o,generic_function_get_fc(g)); ob(o,g->dim); ob(o,generic_function_get_lb(g)); ob(o,generic_function_get_ub(g));
    for(int i=0;i<UNP;i++) ob(o,generic_function_1d_eval(g,umap(UPT[i],lb,ub)));
    if(k!=KFOU&&k!=KPW) { ob(o,generic_function_1d_eval(g,lb-0.125)); ob(o,generic_function_1d_eval(g,ub+0.125)); }
    ob(o,generic_function_is_kristoffel_active(g));
    if(k==KLEGK){ ob(o,generic_function_get_kristoffel_weight(g,umap(0.3,lb,ub))); if(mutate){ generic_function_deactivate_kristoffel(g); for(int i=0;i<UNP;i+=3) ob(o,generic_function_1d_eval(g,umap(UPT[i],lb,ub))); generic_function_activate_kristoffel(g); } }
    else { ob(o,generic_function_integrate(g)); for(int i=0;i<UNP;i+=2) ob(o,generic_function_deriv_eval(g,umap(UPT[i],lb,ub)));
        if(k!=KKAD&&k!=KPW){ struct GenericFunction*s=generic_function_daxpby(1.5,g,-0.25,g); for(int i=0;i<UNP;i+=3) ob(o,generic_function_1d_eval(s,umap(UPT[i],lb,ub))); generic_function_free(s); }
        if(k!=KFOU&&k!=KKAD) ob(o,generic_function_inner(g,g)); }
    { struct GenericFunction*c=generic_function_copy(g); for(int i=0;i<UNP;i+=3) ob(o,generic_function_1d_eval(c,umap(UPT[i],lb,ub))); generic_function_free(c); }
    if(k==KFOU||k==KPW) return;
    size_t n=generic_function_get_num_params(g); ob(o,n); double*p=dirty(n); ob(o,generic_function_get_params(g,p)); for(size_t i=0;i<n;i++) ob(o,p[i]);
    if(mutate){ for(size_t i=0;i<n;i++) p[i]=p[i]*0.5+0.125*(i+1); ob(o,generic_function_update_params(g,n,p)); for(int i=0;i<UNP;i++) ob(o,generic_function_1d_eval(g,umap(UPT[i],lb,ub)));
        double*gr=dirty(n); double x=umap(0.19,lb,ub); if(k!=KLEGK){ generic_function_param_grad_eval(g,1,&x,gr); for(size_t i=0;i<n;i++) ob(o,gr[i]); } free(gr); }
    free(p);
}
/* ---- univariate alphabet ---- */
static const double XT[6]={DBL_MAX,-DBL_MAX/4,5e-324,-0.0,1.0/3.0,-2.2250738585072014e-308};
#define NPATX 8
static const double XM[6]={1.2345678901234567e150,-9.87654321e149,5e-324,-0.0,1.0/3.0,-2.2250738585072014e-308};
static double patc(int pat,int i){ static const double*T[3]={UG1,UG2,UG3}; if(pat<3) return T[pat][i%8]; if(pat==3) return 0; if(pat==4) return i==0; if(pat==5) return 1.0/(3+i)*(i%2?-1e-7:1e5); if(pat==6) return XM[i%6]; return XT[i%6]; }
static struct OrthPolyExpansion*mkope(enum poly_type t,int n,double lb,double ub,int pat,int salt){ struct OrthPolyExpansion*o=orth_poly_expansion_init(t,n,lb,ub); for(int i=0;i<n;i++){ if(t==FOURIER) ((double*)&o->ccoeff[i])[0]=patc(pat,i+salt),((double*)&o->ccoeff[i])[1]=i?patc(pat,i+3+salt)/2:0; else o->coeff[i]=patc(pat,i+salt); } return o; }
static struct PiecewisePoly*mkpw(int shape,int*salt,double lb,double ub,int pat)
{
    struct PiecewisePoly*p=piecewise_poly_alloc();
    if(shape==0){ p->leaf=1; p->ope=mkope(LEGENDRE,1+(*salt)%4,lb,ub,pat,*salt); (*salt)++; return p; }
    static const int ch[6][4]={{0},{2,0,0},{3,0,0,0},{2,1,0},{2,0,2},{3,0,3,0}}; int nb=ch[shape][0]; p->leaf=0; p->nbranches=nb; p->branches=piecewise_poly_array_alloc(nb);
    for(int i=0;i<nb;i++) p->branches[i]=mkpw(ch[shape][1+i],salt,lb+(ub-lb)*i/nb,i==nb-1?ub:lb+(ub-lb)*(i+1)/nb,pat);
    return p;
}
typedef struct { int k; double lb,ub; struct GenericFunction*g; } UO;
/* v: grid / number of coefficients / tree shape, 0..7 */
static void mku(UO*u,int k,int dom,int v,int pat)
{
    u->k=k; RF f; memset(&f,0,sizeof f);
    if(k==KFOU){ u->lb=0.5; u->ub=dom?4.5:3; u->g=generic_function_alloc(1,POLYNOMIAL); u->g->f=mkope(FOURIER,1+v%6,u->lb,u->ub,pat,0); return; }
    if(k==KPW){ u->lb=UDOM[dom][0]; u->ub=UDOM[dom][1]; int salt=v; u->g=generic_function_alloc(1,PIECEWISE); u->g->f=mkpw(v%6,&salt,u->lb,u->ub,pat); return; }
    int cls=k<=KKER?k:k==KKAD?UKER:k==KLEGK?ULEG:ULEG+(k-KLEG);
    ugrid(&f,cls,dom,v); if(cls>=ULEG) f.n=1+v%7; if(cls==UKER){ f.n=1+v%3; }
    for(int i=0;i<f.n;i++) f.c[i]=patc(pat,i);
    u->lb=f.lb; u->ub=f.ub; u->g=pbuild(&f,k==KKAD); if(k==KLEGK) generic_function_activate_kristoffel(u->g);
}
/* ---- binary round trip in buffers of exactly the announced size ---- */
static unsigned char*exact(size_t n){ unsigned char*b=malloc(n); memset(b,0xA5,n); return b; }
#define ROUNDTRIP(site,T,obj,SER,DES,out) do{ size_t _n=~(size_t)0; unsigned char*_r=SER(NULL,obj,&_n); (void)_r; mc_expect(site,_n!=~(size_t)0,"no size announced"); unsigned char*_b=exact(_n),*_c=exact(_n); \
    unsigned char*_e=SER(_b,obj,NULL); mc_expect(site,_e==_b+_n,"announced %zu bytes, wrote %td",_n,_e-_b); _e=DES(_b,&out); mc_expect(site,_e==_b+_n,"wrote %zu bytes, read %td",_n,_e-_b); \
    size_t _m=0; SER(NULL,out,&_m); mc_expect(site,_m==_n,"size of the loaded object %zu, original %zu",_m,_n); SER(_c,out,NULL); mc_expect(site,!memcmp(_b,_c,_n),"serialising the loaded object gives other bytes"); memset(_b,0x5A,_n); free(_b); free(_c); mc_steps(3); }while(0)

static void u_bin(void)
{
    int k=mc_choose(NK,"kind"),dom=mc_choose(3,"domain"),v=mc_choose(8,"variant"); mc_shard(); int pat=mc_choose(NPATX,"coefficients"); if(k==KFOU&&(dom>1||pat>5)) mc_skip(); OPAT=pat;
    UO u; mku(&u,k,dom,v,pat); mc_note("%s variant %d pattern %d",KN[k],v,pat); mc_key("%s",KN[k]);
    struct GenericFunction*h=NULL; ROUNDTRIP("function-binary",struct GenericFunction,u.g,serialize_generic_function,deserialize_generic_function,h);
    OB a={0},b={0}; obs_u(&a,u.g,k,u.lb,u.ub,1); obs_u(&b,h,k,u.lb,u.ub,1); uint64_t s=mc_hu(mc_h0(),k); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("function-binary-same",&a,&b);
    /* the representation's own routines */
    struct GenericFunction*w=generic_function_alloc(1,generic_function_get_fc(h)); w->f=NULL;
    if(k==KLIN){ struct LinElemExp*f=NULL; ROUNDTRIP("linelm-binary",0,((struct LinElemExp*)h->f),serialize_lin_elem_exp,deserialize_lin_elem_exp,f); w->f=f; }
    else if(k==KCON){ struct ConstElemExp*f=NULL; ROUNDTRIP("constelm-binary",0,((struct ConstElemExp*)h->f),serialize_const_elem_exp,deserialize_const_elem_exp,f); w->f=f; }
    else if(k==KKER||k==KKAD){ struct KernelExpansion*f=NULL; ROUNDTRIP("kernel-binary",0,((struct KernelExpansion*)h->f),serialize_kernel_expansion,deserialize_kernel_expansion,f); w->f=f; }
    else if(k==KPW){ struct PiecewisePoly*f=NULL; ROUNDTRIP("piecewise-binary",0,((struct PiecewisePoly*)h->f),serialize_piecewise_poly,deserialize_piecewise_poly,f); w->f=f; }
    else { struct OrthPolyExpansion*f=NULL; ROUNDTRIP("polynomial-binary",0,((struct OrthPolyExpansion*)h->f),serialize_orth_poly_expansion,deserialize_orth_poly_expansion,f); w->f=f;
        unsigned char*c=serialize_orth_poly(f->p); struct OrthPoly*q=deserialize_orth_poly(c); mc_expect("basis-binary",q&&q->ptype==f->p->ptype&&q->lower==f->p->lower&&q->upper==f->p->upper,"basis changed"); free(c); free_orth_poly(q); }
    obs_u(&a,u.g,k,u.lb,u.ub,0); obs_u(&b,w,k,u.lb,u.ub,0); ob_same("representation-binary-same",&a,&b);
    generic_function_free(u.g); generic_function_free(h); generic_function_free(w);
}
static const int PREC[6]={17,18,25,99,21,9};
/* values read back from rounded text: only evaluations away from the ends, to the precision written */
static void lowcmp(const char*site,struct GenericFunction*a,struct GenericFunction*b,double lb,double ub){ double m=1; for(int i=0;i<UNP;i++) m=fmax(m,fabs(generic_function_1d_eval(a,umap(UPT[i],lb,ub)))); for(int i=1;i<UNP-1;i++){ double x=umap(UPT[i],lb,ub); if(fabs(generic_function_1d_eval(a,x)-generic_function_1d_eval(a,x+1e-7))>1e-3*m||fabs(generic_function_1d_eval(a,x)-generic_function_1d_eval(a,x-1e-7))>1e-3*m) continue; mc_cmp(site,generic_function_1d_eval(b,x),generic_function_1d_eval(a,x),1e-5*m); } }
static void u_txt(void)
{
    int k=mc_choose(NK,"kind"),dom=mc_choose(3,"domain"),v=mc_choose(8,"variant"); mc_shard(); int pat=mc_choose(NPATX,"coefficients"),pr=mc_choose(6,"precision"); if(k==KKER||k==KKAD||k==KFOU||(PREC[pr]<17&&pat>4)) mc_skip(); OPAT=pat;
    UO u; mku(&u,k,dom,v,pat); mc_note("%s variant %d pattern %d precision %d",KN[k],v,pat,PREC[pr]); mc_key("%s",KN[k]);
    char*t=NULL; size_t n=0; FILE*f=open_memstream(&t,&n); generic_function_savetxt(u.g,f,PREC[pr]); 
    if(k==KLIN) lin_elem_exp_savetxt(u.g->f,f,PREC[pr]); else if(k==KCON) const_elem_exp_savetxt(u.g->f,f,PREC[pr]); else if(k==KPW) piecewise_poly_savetxt(u.g->f,f,PREC[pr]); else orth_poly_expansion_savetxt(u.g->f,f,PREC[pr]);
    fclose(f);
    f=fmemopen(t,n,"r"); struct GenericFunction*h=generic_function_loadtxt(f),*w=generic_function_alloc(1,generic_function_get_fc(u.g));
    if(k==KLIN) w->f=lin_elem_exp_loadtxt(f); else if(k==KCON) w->f=const_elem_exp_loadtxt(f); else if(k==KPW) w->f=piecewise_poly_loadtxt(f); else w->f=orth_poly_expansion_loadtxt(f);
    int c; while((c=fgetc(f))==' '||c=='\n'); mc_expect("function-text",c==EOF,"text left over"); fclose(f); free(t); mc_steps(4);
    if(PREC[pr]>=17){ OB a={0},b={0}; obs_u(&a,u.g,k,u.lb,u.ub,0); obs_u(&b,w,k,u.lb,u.ub,0); uint64_t s=mc_hu(mc_h0(),k); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("representation-text-same",&a,&b);
        obs_u(&a,u.g,k,u.lb,u.ub,1); obs_u(&b,h,k,u.lb,u.ub,1); ob_same("function-text-same",&a,&b); }
    else { lowcmp("function-text-rounded",u.g,h,u.lb,u.ub); lowcmp("representation-text-rounded",u.g,w,u.lb,u.ub); }
    generic_function_free(u.g); generic_function_free(h); generic_function_free(w);
}
/* ---- containers ---- */
static void obs_q(OB*o,struct Quasimatrix*q,const UO*u){ ob(o,quasimatrix_get_size(q)); for(size_t i=0;i<quasimatrix_get_size(q);i++) obs_u(o,quasimatrix_get_func(q,i),u[i].k,u[i].lb,u[i].ub,0); }
static void obs_m(OB*o,struct Qmarray*q,const UO*u){ ob(o,q->nrows); ob(o,q->ncols); for(size_t i=0;i<q->nrows*q->ncols;i++) obs_u(o,q->funcs[i],u[i].k,u[i].lb,u[i].ub,1); }
static void qmat(void)
{ OPAT=0;
    int n=1+mc_choose(4,"columns"),k[4]={0}; for(int i=0;i<n;i++) k[i]=mc_choose(NK,"kind"); mc_shard(); int v=mc_choose(2,"variant");
    UO u[4]; struct Quasimatrix*q=quasimatrix_alloc(n); for(int i=0;i<n;i++){ mku(&u[i],k[i],i%2,(v*3+i*2+5)%8,(i+v)%3); quasimatrix_set_func(q,u[i].g,i); }
    struct Quasimatrix*r=NULL; ROUNDTRIP("quasimatrix-binary",0,q,quasimatrix_serialize,quasimatrix_deserialize,r);
    OB a={0},b={0}; obs_q(&a,q,u); obs_q(&b,r,u); uint64_t s=mc_h0(); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("quasimatrix-same",&a,&b); for(int i=0;i<n;i++) generic_function_free(u[i].g); quasimatrix_free(q); quasimatrix_free(r);
}
static void qmar(void)
{ OPAT=0;
    int r=1+mc_choose(3,"rows"),c=1+mc_choose(3,"columns"),base=mc_choose(NK,"kind"),mix=mc_choose(4,"mix"); mc_shard(); int v=mc_choose(4,"variant"),txt=mc_choose(2,"text");
    UO u[9]; struct Qmarray*q=qmarray_alloc(r,c); for(int i=0;i<r*c;i++){ int k=(base+(mix?i/mix:0))%NK; if(txt&&(k==KKER||k==KKAD||k==KFOU)) k=KLIN; mku(&u[i],k,(i+v)%2,(v*3+i)%8,(i+v)%4); q->funcs[i]=u[i].g; }
    struct Qmarray*p=NULL; OB a={0},b={0};
    if(!txt) ROUNDTRIP("core-binary",0,q,qmarray_serialize,qmarray_deserialize,p);
    else { char*t=NULL; size_t n=0; FILE*f=open_memstream(&t,&n); qmarray_savetxt(q,f,17); fclose(f); f=fmemopen(t,n,"r"); p=qmarray_loadtxt(f); fclose(f); free(t); mc_steps(2); }
    obs_m(&a,q,u); obs_m(&b,p,u); uint64_t s=mc_h0(); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same(txt?"core-text-same":"core-same",&a,&b); qmarray_free(q); qmarray_free(p);
}
static void obs_t(OB*o,struct FunctionTrain*f,const RT*t,int mutate)
{
    double x[FD]; ob(o,function_train_get_dim(f)); for(int k=0;k<=t->d;k++) ob(o,function_train_get_rank(f,k)); for(int k=0;k<t->d;k++){ ob(o,f->cores[k]->nrows); ob(o,f->cores[k]->ncols); }
    int kr=function_train_is_kristoffel_active(f); ob(o,kr); for(int e=0;e<12;e++){ tpt(t,e,x); ob(o,function_train_eval(f,x)); }
    if(kr){ tpt(t,0,x); ob(o,function_train_get_kristoffel_weight(f,x)); return; }
    int ker=t->f[0][0].cls==UKER;
    size_t n=function_train_get_nparams(f); ob(o,n); double*p=dirty(n); ob(o,function_train_get_params(f,p)); for(size_t i=0;i<n;i++) ob(o,p[i]);
    ob(o,function_train_integrate(f)); ob(o,function_train_inner(f,f)); { struct FunctionTrain*s=function_train_sum(f,f); tpt(t,1,x); ob(o,function_train_eval(s,x)); function_train_free(s); }
    double g[FD]; tpt(t,0,x); if(!ker) { function_train_gradient_eval(f,x,g); for(int k=0;k<t->d;k++) ob(o,g[k]); }
    if(mutate){ for(size_t i=0;i<n;i++) p[i]=0.75*p[i]+0.0625; ob(o,function_train_update_params(f,p)); for(int e=0;e<8;e++){ tpt(t,e,x); ob(o,function_train_eval(f,x)); } }
    free(p);
}
static struct FunctionTrain*mkt(RT*t,int d,int rp,int cs,int gs,int ds,int pat)
{
    int ad=cs==7,kr=cs==8; rt_make(t,d,rp,ad?2:kr?3:cs,gs,ds,pat); struct FunctionTrain*f=rt_build(t);
    if(ad) for(int k=0;k<d;k++) for(int q=0;q<t->r[k]*t->r[k+1];q++){ generic_function_free(f->cores[k]->funcs[q]); f->cores[k]->funcs[q]=pbuild(&t->f[k][q],1); }
    if(kr) function_train_activate_kristoffel(f); return f;
}
static const char*path(const char*n){ static char b[4][512]; static int i; char*p=b[i++%4]; snprintf(p,512,"%s/%s",mc_scratch,n); return p; }
static const char*TCN[]={"linelm","constelm","kernel","legendre","chebyshev","hermite","mixed","kernel-centres","christoffel"};
static void trains(void)
{
    int d=1+mc_choose(5,"dimension"),rp=mc_choose(8,"ranks"),cs=mc_choose(9,"classes"),gs=mc_choose(mc_thorough?4:2,"grids"); mc_shard(); int way=mc_choose(4,"way"),pat=mc_choose(mc_thorough?4:2,"pattern"),ds=0;
    if((way==1||way==3)&&(cs==2||cs==7)) mc_skip(); static const int PP[4]={PGEN,PZROW,PDELTA,PZERO};
    RT*t=malloc(sizeof *t); struct FunctionTrain*f=mkt(t,d,rp,cs,gs+1-mc_thorough,ds,PP[pat]),*g=NULL; mc_note("%dd %s ranks %d way %d",d,TCN[cs],rp,way); mc_key("%s",TCN[cs]); OB a={0},b={0};
    if(way==0) ROUNDTRIP("train-binary",0,f,function_train_serialize,function_train_deserialize,g);
    else if(way==2){ const char*p=path("t.c3"); mc_expect("train-save",function_train_save(f,(char*)p)==1,"save failed"); g=function_train_load((char*)p); mc_steps(2); mc_expect("train-load",g!=NULL,"load failed"); remove(p); }
    else { char*tx=NULL; size_t n=0; FILE*s=open_memstream(&tx,&n); function_train_savetxt(f,s,way==1?17:10); fclose(s); s=fmemopen(tx,n,"r"); g=function_train_loadtxt(s); int c; while((c=fgetc(s))==' '||c=='\n'); mc_expect("train-text",c==EOF,"text left over"); fclose(s); free(tx); mc_steps(2); }
    if(way!=3){ obs_t(&a,f,t,1); obs_t(&b,g,t,1); uint64_t s=mc_h0(); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same(way==0?"train-binary-same":way==1?"train-text-same":"train-file-same",&a,&b); }
    else { double x[FD],m=tscl(t); static const int E[4]={0,1,5,9}; for(int q=0;q<4;q++){ for(int k=0;k<d;k++) x[k]=umap(UPT[(E[q]*5+k*7)%16+1]*0.96875+0.0078125,t->f[k][0].lb,t->f[k][0].ub); mc_cmp("train-text-rounded",function_train_eval(g,x),function_train_eval(f,x),1e-8*m); } }
    function_train_free(f); function_train_free(g); free(t);
}
/* arrays of trains */
static struct FunctionTrain*small(int w,RT*t){ static const int D[6]={1,2,3,2,4,3},R[6]={0,1,2,3,1,4},C[6]={0,3,6,1,2,8}; return mkt(t,D[w],R[w],C[w],w%2,0,w%3?PGEN:PGEN2); }
static struct FT1DArray*mka(int n,const int*w,RT*t){ struct FT1DArray*A=ft1d_array_alloc(n); for(int i=0;i<n;i++) A->ft[i]=small(w[i],&t[i]); return A; }
static void obs_a(OB*o,struct FT1DArray*A,RT*t){ ob(o,A->size); for(size_t i=0;i<A->size;i++) obs_t(o,A->ft[i],&t[i],0); }
static void arrays(void)
{
    int n=mc_choose(5,"size"),w[4]={0}; for(int i=0;i<n;i++) w[i]=mc_choose(6,"train"); mc_shard(); int file=mc_choose(2,"file");
    RT*t=malloc(4*sizeof *t); struct FT1DArray*A=mka(n,w,t),*B=NULL; OB a={0},b={0};
    if(!file) ROUNDTRIP("array-binary",0,A,ft1d_array_serialize,ft1d_array_deserialize,B); else { const char*p=path("a.c3"); mc_expect("array-save",ft1d_array_save(A,(char*)p)==1,"save failed"); B=ft1d_array_load((char*)p); mc_expect("array-load",B!=NULL,"load failed"); remove(p); mc_steps(2); }
    obs_a(&a,A,t); obs_a(&b,B,t); uint64_t s=mc_hu(mc_h0(),n); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("array-same",&a,&b); ft1d_array_free(A); ft1d_array_free(B); free(t);
}
/* linear maps and densities */
static struct LinearTransform*mkl(int di,int dout,int inv)
{ double A[16],b[4],det=1; for(int j=0;j<di;j++) for(int i=0;i<dout;i++) A[i+j*dout]=i<j&&inv?0:i==j?1.25+0.5*i:fgen(31,i,j,di); for(int i=0;i<dout;i++){ b[i]=fgen(32,i,dout,0); if(i<di) det*=A[i+i*dout]; } struct LinearTransform*l=linear_transform_alloc(di,dout,A,b,det); l->mt=inv?LT:GEN; l->mti=LT; l->detinv=0; if(inv==2) linear_transform_invert(l); return l; }
static void obs_l(OB*o,struct LinearTransform*l)
{ double x[4]={0.5,-1.25,0.875,2}; ob(o,l->dimin); ob(o,l->dimout); ob(o,l->det); ob(o,l->mt); double*y=linear_transform_apply(l->dimin,l->dimout,l->A,x,l->b); for(size_t i=0;i<l->dimout;i++) ob(o,y[i]);
  ob(o,l->Ainv!=NULL); ob(o,l->binv!=NULL); if(l->Ainv){ ob(o,l->mti); ob(o,l->detinv); double*z=linear_transform_apply(l->dimout,l->dimin,l->Ainv,y,l->binv); for(size_t i=0;i<l->dimin;i++) ob(o,z[i]); free(z); } free(y); }
static void lintr(void)
{
    int di=1+mc_choose(4,"in"),dout=1+mc_choose(4,"out"); mc_shard(); int inv=mc_choose(3,"inverse"); if(inv&&di!=dout) mc_skip();
    struct LinearTransform*l=mkl(di,dout,inv),*m=NULL; ROUNDTRIP("map-binary",0,l,linear_transform_serialize,linear_transform_deserialize,m); OB a={0},b={0}; obs_l(&a,l); obs_l(&b,m); if(inv==1){ linear_transform_invert(l); linear_transform_invert(m); obs_l(&a,l); obs_l(&b,m); }
    uint64_t s=mc_h0(); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("map-same",&a,&b); linear_transform_free(l); linear_transform_free(m);
}
static struct ProbabilityDensity*mkp(RT*t,int d,int tr,int ty,int cs){ struct ProbabilityDensity*p=probability_density_alloc(); p->pdf=mkt(t,d,1,cs,0,0,PGEN); p->type=ty?GENERAL:GAUSSIAN; p->transform=tr?1:0; if(tr) p->lt=mkl(d,d,tr); return p; }
static void obs_p(OB*o,struct ProbabilityDensity*p,RT*t){ double x[FD]; ob(o,p->type); ob(o,p->transform); ob(o,p->lt!=NULL); obs_t(o,p->pdf,t,0); if(p->lt){ obs_l(o,p->lt); } double*lb=probability_density_lb_base(p),*ub=probability_density_ub_base(p); for(int k=0;k<t->d;k++){ ob(o,lb[k]); ob(o,ub[k]); } free(lb); free(ub);
  for(int e=0;e<4;e++){ tpt(t,e,x); ob(o,probability_density_eval(p,x)); if(p->transform){ double*y=linear_transform_apply(t->d,t->d,p->lt->A,x,p->lt->b); ob(o,probability_density_eval(p,y)); free(y); } } }
static void dens(void)
{
    int d=1+mc_choose(3,"dimension"),tr=mc_choose(3,"transform"),ty=mc_choose(2,"type"),cs=mc_choose(3,"class"); mc_shard(); int file=mc_choose(2,"file"); static const int C[3]={0,3,1}; RT*t=malloc(sizeof *t); struct ProbabilityDensity*p=mkp(t,d,tr,ty,C[cs]),*q=NULL; OB a={0},b={0}; mc_key(tr?"transformed":"plain");
    if(!file) ROUNDTRIP("density-binary",0,p,probability_density_serialize,probability_density_deserialize,q); else { const char*n=path("p.c3"); mc_expect("density-save",probability_density_save(p,(char*)n)==1,"save failed"); q=probability_density_load((char*)n); mc_expect("density-load",q!=NULL,"load failed"); remove(n); mc_steps(2); }
    obs_p(&a,p,t); obs_p(&b,q,t); uint64_t s=mc_h0(); for(size_t i=0;i<a.n;i++) s=mc_hd(s,a.v[i]); mc_state(s); ob_same("density-same",&a,&b); probability_density_free(p); probability_density_free(q); free(t);
}
/* ---- several objects one after another in one buffer of exactly the sum of the announced sizes ---- */
enum { CINT,CSZ,CDBL,CDBLP,CGF,CGF2,CGF3,CQM,CQMA,CFT,CFT2,CARR,CLT,CPDF,NC };
static const char*CNM[]={"int","size_t","double","double[]","linelm","kernel","legendre","quasimatrix","core","train","train2","array","map","density"};
typedef struct { int c; UO u[4]; RT*t; void*o; int iv; size_t sv; double dv,*pv; } CO;
static void cmk(CO*c,int k,int pos)
{
    memset(c,0,sizeof *c); c->c=k; c->t=calloc(2,sizeof(RT)); static const int IV[4]={-2147483647,7,0,-1}; static const size_t SV[4]={0,~(size_t)0,1234567890123ul,1}; static const double DV[4]={-0.0,1.0/3,-DBL_MAX,4.9e-324}; c->iv=IV[pos]; c->sv=SV[pos]; c->dv=DV[pos];
    switch(k){ case CDBLP: c->sv=pos*2; c->pv=malloc(sizeof(double)*(pos*2+1)); for(int i=0;i<pos*2;i++) c->pv[i]=XT[i%6]; break;
    case CGF: case CGF2: case CGF3: { static const int K[3]={KLIN,KKER,KLEG}; mku(&c->u[0],K[k-CGF],pos%3,pos*2+1,pos%3); c->o=c->u[0].g; break; }
    case CQM: { struct Quasimatrix*q=quasimatrix_alloc(2); mku(&c->u[0],KCON,pos%3,pos+3,1); mku(&c->u[1],KPW,0,pos,0); quasimatrix_set_func(q,c->u[0].g,0); quasimatrix_set_func(q,c->u[1].g,1); generic_function_free(c->u[0].g); generic_function_free(c->u[1].g); c->o=q; break; }
    case CQMA: { struct Qmarray*q=qmarray_alloc(1+pos%2,2); for(int i=0;i<2*(1+pos%2);i++){ mku(&c->u[i],(KLEG+i)%NK,0,pos+i,i%3); q->funcs[i]=c->u[i].g; } c->o=q; break; }
    case CFT: c->o=small(2,c->t); break; case CFT2: c->o=small(4,c->t); break;
    case CARR: { int w[2]={1,3}; c->o=mka(2,w,c->t); break; } case CLT: c->o=mkl(2+pos%2,2,pos%2?0:2); break; case CPDF: c->o=mkp(c->t,2,2,pos%2,0); break; }
}
static unsigned char*cser(CO*c,unsigned char*b,size_t*n)
{
    switch(c->c){ case CINT: if(n){*n=sizeof(int);return b;} return serialize_int(b,c->iv); case CSZ: if(n){*n=sizeof(size_t);return b;} return serialize_size_t(b,c->sv); case CDBL: if(n){*n=sizeof(double);return b;} return serialize_double(b,c->dv);
    case CDBLP: if(n){*n=sizeof(size_t)+c->sv*sizeof(double);return b;} return serialize_doublep(b,c->pv,c->sv); case CGF: case CGF2: case CGF3: return serialize_generic_function(b,c->o,n); case CQM: return quasimatrix_serialize(b,c->o,n); case CQMA: return qmarray_serialize(b,c->o,n);
    case CFT: case CFT2: return function_train_serialize(b,c->o,n); case CARR: return ft1d_array_serialize(b,c->o,n); case CLT: return linear_transform_serialize(b,c->o,n); default: return probability_density_serialize(b,c->o,n); }
}
static unsigned char*cdes(CO*c,unsigned char*b)
{
    switch(c->c){ case CINT: return deserialize_int(b,&c->iv); case CSZ: return deserialize_size_t(b,&c->sv); case CDBL: return deserialize_double(b,&c->dv); case CDBLP: return deserialize_doublep(b,&c->pv,&c->sv); case CGF: case CGF2: case CGF3: return deserialize_generic_function(b,(struct GenericFunction**)&c->o);
    case CQM: return quasimatrix_deserialize(b,(struct Quasimatrix**)&c->o); case CQMA: return qmarray_deserialize(b,(struct Qmarray**)&c->o); case CFT: case CFT2: return function_train_deserialize(b,(struct FunctionTrain**)&c->o); case CARR: return ft1d_array_deserialize(b,(struct FT1DArray**)&c->o); case CLT: return linear_transform_deserialize(b,(struct LinearTransform**)&c->o); default: return probability_density_deserialize(b,(struct ProbabilityDensity**)&c->o); }
}
static void cobs(OB*o,CO*c)
{
    switch(c->c){ case CINT: ob(o,c->iv); break; case CSZ: ob(o,(double)(c->sv>>32)); ob(o,(double)(c->sv&0xffffffff)); break; case CDBL: ob(o,c->dv); ob(o,signbit(c->dv)!=0); break; case CDBLP: ob(o,c->sv); for(size_t i=0;i<c->sv;i++) ob(o,c->pv[i]); break;
    case CGF: case CGF2: case CGF3: obs_u(o,c->o,c->u[0].k,c->u[0].lb,c->u[0].ub,0); break; case CQM: obs_q(o,c->o,c->u); break; case CQMA: obs_m(o,c->o,c->u); break; case CFT: case CFT2: obs_t(o,c->o,c->t,0); break; case CARR: obs_a(o,c->o,c->t); break; case CLT: obs_l(o,c->o); break; default: obs_p(o,c->o,c->t); }
}
static void cfree(CO*c){ switch(c->c){ case CDBLP: free(c->pv); break; case CGF: case CGF2: case CGF3: generic_function_free(c->o); break; case CQM: quasimatrix_free(c->o); break; case CQMA: qmarray_free(c->o); break; case CFT: case CFT2: function_train_free(c->o); break; case CARR: ft1d_array_free(c->o); break; case CLT: linear_transform_free(c->o); break; case CPDF: probability_density_free(c->o); } }
static void concat(void)
{ OPAT=0;
    int L=mc_thorough?4:3; int n=1+mc_choose(L,"objects"),k[4]={0}; for(int i=0;i<n;i++){ k[i]=mc_choose(NC,"type"); if(i==1||n==1) mc_shard(); }
    CO a[4],b[4]; size_t sz[4],tot=0; for(int i=0;i<n;i++){ cmk(&a[i],k[i],i); sz[i]=0; cser(&a[i],NULL,&sz[i]); tot+=sz[i]; mc_note("%s",CNM[k[i]]); }
    unsigned char*buf=exact(tot),*p=buf; for(int i=0;i<n;i++){ unsigned char*q=cser(&a[i],p,NULL); mc_expect("sequence-write",q==p+sz[i],"object %d announced %zu bytes, wrote %td",i,sz[i],q-p); p=q; } p=buf;
    for(int i=0;i<n;i++){ b[i]=a[i]; b[i].o=NULL; b[i].pv=NULL; b[i].iv=99; if(k[i]!=CDBLP) b[i].sv=99; b[i].dv=99; unsigned char*q=cdes(&b[i],p); mc_expect("sequence-read",q==p+sz[i],"object %d: wrote %zu bytes, read %td",i,sz[i],q-p); p=q; } memset(buf,0x5A,tot); free(buf); mc_steps(3*n);
    uint64_t s=mc_h0(); for(int i=0;i<n;i++){ s=mc_hu(s,k[i]); s=mc_hu(s,sz[i]); OB x={0},y={0}; cobs(&x,&a[i]); cobs(&y,&b[i]); ob_same("sequence-same",&x,&y); } mc_state(s);
    for(int i=0;i<n;i++){ cfree(&a[i]); cfree(&b[i]); free(a[i].t); }
}
/* the same for text in one file */
enum { XLIN,XCON,XLEG,XHER,XPW,XQMA,XFT,XFT2,NX };
static void ctext(void)
{ OPAT=0;
    int n=2+mc_choose(mc_thorough?3:2,"objects"),k[4]; for(int i=0;i<n;i++){ k[i]=mc_choose(NX,"type"); if(i==1) mc_shard(); }
    UO u[4][2]; RT*t=calloc(4,sizeof(RT)); void*o[4],*r[4]; const char*pa=path("x.txt"); FILE*f=fopen(pa,"w");
    for(int i=0;i<n;i++){ static const int K[5]={KLIN,KCON,KLEG,KHER,KPW}; int pr=17+i; if(k[i]<=XPW){ mku(&u[i][0],K[k[i]],i%3,i+3,i%3); o[i]=u[i][0].g; generic_function_savetxt(o[i],f,pr); } else if(k[i]==XQMA){ struct Qmarray*q=qmarray_alloc(2,1); for(int j=0;j<2;j++){ mku(&u[i][j],j?KLEG:KLIN,j,i+j,j); q->funcs[j]=u[i][j].g; } o[i]=q; qmarray_savetxt(q,f,pr); } else { o[i]=k[i]==XFT?small(2,&t[i]):small(5,&t[i]); function_train_savetxt(o[i],f,pr); } }
    fclose(f); f=fopen(pa,"r"); for(int i=0;i<n;i++) r[i]=k[i]<=XPW?(void*)generic_function_loadtxt(f):k[i]==XQMA?(void*)qmarray_loadtxt(f):(void*)function_train_loadtxt(f); int c; while((c=fgetc(f))==' '||c=='\n'); mc_expect("text-sequence",c==EOF,"text left over"); fclose(f); remove(pa); mc_steps(2*n); uint64_t s=mc_h0();
    for(int i=0;i<n;i++){ OB a={0},b={0}; s=mc_hu(s,k[i]); if(k[i]<=XPW){ obs_u(&a,o[i],u[i][0].k,u[i][0].lb,u[i][0].ub,0); obs_u(&b,r[i],u[i][0].k,u[i][0].lb,u[i][0].ub,0); } else if(k[i]==XQMA){ obs_m(&a,o[i],u[i]); obs_m(&b,r[i],u[i]); } else { obs_t(&a,o[i],&t[i],0); obs_t(&b,r[i],&t[i],0); } ob_same("text-sequence-same",&a,&b);
        if(k[i]<=XPW){ generic_function_free(o[i]); generic_function_free(r[i]); } else if(k[i]==XQMA){ qmarray_free(o[i]); qmarray_free(r[i]); } else { function_train_free(o[i]); function_train_free(r[i]); } }
    mc_state(s); free(t);
}
/* ---- histories of saving and loading: what is loaded is what was saved last under that name ---- */
static void files(void)
{
    int kind=mc_choose(3,"object"),L=mc_thorough?5:4,op[5]; for(int i=0;i<L;i++){ op[i]=mc_choose(7,"operation"); if(i==1) mc_shard(); }
    RT*t=calloc(6,sizeof(RT)); void*o[2]; int w0[3]={1,4,2},w1[1]={0};
    if(kind==0){ o[0]=small(4,&t[0]); o[1]=small(0,&t[1]); } else if(kind==1){ o[0]=mka(3,w0,t); o[1]=mka(1,w1,t+3); } else { o[0]=mkp(&t[0],3,2,0,0); o[1]=mkp(&t[1],1,2,1,3); }
    char p[2][512]; strcpy(p[0],path("f0")); strcpy(p[1],path("f1")); remove(p[0]); remove(p[1]); int on[2]={-1,-1}; uint64_t s=mc_hu(mc_h0(),kind);
    #define SAVE(x,q) (kind==0?function_train_save(x,q):kind==1?ft1d_array_save(x,q):probability_density_save(x,q))
    #define LOAD(q) (kind==0?(void*)function_train_load(q):kind==1?(void*)ft1d_array_load(q):(void*)probability_density_load(q))
    for(int i=0;i<L;i++){ mc_step(); int a=op[i]; s=mc_hu(s,a);
        if(a<4){ int x=a&1,q=a>>1; mc_note("save object %d as %d",x,q); mc_expect("save",SAVE(o[x],p[q])==1,"save failed"); on[q]=x; }
        else if(a<6){ int q=a-4; mc_note("load %d",q); void*r=LOAD(p[q]); if(on[q]<0){ mc_expect("load-missing",r==NULL,"object loaded from a file that was never written"); continue; } mc_expect("load",r!=NULL,"load failed"); int x=on[q]; OB A={0},B={0};
            if(kind==0){ obs_t(&A,o[x],&t[x],0); obs_t(&B,r,&t[x],0); } else if(kind==1){ obs_a(&A,o[x],t+3*x); obs_a(&B,r,t+3*x); } else { obs_p(&A,o[x],&t[x]); obs_p(&B,r,&t[x]); } ob_same("load-same",&A,&B);
            if(i&1){ mc_expect("save-loaded",SAVE(r,p[1-q])==1,"save failed"); on[1-q]=x; } if(kind==0) function_train_free(r); else if(kind==1) ft1d_array_free(r); else probability_density_free(r); }
        else { char bad[600]; snprintf(bad,600,"%s/none/f",mc_scratch); mc_note("save where it cannot be written"); mc_expect("save-refused",SAVE(o[0],bad)==0,"reported success"); mc_expect("load-refused",LOAD(bad)==NULL,"object from nowhere"); } }
    remove(p[0]); remove(p[1]); mc_state(s); for(int x=0;x<2;x++){ if(kind==0) function_train_free(o[x]); else if(kind==1) ft1d_array_free(o[x]); else probability_density_free(o[x]); } free(t);
}
/* larger objects: trains of up to 12 variables and ranks up to 12, grids of hundreds of nodes, long arrays, wide maps */
static void b_same(const char*site,struct FunctionTrain*f,struct FunctionTrain*g,const BT*t){ double x[BD]; mc_expect(site,g&&g->dim==f->dim,"dimension"); for(int k=0;k<=t->d;k++) mc_expect(site,g->ranks[k]==f->ranks[k],"rank %d",k); for(int e=0;e<25;e++){ bt_pt(t,e,x); double u=function_train_eval(f,x),v=function_train_eval(g,x); mc_expect(site,u==v,"point %d: %.17g became %.17g",e,u,v); } double u=function_train_integrate(f),v=function_train_integrate(g); mc_expect(site,u==v,"integral %.17g became %.17g",u,v); mc_steps(52); }
static void big(void)
{
    int what=mc_choose(4,"what");
    if(what==0){ int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"),way=mc_choose(3,"way"); mc_shard(); if(cs==UKER&&way==1) mc_skip(); BT t; bt_make(&t,sh,cs,0); struct FunctionTrain*f=bt_build(&t),*g=NULL; mc_note("train shape %d class %d way %d",sh,cs,way);
        if(way==0) ROUNDTRIP("big-binary",0,f,function_train_serialize,function_train_deserialize,g);
        else if(way==2){ const char*p=path("t.c3"); mc_expect("big-save",function_train_save(f,(char*)p)==1,"save failed"); g=function_train_load((char*)p); remove(p); }
        else { char*tx=NULL; size_t n=0; FILE*s=open_memstream(&tx,&n); function_train_savetxt(f,s,17); fclose(s); s=fmemopen(tx,n,"r"); g=function_train_loadtxt(s); fclose(s); free(tx); }
        b_same(way==0?"big-binary-same":way==1?"big-text-same":"big-file-same",f,g,&t); mc_state(mc_hu(mc_h0(),sh*100+cs*10+way)); function_train_free(f); function_train_free(g); bt_free(&t); }
    else if(what==1){ static const int NN[]={129,256,300,1025}; int n=NN[mc_choose(4,"nodes")],con=mc_choose(2,"class"),way=mc_choose(2,"way"),dm=mc_choose(3,"dom"); mc_shard(); double*x=malloc(8*n),*v=malloc(8*n); for(int i=0;i<n;i++){ x[i]=umap(-1+2.0*i/(n-1)+(i>0&&i<n-1?0.2/n*((i*7)%5-2):0),UDOM[dm][0],UDOM[dm][1]); v[i]=fgen(91,i,n,dm); }
        struct GenericFunction*f=generic_function_alloc(1,con?CONSTELM:LINELM),*g=NULL; f->f=con?(void*)const_elem_exp_init(n,x,v):(void*)lin_elem_exp_init(n,x,v); mc_note("%d nodes class %d way %d",n,con,way);
        if(way==0) ROUNDTRIP("big-f-binary",0,f,serialize_generic_function,deserialize_generic_function,g);
        else { char*tx=NULL; size_t m=0; FILE*s=open_memstream(&tx,&m); generic_function_savetxt(f,s,17); fclose(s); s=fmemopen(tx,m,"r"); g=generic_function_loadtxt(s); fclose(s); free(tx); }
        for(int i=0;i<n;i++) for(int h=0;h<(i+1<n?2:1);h++){ double y=h?0.6*x[i]+0.4*x[i+1]:x[i]; mc_expect("big-f-same",generic_function_1d_eval(f,y)==generic_function_1d_eval(g,y),"value at %g",y); } mc_expect("big-f-int",generic_function_integrate(f)==generic_function_integrate(g)&&generic_function_inner(f,f)==generic_function_inner(g,g),"integral"); mc_state(mc_hu(mc_h0(),10000+n*8+con*4+way)); generic_function_free(f); generic_function_free(g); free(x); free(v); }
    else if(what==2){ int n=(int[]){17,40,260}[mc_choose(3,"size")],cs=mc_choose(2,"class"); mc_shard(); struct FT1DArray*A=ft1d_array_alloc(n),*B=NULL; BT*t=malloc(n*sizeof(BT)); for(int i=0;i<n;i++){ bt_make(&t[i],cs?3+i%2:4+i%2*2,cs?ULIN:ULEG,i%4); A->ft[i]=bt_build(&t[i]); } mc_note("array of %d",n);
        ROUNDTRIP("big-array",0,A,ft1d_array_serialize,ft1d_array_deserialize,B); mc_expect("big-array-size",(int)B->size==n,"size"); for(int i=0;i<n;i++){ if(i%7==0||i>n-4) b_same("big-array-same",A->ft[i],B->ft[i],&t[i]); bt_free(&t[i]); } mc_state(mc_hu(mc_h0(),20000+n*2+cs)); ft1d_array_free(A); ft1d_array_free(B); free(t); }
    else { int n=(int[]){6,20,33}[mc_choose(3,"size")],inv=mc_choose(2,"inverted"); mc_shard(); double*A=malloc(8*n*n),*b=malloc(8*n); double det=1; for(int j=0;j<n;j++) for(int i=0;i<n;i++) A[i+j*n]=i<j?0:i==j?1+0.1*(i%3):0.2*fgen(92,i,j,n); for(int i=0;i<n;i++){ b[i]=fgen(93,i,n,0); det*=A[i+i*n]; } struct LinearTransform*l=linear_transform_alloc(n,n,A,b,det),*m=NULL; l->mt=LT; if(inv) linear_transform_invert(l); mc_note("map of %d inverted %d",n,inv);
        ROUNDTRIP("big-map",0,l,linear_transform_serialize,linear_transform_deserialize,m); OB a={0},c={0}; obs_l(&a,l); obs_l(&c,m); ob_same("big-map-same",&a,&c); mc_state(mc_hu(mc_h0(),30000+n*2+inv)); linear_transform_free(l); linear_transform_free(m); free(A); free(b); }
}
const mc_driver mc_drivers[]={{"big",big,1,MC_BOTH},{"function-binary",u_bin,1,MC_BOTH},{"function-text",u_txt,1,MC_BOTH},{"quasimatrix",qmat,1,MC_BOTH},{"core",qmar,1,MC_BOTH},{"train",trains,1,MC_BOTH},{"array",arrays,1,MC_BOTH},{"map",lintr,1,MC_BOTH},{"density",dens,1,MC_BOTH},{"sequence",concat,1,MC_BOTH},{"text-sequence",ctext,1,MC_BOTH},{"files",files,1,MC_BOTH},{0}};
