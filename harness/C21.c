/* C21: black-box wrappers, option containers and bounding boxes. */
#include "uni.h"
#include "lib_clinalg.h"
#include "space.h"
#include "fapprox.h"
const char *mc_property="C21";
#define MD 12
#define MP 1104
#define MF 104
enum { TND, TIDX, TVEC, TPY, TMO, TARR, TNULL, NT };
static const char*TN[]={"general","general-index","general-vec","python","mo-vec","array-vec",NULL};
/* record of everything the library asked of the user function */
typedef struct { int id; } Arg;
static struct { int n; double x[MP][MD]; int id[MP]; int which[MP]; int f[MP]; int d; int calls,failat,code; } L;
static double val(int f,int id,int which,const double*x,int d){ double s=1+f*0.5+id*0.25+which*3; for(int i=0;i<d;i++) s+=(i+1.5)*x[i]*x[i]; return s; }
static void rec(int f,int id,int which,const double*x){ if(L.n>=MP) mc_fail("calls","more points requested than asked for"); for(int i=0;i<L.d;i++) L.x[L.n][i]=x[i]; L.id[L.n]=id; L.which[L.n]=which; L.f[L.n]=f; L.n++; }
static double nd0(const double*x,void*a){ rec(0,((Arg*)a)->id,0,x); return val(0,((Arg*)a)->id,0,x,L.d); }
static double nd1(const double*x,void*a){ rec(1,((Arg*)a)->id,0,x); return val(1,((Arg*)a)->id,0,x,L.d); }
static double ix(int f,const size_t*x,void*a){ double y[MD]; for(int i=0;i<L.d;i++) y[i]=x[i]; rec(f,((Arg*)a)->id,0,y); return val(f,((Arg*)a)->id,0,y,L.d); }
static double ix0(const size_t*x,void*a){ return ix(0,x,a); }
static double ix1(const size_t*x,void*a){ return ix(1,x,a); }
static int vec(int f,int which,size_t N,const double*x,double*o,void*a){ int id=((Arg*)a)->id; for(size_t j=0;j<N;j++){ rec(f,id,which,x+j*L.d); o[j]=val(f,id,which,x+j*L.d,L.d); } return L.calls++==L.failat?L.code:0; }
static int v0(size_t N,const double*x,double*o,void*a){ return vec(0,0,N,x,o,a); }
static int v1(size_t N,const double*x,double*o,void*a){ return vec(1,0,N,x,o,a); }
static int m0(size_t N,size_t w,const double*x,double*o,void*a){ return vec(0,w,N,x,o,a); }
static int m1(size_t N,size_t w,const double*x,double*o,void*a){ return vec(1,w,N,x,o,a); }
static Arg A[3]={{1},{2},{5}};
static double pt(int j,int i,int s){ return 1+((j*5+i*3+s*7)%9); }
/* model of the wrapper */
typedef struct { int type,d,f[MF],id[MF],which,nf; int fib,fdim,nfib,on; double fv[MF][MD]; } M;
static void chk(struct Fwrap*fw,M*m,int N,int s)
{
    static double xd[MP*MD]; static size_t xs[MP*MD]; int w=m->fib?1:m->d; for(int j=0;j<N;j++) for(int i=0;i<w;i++){ xd[j*w+i]=m->type==TIDX?pt(j,i,s):pt(j,i,s)*0.125-0.5; xs[j*w+i]=(size_t)pt(j,i,s); }
    size_t nb=(size_t)N*w*8; char*buf=malloc(nb?nb:1); memcpy(buf,m->type==TIDX?(void*)xs:(void*)xd,nb); char*bk=malloc(nb?nb:1); memcpy(bk,buf,nb);
    double*o=malloc(N?8*N:1); for(int j=0;j<N;j++) o[j]=-1e99;
    L.n=0; int c0=L.calls; int r=(m->fib&&s%2)?fwrap_eval_fiber(N,buf,o,fw):fwrap_eval(N,buf,o,fw); mc_step();
    int slot=m->type==TARR?m->which:0, f=m->f[slot], id=m->id[slot], which=m->type==TMO?m->which:0;
    mc_expect("points",L.n==N,"%d points evaluated, %d requested",L.n,N); mc_expect("input",!memcmp(buf,bk,nb),"points modified");
    for(int j=0;j<N;j++){ double y[MD]; for(int i=0;i<m->d;i++) y[i]=m->fib?(i==m->fdim?xd[j]:m->fv[m->on][i]):xd[j*w+i];
        for(int i=0;i<m->d;i++) mc_expect("point",L.x[j][i]==y[i],"point %d coordinate %d is %g, requested %g",j,i,L.x[j][i],y[i]);
        mc_expect("argument",L.id[j]==id&&L.f[j]==f&&L.which[j]==which,"function %d argument %d output %d used, expected %d %d %d",L.f[j],L.id[j],L.which[j],f,id,which);
        mc_expect("value",o[j]==val(f,id,which,y,m->d),"value %d is %g",j,o[j]); }
    int failed=(m->type==TVEC||m->type==TPY||m->type==TMO||m->type==TARR)&&L.failat>=c0&&L.failat<L.calls;
    if(failed) mc_expect("failure",r!=0,"failure code %d of the user function not reported",L.code); else mc_expect("return",r==0,"return value %d without a failure",r);
    mc_expect("getd",(int)fwrap_get_d(fw)==m->d,"dimension"); free(buf);free(bk);free(o);
}
static void setf(struct Fwrap*fw,M*m,int slot,int f,int a){ m->f[slot]=f; m->id[slot]=A[a].id; switch(m->type){ case TND: case TNULL: fwrap_set_f(fw,f?nd1:nd0,&A[a]); break; case TIDX: fwrap_set_findex(fw,f?ix1:ix0,&A[a]); break; case TVEC: case TPY: fwrap_set_fvec(fw,f?v1:v0,&A[a]); break; case TMO: fwrap_set_mofvec(fw,f?m1:m0,&A[a]); break; default: fwrap_set_func_array(fw,slot,f?v1:v0,&A[a]); } }
static void d_wrap(void)
{
    M m; memset(&m,0,sizeof m); m.type=mc_choose(NT,"type"); m.d=1+mc_choose(3,"dim"); memset(&L,0,sizeof L); L.d=m.d; L.failat=mc_choose(mc_thorough?6:4,"fail at")-1; L.code=mc_choose(2,"code")?3:-7; if(L.failat<0&&L.code==3) mc_skip(); if(L.failat>=0&&(m.type==TND||m.type==TIDX||m.type==TNULL)) mc_skip();
    struct Fwrap*fw=fwrap_create(m.d,TN[m.type]); if(mc_choose(2,"destroy at once")){ fwrap_destroy(fw); mc_state(m.type); return; }
    if(m.type==TARR){ m.nf=3; fwrap_set_num_funcs(fw,3); for(int k=0;k<3;k++) setf(fw,&m,k,k%2,k); } else setf(fw,&m,0,0,0);
    mc_expect("which0",fwrap_get_which_eval(fw)==0,"initial output"); uint64_t h=mc_h0(); h=mc_hu(h,m.type*100+m.d*10+L.failat+1);
    int depth=mc_thorough?7:6;
    for(int st=0;st<depth;st++){ int op=mc_choose(7,"op"); if(st==1) mc_shard(); h=mc_hu(h,op);
        switch(op){
        case 0: chk(fw,&m,1+(st%2)*2,st); break;
        case 1: chk(fw,&m,0,st); chk(fw,&m,2,st+1); break;
        case 2: if(m.type==TARR){ setf(fw,&m,1,1-m.f[1],(m.which+1)%3); setf(fw,&m,2,0,1);} else setf(fw,&m,0,1-m.f[0],(st+1)%3); break;
        case 3: { int w=(m.which+1)%3; fwrap_set_which_eval(fw,w); m.which=w; mc_expect("which",(int)fwrap_get_which_eval(fw)==w,"output index"); } break;
        case 4: { if(m.fib) fwrap_clean_fiber_approx(fw); m.fib=1; m.fdim=(st+m.which)%m.d; m.nfib=1+st%3; m.on=0; fwrap_initialize_fiber_approx(fw,m.fdim,m.nfib);
            for(int k=m.nfib-1;k>=0;k--){ double l[MD],r[MD]; size_t ls[MD],rs[MD]; for(int i=0;i<m.d;i++){ m.fv[k][i]=pt(k,i,st+3); if(m.type!=TIDX) m.fv[k][i]*=0.25; if(i<m.fdim){ l[i]=m.fv[k][i]; ls[i]=(size_t)m.fv[k][i]; } if(i>m.fdim){ r[i-m.fdim-1]=m.fv[k][i]; rs[i-m.fdim-1]=(size_t)m.fv[k][i]; } } int nl=m.fdim,nr=m.d-1-m.fdim; fwrap_add_fiber(fw,k,nl,nl?(m.type==TIDX?(void*)ls:(void*)l):NULL,nr,nr?(m.type==TIDX?(void*)rs:(void*)r):NULL); } } break;
        case 5: if(!m.fib) mc_skip(); m.on=(m.on+1)%m.nfib; fwrap_set_which_fiber(fw,m.on); break;
        case 6: if(!m.fib) mc_skip(); fwrap_clean_fiber_approx(fw); m.fib=0; break;
        } mc_step(); }
    chk(fw,&m,2,9); mc_state(h); if(m.fib) fwrap_clean_fiber_approx(fw); fwrap_destroy(fw);
}
/* univariate approximation through every kind of wrapper: every entry is its own function */
static void d_uni(void)
{
    int cls=mc_choose(5,"class"), d=mc_choose(3,"domain"), type=mc_choose(5,"type"), nr=1+mc_choose(3,"rows"), nc=1+mc_choose(2,"cols"); mc_shard(); if(cls==UKER) cls=UHERM; /* kernel approximation from a black box is not offered */
    RF g; ugrid(&g,cls,d,7); if(cls>=ULEG) g.n=4; memset(&L,0,sizeof L); L.d=1; L.failat=-1; static const int TT[5]={TND,TVEC,TMO,TARR,TPY}; M m; memset(&m,0,sizeof m); m.type=TT[type]; m.d=1;
    struct OneApproxOpts*o; void*u; if(cls>=ULEG){ struct OpeOpts*p=ope_opts_alloc(cls==ULEG?LEGENDRE:cls==UCHEB?CHEBYSHEV:HERMITE); if(cls!=UHERM){ ope_opts_set_lb(p,g.lb);ope_opts_set_ub(p,g.ub);} ope_opts_set_start(p,5); ope_opts_set_maxnum(p,8); ope_opts_set_coeffs_check(p,1); ope_opts_set_tol(p,1e-13); u=p; } else u=uopts(&g);
    o=one_approx_opts_alloc(UFC[cls],u); struct Fwrap*fw=fwrap_create(1,TN[m.type]); int n=nr*nc; if(m.type==TARR){ fwrap_set_num_funcs(fw,n); for(int k=0;k<n;k++) fwrap_set_func_array(fw,k,k%2?v1:v0,&A[k%3]); } else setf(fw,&m,0,0,2);
    for(int pass=0;pass<2;pass++){ struct Qmarray*q=NULL; struct Quasimatrix*z=NULL; 
        /* the log is only used for bounds here */
        L.n=-100000; L.n=0; enum function_class fc[8]; for(int k=0;k<n;k++) fc[k]=UFC[cls];
        for(int k=0;k<n;k++){ L.n=0; fwrap_set_which_eval(fw,k); struct GenericFunction*f=generic_function_approximate1d(UFC[cls],u,fw); int npt=L.n; for(int j=0;j<npt;j++) if(cls!=UHERM) mc_expect("uni-domain",L.x[j][0]>=g.lb-1e-12&&L.x[j][0]<=g.ub+1e-12,"evaluated at %g outside [%g,%g]",L.x[j][0],g.lb,g.ub);
            for(int i=0;i<g.n;i++){ double x=cls>=ULEG?umap(UPT[i*3],g.lb,g.ub):g.x[i]; double w= m.type==TARR?val(k%2,A[k%3].id,0,&x,1):m.type==TMO?val(0,A[2].id,k,&x,1):val(0,A[2].id,0,&x,1); mc_cmp("uni-value",generic_function_1d_eval(f,x),w,1e-9); } generic_function_free(f); mc_step(); }
        if(n*12<MP){ L.n=0; q=qmarray_approx1d(nr,nc,o,fw); L.n=0; z=quasimatrix_approx1d(n,fw,fc,u); mc_steps(2); for(int k=0;k<n;k++) for(int i=0;i<g.n;i++){ double x=cls>=ULEG?umap(UPT[i*3],g.lb,g.ub):g.x[i]; double w= m.type==TARR?val(k%2,A[k%3].id,0,&x,1):m.type==TMO?val(0,A[2].id,k,&x,1):val(0,A[2].id,0,&x,1); mc_cmp("qm-value",generic_function_1d_eval(q->funcs[k],x),w,1e-9); mc_cmp("quasi-value",generic_function_1d_eval(quasimatrix_get_func(z,k),x),w,1e-9); } qmarray_free(q); quasimatrix_free(z); } }
    mc_state(mc_hu(mc_h0(),cls*1000+d*100+type*10+nr*3+nc)); fwrap_destroy(fw); one_approx_opts_free(o); uopts_free(cls,u);
}
/* option containers: last value stored for each dimension */
static void d_opts(void)
{
    int dim=1+mc_choose(3,"dim"); RF g[5]; struct OneApproxOpts*o[5]; void*u[5]; static const int CL[5]={ULIN,UCONST,UKER,ULEG,UCHEB}; for(int k=0;k<5;k++){ ugrid(&g[k],CL[k],k%3,k==0?7:k==1?5:3); u[k]=uopts(&g[k]); o[k]=mc_choose(1,"x")?NULL:one_approx_opts_alloc(UFC[CL[k]],u[k]); }
    struct MultiApproxOpts*m=multi_approx_opts_alloc(dim); struct FiberOptArgs*fo=fiber_opt_args_init(dim); int at[3]; int ff[3]={-1,-1,-1}; int all=mc_choose(2,"all same"); if(all){ int k=mc_choose(5,"which"); multi_approx_opts_set_all_same(m,o[k]); for(int i=0;i<dim;i++) at[i]=k; } else for(int i=0;i<dim;i++){ at[i]=mc_choose(5,"opts"); if(i%2) multi_approx_opts_set_dim_ref(m,i,&o[at[i]]); else multi_approx_opts_set_dim(m,i,o[at[i]]); }
    mc_shard(); int ui=mc_choose(dim,"update"), uk=mc_choose(5,"new"); multi_approx_opts_set_dim(m,ui,o[uk]); at[ui]=uk; int fi=mc_choose(dim,"fiber dim"); fiber_opt_args_set_dim(fo,fi,u[1]); ff[fi]=1;
    mc_expect("opts-dim",(int)multi_approx_opts_get_dim(m)==dim,"dimension"); size_t np[5]; for(int k=0;k<5;k++) np[k]=g[k].n;
    int si=mc_choose(dim,"resize"); if(at[si]==3||at[si]==4){ multi_approx_opts_set_dim_nparams(m,si,7); np[at[si]]=7; }
    for(int i=0;i<dim;i++){ int k=at[i]; mc_expect("opts-fc",multi_approx_opts_get_fc(m,i)==UFC[CL[k]],"class of dimension %d",i); mc_expect("opts-ref",multi_approx_opts_get_aopts(m,i)==o[k],"options of dimension %d",i); mc_expect("opts-lb",multi_approx_opts_get_dim_lb(m,i)==g[k].lb&&multi_approx_opts_get_dim_ub(m,i)==g[k].ub,"bounds of dimension %d: %g %g",i,multi_approx_opts_get_dim_lb(m,i),multi_approx_opts_get_dim_ub(m,i)); mc_expect("opts-np",multi_approx_opts_get_dim_nparams(m,i)==np[k],"%zu parameters in dimension %d, expected %zu",multi_approx_opts_get_dim_nparams(m,i),i,np[k]); mc_expect("opts-lin",multi_approx_opts_linear_p(m,i)==1,"linear"); mc_expect("fiber",fiber_opt_args_get_opts(fo,i)==(ff[i]<0?NULL:u[1]),"fiber options"); mc_steps(6); }
    struct c3Vector*cv[3]; double nx[4]={1,2,3,4}; for(int i=0;i<dim;i++) cv[i]=c3vector_alloc(i+1,nx); struct FiberOptArgs*f2=fiber_opt_args_bf(dim,cv),*f3=fiber_opt_args_bf_same(dim,cv[dim-1]); for(int i=0;i<dim;i++){ mc_expect("fiber-bf",fiber_opt_args_get_opts(f2,i)==cv[i]&&fiber_opt_args_get_opts(f3,i)==cv[dim-1],"nodes"); } fiber_opt_args_free(f2); fiber_opt_args_free(f3); for(int i=0;i<dim;i++) c3vector_free(cv[i]);
    uint64_t h=mc_h0(); for(int i=0;i<dim;i++) h=mc_hu(h,at[i]*8+ff[i]); h=mc_hu(h,si); mc_state(h); multi_approx_opts_free(m); fiber_opt_args_free(fo); for(int k=0;k<5;k++){ one_approx_opts_free(o[k]); uopts_free(CL[k],u[k]); }
}
static void d_box(void)
{
    int d=1+mc_choose(4,"dim"), how=mc_choose(3,"how"); mc_shard(); double lb[4],ub[4]; for(int i=0;i<d;i++){ lb[i]=how==0?-1:how==1?-2.5:-1-i; ub[i]=how==0?1:how==1?3.5:0.5*i; } struct BoundingBox*b=how==0?bounding_box_init_std(d):how==1?bounding_box_init(d,-2.5,3.5):bounding_box_vec(d,lb,ub);
    uint64_t h=mc_h0(); for(int s=0;s<3;s++){ int op=mc_choose(2,"op"), i=mc_choose(d,"i"); double v=mc_choose(2,"v")?7.25+s:-9.5-s; if(op){ bounding_box_set_lb_dim(b,i,v); lb[i]=v; } else { bounding_box_set_ub_dim(b,i,v); ub[i]=v; } mc_step();
        mc_expect("box-dim",(int)bounding_box_get_dim(b)==d,"dimension"); for(int k=0;k<d;k++) mc_expect("box",bounding_box_get_lb(b)[k]==lb[k]&&bounding_box_get_ub(b)[k]==ub[k]&&bounding_box_get_lb_dim(b,k)==lb[k]&&bounding_box_get_ub_dim(b,k)==ub[k],"bounds of dimension %d",k); }
    h=mc_hda(h,d,lb); h=mc_hda(h,d,ub); mc_state(h); bounding_box_free(b);
}
/* fibre cuts: a function of several variables as functions of one */
struct fcl { int n; double x[8][MD]; int d; void*self; };
static double fc2(double x,double y,void*a){ struct fcl*l=a; if(l->self!=l) mc_fail("cut-arg","argument"); l->x[l->n%8][0]=x; l->x[l->n%8][1]=y; l->n++; return 3*x-7*y+x*y; }
static double fcn(double*x,void*a){ struct fcl*l=a; if(l->self!=l) mc_fail("cut-arg","argument"); double r=0; for(int i=0;i<l->d;i++){ l->x[l->n%8][i]=x[i]; r+=(i+2)*x[i]*(1+0.5*x[(i+1)%l->d]); } l->n++; return r; }
static void d_cut(void)
{
    int kind=mc_choose(3,"kind"),d=kind==2?1+mc_choose(MD,"d"):2,dim=mc_choose(d,"dim"),n=kind==0?1:1+mc_choose(3,"n"); mc_shard(); struct fcl l; memset(&l,0,sizeof l); l.self=&l; l.d=d; double v2[3]={0.5,-1.25,2},vn[3][MD],*pv[3]; for(int k=0;k<3;k++){ for(int i=0;i<d;i++) vn[k][i]=0.3*(k+1)-0.7*i; pv[k]=vn[k]; }
    struct FiberCut**f=NULL,*f0=NULL; if(kind==0) f0=fiber_cut_init2d(fc2,&l,dim,v2[0]); else if(kind==1) f=fiber_cut_2darray(fc2,&l,dim,n,v2); else f=fiber_cut_ndarray(fcn,&l,d,dim,n,pv); mc_step();
    double save2[3],saven[3][MD]; memcpy(save2,v2,sizeof v2); memcpy(saven,vn,sizeof vn); for(int k=0;k<3;k++){ v2[k]=99; for(int i=0;i<d;i++) vn[k][i]=99; }   /* the cuts own their values */
    uint64_t h=mc_hu(mc_hu(mc_h0(),kind*16+d),dim*4+n); for(int s=0;s<4;s++){ int k=mc_choose(n,"which"); double x=1.5-s; l.n=0; double r=kind==2?fiber_cut_eval(x,f[k]):fiber_cut_eval2d(x,f?f[k]:f0); mc_step(); double P[MD]; for(int i=0;i<d;i++) P[i]=i==dim?x:kind==2?saven[k][i]:save2[k]; struct fcl m; memset(&m,0,sizeof m); m.self=&m; m.d=d; double w=kind==2?fcn(P,&m):fc2(P[0],P[1],&m);
        mc_expect("cut-calls",l.n==1,"%d calls",l.n); mc_expect("cut-point",!memcmp(l.x[0],P,8*d),"point"); mc_cmp("cut-value",r,w,0); h=mc_hd(h,r); }
    mc_state(h); if(f) fiber_cut_array_free(n,f); else fiber_cut_free(f0);
}
/* number of parameters: what was last set, in functions built afterwards */
static void d_nparams(void)
{
    int cls=mc_choose(3,"class"); cls=cls==0?UKER:cls==1?ULEG:UCHEB; int d=mc_choose(2,"domain"); mc_shard(); RF g; ugrid(&g,cls,d,3); void*u=uopts(&g); struct OneApproxOpts*o=one_approx_opts_alloc(UFC[cls],u); size_t cur=g.n; uint64_t h=mc_hu(mc_h0(),cls*2+d);
    for(int s=0;s<3;s++){ cur=(size_t[]){2,3,5}[mc_choose(3,"n")]; one_approx_opts_set_nparams(o,cur); mc_step(); mc_expect("np-get",one_approx_opts_get_nparams(o)==cur,"%zu parameters, set %zu",one_approx_opts_get_nparams(o),cur); mc_expect("np-bounds",one_approx_opts_get_lb(o)==g.lb&&one_approx_opts_get_ub(o)==g.ub,"bounds changed");
        double p[5]={1,-2,0.5,0.25,3},q[5]; struct GenericFunction*f=generic_function_create_with_params(UFC[cls],u,cur,p); mc_expect("np-func",generic_function_get_num_params(f)==cur,"function of %zu parameters",generic_function_get_num_params(f)); generic_function_get_params(f,q); for(size_t i=0;i<cur;i++) mc_cmp("np-val",q[i],p[i],0);
        if(cls==UKER){ RF r=g; r.n=(int)cur; for(size_t i=0;i<cur;i++){ r.c[i]=p[i]; r.x[i]=g.lb+(g.ub-g.lb)*i/(cur-1.0); } for(int i=0;i<UNP;i++){ double x=umap(UPT[i],g.lb,g.ub); mc_cmp("np-kernel",generic_function_1d_eval(f,x),ueval(&r,x),1e-11); } }
        generic_function_free(f); h=mc_hu(h,cur); } mc_state(h); one_approx_opts_free(o); uopts_free(cls,u);
}
/* more variables, longer batches, more fibres and functions */
static void d_big(void)
{
    M m; memset(&m,0,sizeof m); m.type=mc_choose(NT,"type"); m.d=(int[]){4,6,9,12}[mc_choose(4,"dim")]; int nf=(int[]){5,11,24,101}[mc_choose(4,"functions and fibres")]; mc_shard(); m.fdim=mc_choose(12,"fibre variable"); if(m.fdim>=m.d) mc_skip(); int lo=mc_choose(2,"first index"),N=(int[]){1,9,64,300,1100}[mc_choose(5,"points")],fa=mc_choose(4,"fail at"); if(N==1100&&nf!=5) mc_skip(); if(fa&&(lo||m.type==TND||m.type==TIDX||m.type==TNULL)) mc_skip();
    memset(&L,0,sizeof L); L.d=m.d; L.code=3; L.failat=fa==0?-1:fa==1?0:fa==2?1+(m.type==TARR||m.type==TMO?nf:1):3+(m.type==TARR||m.type==TMO?nf:1); struct Fwrap*fw=fwrap_create(m.d,TN[m.type]); if(m.type==TARR){ m.nf=nf; fwrap_set_num_funcs(fw,nf); for(int k=0;k<nf;k++) setf(fw,&m,k,k%2,k%3); } else setf(fw,&m,0,1,2);
    for(int w=0;w<nf;w++){ if(m.type!=TARR&&m.type!=TMO&&w) break; int k=lo?nf-1-w:w; fwrap_set_which_eval(fw,k); m.which=k; mc_expect("which",(int)fwrap_get_which_eval(fw)==k,"output index"); chk(fw,&m,w?3:N,w); }
    m.fib=1; m.nfib=nf; m.on=0; fwrap_initialize_fiber_approx(fw,m.fdim,nf);
    for(int q=0;q<nf;q++){ int k=lo?nf-1-q:q; double l[MD],r[MD]; size_t ls[MD],rs[MD]; for(int i=0;i<m.d;i++){ m.fv[k][i]=pt(k*3,i,k+3); if(m.type!=TIDX) m.fv[k][i]=m.fv[k][i]*0.25+k; if(i<m.fdim){ l[i]=m.fv[k][i]; ls[i]=(size_t)m.fv[k][i]; } if(i>m.fdim){ r[i-m.fdim-1]=m.fv[k][i]; rs[i-m.fdim-1]=(size_t)m.fv[k][i]; } } int nl=m.fdim,nr=m.d-1-m.fdim; fwrap_add_fiber(fw,k,nl,nl?(m.type==TIDX?(void*)ls:(void*)l):NULL,nr,nr?(m.type==TIDX?(void*)rs:(void*)r):NULL); mc_step(); }
    chk(fw,&m,N,1); for(int q=0;q<nf;q++){ m.on=lo?q:nf-1-q; fwrap_set_which_fiber(fw,m.on); chk(fw,&m,q%2||q>9?2:N,q); } fwrap_clean_fiber_approx(fw); m.fib=0; chk(fw,&m,N,5);
    mc_state(mc_hu(mc_hu(mc_h0(),m.type*100+m.d),m.fdim*1000+nf)); fwrap_destroy(fw);
}
const mc_driver mc_drivers[]={{"wrap",d_wrap,1,MC_BOTH},{"uni",d_uni,1,MC_BOTH},{"opts",d_opts,1,MC_BOTH},{"box",d_box,1,MC_BOTH},{"cut",d_cut,1,MC_BOTH},{"nparams",d_nparams,1,MC_BOTH},{"big",d_big,1,MC_BOTH},{0}};
