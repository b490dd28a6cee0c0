/* C10: parameters of univariate functions, cores and trains; gradients with respect to parameters. */
#include "par.h"
#include "big.h"
const char *mc_property="C10";
static void pvals(RF*f,int ad,int k){ ucoef(f,k); if(ad) for(int i=0;i<f->n;i++) f->x[i]=umap(UMN[i+1]+0.0625*(k==1)-0.03125*(k==2),f->lb,f->ub); }
/* ---- univariate ---- */
static void ugradcheck(struct GenericFunction*g,RF*f,int ad)
{
    int n=pn(f,ad); double t=1e-11*uscl(f)*(ad?40/(f->ub-f->lb):1); double X[UNP]; for(int i=0;i<UNP;i++) X[i]=umap(UPT[i],f->lb,f->ub);
    for(int i=0;i<UNP;i++){ double*gr=dirty(n); double v=generic_function_param_grad_eval2(g,X[i],gr); mc_step(); mc_cmp("eval2-value",v,ueval(f,X[i]),t); for(int q=0;q<n;q++) mc_cmp("eval2-gradient",gr[q],pgrad(f,q,X[i]),t); free(gr); }
    double*gr=dirty(n*UNP); int r=generic_function_param_grad_eval(g,UNP,X,gr); mc_step(); mc_expect("grad_eval",r==0,"returned %d",r); for(int i=0;i<UNP;i++) for(int q=0;q<n;q++) mc_cmp("grad_eval",gr[i*n+q],pgrad(f,q,X[i]),t); free(gr);
    if(ad||f->cls==UCONST) return;
    double*s=malloc(n*sizeof(double)); for(int q=0;q<n;q++) s[q]=0.5*q-0.25; double sc=0.75; r=generic_function_squared_norm_param_grad(g,sc,s); mc_step(); mc_expect("sqnorm",r==0,"returned %d",r);
    for(int q=0;q<n;q++){ RF e=*f; for(int i=0;i<n;i++) e.c[i]=i==q; mc_cmp("sqnorm-gradient",s[q],0.5*q-0.25+2*sc*u_inner(f,&e),1e-10*uscl(f)*(f->ub-f->lb+1)); } free(s);
}
static void b_uni(void)
{
    int c=mc_choose(PC,"class"),D=mc_choose(3,"domain"),m=mc_choose(8,"grid"),h0=mc_choose(4,"initial"); mc_shard(); int ad=c==6; if(c==2||c==6) if(m) mc_skip(); if(c>=3&&c<6&&m>=5) mc_skip(); if(c==5&&D) mc_skip();
    RF f; ugrid(&f,ucls(c),D,m); ucoef(&f,h0); struct GenericFunction*g=pbuild(&f,ad); mc_key("%s dom%d grid%d",PN[c],D,m); int n=pn(&f,ad); uint64_t h=mc_hu(mc_h0(),c*64+D*8+m); double pv[UMAX];
    for(int st=0;st<4;st++){ mc_expect("num_params",(int)generic_function_get_num_params(g)==n,"%zu parameters",generic_function_get_num_params(g));
        double*p=dirty(n); size_t k=generic_function_get_params(g,p); mc_step(); mc_expect("get_params",(int)k==n,"returned %zu",k); pget(&f,ad,pv); for(int i=0;i<n;i++) mc_cmp("get_params",p[i],pv[i],0); 
        if(!ad){ size_t kk=0; double*rf=generic_function_get_params_ref(g,&kk); mc_expect("params_ref",(int)kk==n&&!memcmp(rf,pv,n*sizeof(double)),"reference differs"); }
        ucheck("value",g,&f); ugradcheck(g,&f,ad); h=uhash(h,g,f.lb,f.ub); mc_state(h);
        struct GenericFunction*cp=generic_function_copy(g); mc_step(); mc_expect("copy-num_params",(int)generic_function_get_num_params(cp)==n,"copy has %zu parameters",generic_function_get_num_params(cp)); { double*pc=dirty(n); mc_expect("copy-params",(int)generic_function_get_params(cp,pc)==n&&!memcmp(pc,pv,n*sizeof(double)),"parameters of the copy differ"); free(pc); } if(st==1){ struct GenericFunction*tt=g; g=cp; cp=tt; }
        if(st==3){ generic_function_update_params(g,n,p); mc_step(); ucheck("round-trip",g,&f); ucheck("copy",cp,&f); free(p); generic_function_free(cp); break; }
        RF o=f; pvals(&f,ad,mc_choose(4,"update")); pget(&f,ad,p); double*q=malloc(n*sizeof(double)); memcpy(q,p,n*sizeof(double)); int r=generic_function_update_params(g,n,q); mc_step(); mc_expect("update",r==0,"returned %d",r); mc_expect("update-input",!memcmp(p,q,n*sizeof(double)),"input changed"); for(int i=0;i<n;i++) q[i]=1e300; free(q); ucheck("copy-independent",cp,&o); generic_function_free(cp); free(p); }
    if(c>=3&&c<6){ for(int k=0;k<4;k++){ size_t nn=f.n+k; generic_function_pad_params(g,nn); mc_step(); mc_expect("pad",generic_function_get_num_params(g)==nn,"%zu parameters",generic_function_get_num_params(g)); for(size_t i=f.n;i<nn;i++) f.c[i]=0; f.n=nn; ucheck("pad",g,&f); double*p=dirty(nn); generic_function_get_params(g,p); for(size_t i=0;i<nn;i++) mc_cmp("pad-params",p[i],f.c[i],0); free(p); ugradcheck(g,&f,ad); if(k&1){ ucoef(&f,2); double p2[UMAX]; memcpy(p2,f.c,sizeof p2); generic_function_update_params(g,nn,p2); ucheck("pad-update",g,&f);} } }
    generic_function_free(g);
}
/* inner products with the gradient, 1-D regression costs */
static void b_inner(void)
{
    int c=3+mc_choose(3,"class"),D=mc_choose(3,"domain"),na=mc_choose(5,"size a"),nb=mc_choose(5,"size b"); mc_shard(); int pa=mc_choose(4,"a"),pb=mc_choose(9,"b"); if(c==5&&D) mc_skip();
    RF a,b; ugrid(&a,c,D,na); ugrid(&b,c,D,nb); if(pb>=4+b.n) mc_skip(); ucoef(&a,pa); ucoef(&b,pb); struct GenericFunction*A=ubuild(&a),*B=ubuild(&b); double*g=dirty(a.n); size_t r=generic_function_param_grad_inner(A,B,g); mc_step(); mc_expect("inner",(int)r==a.n,"returned %zu",r); uint64_t h=mc_h0();
    for(int q=0;q<a.n;q++){ RF e=a; for(int i=0;i<a.n;i++) e.c[i]=i==q; double w=u_inner(&e,&b); mc_cmp("inner-gradient",g[q],w,1e-11*uscl(&b)*(b.ub-b.lb+1)); h=mc_hd(h,w); } mc_state(h); ucheck("inner-input",A,&a); ucheck("inner-input",B,&b); free(g); generic_function_free(A); generic_function_free(B);
}
static double d2ip(const RF*f,const RF*g){ const double*X=u_gl(0),*W=u_gl(1); double s=0; for(int i=0;i<40;i++){ double x=f->lb+(X[i]+1)/2*(f->ub-f->lb); s+=W[i]*upolyd(f,x,2)*upolyd(g,x,2); } return s*(f->ub-f->lb); }
static double h2ip(const RF*f,const RF*g){ /* hermite: expand the second derivative, he_k'' = sqrt(k(k-1)) he_{k-2} */ double s=0; for(int k=2;k<f->n&&k<g->n;k++) s+=f->c[k]*g->c[k]*k*(k-1); return s; }
typedef double (*costf)(size_t,const double*,double*,void*);
static void b_cost(void)
{
    int c=mc_choose(6,"class"),kind=mc_choose(5,"cost"),D=mc_choose(3,"domain"),m=mc_choose(8,"grid"); mc_shard(); int N=1+mc_choose(6,"samples"); if(c==2&&m) mc_skip(); if(c>=3&&m>=5) mc_skip(); if(c==5&&D) mc_skip(); if(c==UCONST&&kind) mc_skip(); if(kind>=2&&c<3) mc_skip();
    RF f; ugrid(&f,c,D,m); void*ao=uopts(&f); int n=f.n; mc_key("%s cost%d grid%d N%d",UNAME[c],kind,m,N);
    double x[8],y[8],x0[8],y0[8]; for(int i=0;i<N;i++){ x[i]=x0[i]=umap(UPT[(i*7+3)%UNP],f.lb,f.ub); y[i]=y0[i]=fgen(3,i,c,m); }
    struct Regress1DOpts*o=regress_1d_opts_create(PARAMETRIC,kind==0?LS:kind==1?RLS2:kind==2?RLSD2:RLSRKHS,N,x,y); regress_1d_opts_set_parametric_form(o,UFC[c],ao); double lam=0.375; if(kind) regress_1d_opts_set_regularization_penalty(o,lam); if(kind>=3) regress_1d_opts_set_RKHS_decay_rate(o,kind==3?ALGEBRAIC:EXPONENTIAL,kind==3?0.75:1.5);
    double*init=malloc(n*sizeof(double)); for(int i=0;i<n;i++) init[i]=0.25*(i+1); regress_1d_opts_set_initial_parameters(o,init);
    costf C=kind==0?param_LSregress_cost:kind==1?param_RLS2regress_cost:kind==2?param_RLSD2regress_cost:param_RLSRKHSregress_cost; uint64_t h=mc_h0();
    double M[UMAX][UMAX],b[UMAX],yy=0; RF e1=f,e2=f; for(int s=0;s<N;s++) yy+=y[s]*y[s];
    for(int p=0;p<n;p++){ for(int i=0;i<n;i++) e1.c[i]=i==p; b[p]=0; for(int s=0;s<N;s++) b[p]+=y[s]*ueval(&e1,x[s]); for(int q=0;q<n;q++){ for(int i=0;i<n;i++) e2.c[i]=i==q; M[p][q]=0; for(int s=0;s<N;s++) M[p][q]+=ueval(&e1,x[s])*ueval(&e2,x[s]); if(kind==1) M[p][q]+=lam*u_inner(&e1,&e2); if(kind==2) M[p][q]+=lam*(c==5?h2ip(&e1,&e2):d2ip(&e1,&e2)); } }
    double ms=1; for(int p=0;p<n;p++) for(int q=0;q<n;q++) ms+=fabs(M[p][q]); if(kind>=3) ms+=100;
    for(int st=0;st<2;st++){ ucoef(&f,mc_choose(4,"params")); double*p=malloc(n*sizeof(double)),*g=dirty(n); memcpy(p,f.c,n*sizeof(double)); double v=C(n,p,g,o),v0=C(n,p,NULL,o); mc_steps(2); mc_cmp("cost-no-gradient",v0,v,1e-12*fabs(v)+1e-13);
        mc_expect("cost-input",!memcmp(p,f.c,n*sizeof(double)),"parameters changed");
        if(kind<3){ double w=0.5*yy; for(int i=0;i<n;i++){ double s=-b[i]; for(int j=0;j<n;j++) s+=M[i][j]*p[j]; mc_cmp("cost-gradient",g[i],s,1e-10*ms); w+=0.5*p[i]*(s-b[i]); } mc_cmp("cost",v,w,1e-10*ms*10); }
        /* all these costs are quadratic, so a central difference with a unit step is exact */
        for(int i=0;i<n;i++){ p[i]=f.c[i]+1; double vp=C(n,p,NULL,o); p[i]=f.c[i]-1; double vm=C(n,p,NULL,o); p[i]=f.c[i]; mc_cmp("cost-gradient-difference",g[i],(vp-vm)/2,1e-10*ms*10); h=mc_hd(h,g[i]); } mc_state(h); free(p); free(g); }
    if(kind<3){ struct c3Opt*opt=c3opt_alloc(BFGS,n); c3opt_set_gtol(opt,1e-10); c3opt_set_relftol(opt,1e-30); c3opt_set_absxtol(opt,1e-30); c3opt_set_maxiter(opt,500); c3opt_set_verbose(opt,0); int info; struct GenericFunction*r=generic_function_regress1d(o,opt,&info); mc_step(); mc_expect("regress1d",r!=NULL,"no function (info %d)",info);
        double*pp=dirty(n),w=0.5*yy,ws=0.5*yy; generic_function_get_params(r,pp); for(int i=0;i<n;i++){ double s=-b[i],t=-b[i]; for(int j=0;j<n;j++){ s+=M[i][j]*pp[j]; t+=M[i][j]*init[j]; } w+=0.5*pp[i]*(s-b[i]); ws+=0.5*init[i]*(t-b[i]); h=mc_hd(h,pp[i]); if(kind==1||info>=0) mc_cmp("regress1d-optimality",s,0,1e-4*ms); } mc_state(h); mc_expect("regress1d-descent",w<=ws+1e-12*ms,"cost %g at the result, %g at the start",w,ws); free(pp); generic_function_free(r); c3opt_free(opt); }
    mc_expect("data",!memcmp(x,x0,N*sizeof(double))&&!memcmp(y,y0,N*sizeof(double)),"data changed"); free(init); regress_1d_opts_destroy(o); uopts_free(c,ao);
}
/* ---- cores ---- */
#define MXC 64
typedef struct { int r,c; RF f[MXC]; int ad; } RC;
static void core_body(RC*Kp,int c,int N,int st)
{
    #define K (*Kp)
    int r=K.r,cc=K.c,ad=K.ad,sz=r*cc,np=0,mx=0; struct Qmarray*q=qmarray_alloc(r,cc); mc_key("%s %dx%d",PN[c],r,cc);
    for(int i=0;i<sz;i++){ q->funcs[i]=pbuild(&K.f[i],ad); int n=pn(&K.f[i],ad); np+=n; if(n>mx) mx=n; mc_expect("func_nparams",(int)qmarray_func_get_nparams(q,i%r,i/r)==n,"wrong"); }
    size_t mf; mc_expect("nparams",(int)qmarray_get_nparams(q,&mf)==np&&(int)mf==mx,"wrong"); mc_expect("nparams",(int)qmarray_get_nparams(q,NULL)==np,"wrong"); mc_expect("nparams",(int)qmarray_get_params(q,NULL)==np,"wrong");
    uint64_t h=mc_h0();
    for(int step=0;step<3;step++){
        double*p=dirty(np); mc_expect("get_params",(int)qmarray_get_params(q,p)==np,"wrong"); mc_step(); int o=0; for(int i=0;i<sz;i++){ double v[UMAX]; int n=pn(&K.f[i],ad); pget(&K.f[i],ad,v); for(int k=0;k<n;k++) mc_cmp("core-params",p[o+k],v[k],0); o+=n; ucheck("core-value",q->funcs[i],&K.f[i]); } free(p);
        int incx=st?3:1,incout=sz+2*st,incg=np*sz+3*st,incs=np+2*st; double*x=dirty(N*incx); for(int a=0;a<N;a++) x[a*incx]=umap(UPT[(a*7+step*5)%UNP],K.f[0].lb,K.f[0].ub);
        double*out=dirty((N-1)*incout+sz),*g=dirty((size_t)(N-1)*incg+np*sz),*ws=dirty(mx); qmarray_param_grad_eval(q,N,x,incx,out,incout,g,incg,ws); mc_step(); double t=1e-11*10*(ad?40/(K.f[0].ub-K.f[0].lb):1);
        for(int a=0;a<N;a++){ double X=x[a*incx]; o=0; for(int i=0;i<sz;i++){ mc_cmp("core-eval",out[a*incout+i],ueval(&K.f[i],X),t); int n=pn(&K.f[i],ad); for(int k=0;k<n;k++) for(int z=0;z<sz;z++) mc_cmp("core-gradient",g[a*incg+(o+k)*sz+z],z==i?pgrad(&K.f[i],k,X):0,t); o+=n; } }
        free(g); g=dirty((N-1)*incs+np); double*left=malloc(N*r*sizeof(double)),*mo=dirty((size_t)N*np*cc); for(int i=0;i<N*r;i++) left[i]=fgen(9,i,step,0); for(int i=0;i<(N-1)*incout+sz;i++) out[i]=7e300;
        int two=step==1; qmarray_param_grad_eval_sparse_mult(q,N,x,incx,out,incout,g,incs,two?NULL:left,two?NULL:mo,np); mc_step();
        for(int a=0;a<N;a++){ double X=x[a*incx]; o=0; for(int i=0;i<sz;i++){ mc_cmp("sparse-eval",out[a*incout+i],ueval(&K.f[i],X),t); int n=pn(&K.f[i],ad),row=i%r,col=i/r; for(int k=0;k<n;k++){ double d=pgrad(&K.f[i],k,X); mc_cmp("sparse-gradient",g[a*incs+o+k],d,t); h=mc_hd(h,d); if(!two) for(int z=0;z<cc;z++) mc_cmp("sparse-mult",mo[(size_t)a*np*cc+(o+k)*cc+z],z==col?left[a*r+row]*d:0,t*2); } o+=n; } }
        if(!ad){ double*o2=dirty((N-1)*incout+sz); qmarray_linparam_eval(q,N,o2,incout,g,incs); mc_step(); for(int a=0;a<N;a++) for(int i=0;i<sz;i++) mc_cmp("linparam_eval",o2[a*incout+i],ueval(&K.f[i],x[a*incx]),t); free(o2); }
        if(!ad&&c!=UCONST){ double*s=malloc(np*sizeof(double)); for(int i=0;i<np;i++) s[i]=0.125*i; double v=qmarray_param_grad_sqnorm(q,0.75,s),v2=qmarray_param_grad_sqnorm(q,0.75,NULL),w=0; mc_steps(2); o=0; for(int i=0;i<sz;i++){ w+=0.75*u_inner(&K.f[i],&K.f[i]); for(int k=0;k<K.f[i].n;k++){ RF e=K.f[i]; for(int z=0;z<e.n;z++) e.c[z]=z==k; mc_cmp("core-sqnorm-gradient",s[o+k],0.125*(o+k)+1.5*u_inner(&K.f[i],&e),1e-9); } o+=K.f[i].n; } mc_cmp("core-sqnorm",v,w,1e-9); mc_cmp("core-sqnorm",v2,w,1e-9); free(s); }
        free(x);free(out);free(g);free(ws);free(left);free(mo); mc_state(h);
        /* next: update everything or one function */
        int op=mc_choose(2,"update"); if(op==0){ double*pp=malloc(np*sizeof(double)); o=0; for(int i=0;i<sz;i++){ for(int k=0;k<K.f[i].n;k++) K.f[i].c[k]=fgen(60+step,i,k,c); if(ad) for(int k=0;k<K.f[i].n;k++) K.f[i].x[k]=umap((K.f[i].n>3?-1+2*(k+0.5)/K.f[i].n:UMN[k+1])+0.03125*step,K.f[i].lb,K.f[i].ub); pget(&K.f[i],ad,pp+o); o+=pn(&K.f[i],ad); } qmarray_update_params(q,np,pp); mc_step(); free(pp); }
        else { int i=(step*2+sz-1)%sz; double pp[UMAX]; for(int k=0;k<K.f[i].n;k++) K.f[i].c[k]=fgen(80+step,i,k,c); pget(&K.f[i],ad,pp); qmarray_uni_update_params(q,i%r,i/r,pn(&K.f[i],ad),pp); mc_step(); }
    }
    for(int i=0;i<sz;i++) ucheck("core-final",q->funcs[i],&K.f[i]); qmarray_free(q);
    #undef K
}
static void b_core(void)
{
    int c=mc_choose(PC,"class"),r=1+mc_choose(3,"rows"),cc=1+mc_choose(3,"cols"); mc_shard(); int m=mc_choose(4,"grid"),pat=mc_choose(3,"pattern"),N=1+mc_choose(3,"points"),st=mc_choose(2,"stride"); int ad=c==6; if((c==2||c==6)&&m) mc_skip();
    static RC K; K.r=r; K.c=cc; K.ad=ad; int sz=r*cc;
    for(int i=0;i<sz;i++){ ugrid(&K.f[i],ucls(c),0,c>=3&&c<6?(m+i)%5:m==3?(i*3)%8:(int[]){7,0,5}[m]); for(int k=0;k<K.f[i].n;k++) K.f[i].c[k]=pat==2?0:fgen(40+pat,i,k,c); if(pat==1&&i==sz/2) memset(K.f[i].c,0,sizeof K.f[i].c); }
    core_body(&K,c,N,st);
}
/* larger cores, more points, more parameters per function */
static void b_bigcore(void)
{
    static const int SZ[7][4]={{7,9,20,3},{9,4,11,9},{1,12,17,14},{10,1,33,12},{3,4,40,21},{2,2,9,40},{6,6,8,5}}; int c=mc_choose(PC,"class"),z=mc_choose(7,"size"); mc_shard(); int st=mc_choose(2,"stride"),pat=mc_thorough?mc_choose(2,"pattern"):(st+z)%2,dom=c==5?0:mc_thorough?mc_choose(3,"domain"):(z+c+st)%3,r=SZ[z][0],cc=SZ[z][1],n=SZ[z][3]; static RC K; K.r=r; K.c=cc; K.ad=c==6; if(c>=3&&c<6&&n>12) n=12; if(c==6&&n>7) n=7;
    for(int i=0;i<r*cc;i++){ bgrid(&K.f[i],ucls(c),dom,pat&&c!=6?2+(n+i*5)%n:n,i%3==1); for(int k=0;k<K.f[i].n;k++) K.f[i].c[k]=fgen(40+pat,i,k,c); if(pat&&i==r*cc/2) memset(K.f[i].c,0,sizeof K.f[i].c); }
    core_body(&K,c,SZ[z][2],st);
}
/* ---- trains ---- */
static void b_train(void)
{
    int d=1+mc_choose(5,"dim"),cs=mc_choose(7,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(3,"grid"),pat=mc_choose(3,"pattern"),rag=mc_choose(2,"ragged"); pat=(int[]){PGEN,PZROW,PDELTA}[pat]; if(rag&&(cs<3||cs==6)) mc_skip();
    static RT T; rt_make(&T,d,rp,cs,gs,0,pat); if(rag) for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++){ T.f[k][q].n=1+(q+k)%3; T.f[k][q].c[2]=0.4375; }
    struct FunctionTrain*f=rt_build(&T); int n=ttot(&T,0); mc_key("%s d%d rp%d",FCS[cs],d,rp); uint64_t h=mc_h0();
    mc_expect("ft-nparams",(int)function_train_get_nparams(f)==n,"%zu, expected %d",function_train_get_nparams(f),n);
    for(int st=0;st<3;st++){
        double*p=dirty(n),*w=dirty(n); size_t r=function_train_get_params(f,p); mc_step(); mc_expect("ft-get_params",(int)r==n,"returned %zu",r); tget(&T,0,w); for(int i=0;i<n;i++) mc_cmp("ft-get_params",p[i],w[i],0);
        int o=0; for(int k=0;k<d;k++){ int m=tnp(&T,k,0); size_t mf=0; mc_expect("core-nparams",(int)function_train_core_get_nparams(f,k,&mf)==m,"core %d",k); size_t big=0; for(int q=0;q<T.r[k]*T.r[k+1];q++){ if((size_t)T.f[k][q].n>big) big=T.f[k][q].n; mc_expect("func-nparams",(int)function_train_func_get_nparams(f,k,q%T.r[k],q/T.r[k])==T.f[k][q].n,"wrong"); struct GenericFunction*gf=function_train_get_gfuni(f,k,q%T.r[k],q/T.r[k]); double*gp=dirty(T.f[k][q].n); mc_expect("gfuni-params",(int)generic_function_get_params(gf,gp)==T.f[k][q].n&&function_train_get_uni(f,k,q%T.r[k],q/T.r[k])==gf->f,"core %d function %d",k,q); for(int z=0;z<T.f[k][q].n;z++) mc_cmp("gfuni-params",gp[z],T.f[k][q].c[z],0); free(gp); } struct Qmarray*cq=function_train_get_core(f,k); mc_expect("get_core",cq==f->cores[k]&&(int)cq->nrows==T.r[k]&&(int)cq->ncols==T.r[k+1],"core %d",k); mc_expect("core-nparams",mf==big,"largest %zu",mf); double*cp=dirty(m); mc_expect("core-params",(int)function_train_core_get_params(f,k,cp)==m,"wrong"); for(int i=0;i<m;i++) mc_cmp("core-get_params",cp[i],w[o+i],0); free(cp); o+=m; }
        tcheck("train-value",f,&T);
        if(cs!=1&&cs!=6){ double wt[FD]; for(int k=0;k<d;k++) wt[k]=0.5+0.25*k; double*s=calloc(n,sizeof(double)),v=function_train_param_grad_sqnorm(f,wt,s),v2=function_train_param_grad_sqnorm(f,wt,NULL),ww=0; mc_steps(2); o=0; for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++){ RF*F=&T.f[k][q]; ww+=wt[k]*u_inner(F,F); for(int z=0;z<F->n;z++){ RF e=*F; for(int i=0;i<e.n;i++) e.c[i]=i==z; mc_cmp("train-sqnorm-gradient",s[o++],2*wt[k]*u_inner(F,&e),1e-9); } } mc_cmp("train-sqnorm",v,ww,1e-9*(1+fabs(ww))); mc_cmp("train-sqnorm",v2,ww,1e-9*(1+fabs(ww))); free(s); }
        for(int e=0;e<4;e++){ double x[FD]; tpt(&T,e,x); h=mc_hd(h,rt_eval(&T,x)); } mc_state(h);
        int op=mc_choose(3,"update"); for(int i=0;i<n;i++) p[i]=fgen(30+st,i,op,d);
        if(op==0){ tset(&T,0,p); size_t r2=function_train_update_params(f,p); mc_expect("ft-update",(int)r2==n,"returned %zu",r2); }
        else { int k=(st*2+1)%d; tget(&T,0,w); o=0; for(int i=0;i<k;i++) o+=tnp(&T,i,0); int m=tnp(&T,k,0); if(op==1){ memcpy(w+o,p,m*sizeof(double)); tset(&T,0,w); function_train_core_update_params(f,k,m,p); } else { int q=(st+1)%(T.r[k]*T.r[k+1]); memcpy(T.f[k][q].c,p,T.f[k][q].n*sizeof(double)); function_train_uni_update_params(f,k,q%T.r[k],q/T.r[k],T.f[k][q].n,p); } }
        mc_step(); for(int i=0;i<n;i++) p[i]=1e300; free(p); free(w); }
    tcheck("train-final",f,&T); function_train_free(f);
}
static void b_grad(void)
{
    int d=1+mc_choose(5,"dim"),cs=mc_choose(8,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(3,"grid"),pat=mc_choose(4,"pattern"),how=mc_choose(2,"alloc"); int ad=cs==7; pat=(int[]){PGEN,PZROW,PDELTA,PZERO}[pat]; if((cs==2||cs==7)&&gs) mc_skip();
    static RT T; RO o; rt_make(&T,d,rp,tcs(cs),gs,0,pat); ro_make(&o,d,tcs(cs),gs,0); ro_adapt(&o,ad); int n=ttot(&T,ad); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=T.r[k]; mc_key("%s d%d rp%d",cs==7?"kernel-centres":FCS[cs],d,rp);
    if(ad) for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++) for(int i=0;i<T.f[k][q].n;i++) T.f[k][q].x[i]=umap(UMN[i+1]+0.03125*(q%3),T.f[k][q].lb,T.f[k][q].ub);
    double*p=malloc(n*sizeof(double)); tget(&T,ad,p); struct FTparam*P;
    if(how==0) P=ft_param_alloc(d,o.m,p,rk); else { if(ad) mc_skip(); static RT S; S=T; if(cs>=3&&cs<6) for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++){ int z=1+(q+k)%T.f[k][q].n; S.f[k][q].n=z; for(int i=z;i<T.f[k][q].n;i++) T.f[k][q].c[i]=0; } P=ft_param_alloc_with_ft(rt_build(&S),o.m); tget(&T,ad,p); }
    mc_step(); mc_expect("ftp-nparams",(int)ft_param_get_nparams(P)==n,"%zu, expected %d",ft_param_get_nparams(P),n); mc_expect("ftp-dim",(int)ft_param_get_dim(P)==d,"wrong"); for(int k=0;k<d;k++) mc_expect("ftp-core",(int)ft_param_get_nparams_per_core(P)[k]==tnp(&T,k,ad),"wrong"); mc_expect("structure",ft_param_extract_structure(P)==(ad?NONE_ST:LINEAR_ST),"structure");
    tcheck("ftp-value",ft_param_get_ft(P),&T); double*q=dirty(n); mc_expect("ftp-params",(int)ft_param_get_params(P,n,q)==n,"wrong"); for(int i=0;i<n;i++){ mc_cmp("ftp-params",q[i],p[i],0); mc_cmp("ftp-param",ft_param_get_param(P,i),p[i],0); } free(q);
    int nu=0,sr=0; for(int k=0;k<d;k++){ nu+=T.r[k]*T.r[k+1]; sr+=T.r[k+1]; } double tol=1e-12*tscl(&T)*(ad?60:8); uint64_t h=mc_h0();
    double X[6*FD]; for(int e=0;e<6;e++){ double x[FD]; tpt(&T,e,x); memcpy(X+e*d,x,d*sizeof(double)); }
    double*G=dirty(6*n),*gev=dirty(n),*mem=dirty(sr+1),*ev=dirty(nu),*w=malloc(n*sizeof(double)),*ge=malloc(n*sizeof(double));
    ft_param_gradevals(P,6,X,G,gev,mem,ev); mc_step(); for(int e=0;e<6;e++){ tgrad(&T,ad,X+e*d,w,NULL); for(int i=0;i<n;i++) mc_cmp("gradevals",G[e*n+i],w[i],tol); }
    double*g=dirty(n),*hv=dirty(n);
    for(int e=0;e<12;e++){ double x[FD]; tpt(&T,e,x); tgrad(&T,ad,x,w,ge); double v=rt_eval(&T,x); for(int i=0;i<n;i++) g[i]=gev[i]=7e300; mc_cmp("gradeval-value",ft_param_gradeval(P,x,g,gev,mem,ev),v,tol); mc_step(); for(int i=0;i<n;i++){ mc_cmp("gradeval",g[i],w[i],tol); mc_cmp("gradeval-uni",gev[i],ge[i],tol); h=mc_hd(h,w[i]); }
        double L[FD+1][FR],R[FD+1][FR],E[FD][FR*FR]; tlr(&T,x,L,R,E);
        if(!ad){ for(int i=0;i<n;i++) g[i]=7e300; mc_cmp("eval_lin",ft_param_eval_lin(P,ge,mem),v,tol); mc_cmp("gradeval_lin-value",ft_param_gradeval_lin(P,ge,g,mem,ev),v,tol); mc_steps(2); for(int i=0;i<n;i++) mc_cmp("gradeval_lin",g[i],w[i],tol); }
        if(d>1){ int off=0; for(int k=0;k<d;k++){ int m=tnp(&T,k,ad); double*gg=dirty(m),*sp=dirty(n),up[FR],evs[FR*FR];
            double v1=ft_param_core_gradeval(P,k,x[k],gg,L[k],R[k+1],sp); mc_step(); mc_cmp("core_gradeval-value",v1,v,tol); for(int i=0;i<m;i++) mc_cmp("core_gradeval",gg[i],w[off+i],tol);
            if(!ad){ for(int i=0;i<m;i++) gg[i]=7e300; mc_cmp("core_eval_lin",ft_param_core_eval_lin(P,k,L[k],R[k+1],ge),v,tol); mc_cmp("core_gradeval_lin-value",ft_param_core_gradeval_lin(P,k,gg,L[k],R[k+1],ge),v,tol); mc_steps(2); for(int i=0;i<m;i++) mc_cmp("core_gradeval_lin",gg[i],w[off+i],tol);
                for(int z=0;z<FR;z++) up[z]=7e300; process_sweep_left_right_lin(P,k,ge,L[k],up); for(int z=0;z<T.r[k+1];z++) mc_cmp("sweep_lr_lin",up[z],L[k+1][z],tol); process_sweep_right_left_lin(P,k,ge,R[k+1],up); mc_steps(2); for(int z=0;z<T.r[k];z++) mc_cmp("sweep_rl_lin",up[z],R[k][z],tol); }
            process_sweep_left_right(P,k,x[k],evs,L[k],up); for(int z=0;z<T.r[k+1];z++) mc_cmp("sweep_lr",up[z],L[k+1][z],tol); process_sweep_right_left(P,k,x[k],evs,R[k+1],up); mc_steps(2); for(int z=0;z<T.r[k];z++) mc_cmp("sweep_rl",up[z],R[k][z],tol);
            off+=m; free(gg); free(sp); } }
        if(!ad&&e%4==1&&n<150){ double*vec=malloc(n*sizeof(double)); for(int i=0;i<n;i++) vec[i]=fgen(8,i,e,0); for(int i=0;i<n;i++) hv[i]=7e300; double rv=ft_param_hessvec(P,x,vec,hv); mc_step(); mc_cmp("hessvec-value",rv,v,tol);
            /* the value is affine in the parameters of one core, so central differences of the exact gradient are exact core by core */
            double*acc=calloc(n,sizeof(double)),*w2=malloc(n*sizeof(double)); int off=0; static RT S; for(int k=0;k<d;k++){ int m=tnp(&T,k,ad); for(int s=-1;s<=1;s+=2){ S=T; double*pp=malloc(n*sizeof(double)); tget(&S,0,pp); for(int i=0;i<m;i++) pp[off+i]+=s*vec[off+i]; tset(&S,0,pp); tgrad(&S,0,x,w2,NULL); for(int i=0;i<n;i++) acc[i]+=s*w2[i]/2; free(pp); } off+=m; } for(int i=0;i<n;i++) mc_cmp("hessvec",hv[i],acc[i],tol*20); free(acc); free(w2); free(vec); }
    }
    mc_state(h); tcheck("ftp-unchanged",P->ft,&T); for(int i=0;i<n;i++) mc_cmp("ftp-unchanged",P->params[i],p[i],0);
    free(G);free(gev);free(mem);free(ev);free(w);free(ge);free(g);free(hv);free(p); ft_param_free(P); ro_free(&o);
}
static void b_hist(void)
{
    int d=1+mc_choose(4,"dim"),cs=(int[]){0,2,3,5,6,7}[mc_choose(6,"class")],rp=mc_choose(8,"ranks"); mc_shard(); int ad=cs==7; static RT T; RO o; rt_make(&T,d,rp,tcs(cs),1,0,PGEN); ro_make(&o,d,tcs(cs),1,0); ro_adapt(&o,ad); int n=ttot(&T,ad); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=T.r[k]; mc_key("%s d%d rp%d",cs==7?"kernel-centres":FCS[cs],d,rp);
    double*p=calloc(n,sizeof(double)); if(ad) for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++) memset(T.f[k][q].c,0,sizeof T.f[k][q].c); if(ad) tget(&T,ad,p); struct FTparam*P=ft_param_alloc(d,o.m,mc_choose(2,"start")||ad?p:NULL,rk); tset(&T,ad,p); uint64_t h=mc_h0(); mc_step(); tcheck("ftp-zero",P->ft,&T);
    for(int st=0;st<(mc_thorough?4:3);st++){ int op=mc_choose(8,"op"); double*u=malloc(n*sizeof(double)); for(int i=0;i<n;i++) u[i]=fgen(20+st,i,op,0);
        int idx=0; size_t rs[FD]; for(int k=0;k<d;k++){ rs[k]=(st+k)%3; if(rs[k]>rk[k+1]) rs[k]=rk[k+1]; }
        if(op==0){ memcpy(p,u,n*sizeof(double)); ft_param_update_params(P,u); }
        else if(op==1||op==2){ int on=0,cnt=0; for(int k=0;k<d;k++) for(int q=0;q<T.r[k]*T.r[k+1];q++){ int i=q%T.r[k],j=q/T.r[k]; int out=(k>0&&i>=(int)rs[k-1])||j>=(int)rs[k]; for(int z=0;z<pn(&T.f[k][q],ad);z++){ if(out) cnt++; if(out==(op==1)) p[idx]=u[on++]; idx++; } } mc_expect("nparams_restrict",(int)ft_param_get_nparams_restrict(P,rs)==cnt,"%zu expected %d",ft_param_get_nparams_restrict(P,rs),cnt); double*uu=malloc((on?on:1)*sizeof(double)); memcpy(uu,u,on*sizeof(double)); if(op==1) ft_param_update_restricted_ranks(P,uu,rs); else ft_param_update_inside_restricted_ranks(P,uu,rs); free(uu); }
        else if(op==3){ int k=(st+1)%d; for(int i=0;i<k;i++) idx+=tnp(&T,i,ad); int m=tnp(&T,k,ad); memcpy(p+idx,u,m*sizeof(double)); double*uu=malloc(m*sizeof(double)); memcpy(uu,u,m*sizeof(double)); ft_param_update_core_params(P,k,uu); free(uu); }
        else if(op==4){ double*r=ft_param_get_params_ref(P); for(int i=0;i<n;i+=2) r[i]=p[i]=u[i]; ft_param_self_update_params(P); }
        else if(op==5){ struct FTparam*Q=ft_param_copy(P); ft_param_update_params(P,u); ft_param_free(P); P=Q; }
        else { if(cs==2||cs==7) mc_skip(); double val=fgen(3,st,0,0); ft_param_create_constant(P,val,op==6?0:0.125); double*r=ft_param_get_params_ref(P); if(op==6){ double x[FD]; for(int e=0;e<12;e++){ tpt(&T,e,x); mc_cmp("create_constant",function_train_eval(P->ft,x),val,1e-12); } memcpy(p,r,n*sizeof(double)); } else { double*r0=malloc(n*sizeof(double)); memcpy(r0,r,n*sizeof(double)); ft_param_create_constant(P,val,0); r=ft_param_get_params_ref(P); for(int i=0;i<n;i++) mc_expect("perturb",fabs(r0[i]-r[i])<=0.125*(1+1e-9),"perturbation %g larger than announced",r0[i]-r[i]); memcpy(p,r,n*sizeof(double)); free(r0); } }
        mc_step(); free(u); tset(&T,ad,p); double*q=dirty(n+2); mc_expect("hist-params",(int)ft_param_get_params(P,n+2,q)==n,"count"); for(int i=0;i<n;i++){ mc_cmp("hist-params",q[i],p[i],0); h=mc_hd(h,q[i]); } q[0]=q[1]=7e300; if(n>1){ mc_expect("hist-params-some",ft_param_get_params(P,1,q)==1&&q[0]==p[0]&&q[1]==7e300,"partial read"); } free(q); mc_state(h); tcheck("hist-value",P->ft,&T);
        double*fp=dirty(n); function_train_get_params(P->ft,fp); for(int i=0;i<n;i++) mc_cmp("hist-train-params",fp[i],p[i],0); free(fp);
    }
    free(p); ft_param_free(P); ro_free(&o);
}
/* least-squares linear initial guess */
static void b_linls(void)
{
    int d=2+mc_choose(4,"dim"),cs=(int[]){0,3,4,5}[mc_choose(4,"class")],rp=mc_choose(3,"ranks"),N=mc_choose(4,"samples"); mc_shard(); int lin=mc_choose(2,"data"),sd=mc_choose(2,"seed"); RO o; ro_make(&o,d,cs,0,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=(k==0||k==d)?1:rp==0?2:rp==1?3:2+k%2; N=d+1+2*N; mc_key("%s d%d N%d",FCS[cs],d,N);
    struct FTparam*P=ft_param_alloc(d,o.m,NULL,rk); double*x=malloc(N*d*sizeof(double)),*y=malloc(N*sizeof(double)),a[FD+1]; for(int k=0;k<=d;k++) a[k]=fgen(4,k,d,0);
    for(int i=0;i<N;i++){ y[i]=lin?a[d]:fgen(6,i,0,1); for(int k=0;k<d;k++){ x[i*d+k]=o.f[k].lb+(o.f[k].ub-o.f[k].lb)*(0.03125+((i*(2*k+3)+k*k*5+(i*i*(k+1))%7)%15)/16.0); if(lin) y[i]+=a[k]*x[i*d+k]; } }
    double M[FD+1][FD+2]; for(int p=0;p<=d;p++) for(int q=0;q<=d+1;q++){ M[p][q]=0; for(int i=0;i<N;i++) M[p][q]+=(p<d?x[i*d+p]:1)*(q<d?x[i*d+q]:q==d?1:y[i]); } double det=1; for(int c=0;c<=d;c++){ int b=c; for(int r=c;r<=d;r++) if(fabs(M[r][c])>fabs(M[b][c])) b=r; for(int q=0;q<=d+1;q++){ double t=M[c][q];M[c][q]=M[b][q];M[b][q]=t; } if(fabs(M[c][c])<1e-3) det=0; if(!det) break; for(int r=0;r<=d;r++) if(r!=c){ double f=M[r][c]/M[c][c]; for(int q=0;q<=d+1;q++) M[r][q]-=f*M[c][q]; } }
    if(!det) mc_skip(); double cf[FD+1]; for(int k=0;k<=d;k++) cf[k]=M[k][d+1]/M[k][k];
    unsigned seed=5; double*x1=malloc(N*d*sizeof(double)),*y1=malloc(N*sizeof(double)); memcpy(x1,x,N*d*sizeof(double)); memcpy(y1,y,N*sizeof(double)); ft_param_create_from_lin_ls(P,N,x1,y1,0.0,sd?&seed:NULL); mc_step(); mc_expect("lin_ls-data",!memcmp(x,x1,N*d*sizeof(double))&&!memcmp(y,y1,N*sizeof(double)),"data changed"); uint64_t h=mc_h0(); double s=1; for(int k=0;k<=d;k++) s+=fabs(cf[k])*5;
    for(int e=0;e<8;e++){ double z[FD],w=cf[d]; int bad=0; for(int k=0;k<d;k++){ RF*f=&o.f[k]; if(f->cls==UCONST) z[k]=f->x[(e+k)%f->n]; else z[k]=e<6?umap(FXP[e][k],f->lb,f->ub):umap(UPT[(e*5+k*7)%UNP],f->lb,f->ub); w+=cf[k]*z[k]; } (void)bad; mc_cmp("lin_ls",function_train_eval(P->ft,z),w,1e-8*s); h=mc_hd(h,w); }
    double*q=malloc(P->nparams*sizeof(double)); function_train_get_params(P->ft,q); for(size_t i=0;i<P->nparams;i++) mc_cmp("lin_ls-params",P->params[i],q[i],0); free(q); mc_state(h); free(x);free(y);free(x1);free(y1); ft_param_free(P); ro_free(&o);
}
static double rt_inner(const RT*a,const RT*b){ double v[FR*FR]={1},w[FR*FR]; for(int k=0;k<a->d;k++){ for(int i=0;i<a->r[k+1];i++) for(int j=0;j<b->r[k+1];j++){ double s=0; for(int p=0;p<a->r[k];p++) for(int q=0;q<b->r[k];q++) s+=v[p*FR+q]*u_inner(&a->f[k][p+i*a->r[k]],&b->f[k][q+j*b->r[k]]); w[i*FR+j]=s; } memcpy(v,w,sizeof v); } return v[0]; }
static void b_ginner(void)
{
    int d=2+mc_choose(3,"dim"),cs=3+mc_choose(3,"class"),ra=mc_choose(8,"ranks f"),rb=mc_choose(8,"ranks g"); mc_shard(); int gf=mc_choose(2,"size f"),gg=mc_choose(2,"size g"),pf=mc_choose(3,"f"),pg=mc_choose(3,"g"); int pt[]={PGEN,PZROW,PDELTA}; if(pf==1&&pg==1) mc_skip();
    static RT F,G,S; rt_make(&F,d,ra,cs,gf,0,pt[pf]); rt_make(&G,d,rb,cs,gg,0,pg==0?PGEN2:pt[pg]); RO o; ro_make(&o,d,cs,gf,0); int n=ttot(&F,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=F.r[k]; double*p=malloc(n*sizeof(double)); tget(&F,0,p); struct FTparam*P=ft_param_alloc(d,o.m,p,rk); struct FunctionTrain*g=rt_build(&G); double*gr=dirty(n); mc_key("%s d%d %d/%d",FCS[cs],d,ra,rb);
    double v=ft_param_grad_inner(P,g,gr); mc_step(); double w=rt_inner(&F,&G),sc=tscl(&F)*tscl(&G); for(int k=0;k<d;k++) sc*=F.f[k][0].ub-F.f[k][0].lb+1; mc_cmp("ft-inner",v,w,1e-11*sc); uint64_t h=mc_hd(mc_h0(),w); mc_state(h);
    for(int i=0;i<n;i+=(n>40?5:1)){ S=F; double t=p[i]; p[i]=t+1; tset(&S,0,p); p[i]=t; mc_cmp("ft-inner-gradient",gr[i],rt_inner(&S,&G)-w,1e-11*sc); }
    tcheck("inner-f",P->ft,&F); tcheck("inner-g",g,&G); free(gr); free(p); ft_param_free(P); function_train_free(g); ro_free(&o);
}
/* larger trains */
static void btgrad(const BT*T,const double*x,double*g)
{ double*L=malloc((BD+1)*BR*sizeof(double)),*R=malloc((BD+1)*BR*sizeof(double)); int d=T->d; L[0]=1; R[d*BR]=1; for(int k=0;k<d;k++) for(int j=0;j<T->r[k+1];j++){ L[(k+1)*BR+j]=0; for(int i=0;i<T->r[k];i++) L[(k+1)*BR+j]+=L[k*BR+i]*ueval(&T->f[k][i+j*T->r[k]],x[k]); } for(int k=d-1;k>=0;k--) for(int i=0;i<T->r[k];i++){ R[k*BR+i]=0; for(int j=0;j<T->r[k+1];j++) R[k*BR+i]+=R[(k+1)*BR+j]*ueval(&T->f[k][i+j*T->r[k]],x[k]); } for(int k=0;k<d;k++) for(int i=0;i<T->r[k]*T->r[k+1];i++) for(int j=0;j<T->n[k];j++) *g++=L[k*BR+i%T->r[k]]*pgrad(&T->f[k][i],j,x[k])*R[(k+1)*BR+i/T->r[k]]; free(L); free(R); }
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"); mc_shard(); BT T; bt_make(&T,sh,cs,0); int d=T.d,n=0,nu=0,sr=0; for(int k=0;k<d;k++){ nu+=T.r[k]*T.r[k+1]; sr+=T.r[k+1]; n+=T.r[k]*T.r[k+1]*T.n[k]; } BO o; bo_make(&o,&T); size_t rk[BD+1]; for(int k=0;k<=d;k++) rk[k]=T.r[k]; mc_key("%s shape%d",FCS[cs],sh);
    double*p=dirty(n),*q=dirty(n); int z=0; for(int k=0;k<d;k++) for(int i=0;i<T.r[k]*T.r[k+1];i++) for(int j=0;j<T.n[k];j++) p[z++]=T.f[k][i].c[j];
    struct FTparam*P=ft_param_alloc(d,o.m,p,rk); mc_step(); mc_expect("big-nparams",(int)ft_param_get_nparams(P)==n,"%zu parameters, expected %d",ft_param_get_nparams(P),n); bt_check("big-value",ft_param_get_ft(P),&T,4,1e-13); function_train_get_params(ft_param_get_ft(P),q); for(int i=0;i<n;i++) mc_cmp("big-params",q[i],p[i],0);
    int N=n<300?37:3; double*X=dirty(N*d),*G=dirty((size_t)N*n),*gev=dirty(n),*mem=dirty(sr+1),*ev=dirty(nu),*g=dirty(n),*ge=dirty(n),sc; for(int e=0;e<N;e++) bt_pt(&T,e+2,X+e*d); ft_param_gradevals(P,N,X,G,gev,mem,ev); mc_step(); uint64_t h=mc_hu(mc_h0(),sh*8+cs);
    for(int e=3;e<N;e++){ bt_eval(&T,X+e*d,&sc); btgrad(&T,X+e*d,g); for(int i=0;i<n;i++) mc_cmp("big-gradevals-many",G[(size_t)e*n+i],g[i],1e-12*sc); }
    for(int e=0;e<3;e++){ double*x=X+e*d,v=bt_eval(&T,x,&sc),*L=malloc((BD+1)*BR*sizeof(double)),*R=malloc((BD+1)*BR*sizeof(double)); L[0]=1; R[d*BR]=1;
        for(int k=0;k<d;k++) for(int j=0;j<T.r[k+1];j++){ L[(k+1)*BR+j]=0; for(int i=0;i<T.r[k];i++) L[(k+1)*BR+j]+=L[k*BR+i]*ueval(&T.f[k][i+j*T.r[k]],x[k]); } for(int k=d-1;k>=0;k--) for(int i=0;i<T.r[k];i++){ R[k*BR+i]=0; for(int j=0;j<T.r[k+1];j++) R[k*BR+i]+=R[(k+1)*BR+j]*ueval(&T.f[k][i+j*T.r[k]],x[k]); }
        mc_cmp("big-gradeval-value",ft_param_gradeval(P,x,g,gev,mem,ev),v,1e-12*sc); mc_step(); z=0; for(int k=0;k<d;k++) for(int i=0;i<T.r[k]*T.r[k+1];i++) for(int j=0;j<T.n[k];j++,z++){ ge[z]=pgrad(&T.f[k][i],j,x[k]); double w=L[k*BR+i%T.r[k]]*ge[z]*R[(k+1)*BR+i/T.r[k]]; mc_cmp("big-gradeval",g[z],w,1e-11*sc); mc_cmp("big-gradevals",G[(size_t)e*n+z],w,1e-11*sc); h=mc_hd(h,w); }
        mc_cmp("big-eval_lin",ft_param_eval_lin(P,ge,mem),v,1e-12*sc); mc_cmp("big-gradeval_lin",ft_param_gradeval_lin(P,ge,q,mem,ev),v,1e-12*sc); mc_steps(2); for(int i=0;i<n;i++) mc_cmp("big-gradeval_lin",q[i],g[i],1e-11*sc);         int off=0; for(int k=0;k<d&&d>1;k++){ int m=T.r[k]*T.r[k+1]*T.n[k]; double*gg=dirty(m),*sp=dirty(n),*up=dirty(BR),*evs=dirty(T.r[k]*T.r[k+1]); mc_cmp("big-core_gradeval-value",ft_param_core_gradeval(P,k,x[k],gg,L+k*BR,R+(k+1)*BR,sp),v,1e-12*sc); mc_step(); for(int i=0;i<m;i++) mc_cmp("big-core_gradeval",gg[i],g[off+i],1e-11*sc);
            for(int i=0;i<m;i++) gg[i]=7e300; mc_cmp("big-core_eval_lin",ft_param_core_eval_lin(P,k,L+k*BR,R+(k+1)*BR,ge),v,1e-12*sc); mc_cmp("big-core_gradeval_lin",ft_param_core_gradeval_lin(P,k,gg,L+k*BR,R+(k+1)*BR,ge),v,1e-12*sc); mc_steps(2); for(int i=0;i<m;i++) mc_cmp("big-core_gradeval_lin",gg[i],g[off+i],1e-11*sc);
            for(int w=0;w<2;w++){ if(w) process_sweep_left_right_lin(P,k,ge,L+k*BR,up); else process_sweep_left_right(P,k,x[k],evs,L+k*BR,up); mc_step(); for(int i=0;i<T.r[k+1];i++) mc_cmp("big-sweep_lr",up[i],L[(k+1)*BR+i],1e-11*sc); if(w) process_sweep_right_left_lin(P,k,ge,R+(k+1)*BR,up); else process_sweep_right_left(P,k,x[k],evs,R+(k+1)*BR,up); mc_step(); for(int i=0;i<T.r[k];i++) mc_cmp("big-sweep_rl",up[i],R[k*BR+i],1e-11*sc); }
            off+=m; free(gg); free(sp); free(up); free(evs); }
        if(n<450&&e<2){ double*vec=malloc(n*sizeof(double)),*acc=calloc(n,sizeof(double)),*hv=dirty(n),*w2=malloc(n*sizeof(double)); for(int i=0;i<n;i++) vec[i]=fgen(8,i,e,0); mc_cmp("big-hessvec-value",ft_param_hessvec(P,x,vec,hv),v,1e-11*sc); mc_step(); int of=0; for(int k=0;k<d;k++){ int m=T.r[k]*T.r[k+1]*T.n[k]; for(int sg=-1;sg<=1;sg+=2){ int y=of; for(int i=0;i<m;i++,y++) T.f[k][i/T.n[k]].c[i%T.n[k]]+=sg*vec[y]; btgrad(&T,x,w2); for(int i=0;i<n;i++) acc[i]+=sg*w2[i]/2; for(int i=0;i<m;i++) T.f[k][i/T.n[k]].c[i%T.n[k]]=p[of+i]; } of+=m; } for(int i=0;i<n;i++) mc_cmp("big-hessvec",hv[i],acc[i],1e-11*sc*d); free(vec); free(acc); free(hv); free(w2); }
        free(L); free(R); }
    mc_state(h); for(int k=0;k<d;k++){ double*u=malloc(n*sizeof(double)); z=0; for(int i=0;i<T.r[k]*T.r[k+1];i++) for(int j=0;j<T.n[k];j++) u[z++]=T.f[k][i].c[j]=fgen(33,k*400+i,j,sh)/sqrt(T.r[k])/(1+(T.cls[k]>=ULEG)*j); ft_param_update_core_params(P,k,u); mc_step(); free(u); } bt_check("big-update",ft_param_get_ft(P),&T,4,1e-13); z=0; for(int k=0;k<d;k++) for(int i=0;i<T.r[k]*T.r[k+1];i++) for(int j=0;j<T.n[k];j++,z++) mc_cmp("big-update-params",ft_param_get_param(P,z),T.f[k][i].c[j],0);
    /* the same parameters through the other ways in: from a train, a copy, and restricted updates with every rank start */
    { struct FTparam*Q=ft_param_alloc_with_ft(function_train_copy(ft_param_get_ft(P)),o.m); mc_step(); mc_expect("big-with_ft",(int)ft_param_get_nparams(Q)==n,"%zu parameters",ft_param_get_nparams(Q)); for(int i=0;i<n;i++) mc_cmp("big-with_ft",ft_param_get_param(Q,i),ft_param_get_param(P,i),0); ft_param_free(P); P=ft_param_copy(Q); ft_param_free(Q); bt_check("big-copy",ft_param_get_ft(P),&T,3,1e-13); }
    for(int v=0;v<4;v++){ size_t rs[BD]; for(int k=0;k<d;k++){ rs[k]=v==0?1:v==1?rk[k+1]-(rk[k+1]>1):v==2?(rk[k+1]+1)/2:(size_t)(k*3)%(rk[k+1]+1); } double*u=malloc(n*sizeof(double)); for(int i=0;i<n;i++) u[i]=fgen(50+v,i,sh,0)*0.5; int on=0,in=0; int c1=0; for(int k=0;k<d;k++) for(int q2=0;q2<T.r[k]*T.r[k+1];q2++){ int out=(k>0&&q2%T.r[k]>=(int)rs[k-1])||q2/T.r[k]>=(int)rs[k]; if(out) c1+=T.n[k]; } mc_expect("big-nparams_restrict",(int)ft_param_get_nparams_restrict(P,rs)==c1,"%zu expected %d",ft_param_get_nparams_restrict(P,rs),c1);
        double*ua=dirty(c1),*ub=dirty(n-c1); z=0; for(int k=0;k<d;k++) for(int q2=0;q2<T.r[k]*T.r[k+1];q2++){ int out=(k>0&&q2%T.r[k]>=(int)rs[k-1])||q2/T.r[k]>=(int)rs[k]; for(int j=0;j<T.n[k];j++,z++){ T.f[k][q2].c[j]=u[z]/sqrt(T.r[k]); if(out) ua[on++]=T.f[k][q2].c[j]; else ub[in++]=T.f[k][q2].c[j]; } } ft_param_update_restricted_ranks(P,ua,rs); ft_param_update_inside_restricted_ranks(P,ub,rs); mc_steps(2); z=0; for(int k=0;k<d;k++) for(int i=0;i<T.r[k]*T.r[k+1];i++) for(int j=0;j<T.n[k];j++,z++) mc_cmp("big-restrict-params",ft_param_get_param(P,z),T.f[k][i].c[j],0); bt_check("big-restrict",ft_param_get_ft(P),&T,3,1e-13); free(u); free(ua); free(ub); }
    if(cs!=2&&cs!=5){ double xx[BD]; for(int v=0;v<2;v++){ double val=v?-1.75:0.625; ft_param_create_constant(P,val,0); mc_step(); for(int e=0;e<4;e++){ bt_pt(&T,e,xx); mc_cmp("big-constant",function_train_eval(ft_param_get_ft(P),xx),val,1e-12); } z=0; function_train_get_params(ft_param_get_ft(P),q); for(int i=0;i<n;i++) mc_cmp("big-constant-params",ft_param_get_param(P,i),q[i],0); } }
    if((cs==0||cs==3||cs==4)&&sh!=6){ int ok=1; for(int k=1;k<d;k++) if(rk[k]<2) ok=0; if(cs==3||cs==4) for(int k=0;k<d;k++) if(T.n[k]<2) ok=0; if(ok){ int M=3*d+5; double*xs=malloc(M*d*sizeof(double)),*ys=malloc(M*sizeof(double)),cf[BD+1]; for(int k=0;k<=d;k++) cf[k]=fgen(4,k,d,0); for(int i=0;i<M;i++){ ys[i]=cf[d]; for(int k=0;k<d;k++){ RF*f=&T.f[k][0]; xs[i*d+k]=umap(0.98*fgen(61,i,k,0),f->lb,f->ub); ys[i]+=cf[k]*xs[i*d+k]; } } unsigned sd=5; ft_param_create_from_lin_ls(P,M,xs,ys,0,&sd); mc_step(); double xx[BD]; for(int e=0;e<5;e++){ bt_pt(&T,e,xx); double w=cf[d]; for(int k=0;k<d;k++) w+=cf[k]*xx[k]; mc_cmp("big-lin_ls",function_train_eval(ft_param_get_ft(P),xx),w,1e-9); } free(xs); free(ys); } }
    free(p);free(q);free(X);free(G);free(gev);free(mem);free(ev);free(g);free(ge); ft_param_free(P); bo_free(&o); bt_free(&T);
}
/* parameters multiplied by powers of two core by core: values and derivatives scale exactly */
static void b_scaled(void)
{
    int d=1+mc_choose(4,"dim"),cs=mc_choose(6,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int gs=mc_choose(2,"grid"),how=mc_choose(4,"where"),e=(int[]){-60,-33,-24,-12,14,24,33,60}[mc_choose(8,"exponent")]; if(cs>=3&&e<0) mc_skip(); if(cs==2&&gs) mc_skip();
    static RT T,S; RO o; rt_make(&T,d,rp,cs,gs,0,PGEN); S=T; int tot=rt_pow2(&S,how,e),z[FD]; for(int k=0;k<d;k++) z[k]=how==0?(k==0?e:0):how==1?(k==d-1?e:0):how==2?e:(k%2?-e:e); if(cs>=3&&how==3) mc_skip();
    ro_make(&o,d,cs,gs,0); int n=ttot(&T,0); size_t rk[FD+1]; for(int k=0;k<=d;k++) rk[k]=T.r[k]; mc_key("%s d%d h%d e%d",FCS[cs],d,how,e);
    double*p0=malloc(n*sizeof(double)),*p=malloc(n*sizeof(double)),*w=malloc(n*sizeof(double)),*ge=malloc(n*sizeof(double)),*g=dirty(n),*gev=dirty(n),*hv=dirty(n),*hv0=dirty(n),*vec=malloc(n*sizeof(double)),*vec0=malloc(n*sizeof(double)); int*x2=malloc(n*sizeof(int)); tget(&T,0,p0); tget(&S,0,p);
    int nu=0,sr=0,q=0; for(int k=0;k<d;k++){ nu+=T.r[k]*T.r[k+1]; sr+=T.r[k+1]; int m=tnp(&T,k,0); for(int i=0;i<m;i++) x2[q++]=z[k]; } double*mem=dirty(sr+1),*ev=dirty(nu),*G=dirty(3*n); double tol=1e-12*tscl(&T)*8; uint64_t h=mc_h0();
    struct FTparam*P=ft_param_alloc(d,o.m,p,rk),*P0=ft_param_alloc(d,o.m,p0,rk); for(int i=0;i<n;i++) mc_cmp("s-params",ft_param_get_param(P,i),p[i],0); ft_param_update_params(P,p0); ft_param_update_params(P,p); double*pp=dirty(n); function_train_get_params(ft_param_get_ft(P),pp); for(int i=0;i<n;i++) mc_cmp("s-ft-params",pp[i],p[i],0); free(pp); mc_steps(4);
    double X[3*FD]; for(int a=0;a<3;a++) tpt(&T,a*3+1,X+a*d); ft_param_gradevals(P,3,X,G,gev,mem,ev); mc_step();
    for(int a=0;a<3;a++){ double*x=X+a*d; tgrad(&T,0,x,w,ge); double v=rt_eval(&T,x); for(int i=0;i<n;i++){ g[i]=gev[i]=7e300; mc_cmp("s-gradevals",ldexp(G[a*n+i],x2[i]-tot),w[i],tol); h=mc_hd(h,w[i]); }
        mc_cmp("s-value",ldexp(ft_param_gradeval(P,x,g,gev,mem,ev),-tot),v,tol); for(int i=0;i<n;i++){ mc_cmp("s-gradeval",ldexp(g[i],x2[i]-tot),w[i],tol); mc_cmp("s-gradeval-uni",gev[i],ge[i],tol); g[i]=7e300; }
        mc_cmp("s-eval_lin",ldexp(ft_param_eval_lin(P,ge,mem),-tot),v,tol); mc_cmp("s-gradeval_lin-value",ldexp(ft_param_gradeval_lin(P,ge,g,mem,ev),-tot),v,tol); for(int i=0;i<n;i++) mc_cmp("s-gradeval_lin",ldexp(g[i],x2[i]-tot),w[i],tol); mc_steps(4);
        if(n<150){ for(int i=0;i<n;i++){ vec0[i]=fgen(8,i,a,0); vec[i]=ldexp(vec0[i],x2[i]); hv[i]=hv0[i]=7e300; } double v0=ft_param_hessvec(P0,x,vec0,hv0),v1=ft_param_hessvec(P,x,vec,hv); mc_steps(2); mc_cmp("s-hessvec-value",ldexp(v1,-tot),v0,tol); for(int i=0;i<n;i++) mc_cmp("s-hessvec",ldexp(hv[i],x2[i]-tot),hv0[i],tol*4); }
        if(d>1){ double L[FD+1][FR],R[FD+1][FR],E[FD][FR*FR]; tlr(&S,x,L,R,E); int off=0; for(int k=0;k<d;k++){ int m=tnp(&T,k,0); double*gg=dirty(m),*sp=dirty(n),up[FR],evs[FR*FR]; mc_cmp("s-core_gradeval-value",ldexp(ft_param_core_gradeval(P,k,x[k],gg,L[k],R[k+1],sp),-tot),v,tol); for(int i=0;i<m;i++){ mc_cmp("s-core_gradeval",ldexp(gg[i],z[k]-tot),w[off+i],tol); gg[i]=7e300; }
            mc_cmp("s-core_gradeval_lin-value",ldexp(ft_param_core_gradeval_lin(P,k,gg,L[k],R[k+1],ge),-tot),v,tol); for(int i=0;i<m;i++) mc_cmp("s-core_gradeval_lin",ldexp(gg[i],z[k]-tot),w[off+i],tol); mc_cmp("s-core_eval_lin",ldexp(ft_param_core_eval_lin(P,k,L[k],R[k+1],ge),-tot),v,tol);
            int lt=0,rt=0; for(int i=0;i<=k;i++) lt+=z[i]; for(int i=k;i<d;i++) rt+=z[i]; process_sweep_left_right(P,k,x[k],evs,L[k],up); for(int i=0;i<T.r[k+1];i++) mc_cmp("s-sweep_lr",ldexp(up[i],-lt),ldexp(L[k+1][i],-lt),tol); process_sweep_right_left(P,k,x[k],evs,R[k+1],up); for(int i=0;i<T.r[k];i++) mc_cmp("s-sweep_rl",ldexp(up[i],-rt),ldexp(R[k][i],-rt),tol); mc_steps(5); off+=m; free(gg); free(sp); } } }
    if(cs!=1){ double wt[FD]; for(int k=0;k<d;k++) wt[k]=0.5+0.25*k; double*s1=calloc(n,sizeof(double)),*s0=calloc(n,sizeof(double)),W=0; for(int k=0;k<d;k++) for(int i=0;i<T.r[k]*T.r[k+1];i++) W+=wt[k]*u_inner(&S.f[k][i],&S.f[k][i]); double v=function_train_param_grad_sqnorm(ft_param_get_ft(P),wt,s1); function_train_param_grad_sqnorm(ft_param_get_ft(P0),wt,s0); mc_steps(2); mc_cmp("s-sqnorm",v/W,1,1e-10); for(int i=0;i<n;i++) mc_cmp("s-sqnorm-grad",ldexp(s1[i],-x2[i]),s0[i],1e-11*(1+fabs(s0[i]))); free(s1); free(s0); }
    mc_state(h); free(p0);free(p);free(w);free(ge);free(g);free(gev);free(hv);free(hv0);free(vec);free(vec0);free(x2);free(mem);free(ev);free(G); ft_param_free(P); ft_param_free(P0); ro_free(&o);
}
const mc_driver mc_drivers[]={{"univariate",b_uni,1,3},{"uni-inner",b_inner,1,3},{"cost1d",b_cost,1,3},{"core",b_core,1,3},{"bigcore",b_bigcore,1,3},{"train",b_train,1,3},{"gradient",b_grad,1,3},{"history",b_hist,1,3},{"lin-ls",b_linls,1,3},{"grad-inner",b_ginner,1,3},{"big",b_big,1,3},{"scaled",b_scaled,1,3},{0}};
