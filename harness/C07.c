/* C07: univariate arithmetic is pointwise arithmetic. */
#include "uni.h"
#include "big.h"
#include "pw.h"
#include "fou.h"
const char *mc_property="C07";
typedef struct GenericFunction GF;
static char sb[400];
static void note(const char*t,const RF*f){ ustr(f,sb,sizeof sb); mc_note("%s %s; ",t,sb); }
static const double AS[4]={1,-2,0,0.375};
/* -------- one operation on a pair of functions on every pair of grids -------- */
static void d_pair(void)
{
    int cls=mc_choose(UNCLS,"class"), d=mc_choose(2,"domain"), m1=mc_choose(8,"grid1"), m2=mc_choose(8,"grid2"); mc_shard();
    if(cls==UHERM&&d) mc_skip();
    if((cls==UKER)&&(m1||m2)) mc_skip();
    if(cls>=ULEG&&(m1>4||m2>4)) mc_skip();
    RF f,g,r; ugrid(&f,cls,d,m1); ugrid(&g,cls,d,m2);
    int pf=mc_choose(mc_thorough?unpat(&f):4,"coef1"), pg=mc_choose(unpat(&g),"coef2"); ucoef(&f,pf==0?0:pf); ucoef(&g,pg==0?1:pg==1?0:pg);
    int op=mc_choose(11,"op"), ia=mc_choose(4,"a"), ib=mc_choose(4,"b"); double a=AS[ia],b=AS[(ib+1)%4];
    GF*x=ubuild(&f),*y=ubuild(&g),*z=NULL; RF f0=f,g0=g; mc_step();
    mc_note("op %d a=%g b=%g ",op,a,b); note("f",&f); note("g",&g);
    ucheck("build",x,&f); ucheck("build",y,&g);
    switch(op){
    case 0: { if(ib) mc_skip(); int rr=generic_function_axpy(a,x,y); mc_expect("axpy-ret",rr==0,"ret %d",rr); uaxpby(a,&f,1,&g,&r); ucheck("axpy",y,&r); ucheck("axpy-src",x,&f); g0=r; break; }
    case 1: z=generic_function_daxpby(a,x,b,y); uaxpby(a,&f,b,&g,&r); ucheck("daxpby",z,&r); break;
    case 2: if(ib) mc_skip(); z=generic_function_daxpby(a,x,b,NULL); r=f; uscale(a,&r); ucheck("daxpby-ynull",z,&r); break;
    case 3: if(ia) mc_skip(); z=generic_function_daxpby(a,NULL,b,y); r=g; uscale(b,&r); ucheck("daxpby-xnull",z,&r); break;
    case 4: z=generic_function_alloc(1,UFC[cls]); z->f=NULL; z->fargs=NULL; generic_function_weighted_sum_pa(a,x,b,y,&z); uaxpby(a,&f,b,&g,&r); ucheck("weighted_sum_pa",z,&r); break;
    case 5: { if(ia||ib||cls==UKER) mc_skip(); if(cls==UCONST&&!usame(&f,&g)) mc_skip(); if(cls==UHERM&&0) mc_skip();
        z=generic_function_prod(x,y); 
        if(cls<=UCONST&&usame(&f,&g)){ r=f; for(int i=0;i<f.n;i++) r.c[i]=f.c[i]*g.c[i]; ucheck("prod-same",z,&r); }
        else if(cls==ULIN){ for(int i=0;i<UNP;i++){ double t=umap(UPT[i],f.lb,f.ub); mc_cmp("prod-adaptive",generic_function_1d_eval(z,t),ueval(&f,t)*ueval(&g,t),0.02*uscl(&f)*uscl(&g)); } 
            mc_cmp("prod-lb",generic_function_1d_eval(z,f.lb),ueval(&f,f.lb)*ueval(&g,f.lb),1e-11); mc_cmp("prod-ub",generic_function_1d_eval(z,f.ub),ueval(&f,f.ub)*ueval(&g,f.ub),1e-11);
            mc_cmp("prod-dom",generic_function_get_lb(z),f.lb,0); mc_cmp("prod-dom",generic_function_get_ub(z),f.ub,0); }
        else for(int i=0;i<UNP;i++){ double t=umap(UPT[i],f.lb,f.ub); mc_cmp("prod-poly",generic_function_1d_eval(z,t),ueval(&f,t)*ueval(&g,t),1e-10*uscl(&f)*uscl(&g)); }
        break; }
    case 6: { if(ib) mc_skip(); generic_function_scale(a,y); uscale(a,&g0); generic_function_flip_sign(y); uscale(-1,&g0); ucheck("scale-flip",y,&g0); break; }
    case 7: { if(ia||ib) mc_skip(); z=generic_function_copy(x); ucheck("copy",z,&f); generic_function_scale(3,z); r=f; uscale(3,&r); ucheck("copy-indep",z,&r); generic_function_scale(0.5,x); uscale(0.5,&f0); ucheck("copy-indep2",z,&r); break; }
    case 8: { if(ia||ib) mc_skip(); z=generic_function_alloc(1,UFC[cls]); z->fargs=NULL; z->f=NULL; generic_function_copy_pa(x,z); r=f; ucheck("copy_pa",z,&f); generic_function_flip_sign(x); uscale(-1,&f0); ucheck("copy_pa-indep",z,&f); break; }
    case 9: { GF*arr[3]={x,y,x}; double co[3]={a,b,-1.5}; int n=1+(ia&1)+(ib>1); if(n>3)n=3; z=generic_function_lin_comb(n,arr,co); r=f; uscale(a,&r); if(n>1){ RF t; uaxpby(1,&r,b,&g,&t); r=t; } if(n>2){ RF t; uaxpby(1,&r,-1.5,&f,&t); r=t; } ucheck("lin_comb",z,&r); break; }
    case 10:{ if(ia) mc_skip(); if(cls<ULEG) mc_skip(); if(cls!=ULEG) mc_skip(); RF q,t; ugrid(&q,cls,d,ib); ucoef(&q,2); z=ubuild(&q); generic_function_sum3_up(a,x,b,y,-0.5,z); uaxpby(a,&f,b,&g,&t); uaxpby(1,&t,-0.5,&q,&r); ucheck("sum3_up",z,&r); break; }
    }
    mc_step();
    ucheck("operand-x",x,&f0); ucheck("operand-y",y,&g0);
    uint64_t h=mc_hu(mc_hu(mc_h0(),cls),op); h=uhash(h,y,g.lb,g.ub); if(z) h=uhash(h,z,g.lb,g.ub); mc_state(h);
    generic_function_free(x); x=NULL; if(z) { if(op==5&&cls==ULIN) ; else if(op!=5||cls<=UCONST) ucheck("after-free",z,&r); }
    generic_function_free(y); generic_function_free(z);
}
/* -------- arrays, strides, Kronecker forms -------- */
static void mk(GF**a,RF*r,int n,int cls,int d,int m,int samegrid,int pat)
{ for(int i=0;i<n;i++){ ugrid(&r[i],cls,d,samegrid?m:(m+3*i)%8); for(int k=0;k<r[i].n;k++) r[i].c[k]=UG1[(k+i+pat)%8]*(1+0.25*i)-UG2[(2*k+3*i+pat)%8]; a[i]=ubuild(&r[i]); } }
static void rm(GF**a,int n){ for(int i=0;i<n;i++) generic_function_free(a[i]); }
static void lc(int n,const RF*f,int ld,const double*c,int ldc,RF*r){ *r=f[0]; uscale(c[0],r); for(int i=1;i<n;i++){ RF t; uaxpby(1,r,c[i*ldc],&f[i*ld],&t); *r=t; } }
static void d_array(void)
{
    int cls=mc_choose(ULEG+2,"class"), d=mc_choose(2,"domain"), m=mc_choose(8,"grid"), sg=mc_choose(2,"samegrid"), op=mc_choose(9,"op"); mc_shard();
    if(cls==UKER&&(!sg||m)) mc_skip();
    int n=1+mc_choose(4,"n"), s1=1+mc_choose(3,"ldx"), s2=1+mc_choose(3,"ldy"); double a=AS[mc_choose(4,"a")],b=0.625;
    GF*X[16],*Y[16],*Z[16]; RF x[16],y[16],r; mk(X,x,n*s1,cls,d,m,sg,0); mk(Y,y,n*s2,cls,d,(m+5)%8,sg,2); if(sg) { rm(Y,n*s2); mk(Y,y,n*s2,cls,d,m,1,2); }
    mc_note("array op %d %s n=%d ldx=%d ldy=%d a=%g grid %d same %d",op,UNAME[cls],n,s1,s2,a,m,sg); mc_step();
    uint64_t h=mc_hu(mc_hu(mc_hu(mc_h0(),cls),op),n*100+s1*10+s2);
    switch(op){
    case 0:{ if(s1>1||s2>1) mc_skip(); int q=generic_function_array_axpy(n,a,X,Y); mc_expect("array_axpy-ret",q==0,"ret %d",q); for(int i=0;i<n;i++){ uaxpby(a,&x[i],1,&y[i],&r); y[i]=r; } break; }
    case 1:{ GF**o=generic_function_array_daxpby(n,a,s1,X,b,s2,Y); for(int i=0;i<n;i++){ uaxpby(a,&x[i*s1],b,&y[i*s2],&r); ucheck("array_daxpby",o[i],&r); h=uhash(h,o[i],r.lb,r.ub);} generic_function_array_free(o,n); break; }
    case 2:{ GF**o=generic_function_array_daxpby(n,a,s1,X,b,s2,NULL); GF**p=generic_function_array_daxpby(n,a,s1,NULL,b,s2,Y); for(int i=0;i<n;i++){ r=x[i*s1]; uscale(a,&r); ucheck("array_daxpby-ynull",o[i],&r); r=y[i*s2]; uscale(b,&r); ucheck("array_daxpby-xnull",p[i],&r);} generic_function_array_free(o,n); generic_function_array_free(p,n); break; }
    case 3:{ int ldz=1+mc_choose(2,"ldz"), nul=mc_choose(3,"null"); for(int i=0;i<16;i++) Z[i]=NULL; generic_function_array_daxpby2(n,a,s1,nul==1?NULL:X,b,s2,nul==2?NULL:Y,ldz,Z);
        for(int i=0;i<n*ldz;i++) if(i%ldz) mc_expect("daxpby2-stride",Z[i]==NULL,"wrote entry %d",i);
        for(int i=0;i<n;i++){ if(nul==1){ r=y[i*s2]; uscale(b,&r);} else if(nul==2){ r=x[i*s1]; uscale(a,&r);} else uaxpby(a,&x[i*s1],b,&y[i*s2],&r); ucheck("array_daxpby2",Z[i*ldz],&r); h=uhash(h,Z[i*ldz],r.lb,r.ub); generic_function_free(Z[i*ldz]); } break; }
    case 4:{ if(s2>1) mc_skip(); generic_function_array_scale(a,X,n*s1); for(int i=0;i<n*s1;i++) uscale(a,&x[i]); generic_function_array_flip_sign(n,s1,X); for(int i=0;i<n;i++) uscale(-1,&x[i*s1]); break; }
    case 5:{ double co[16]; for(int i=0;i<16;i++) co[i]=UG3[i%8]*(i+1)*0.25; co[0]=a; if(s2==2&&n>1) co[s2]=0; GF*z=generic_function_lin_comb2(n,s1,X,s2,co); lc(n,x,s1,co,s2,&r); ucheck("lin_comb2",z,&r); h=uhash(h,z,r.lb,r.ub); generic_function_free(z); if(s1==1&&s2==1){ z=generic_function_lin_comb(n,X,co); ucheck("lin_comb",z,&r); generic_function_free(z);} break; }
    case 6:{ if(cls==UKER||cls==UCHEB) mc_skip(); if(!sg&&cls<ULEG) mc_skip(); GF*z=generic_function_sum_prod(n,s1,X,s2,Y);
        if(cls<=UCONST){ r=x[0]; for(int k=0;k<r.n;k++){ r.c[k]=0; for(int i=0;i<n;i++) r.c[k]+=x[i*s1].c[k]*y[i*s2].c[k]; } ucheck("sum_prod",z,&r); }
        else for(int q=0;q<UNP;q++){ double t=umap(UPT[q],x[0].lb,x[0].ub),w=0; for(int i=0;i<n;i++) w+=ueval(&x[i*s1],t)*ueval(&y[i*s2],t); mc_cmp("sum_prod-poly",generic_function_1d_eval(z,t),w,1e-9*(1+fabs(w))); }
        h=uhash(h,z,x[0].lb,x[0].ub); generic_function_free(z); break; }
    case 7:{ GF**c=generic_function_array_alloc(n); for(int i=0;i<n;i++) mc_expect("array_alloc",c[i]==NULL,"not null"); free(c); 
        double t=umap(0.19,x[0].lb,x[0].ub); double*o=generic_function_1darray_eval(n,X,t); for(int i=0;i<n;i++) mc_cmp("1darray_eval",o[i],ueval(&x[i],t),1e-11*uscl(&x[i])); free(o); break; }
    case 8:{ if(sg==0||s1>1||s2>1||n>1) mc_skip(); /* self-axpy through a copy, zero scaling */ GF*z=generic_function_copy(X[0]); generic_function_axpy(-1.0,X[0],z); r=x[0]; uscale(0,&r); ucheck("self-cancel",z,&r); generic_function_axpy(a,X[0],z); r=x[0]; uscale(a,&r); ucheck("self-restore",z,&r); generic_function_free(z); break; }
    }
    mc_step();
    for(int i=0;i<n*s1;i++){ ucheck("array-x",X[i],&x[i]); h=uhash(h,X[i],x[i].lb,x[i].ub);} for(int i=0;i<n*s2;i++) { ucheck("array-y",Y[i],&y[i]); h=uhash(h,Y[i],y[i].lb,y[i].ub);} mc_state(h);
    rm(X,n*s1); rm(Y,n*s2);
}
static void d_kron(void)
{
    int cls=mc_choose(ULEG+1,"class"), left=mc_choose(2,"left"), k2=mc_choose(2,"kronh2"); int mx=mc_thorough?3:2;
    int r=1+mc_choose(mx,"r"),m=1+mc_choose(3,"m"),n=1+mc_choose(3,"n"),l=1+mc_choose(3,"l"); mc_shard(); int gm=mc_choose(4,"grid");
    if(cls==UKER&&(k2||gm)) mc_skip(); if(cls==ULEG&&gm>1) mc_skip();
    mc_note("kronh%s left=%d r=%d m=%d n=%d l=%d %s",k2?"2":"",left,r,m,n,l,UNAME[cls]);
    GF*C[81],*D[81],*T[81]; RF c[81],t[81],o; 
    if(!k2){ /* left: d = (a kron-contracted with) c : c is n x l ; right: c is n x l with l contracted */
        double a[81]; for(int i=0;i<81;i++) a[i]=UG1[i%7]*(1+(i%5)*0.3)-0.2*i; mk(C,c,n*l,cls,0,gm*2,cls==UKER?1:0,1); int nd=left?r*m*l:n*m*r; for(int i=0;i<nd;i++) D[i]=NULL;
        generic_function_kronh(left,r,m,n,l,a,C,D); mc_step();
        for(int i=0;i<r;i++) for(int j=0;j<m;j++) for(int k=0;k<(left?l:n);k++){ RF acc; 
            if(left){ lc(n,c+n*k,1,a+i+j*n*r,r,&acc); ucheck("kronh-left",D[k*r*m+j*r+i],&acc); }
            else { lc(l,c+k,n,a+j*l+i*l*m,1,&acc); ucheck("kronh-right",D[k+j*n+i*n*m],&acc); } }
        uint64_t h=mc_hu(mc_h0(),left); for(int i=0;i<nd;i++){ h=uhash(h,D[i],c[0].lb,c[0].ub); generic_function_free(D[i]); } mc_state(h);
        for(int i=0;i<n*l;i++) ucheck("kronh-c",C[i],&c[i]); rm(C,n*l);
    } else { int nb=n*l,nt=left?r*n*m:m*l*r; mk(C,c,nb,cls,0,gm*2,cls<=UCONST,1); mk(T,t,nt,cls,0,gm*2,cls<=UCONST,4); int nd=left?r*m*l:m*n*r;
        generic_function_kronh2(left,r,m,n,l,C,T,D); mc_step(); 
        for(int i=0;i<r;i++) for(int k=0;k<m;k++) for(int j=0;j<(left?l:n);j++){ GF*z=left?D[i+k*r+j*r*m]:D[k+j*m+i*n*m]; 
            if(cls<=UCONST){ o=c[0]; for(int q=0;q<o.n;q++){ o.c[q]=0; if(left) for(int p=0;p<n;p++) o.c[q]+=c[p+j*n].c[q]*t[i+p*r+k*r*n].c[q]; else for(int p=0;p<l;p++) o.c[q]+=c[j+p*n].c[q]*t[k+p*m+i*l*m].c[q]; } ucheck("kronh2",z,&o); }
            else for(int q=0;q<UNP;q+=3){ double x=UPT[q],w=0; if(left) for(int p=0;p<n;p++) w+=ueval(&c[p+j*n],x)*ueval(&t[i+p*r+k*r*n],x); else for(int p=0;p<l;p++) w+=ueval(&c[j+p*n],x)*ueval(&t[k+p*m+i*l*m],x); mc_cmp("kronh2-poly",generic_function_1d_eval(z,x),w,1e-9*(1+fabs(w))); } }
        uint64_t h=mc_hu(mc_h0(),2+left); for(int i=0;i<nd;i++){ h=uhash(h,D[i],-1,1); generic_function_free(D[i]); } mc_state(h);
        for(int i=0;i<nb;i++) ucheck("kronh2-b",C[i],&c[i]); for(int i=0;i<nt;i++) ucheck("kronh2-t",T[i],&t[i]); rm(C,nb); rm(T,nt); }
}
/* -------- all operation sequences on a pool of three functions -------- */
static void d_seq(void)
{
    int cls=mc_choose(ULEG+1,"class"), cfg=mc_choose(3,"cfg"); if(cls==UKER&&cfg) mc_skip();
    static const int GR[3][3]={{7,7,7},{5,2,7},{0,3,4}}; GF*P[3]; RF p[3]; 
    for(int i=0;i<3;i++){ ugrid(&p[i],cls,cfg==2,GR[cfg][i]); ucoef(&p[i],i); P[i]=ubuild(&p[i]); }
    int depth=mc_thorough?4:3; mc_note("pool of 3 %s, grids %d%d%d: ",UNAME[cls],GR[cfg][0],GR[cfg][1],GR[cfg][2]);
    uint64_t h=mc_hu(mc_hu(mc_h0(),cls),cfg);
    for(int s=0;s<depth;s++){
        int op=mc_choose(7,"op"), i=mc_choose(3,"i"), j; if(s==0) mc_shard();
        switch(op){
        case 0: j=(i+1+mc_choose(2,"j"))%3; mc_note("p%d+=-1.5*p%d ",j,i); mc_expect("seq-axpy-ret",generic_function_axpy(-1.5,P[i],P[j])==0,"ret"); { RF r; uaxpby(-1.5,&p[i],1,&p[j],&r); p[j]=r; } break;
        case 1: { j=mc_choose(3,"j"); int k=(i+2)%3; mc_note("p%d=.5p%d-2p%d ",k,i,j); GF*z=generic_function_daxpby(0.5,P[i],-2,P[j]); RF r; uaxpby(0.5,&p[i],-2,&p[j],&r); generic_function_free(P[k]); P[k]=z; p[k]=r; break; }
        case 2: { j=(i+1)%3; if(cls==UKER) mc_skip(); if(cls<=UCONST&&!usame(&p[i],&p[j])) mc_skip(); if(cls==ULEG&&p[i].n+p[j].n>12) mc_skip(); mc_note("p%d*=p%d ",i,j); GF*z=generic_function_prod(P[i],P[j]); 
            if(cls<=UCONST) for(int q=0;q<p[i].n;q++) p[i].c[q]*=p[j].c[q];
            else { /* project exactly with Gauss quadrature values -> legendre coefficients */ int N=p[i].n+p[j].n-1; double nc[UMAX]; double X[24],W[24]; gauss_legendre(24,X,W); for(int k=0;k<N;k++){ nc[k]=0; for(int q=0;q<24;q++){ RF e=p[i]; memset(e.c,0,sizeof e.c); e.n=k+1; e.c[k]=1; double x=umap(X[q],e.lb,e.ub); nc[k]+=W[q]*ueval(&p[i],x)*ueval(&p[j],x)*ueval(&e,x);} } p[i].n=N; memcpy(p[i].c,nc,N*sizeof(double)); }
            generic_function_free(P[i]); P[i]=z; break; }
        case 3: mc_note("p%d*=2.5 ",i); generic_function_scale(2.5,P[i]); uscale(2.5,&p[i]); break;
        case 4: mc_note("-p%d ",i); generic_function_flip_sign(P[i]); uscale(-1,&p[i]); break;
        case 5: { j=(i+1)%3; mc_note("p%d:=p%d ",j,i); GF*z=generic_function_copy(P[i]); generic_function_free(P[j]); P[j]=z; p[j]=p[i]; break; }
        case 6: { if(cls==ULEG) mc_skip(); mc_note("params p%d ",i); size_t np=generic_function_get_num_params(P[i]); mc_expect("seq-nparams",(int)np==p[i].n,"%zu params, expected %d",np,p[i].n); double v[UMAX]; for(int q=0;q<p[i].n;q++) v[q]=p[i].c[q]=UG3[(q+s)%8]; generic_function_update_params(P[i],np,v); for(int q=0;q<p[i].n;q++) v[q]=1e3; break; }
        }
        mc_step();
        for(int q=0;q<3;q++){ ucheck("seq",P[q],&p[q]); h=uhash(h,P[q],p[q].lb,p[q].ub); } mc_state(h);
    }
    rm(P,3);
}
/* -------- finer grids, more coefficients, longer arrays -------- */
static void bck(const char*site,GF*g,const RF*r,double tol){ mc_expect(site,g!=NULL,"NULL"); double t=tol*uscl(r)*(r->cls>=ULEG?r->n:1); for(int i=0;i<=96;i++){ double x=r->lb+(r->ub-r->lb)*(i==96?1:i/96.0); if(r->cls==UCONST&&i%32) x+=1e-6*(r->ub-r->lb); if(i==96) x=r->ub; mc_cmp(site,generic_function_1d_eval(g,x),ueval(r,x),t); } if(r->cls<=UCONST) for(int i=0;i<r->n;i++) mc_cmp(site,generic_function_1d_eval(g,r->x[i]),r->c[i],t); }
static void d_big(void)
{
    static const int N[6]={2,7,12,19,26,33}; int cls=mc_choose(UNCLS,"class"),a=mc_choose(6,"size a"),b=mc_choose(6,"size b"); mc_shard(); int op=mc_choose(6,"op"); if(N[a]+N[b]>60) mc_skip(); if(cls==UKER&&a!=b) mc_skip();
    RF f,g,r; bgrid(&f,cls,1,N[a],0); bgrid(&g,cls,1,N[b],cls==UKER?0:1); for(int i=0;i<f.n;i++) f.c[i]=fgen(11,i,a,cls)/(cls>=ULEG?1+i:1); for(int i=0;i<g.n;i++) g.c[i]=fgen(12,i,b,cls)/(cls>=ULEG?1+i:1);
    GF*x=ubuild(&f),*y=ubuild(&g),*z=NULL; bck("big-build",x,&f,1e-11); bck("big-build",y,&g,1e-11);
    if(op==0){ generic_function_axpy(-1.5,x,y); uaxpby(-1.5,&f,1,&g,&r); g=r; }
    else if(op==1){ z=generic_function_daxpby(0.75,x,-2,y); uaxpby(0.75,&f,-2,&g,&r); bck("big-daxpby",z,&r,1e-11); }
    else if(op==2){ if(cls==UKER) mc_skip(); if(cls<=UCONST){ generic_function_free(y); g=f; for(int i=0;i<g.n;i++) g.c[i]=fgen(13,i,b,cls); y=ubuild(&g); } z=generic_function_prod(x,y); r=f; if(cls<=UCONST){ for(int i=0;i<f.n;i++) r.c[i]=f.c[i]*g.c[i]; bck("big-prod",z,&r,1e-11); } else for(int i=0;i<=40;i++){ double t=f.lb+(f.ub-f.lb)*i/40; mc_cmp("big-prod",generic_function_1d_eval(z,t),ueval(&f,t)*ueval(&g,t),1e-11*uscl(&f)*uscl(&g)*f.n*g.n); } }
    else if(op==3){ z=generic_function_copy(x); bck("big-copy",z,&f,1e-11); generic_function_scale(3,z); r=f; uscale(3,&r); bck("big-copy",z,&r,1e-11); }
    else if(op==4){ int n=5+2*a; GF*A[16]; RF q[16]; double co[16]; for(int i=0;i<n;i++){ bgrid(&q[i],cls,1,N[b]>14?14:N[b],cls==UKER?0:0); for(int k=0;k<q[i].n;k++) q[i].c[k]=fgen(14,i,k,b); A[i]=ubuild(&q[i]); co[i]=fgen(15,i,0,a); } z=generic_function_lin_comb(n,A,co); r=q[0]; uscale(co[0],&r); for(int i=1;i<n;i++) for(int k=0;k<r.n;k++) r.c[k]+=co[i]*q[i].c[k]; bck("big-lin_comb",z,&r,1e-10); for(int i=0;i<n;i++){ bck("big-operand",A[i],&q[i],1e-11); generic_function_free(A[i]); } }
    else { int n=4+2*a; if(cls==UKER||cls==UCHEB||cls==UHERM) mc_skip(); GF*A[16],*B[16]; RF q[16],w[16]; for(int i=0;i<n;i++){ bgrid(&q[i],cls,1,N[b]>8&&cls>=ULEG?8:N[b],0); w[i]=q[i]; for(int k=0;k<q[i].n;k++){ q[i].c[k]=fgen(16,i,k,b); w[i].c[k]=fgen(17,i,k,b); } A[i]=ubuild(&q[i]); B[i]=ubuild(&w[i]); } z=generic_function_sum_prod(n,1,A,1,B); if(cls<=UCONST){ r=q[0]; for(int k=0;k<r.n;k++){ r.c[k]=0; for(int i=0;i<n;i++) r.c[k]+=q[i].c[k]*w[i].c[k]; } bck("big-sum_prod",z,&r,1e-11); } else for(int p=0;p<=20;p++){ double t=q[0].lb+(q[0].ub-q[0].lb)*p/20,v=0; for(int i=0;i<n;i++) v+=ueval(&q[i],t)*ueval(&w[i],t); mc_cmp("big-sum_prod",generic_function_1d_eval(z,t),v,1e-8*n); } for(int i=0;i<n;i++){ generic_function_free(A[i]); generic_function_free(B[i]); } }
    mc_step(); bck("big-x",x,&f,1e-11); bck("big-y",y,&g,1e-11); uint64_t h=uhash(mc_hu(mc_hu(mc_h0(),cls),op),y,g.lb,g.ub); if(z) h=uhash(h,z,g.lb,g.ub); mc_state(h); generic_function_free(x); generic_function_free(y); generic_function_free(z);
}
/* -------- functions and factors of every magnitude on domains of every size -------- */
static void d_scaled(void)
{
    static const int EX[6]={-60,-36,-20,0,24,60},KX[5]={-20,-10,0,10,30}; int cls=mc_choose(UNCLS,"class"),d=mc_choose(2,"domain"),m1=mc_choose(8,"grid1"),m2=mc_choose(4,"grid2"); mc_shard(); m2=(int[]){7,5,2,0}[m2];
    int ea=EX[mc_choose(6,"exponent f")],eb=EX[mc_choose(6,"exponent g")],k=KX[mc_choose(5,"domain exponent")],op=mc_choose(8,"op"); if(cls==UHERM&&(d||k)) mc_skip(); if(cls==UKER&&(m1||m2!=7)) mc_skip(); if(cls>=ULEG&&(m1>4||m2>4||ea<0||eb<0)) mc_skip();
    RF f,g,r,F,G; ugrid(&f,cls,d,m1); ugrid(&g,cls,d,m2); ucoef(&f,0); ucoef(&g,1); F=f; G=g; upow2(&F,ea,k); upow2(&G,eb,k); GF*x=ubuild(&F),*y=ubuild(&G),*z=NULL; int e=ea>eb?ea:eb; mc_note("op %d f*2^%d g*2^%d domain*2^%d ",op,ea,eb,k); note("f",&f); note("g",&g); mc_step();
    double A=ldexp(1,ea-e),B=ldexp(1,eb-e); int sa=(int[]){-30,30}[mc_choose(2,"factor")]; if(op!=4&&op!=6&&sa>0) mc_skip();
    if(op==0){ generic_function_axpy(-1.5,x,y); uaxpby(-1.5*A,&f,B,&g,&r); uchecks("scaled-axpy",y,&r,e,k); }
    else if(op==1){ z=generic_function_daxpby(0.75,x,-2,y); uaxpby(0.75*A,&f,-2*B,&g,&r); uchecks("scaled-daxpby",z,&r,e,k); }
    else if(op==2){ z=generic_function_alloc(1,UFC[cls]); z->f=NULL; z->fargs=NULL; generic_function_weighted_sum_pa(0.75,x,-2,y,&z); uaxpby(0.75*A,&f,-2*B,&g,&r); uchecks("scaled-weighted_sum",z,&r,e,k); }
    else if(op==3){ if(cls==UKER||(cls<=UCONST&&!usame(&f,&g))) mc_skip(); z=generic_function_prod(x,y); if(cls<=UCONST){ r=f; for(int i=0;i<f.n;i++) r.c[i]*=g.c[i]; uchecks("scaled-prod",z,&r,ea+eb,k); } else for(int i=0;i<UNP;i++){ double t=umap(UPT[i],f.lb,f.ub); mc_cmp("scaled-prod",ldexp(generic_function_1d_eval(z,ldexp(t,k)),-ea-eb),ueval(&f,t)*ueval(&g,t),1e-10*uscl(&f)*uscl(&g)); } }
    else if(op==4){ if(cls>=ULEG&&ea+sa<0) mc_skip(); z=generic_function_copy(x); generic_function_scale(ldexp(-1.25,sa),z); r=f; uscale(-1.25,&r); uchecks("scaled-scale",z,&r,ea+sa,k); if(ea+2*sa>=0||cls<ULEG){ generic_function_scale(ldexp(1,sa),z); uchecks("scaled-scale",z,&r,ea+2*sa,k); } }
    else if(op==5){ z=generic_function_copy(x); r=f; uchecks("scaled-copy",z,&f,ea,k); generic_function_flip_sign(z); uscale(-1,&r); uchecks("scaled-flip",z,&r,ea,k); }
    else if(op==6){ if(cls>=ULEG&&sa<0) mc_skip(); GF*a[2]={x,y}; double c[2]={ldexp(1.5,sa),ldexp(-0.5,sa)}; z=generic_function_lin_comb(2,a,c); uaxpby(1.5*A,&f,-0.5*B,&g,&r); uchecks("scaled-lin_comb",z,&r,e+sa,k); GF*q=generic_function_lin_comb2(2,1,a,1,c); uchecks("scaled-lin_comb2",q,&r,e+sa,k); generic_function_free(q); }
    else { if(cls==UKER||cls==UCHEB||cls==UHERM||(cls<=UCONST&&!usame(&f,&g))) mc_skip(); GF*a[2]={x,y},*b[2]={y,x}; z=generic_function_sum_prod(2,1,a,1,b); for(int i=0;i<UNP;i++){ double t=umap(UPT[i],f.lb,f.ub),w=2*ueval(&f,t)*ueval(&g,t); if(cls<=UCONST){ r=f; for(int q=0;q<f.n;q++) r.c[q]=2*f.c[q]*g.c[q]; w=ueval(&r,t); } mc_cmp("scaled-sum_prod",ldexp(generic_function_1d_eval(z,ldexp(t,k)),-ea-eb),w,1e-10*uscl(&f)*uscl(&g)); } }
    mc_step(); uchecks("scaled-x",x,&f,ea,k); if(op) uchecks("scaled-y",y,&g,eb,k); uint64_t h=mc_hu(mc_hu(mc_hu(mc_h0(),cls),op),ea+eb*100+k*10000); h=mc_hd(h,generic_function_1d_eval(z?z:y,ldexp(umap(0.19,f.lb,f.ub),k))); mc_state(h); generic_function_free(x); generic_function_free(y); generic_function_free(z);
}
/* grids with more nodes than any fixed-size buffer */
static void d_fine(void)
{
    static const int NB[]={9,4999,5000,5001,10000,12000}; int cls=mc_choose(2,"class"),a=mc_choose(6,"n1"),b=mc_choose(7,"n2"); mc_shard(); int op=mc_choose(5,"op"),same=b==6; if(cls==UCONST&&!same) mc_skip(); if((op==2||op==4)&&!same) mc_skip(); int n[2]={NB[a],same?NB[a]:NB[b]}; double*x[2],*c[2]; GF*g[2]; double lb=-1,ub=2;
    for(int k=0;k<2;k++){ x[k]=malloc(8*n[k]); c[k]=malloc(8*n[k]); for(int i=0;i<n[k];i++){ double t=(double)i/(n[k]-1); x[k][i]=i==0?lb:i==n[k]-1?ub:lb+(ub-lb)*(t+0.1*((same?0:k)+1)*t*(1-t)); c[k][i]=sin(3*x[k][i]+k)+0.1*((i*7+k)%11); }
        void*o=cls==ULIN?(void*)lin_elem_exp_aopts_alloc(n[k],x[k]):(void*)const_elem_exp_aopts_alloc(n[k],x[k]); g[k]=generic_function_create_with_params(UFC[cls],o,n[k],c[k]); uopts_free(cls,o); }
    mc_note("%s op %d on %d and %d nodes",UNAME[cls],op,n[0],n[1]); mc_step(); GF*z=NULL; double al=1,be=1; GF*own[2]={g[0],g[1]};
    switch(op){ case 0: al=2; be=-1; z=generic_function_daxpby(2,g[0],-1,g[1]); break; case 1: al=-0.5; be=1; z=generic_function_copy(g[1]); mc_expect("fine-axpy",generic_function_axpy(-0.5,g[0],z)==0,"axpy fails"); break; case 2: z=generic_function_prod(g[0],g[1]); break;
      case 3: { double cc[3]={1,3,-2}; GF*fs[3]={g[0],g[1],g[0]}; al=-1; be=3; z=generic_function_lin_comb(3,fs,cc); break; } default: z=generic_function_sum_prod(2,1,own,1,own); }
    int in[2]={0,0}; for(int s=0;s<2;s++) for(int i=0;i<n[s];i+=(n[s]>20?13:1)){ double t=x[s][i],v[2]; for(int k=0;k<2;k++){ if(k==s||same){ v[k]=c[k][i]; } else { while(in[s]+1<n[k]-1&&x[k][in[s]+1]<=t) in[s]++; int j=in[s]; double q=(t-x[k][j])/(x[k][j+1]-x[k][j]); v[k]=c[k][j]*(1-q)+c[k][j+1]*q; } }
        double w=op==2?v[0]*v[1]:op==4?v[0]*v[0]+v[1]*v[1]:al*v[0]+be*v[1]; mc_cmp(same?"fine-same":"fine-value",generic_function_1d_eval(z,t),w,same?1e-12:1e-9); mc_cmp("fine-input",generic_function_1d_eval(g[s],t),c[s][i],1e-12); }
    mc_state(mc_hu(mc_hu(mc_hu(mc_hu(mc_h0(),cls),a),b),op)); generic_function_free(z); for(int k=0;k<2;k++){ free(x[k]); free(c[k]); generic_function_free(g[k]); }
}
/* piecewise polynomials: every pair of trees (equal and different boundaries, continuous or not) */
static void d_pw(void)
{
    int s1=mc_choose(PWS,"tree1"),s2=mc_choose(PWS+1,"tree2"),op=mc_choose(10,"op"); mc_shard(); int c1=mc_choose(3,"cut1"),c2=mc_choose(3,"cut2"),d=mc_choose(2,"domain"),pa=mc_choose(5,"coeffs1"),pb=mc_choose(5,"coeffs2"),al=s2==PWS; if(al){ if(c2||pb) mc_skip(); s2=s1; c2=c1; pb=(pa+1)%5; } if(s1==0&&c1) mc_skip(); if(s2==0&&c2&&!al) mc_skip(); if((op==0||op==1||op==2)&&(al||s2||pb||c2)) mc_skip();
    PW A,B; GF*x=pw_make(&A,s1,al?2:1,d,pa,c1),*y=pw_make(&B,s2,2,d,pb,c2),*z=NULL; double a=1,b=0; mc_note("op %d trees %d/%d cuts %d/%d coeffs %d/%d domain %d",op,s1,s2,c1,c2,pa,pb,d); int prod=0; double e=1e-12*(pw_scl(&A)+pw_scl(&B)); 
    switch(op){ case 0: z=generic_function_copy(x); break; case 1: z=generic_function_copy(x); generic_function_scale(-2.5,z); a=-2.5; break; case 2: z=generic_function_copy(x); generic_function_flip_sign(z); a=-1; break;
      case 3: a=2; b=-0.75; z=generic_function_daxpby(a,x,b,y); break; case 4: a=-0.5; b=1; z=generic_function_copy(y); mc_expect("pw-axpy",generic_function_axpy(a,x,z)==0,"axpy fails"); break; case 5: prod=1; z=generic_function_prod(x,y); break;
      case 6: { GF*f[3]={x,y,x}; double cc[3]={1,3,-2}; a=-1; b=3; z=generic_function_lin_comb(3,f,cc); break; } case 7: a=0.5; b=2; z=generic_function_daxpby(0.5,x,0,NULL); { GF*t=generic_function_daxpby(0,NULL,2,y),*u=generic_function_daxpby(1,z,1,t); generic_function_free(z); generic_function_free(t); z=u; } break;
      case 8: prod=2; { GF*f[2]={x,y},*g[2]={y,x}; z=generic_function_sum_prod(2,1,f,1,g); } break; default: { a=0; b=1; GF*t=generic_function_daxpby(1,x,1,y); z=generic_function_daxpby(1,t,-1,x); generic_function_free(t); } }
    mc_step(); mc_expect("pw-class",z&&z->fc==PIECEWISE,"class of the result"); mc_cmp("pw-lb",generic_function_get_lb(z),A.lb,0); mc_cmp("pw-ub",generic_function_get_ub(z),A.ub,0); double t[PWP]; int n=pw_pts(&A,&B,t); if(prod) e=1e-13*pw_scl(&A)*pw_scl(&B);
    for(int i=0;i<n;i++){ double u=pw_val(&A,t[i]),v=pw_val(&B,t[i]); mc_cmp(prod?"pw-prod":"pw-value",generic_function_1d_eval(z,t[i]),prod?prod*u*v:a*u+b*v,e); }
    if(op==0||op==4){ generic_function_scale(3,z); mc_step(); } pw_same("pw-x",x,&A,1e-13*pw_scl(&A)); pw_same("pw-y",y,&B,1e-13*pw_scl(&B));
    mc_state(mc_hd(mc_hu(mc_hu(mc_hu(mc_h0(),s1*64+s2),op),c1*8+c2),generic_function_1d_eval(z,t[3]))); generic_function_free(z); generic_function_free(x); generic_function_free(y);
}
/* Fourier expansions: linear operations on every pair of lengths */
static void d_fourier(void)
{
    int n1=1+mc_choose(FOUN,"n1"),n2=1+mc_choose(FOUN,"n2"),op=mc_choose(6,"op"); mc_shard(); int d=mc_choose(3,"domain"),pa=mc_choose(5,"coeffs1"),pb=mc_choose(5,"coeffs2"); if(op<3&&(n2>1||pb)) mc_skip(); FO A,B; GF*x=fo_make(&A,n1,d,pa),*y=fo_make(&B,n2,d,pb),*z=NULL; double a=1,b=0; mc_note("op %d lengths %d/%d coeffs %d/%d domain %d",op,n1,n2,pa,pb,d);
    switch(op){ case 0: z=generic_function_copy(x); break; case 1: a=-2.5; z=generic_function_copy(x); generic_function_scale(a,z); break; case 2: a=-1; z=generic_function_copy(x); generic_function_flip_sign(z); break; case 3: a=2; b=-0.75; z=generic_function_daxpby(a,x,b,y); break; case 4: a=-0.5; b=1; z=generic_function_copy(y); mc_expect("fourier-axpy",generic_function_axpy(a,x,z)==0,"axpy fails"); break; default: { GF*f[3]={x,y,x}; double cc[3]={1,3,-2}; a=-1; b=3; z=generic_function_lin_comb(3,f,cc); } }
    mc_step(); double e=1e-13*(fo_scl(&A)+fo_scl(&B)); for(int i=0;i<UNP;i++){ double t=umap(UPT[i],A.lb,A.ub),u=fo_val(&A,t,0),v=fo_val(&B,t,0); mc_cmp("fourier-value",generic_function_1d_eval(z,t),a*u+b*v,10*e); } generic_function_scale(3,z); mc_step(); for(int i=0;i<UNP;i++){ double t=umap(UPT[i],A.lb,A.ub); mc_cmp("fourier-x",generic_function_1d_eval(x,t),fo_val(&A,t,0),e); mc_cmp("fourier-y",generic_function_1d_eval(y,t),fo_val(&B,t,0),e); }
    mc_cmp("fourier-lb",generic_function_get_lb(z),A.lb,0); mc_cmp("fourier-ub",generic_function_get_ub(z),A.ub,0); mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),n1*16+n2),op*3+d),generic_function_1d_eval(z,A.lb+0.7))); generic_function_free(x); generic_function_free(y); generic_function_free(z);
}
const mc_driver mc_drivers[]={{"fourier",d_fourier,1,3},{"pw",d_pw,1,3},{"fine",d_fine,1,3},{"scaled",d_scaled,1,3},{"pair",d_pair,1,3},{"array",d_array,1,3},{"kron",d_kron,1,3},{"seq",d_seq,1,3},{"big",d_big,1,3},{0}};
