/* C08: univariate evaluation, calculus, extrema, bases and approximation. */
#include "uni.h"
#include "pw.h"
#include "fou.h"
const char *mc_property="C08";
typedef struct GenericFunction GF;
static char sb[400];
static void note(const char*t,const RF*f){ ustr(f,sb,sizeof sb); mc_note("%s %s; ",t,sb); }
static double GX[64],GW[64]; static int ginit;
static double quad(const RF*f,const RF*g,const RF*lim)
{ if(!ginit){ gauss_legendre(40,GX,GW); ginit=1; } double s=0; for(int i=0;i<40;i++){ double x=lim->lb+(GX[i]+1)/2*(lim->ub-lim->lb); s+=GW[i]*ueval(f,x)*(g?ueval(g,x):1); } return s*(lim->ub-lim->lb); }
/* integral of the represented function, inner product in the representation's own sense */
static double uint_(const RF*f)
{ if(f->cls==ULIN||f->cls==UCONST){ double s=0; for(int i=0;i+1<f->n;i++) s+=(f->x[i+1]-f->x[i])*0.5*(f->c[i]+f->c[i+1]); return s; } if(f->cls==UHERM) return f->c[0]; return quad(f,NULL,f); }
static double uinner(const RF*f,const RF*g)
{ if(f->cls==ULIN||f->cls==UCONST){ RF a,b; uaxpby(1,f,0,g,&a); uaxpby(0,f,1,g,&b); double s=0; for(int i=0;i+1<a.n;i++) s+=(a.x[i+1]-a.x[i])*0.5*(a.c[i]*b.c[i]+a.c[i+1]*b.c[i+1]); return s; }
  if(f->cls==UHERM){ double s=0; for(int i=0;i<f->n&&i<g->n;i++) s+=f->c[i]*g->c[i]; return s; } return quad(f,g,f); }
static void free_(GF*g){ generic_function_free(g); }
/* ---- evaluation on every sub-grid of a 7-node master grid, and uniform grids of 2..40 nodes ---- */
static const double M7[7]={-2,-1.7,-0.3,0.1,0.9,1.6,3};
static void biggrid(RF*f,int cls,int k)
{ memset(f,0,sizeof*f); f->cls=cls; f->w=0.8; if(k<32){ for(int i=0;i<7;i++) if(i==0||i==6||(k>>(i-1)&1)) f->x[f->n++]=M7[i]; }
  else { f->n=k-32+2; for(int i=0;i<f->n;i++) f->x[i]= f->n<=20? -1+0.125*i : 0.37+i*(i+40)*0.01; } f->lb=f->x[0]; f->ub=f->x[f->n-1]; }
static int nbig(void){ return 32+(mc_thorough?58:38); }
static void d_eval(void)
{
    int cls=mc_choose(2,"class"), k=mc_choose(nbig(),"grid"); mc_shard(); RF f; biggrid(&f,cls,k); int pat=mc_choose(f.n+2,"coef");
    if(pat<f.n) f.c[pat]=1; else for(int i=0;i<f.n;i++) f.c[i]=pat==f.n?UG1[i%8]+0.1*i:-UG2[(3*i)%8];
    note("eval",&f); GF*g=ubuild(&f); mc_step(); double t=1e-11*uscl(&f);
    mc_cmp("lb",generic_function_get_lb(g),f.lb,0); mc_cmp("ub",generic_function_get_ub(g),f.ub,0); mc_expect("nparams",(int)generic_function_get_num_params(g)==f.n,"count");
    double X[400],Y[800]; int N=0; X[N++]=f.lb-0.5; X[N++]=f.ub+0.5; X[N++]=f.lb-1e-6; X[N++]=f.ub+1e-6;
    for(int i=0;i<f.n;i++){ X[N++]=f.x[i]; if(i+1<f.n){ double h=f.x[i+1]-f.x[i]; X[N++]=f.x[i]+0.27*h; X[N++]=f.x[i]+0.6*h; if(f.n<12){ X[N++]=f.x[i]+1e-9*h; X[N++]=f.x[i+1]-1e-9*h; } } }
    for(int i=0;i<N;i++) mc_cmp("eval",generic_function_1d_eval(g,X[i]),ueval(&f,X[i]),t);
    for(int i=0;i<f.n;i++){ mc_cmp("nodal",generic_function_1d_eval(g,f.x[i]),f.c[i],0); mc_cmp("eval_ind",generic_function_1d_eval_ind(g,i),f.c[i],0); }
    for(int ix=1;ix<=2;ix++) for(int iy=1;iy<=2;iy++){ for(int i=0;i<800;i++) Y[i]=-777; int n=N/ix; generic_function_1d_evalN(g,n,X,ix,Y,iy); for(int i=0;i<n;i++){ mc_cmp("evalN",Y[i*iy],ueval(&f,X[i*ix]),t); if(iy==2) mc_expect("evalN-stride",Y[2*i+1]==-777,"touched"); } mc_expect("evalN-overrun",Y[n*iy]==-777,"touched"); }
    /* derivative at points: slope of the element; at nodes central difference */
    if(cls==ULIN){ for(int i=0;i+1<f.n;i++){ double h=f.x[i+1]-f.x[i],sl=(f.c[i+1]-f.c[i])/h; mc_cmp("deriv_eval",generic_function_deriv_eval(g,f.x[i]+0.27*h),sl,1e-10*(1+fabs(sl))); mc_cmp("deriv_eval",generic_function_deriv_eval(g,f.x[i]+0.9*h),sl,1e-10*(1+fabs(sl))); 
            if(i>0){ double cd=(f.c[i+1]-f.c[i-1])/(f.x[i+1]-f.x[i-1]); mc_cmp("deriv_eval-node",generic_function_deriv_eval(g,f.x[i]),cd,1e-10*(1+fabs(cd))); } }
        mc_cmp("deriv_eval-out",generic_function_deriv_eval(g,f.ub+0.5),0,0); mc_cmp("deriv_eval-lb",generic_function_deriv_eval(g,f.lb),(f.c[1]-f.c[0])/(f.x[1]-f.x[0]),1e-9); mc_cmp("deriv_eval-ub",generic_function_deriv_eval(g,f.ub),(f.c[f.n-1]-f.c[f.n-2])/(f.x[f.n-1]-f.x[f.n-2]),1e-9); }
    else for(int i=0;i<N;i++) mc_cmp("deriv_eval-const",generic_function_deriv_eval(g,X[i]),0,0);
    mc_cmp("integrate",generic_function_integrate(g),uint_(&f),1e-11*uscl(&f)*(f.ub-f.lb)); mc_cmp("inner-self",generic_function_inner(g,g),uinner(&f,&f),1e-11*uscl(&f)*uscl(&f)*(f.ub-f.lb)); mc_cmp("norm",generic_function_norm(g),sqrt(uinner(&f,&f)),1e-10*uscl(&f));
    /* extrema */
    double mx=f.c[0],mn=f.c[0],am=fabs(f.c[0]),xm,xx; for(int i=1;i<f.n;i++){ if(f.c[i]>mx) mx=f.c[i]; if(f.c[i]<mn) mn=f.c[i]; if(fabs(f.c[i])>am) am=fabs(f.c[i]); }
    xm=1e9; mc_cmp("absmax",generic_function_absmax(g,&xm,NULL),am,0); mc_cmp("absmax-loc",fabs(ueval(&f,xm)),am,t);
    xm=1e9; mc_cmp("absmax_gen",generic_function_absmax_gen(g,&xm,sizeof(double),NULL),am,0); mc_cmp("absmax_gen-loc",fabs(ueval(&f,xm)),am,t);
    xm=xx=1e9; if(cls==ULIN){ mc_cmp("max",lin_elem_exp_max(g->f,&xm),mx,0); mc_cmp("min",lin_elem_exp_min(g->f,&xx),mn,0); } else { mc_cmp("max",const_elem_exp_max(g->f,&xm),mx,0); mc_cmp("min",const_elem_exp_min(g->f,&xx),mn,0); } mc_cmp("max-loc",ueval(&f,xm),mx,t); mc_cmp("min-loc",ueval(&f,xx),mn,t);
    for(int s=0;s<3;s++){ struct c3Vector*v=c3vector_alloc(4+s,X+s); double wm=0; for(int i=0;i<4+s;i++) if(fabs(ueval(&f,X[s+i]))>wm) wm=fabs(ueval(&f,X[s+i])); xm=1e9; mc_cmp("absmax-opt",generic_function_absmax(g,&xm,v),wm,t); mc_cmp("absmax-opt-loc",fabs(ueval(&f,xm)),wm,t); int in=0; for(int i=0;i<4+s;i++) in|=xm==X[s+i]; mc_expect("absmax-opt-in",in,"location %g not a candidate",xm); c3vector_free(v); }
    /* re-nodalisation */
    { double nx[5]={f.lb,f.lb+0.13*(f.ub-f.lb),f.lb+0.52*(f.ub-f.lb),f.lb+0.91*(f.ub-f.lb),f.ub}; RF r=f; r.n=5; for(int i=0;i<5;i++){ r.x[i]=nx[i]; r.c[i]=ueval(&f,nx[i]); } GF*h=generic_function_create_nodal(g,5,nx); ucheck("create_nodal",h,&r); free_(h); }
    uint64_t h=mc_hu(mc_hu(mc_h0(),cls),k); for(int i=0;i<N;i++) h=mc_hd(h,generic_function_1d_eval(g,X[i])); mc_state(h); free_(g);
}
/* ---- inner products of functions on every pair of grids ---- */
static void d_inner(void)
{
    int cls=mc_choose(UNCLS,"class"), d=mc_choose(3,"domain"), m1=mc_choose(8,"grid1"), m2=mc_choose(8,"grid2"); mc_shard();
    if(cls==UKER&&(m1||m2)) mc_skip(); if(cls>=ULEG&&(m1>4||m2>4)) mc_skip(); if(cls==UHERM&&d) mc_skip();
    RF f,g; ugrid(&f,cls,d,m1); ugrid(&g,cls,d,m2); ucoef(&f,mc_choose(unpat(&f),"c1")); ucoef(&g,mc_choose(unpat(&g),"c2")); note("f",&f); note("g",&g);
    GF*x=ubuild(&f),*y=ubuild(&g); mc_step(); double sc=1e-11*uscl(&f)*uscl(&g)*(1+f.ub-f.lb); double w=uinner(&f,&g);
    mc_cmp("inner",generic_function_inner(x,y),w,sc); mc_cmp("inner-sym",generic_function_inner(y,x),w,sc);
    RF df; uaxpby(1,&f,-1,&g,&df); double nd=sqrt(fmax(0,uinner(&df,&df))); mc_cmp("norm2diff",generic_function_norm2diff(x,y),nd,1e-6*nd+1e-7);
    mc_cmp("norm2diff-sq",pow(generic_function_norm2diff(x,y),2),nd*nd,10*sc+1e-11);
    GF*a[4]={x,y,x,y},*b[4]={y,x,y,y}; double ww[4]={w,w,w,uinner(&g,&g)};
    for(int n=1;n<=2;n++) for(int la=1;la<=2;la++) for(int lb=1;lb<=2;lb++){ double s=0; for(int i=0;i<n;i++){ int p=i*la,q=i*lb; const RF*A=(p%2)?&g:&f,*B=q==1?&f:&g; s+=uinner(A,B); } mc_cmp("inner_sum",generic_function_inner_sum(n,la,a,lb,b),s,6*sc+1e-10*(fabs(ww[3])+uinner(&f,&f))); 
        double q=0; for(int i=0;i<n;i++){ RF t; uaxpby(1,((i*la)%2)?&g:&f,-1,i*lb==1?&f:&g,&t); q+=uinner(&t,&t);} mc_cmp("array_norm2diff",pow(generic_function_array_norm2diff(n,a,la,b,lb),2),q,1e-9*(1+q)*uscl(&f)*uscl(&g)); 
        double z=0; for(int i=0;i<n;i++){ const RF*A=((i*la)%2)?&g:&f; z+=uinner(A,A);} mc_cmp("array_norm",generic_function_array_norm(n,la,a),sqrt(z),1e-9*(1+sqrt(z))); 
        double*IA=generic_function_integral_array(n,la,a); for(int i=0;i<n;i++){ const RF*A=((i*la)%2)?&g:&f; mc_cmp("integral_array",IA[i],uint_(A),1e-11*uscl(A)*(1+f.ub-f.lb)); } free(IA); }
    mc_step(); mc_cmp("integrate",generic_function_integrate(x),uint_(&f),1e-11*uscl(&f)*(1+f.ub-f.lb));
    ucheck("inner-x",x,&f); ucheck("inner-y",y,&g); mc_state(mc_hd(mc_hd(mc_hu(mc_h0(),cls),w),nd)); free_(x); free_(y);
}
/* ---- derivatives as functions ---- */
static double pv(const double*p,double x){ double s=0; for(int i=4;i>=0;i--) s=s*x+p[i]; return s; }
static double pdv(const double*p,double x){ return p[1]+x*(2*p[2]+x*(3*p[3]+4*x*p[4])); }
static void fd_lin(const RF*f,double*d)
{ int n=f->n; const double*x=f->x,*c=f->c; d[0]=(c[1]-c[0])/(x[1]-x[0]); d[n-1]=(c[n-1]-c[n-2])/(x[n-1]-x[n-2]); for(int i=1;i<n-1;i++) d[i]=(c[i+1]-c[i-1])/(x[i+1]-x[i-1]);
  if(n>5) for(int i=2;i<n-2;i++){ double P=x[i+2]-x[i],p=x[i+1]-x[i],q=x[i]-x[i-1],Q=x[i]-x[i-2]; double r=(P*P*P+Q*Q*Q)/(p*p*p+q*q*q); d[i]=(r*(c[i+1]-c[i-1])-(c[i+2]-c[i-2]))/(r*(p+q)-(P+Q)); } }
static void d_deriv(void)
{
    int k=mc_choose(32+20,"grid"); mc_shard(); RF f; biggrid(&f,ULIN,k); int pat=mc_choose(f.n+4,"coef"); double p[5]={0};
    if(pat<f.n) f.c[pat]=1; else if(pat==f.n){ p[0]=1.5;p[1]=-2.25; } else if(pat==f.n+1){ p[1]=0.5;p[2]=1; } else if(pat==f.n+2){ p[0]=1;p[3]=0.75; } else { p[4]=0.5;p[1]=1; }
    if(pat>=f.n) for(int i=0;i<f.n;i++) f.c[i]=pv(p,f.x[i]);
    note("deriv",&f); GF*g=ubuild(&f),*d=generic_function_deriv(g); mc_step(); double r[UMAX]; fd_lin(&f,r); RF R=f; memcpy(R.c,r,sizeof r);
    double sc=uscl(&f)*20; for(int i=0;i<f.n;i++) mc_cmp("deriv-nodal",generic_function_1d_eval(d,f.x[i]),r[i],1e-11*sc);
    if(pat==f.n) for(int i=0;i<f.n;i++) mc_cmp("deriv-affine",generic_function_1d_eval(d,f.x[i]),p[1],1e-10*sc);
    if(pat>f.n&&k>=32&&f.n<=20) for(int i=0;i<f.n;i++){ int in=i>0&&i<f.n-1,i5=f.n>5&&i>1&&i<f.n-2; if((pat==f.n+1&&in)||i5) mc_cmp("deriv-poly",generic_function_1d_eval(d,f.x[i]),pdv(p,f.x[i]),1e-9*sc); }
    ucheck("deriv-src",g,&f);
    GF*e=generic_function_dderiv(g); mc_step(); double r2[UMAX]; fd_lin(&R,r2); double s2=0; for(int i=0;i<f.n;i++) if(fabs(r[i])>s2) s2=fabs(r[i]); for(int i=0;i<f.n;i++) mc_cmp("dderiv-nodal",generic_function_1d_eval(e,f.x[i]),r2[i],1e-10*(1+s2)*40);
    /* the derivative is an independent object */
    generic_function_scale(0.0,g); for(int i=0;i<f.n;i++) mc_cmp("deriv-indep",generic_function_1d_eval(d,f.x[i]),r[i],1e-11*sc);
    uint64_t h=mc_hu(mc_h0(),k); h=mc_hda(h,f.n,r); mc_state(h); free_(g); free_(d); free_(e);
    if(pat==f.n||pat<2){ RF c=f; c.cls=UCONST; GF*q=ubuild(&c),*dq=generic_function_deriv(q); for(int i=0;i<c.n;i++){ int j=i<c.n-1?i:i-1; double w=(c.c[j+1]-c.c[j])/(c.x[j+1]-c.x[j]); mc_cmp("deriv-const",generic_function_1d_eval(dq,c.x[i]),w,1e-10*sc); } ucheck("deriv-const-src",q,&c); free_(q); free_(dq); }
}
static void d_periodic(void)
{
    int n=4+2*mc_choose(mc_thorough?14:8,"n/2"), L=mc_choose(3,"length"), k=mc_choose(5,"mode"), ph=mc_choose(2,"phase"), hist=mc_choose(4,"history"); mc_shard(); if(2*k>=n) mc_skip();
    double len=(double[]){2*M_PI,1.0,8.0}[L],lb=(double[]){0,-0.5,1}[L],dx=len/n; RF f={0}; f.cls=ULIN; f.n=n; for(int i=0;i<n;i++){ f.x[i]=lb+dx*i; } 
    /* exact equal spacing is demanded by the routine */
    double sp=ldexp(round(ldexp(dx,20)),-20); if(L) sp=dx; for(int i=0;i<n;i++) f.x[i]=lb+sp*i; len=sp*n; double bad=0; for(int i=0;i+1<n;i++) bad=fmax(bad,fabs(f.x[i+1]-f.x[i]-(f.x[1]-f.x[0]))); if(bad>5e-16) mc_skip();
    f.lb=lb; f.ub=f.x[n-1]; double w=2*M_PI*k/len; for(int i=0;i<n;i++) f.c[i]=ph?sin(w*(f.x[i]-lb)):cos(w*(f.x[i]-lb))+0.5; mc_note("dderiv_periodic n=%d mode %d phase %d len %g history %d",n,k,ph,len,hist);
    GF*g=ubuild(&f); double fac=1;
    if(hist==1){ GF*t=generic_function_dderiv_periodic(g); free_(t); generic_function_scale(-2,g); fac=-2; }
    if(hist==2){ GF*t=generic_function_dderiv_periodic(g); free_(t); GF*c=generic_function_copy(g); free_(g); g=c; }
    if(hist==3){ GF*t=generic_function_dderiv_periodic(g); free_(t); RF h=f; h.n=2*n; for(int i=0;i<2*n;i++){ h.x[i]=lb+sp/2*i; } h.ub=h.x[2*n-1]; for(int i=0;i<2*n;i++) h.c[i]=ph?sin(w*(h.x[i]-lb)):cos(w*(h.x[i]-lb))+0.5; if(2*n>UMAX) mc_skip(); bad=0; for(int i=0;i+1<2*n;i++) bad=fmax(bad,fabs(h.x[i+1]-h.x[i]-(h.x[1]-h.x[0]))); if(bad>5e-16) mc_skip();
        generic_function_scale(0,g); generic_function_axpy(1.0,ubuild(&h),g); f=h; n=2*n; }
    mc_step(); GF*d=generic_function_dderiv_periodic(g); mc_step();
    for(int i=0;i<f.n;i++){ double want=fac*-w*w*(ph?sin(w*(f.x[i]-lb)):cos(w*(f.x[i]-lb))); mc_cmp("dderiv_periodic",generic_function_1d_eval(d,f.x[i]),want,1e-9*(1+pow(M_PI*f.n/len,2))); }
    mc_state(uhash(mc_hu(mc_h0(),n),d,f.lb,f.ub)); free_(d); free_(g);
}
/* ---- constants, lines, zero, one-zero, orthonormal bases, arrays ---- */
static void d_special(void)
{
    int cls=mc_choose(2,"class"), k=mc_choose(32,"grid"), op=mc_choose(6,"op"); mc_shard(); RF f; biggrid(&f,cls,k); void*o=uopts(&f); note("special",&f); mc_note("op %d",op); GF*g=NULL; RF r=f; uint64_t h=mc_hu(mc_hu(mc_hu(mc_h0(),cls),k),op);
    if(op==0){ double v=UG1[mc_choose(3,"v")]; g=generic_function_constant(v,UFC[cls],o); for(int i=0;i<r.n;i++) r.c[i]=v; ucheck("constant",g,&r); mc_cmp("constant-int",generic_function_integrate(g),v*(f.ub-f.lb),1e-11); }
    else if(op==1){ g=generic_function_zero(UFC[cls],o,mc_choose(2,"force")); ucheck("zero",g,&r); mc_expect("zero-np",(int)generic_function_get_num_params(g)==f.n,"nparams"); }
    else if(op==2){ if(cls!=ULIN) mc_skip(); double a=UG1[mc_choose(3,"a")],b=UG2[mc_choose(3,"b")]; g=generic_function_linear(a,b,UFC[cls],o); for(int i=0;i<r.n;i++) r.c[i]=a*r.x[i]+b; ucheck("linear",g,&r); }
    else if(op==3){ int n=1+mc_choose(f.n+2,"n"); GF*B[16]; generic_function_array_orth(n,B,UFC[cls],o); mc_step();
        for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(i>=f.n||j>=f.n) continue; mc_cmp("orth",generic_function_inner(B[i],B[j]),i==j,1e-11); }
        for(int i=0;i<n;i++){ mc_expect("orth-np",(int)generic_function_get_num_params(B[i])==f.n,"nparams"); if(i>=f.n) mc_expect("orth-extra",generic_function_norm(B[i])<1e-10,"extra basis function not negligible"); h=uhash(h,B[i],f.lb,f.ub); free_(B[i]); } }
    else if(op==4){ /* one-zero with explicit one and zero locations */ int msk=mc_choose(16,"zeros"), on=mc_choose(5,"one"); double z[4],one=f.lb+(f.ub-f.lb)*(0.11+0.19*on); int nz=0; for(int i=0;i<4;i++) if(msk>>i&1) z[nz++]=f.lb+(f.ub-f.lb)*(0.2+0.19*i);
        if(k) mc_skip(); g=generic_function_onezero(UFC[cls],one,nz,z,f.lb,f.ub); mc_cmp("onezero-one",generic_function_1d_eval(g,one),1,0); for(int i=0;i<nz;i++) mc_cmp("onezero-zero",generic_function_1d_eval(g,z[i]),0,0); mc_cmp("onezero-lb",generic_function_1d_eval(g,f.lb),0,0); mc_cmp("onezero-ub",generic_function_1d_eval(g,f.ub),0,0); mc_cmp("onezero-glb",generic_function_get_lb(g),f.lb,0); mc_cmp("onezero-gub",generic_function_get_ub(g),f.ub,0); }
    else { /* array_onezero: new pivot where all previous pivots vanish */ int n=1+mc_choose(3,"n"), upto=mc_choose(4,"upto"); if(upto>=n*(f.n-1)||f.n<3) mc_skip(); size_t piv[8]; double px[8]; int used[4]={0}; for(int j=0;j<upto;j++){ piv[j]=j%n; px[j]=f.x[(2*used[j%n]+j)%f.n]; used[j%n]++; } for(int j=0;j<upto;j++) for(int i=0;i<j;i++) if(piv[i]==piv[j]&&px[i]==px[j]) mc_skip(); for(int i=0;i<n;i++) if(used[i]>=f.n) mc_skip();
        GF*Lf[4]; generic_function_array_onezero(Lf,n,UFC[cls],upto,piv,px,o); mc_step(); mc_expect("aonezero-piv",(int)piv[upto]<n,"pivot index"); mc_cmp("aonezero-one",generic_function_1d_eval(Lf[piv[upto]],px[upto]),1,1e-14); for(int j=0;j<upto;j++) mc_cmp("aonezero-zero",generic_function_1d_eval(Lf[piv[j]],px[j]),0,1e-14); for(int i=0;i<n;i++){ h=uhash(h,Lf[i],f.lb,f.ub); free_(Lf[i]); } }
    if(g){ h=uhash(h,g,f.lb,f.ub); free_(g); } mc_step(); mc_state(h); uopts_free(cls,o);
}
/* adaptive-mode options: bases and one-zero functions without a fixed grid */
static void d_adaptive_basis(void)
{
    int cls=mc_choose(2,"class"), op=mc_choose(3,"op"); double lb=-1,ub=2; 
    void*o=cls==ULIN?(void*)lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2):(void*)const_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,1e-3,1e-2);
    if(op==0){ int n=2+mc_choose(9,"n"); mc_shard(); GF*B[16]; generic_function_array_orth(n,B,UFC[cls],o); mc_step(); for(int i=0;i<n;i++) for(int j=0;j<n;j++) mc_cmp("adapt-orth",generic_function_inner(B[i],B[j]),i==j,1e-11); for(int i=0;i<n;i++){ mc_cmp("adapt-orth-lb",generic_function_get_lb(B[i]),lb,1e-14); mc_cmp("adapt-orth-ub",generic_function_get_ub(B[i]),ub,1e-14); mc_state(uhash(mc_hu(mc_h0(),i),B[i],lb,ub)); free_(B[i]); } }
    else if(op==1){ int w=mc_choose(3,"what"); mc_shard(); GF*g=w==0?generic_function_constant(1.5,UFC[cls],o):generic_function_zero(UFC[cls],o,w-1); mc_step(); for(int i=0;i<UNP;i++) mc_cmp("adapt-const",generic_function_1d_eval(g,umap(UPT[i],lb,ub)),w==0?1.5:0,1e-13); free_(g); }
    else { /* lin_elem_exp_onezero for every order of up to 3 zero locations, including the ends */
        static const double Z[5]={-1,-0.25,0.5,1.25,2}; int n=mc_choose(4,"nz"); double z[3]; int id[3]; for(int i=0;i<n;i++){ id[i]=mc_choose(5,"z"); for(int j=0;j<i;j++) if(id[j]==id[i]) mc_skip(); z[i]=Z[id[i]]; } mc_shard();
        mc_note("onezero adaptive %s zeros:",UNAME[cls]); for(int i=0;i<n;i++) mc_note(" %g",z[i]);
        void*e=cls==ULIN?(void*)lin_elem_exp_onezero(n,z,o):(void*)const_elem_exp_onezero(n,z,o); mc_step(); GF*g=generic_function_alloc(1,UFC[cls]); g->f=e; 
        mc_cmp("1z-lb",generic_function_get_lb(g),lb,1e-14); mc_cmp("1z-ub",generic_function_get_ub(g),ub,1e-14); for(int i=0;i<n;i++) mc_cmp("1z-zero",generic_function_1d_eval(g,z[i]),0,0); double xm; double v=generic_function_absmax(g,&xm,NULL); mc_cmp("1z-one",v,1,0); size_t np=generic_function_get_num_params(g); double*nx=cls==ULIN?((struct LinElemExp*)e)->nodes:((struct ConstElemExp*)e)->nodes; for(size_t i=1;i<np;i++) mc_expect("1z-sorted",nx[i]>nx[i-1],"nodes not increasing at %zu: %g %g",i,nx[i-1],nx[i]); mc_state(uhash(mc_hu(mc_h0(),n),g,lb,ub)); free_(g); }
    uopts_free(cls,o);
}
static void d_arrays(void)
{
    int cls=mc_choose(ULEG+1,"class"), n=1+mc_choose(4,"n"), m=mc_choose(8,"grid"), ld=1+mc_choose(3,"ld"), big=mc_choose(4,"where"); mc_shard(); if(big>=n) mc_skip(); if(cls==UKER&&m) mc_skip();
    GF*A[16]; RF r[16]; for(int i=0;i<n*ld;i++){ ugrid(&r[i],cls,i%2&&cls!=UKER&&0,cls==UKER?0:(m+(cls==ULEG?i:0))%8); for(int k=0;k<r[i].n;k++) r[i].c[k]=0.25*UG1[(k+i)%8]; if(i%ld) for(int k=0;k<r[i].n;k++) r[i].c[k]*=100; } { RF*q=&r[big*ld]; q->c[q->n/2]=cls>=UKER?9:-9; }
    for(int i=0;i<n*ld;i++) A[i]=ubuild(&r[i]); mc_note("array of %d %s ld %d largest at %d",n,UNAME[cls],ld,big); mc_step();
    double x=0.53*(r[0].ub-r[0].lb)/2, o[64]; uint64_t h=mc_hu(mc_h0(),cls); if(x>r[0].ub||x<r[0].lb) x=(r[0].lb+r[0].ub)/2+0.01;
    for(int i=0;i<64;i++) o[i]=-777; generic_function_1darray_eval2(n,A,x,o); for(int i=0;i<n;i++) mc_cmp("1darray_eval2",o[i],ueval(&r[i],x),1e-10*uscl(&r[i])); mc_expect("1darray_eval2-end",o[n]==-777,"overrun");
    for(int N=1;N<=5;N++) for(int ix=1;ix<=2;ix++){ double X[12]; for(int i=0;i<12;i++) X[i]=umap(UPT[(3*i+1)%UNP],r[0].lb,r[0].ub); int iy=n+(ix-1); for(int i=0;i<64;i++) o[i]=-777; generic_function_1darray_eval2N(n,A,N,X,ix,o,iy); for(int q=0;q<N;q++) for(int i=0;i<n;i++) mc_cmp("1darray_eval2N",o[q*iy+i],ueval(&r[i],X[q*ix]),1e-10*uscl(&r[i])); if(ix==2) for(int q=0;q<N;q++) mc_expect("eval2N-gap",o[q*iy+n]==-777,"touched"); mc_expect("eval2N-end",o[(N-1)*iy+n]==-777,"overrun"); }
    if(cls<=UCONST) for(int q=0;q<r[0].n;q++){ for(int i=0;i<64;i++) o[i]=-777; generic_function_1darray_eval2_ind(n,A,q,o); for(int i=0;i<n;i++) mc_cmp("1darray_eval2_ind",o[i],r[i].c[q],0); mc_expect("eval2_ind-end",o[n]==-777,"overrun"); }
    if(cls!=UKER&&cls!=ULEG){ size_t ind=99; double xm=1e9,am=0; for(int i=0;i<n;i++) for(int k=0;k<r[i*ld].n;k++) am=fmax(am,fabs(r[i*ld].c[k])); double v=generic_function_array_absmax(n,ld,A,&ind,&xm,NULL); mc_cmp("array_absmax",v,am,0); mc_expect("array_absmax-ind",(int)ind<n,"index"); mc_cmp("array_absmax-loc",fabs(ueval(&r[ind*ld],xm)),am,1e-12);
        h=mc_hd(mc_hu(h,ind),xm); }
    if(cls<=UKER){ double cand[4]; for(int i=0;i<4;i++) cand[i]=umap(UPT[3+3*i],r[0].lb,r[0].ub); struct c3Vector*v=c3vector_alloc(4,cand); size_t ind=99; double xm=1e9,am=0; for(int i=0;i<n;i++) for(int k=0;k<4;k++) am=fmax(am,fabs(ueval(&r[i*ld],cand[k]))); double mv=generic_function_array_absmax(n,ld,A,&ind,&xm,v); mc_cmp("array_absmax-opt",mv,am,1e-11*(1+am)); mc_expect("array_absmax-opt-ind",(int)ind<n,"ind"); mc_cmp("array_absmax-opt-loc",fabs(ueval(&r[ind*ld],xm)),am,1e-11*(1+am)); c3vector_free(v); }
    if(cls==UKER) for(int i=0;i<n;i++) for(int q=0;q<UNP;q++){ double t=umap(UPT[q],r[i].lb,r[i].ub),w=0; for(int k=0;k<r[i].n;k++){ double z=(t-r[i].x[k])/r[i].w; w+=1.5*r[i].c[k]*exp(-z*z)*-2*z/r[i].w; } mc_cmp("kernel-deriv_eval",generic_function_deriv_eval(A[i],t),w,1e-10*uscl(&r[i])); }
    for(int i=0;i<n*ld;i++){ ucheck("arrays-src",A[i],&r[i]); h=uhash(h,A[i],r[i].lb,r[i].ub); free_(A[i]); } mc_state(h);
}
/* ---- approximation ---- */
static int TF; static RF TR; static double seenlo,seenhi; static long calls; static double asked[20000];
static double tf(double x){ switch(TF){ case 0: return 1.5; case 1: return 2-3*x; case 2: return x*x+0.5; case 3: return exp(0.7*x); case 4: return fabs(x-0.21)+0.3; case 5: return sin(5*x)+1.7; case 6: return x<0.33?1:2; default: return ueval(&TR,x); } }
static int fvec(size_t n,const double*x,double*o,void*a){ for(size_t i=0;i<n;i++){ if(x[i]<seenlo) seenlo=x[i]; if(x[i]>seenhi) seenhi=x[i]; if(calls<20000) asked[calls]=x[i]; calls++; o[i]=tf(x[i]); } return 0; }
static struct Fwrap*mkfw(void){ struct Fwrap*fw=fwrap_create(1,"general-vec"); fwrap_set_fvec(fw,fvec,NULL); seenlo=1e300; seenhi=-1e300; calls=0; return fw; }
static void refadapt(double xl,double xr,double delta,double hmin,double*o,int*n)
{ double fl=tf(xl),fr=tf(xr); if(xr-xl<=hmin){ if(!*n) o[(*n)++]=xl; o[(*n)++]=xr; return; } double m=(xl+xr)/2,fm=tf(m); if(fabs((fl+fr)/2-fm)/fabs(fm)<delta){ if(!*n) o[(*n)++]=xl; o[(*n)++]=m; o[(*n)++]=xr; return; } refadapt(xl,m,delta,hmin,o,n); refadapt(m,xr,delta,hmin,o,n); }
static void d_approx(void)
{
    int cls=mc_choose(2,"class"), k=mc_choose(40,"grid"); TF=mc_choose(7,"target"); mc_shard(); RF f; biggrid(&f,cls,k); void*o=uopts(&f); struct Fwrap*fw=mkfw(); mc_note("approx %s grid %d target %d",UNAME[cls],k,TF);
    GF*g=generic_function_approximate1d(UFC[cls],o,fw); mc_step(); for(int i=0;i<f.n;i++) f.c[i]=tf(f.x[i]); ucheck("approx-nodal",g,&f); for(int i=0;i<f.n;i++) mc_cmp("approx-node",generic_function_1d_eval(g,f.x[i]),f.c[i],0); mc_expect("approx-domain",seenlo>=f.lb&&seenhi<=f.ub,"evaluated outside [%g,%g]",f.lb,f.ub); mc_expect("approx-calls",calls==f.n,"%ld calls for %d nodes",calls,f.n);
    mc_state(uhash(mc_hu(mc_h0(),k),g,f.lb,f.ub)); free_(g); fwrap_destroy(fw); uopts_free(cls,o);
}
static void d_adapt(void)
{
    TF=mc_choose(7,"target"); int d=mc_choose(3,"domain"), dl=mc_choose(4,"delta"), hm=mc_choose(4,"hmin"), nn=mc_choose(6,"nodes"), how=mc_choose(2,"how"); mc_shard();
    double lb=UDOM[d][0],ub=UDOM[d][1],delta=(double[]){1e-1,1e-2,1e-4,1e-6}[dl],hmin=(ub-lb)*(double[]){0.6,0.11,0.02,0.004}[hm]; double nodes[5]={lb,lb+0.3*(ub-lb),lb+0.55*(ub-lb),ub}; double n2[2]={lb,ub}, n3[3]={lb,lb+0.3*(ub-lb),ub};
    double n7[7],n9[9]; for(int i=0;i<7;i++) n7[i]=i==6?ub:lb+(ub-lb)*(i*(i+5)/66.0); for(int i=0;i<9;i++) n9[i]=i==8?ub:lb+(ub-lb)*(i*(20-i)/96.0); int N=nn==0?0:nn==4?7:nn==5?9:nn+1; double*nd=nn==1?n2:nn==2?n3:nn==4?n7:nn==5?n9:nodes; if(how&&N==0) mc_skip(); struct LinElemExpAopts*o;
    if(how==0) o=lin_elem_exp_aopts_alloc_adapt(N,N?nd:NULL,lb,ub,delta,hmin); else { o=lin_elem_exp_aopts_alloc(N,nd); lin_elem_exp_aopts_set_adapt(o,1.0,1.0); lin_elem_exp_aopts_set_delta(o,delta); lin_elem_exp_aopts_set_hmin(o,hmin); }
    struct Fwrap*fw=mkfw(); mc_note("adapt target %d [%g,%g] delta %g hmin %g nodes %d",TF,lb,ub,delta,hmin,N); GF*g=generic_function_approximate1d(LINELM,o,fw); mc_step();
    static double R[20000]; int n=0; if(N==0) refadapt(lb,ub,delta,hmin,R,&n); else for(int i=0;i+1<N;i++) refadapt(nd[i],nd[i+1],delta,hmin,R,&n);
    struct LinElemExp*e=g->f; mc_expect("adapt-domain",seenlo>=lb&&seenhi<=ub,"evaluated outside domain"); mc_cmp("adapt-lb",e->nodes[0],lb,0); mc_cmp("adapt-ub",e->nodes[e->num_nodes-1],ub,0);
    for(size_t i=0;i<e->num_nodes;i++){ mc_cmp("adapt-node",e->coeff[i],tf(e->nodes[i]),0); if(i) mc_expect("adapt-sorted",e->nodes[i]>e->nodes[i-1],"nodes not increasing"); }
    for(int i=0;i<N;i++){ int f=0; for(size_t j=0;j<e->num_nodes;j++) f|=e->nodes[j]==nd[i]; mc_expect("adapt-user-nodes",f,"user node %g lost",nd[i]); }
    mc_expect("adapt-count",(int)e->num_nodes==n,"%zu nodes, expected %d",e->num_nodes,n); for(int i=0;i<n;i++) mc_cmp("adapt-nodes",e->nodes[i],R[i],1e-13);
    mc_state(mc_hda(mc_hu(mc_h0(),n),n,e->nodes)); free_(g); fwrap_destroy(fw); lin_elem_exp_aopts_free(o);
}
/* options keep what was set */
static void d_opts(void)
{
    int cls=mc_choose(2,"class"), k=mc_choose(32,"grid"), way=mc_choose(4,"way"); mc_shard(); RF f; biggrid(&f,cls,k); double other[3]={f.lb,0.5*(f.lb+f.ub)+0.01,f.ub}; RF w=f; mc_note("opts way %d",way);
    if(cls==ULIN){ struct LinElemExpAopts*o=lin_elem_exp_aopts_alloc(f.n,f.x); if(way==1){ lin_elem_exp_aopts_set_nodes(o,3,other);} if(way==2||way==3){ lin_elem_exp_aopts_set_nodes_copy(o,3,other); } if(way) { w.n=3; memcpy(w.x,other,sizeof other);} if(way==3){ lin_elem_exp_aopts_set_nodes_copy(o,f.n,f.x); w=f; } if(way==2) other[1]=77;
        mc_expect("opt-n",(int)lin_elem_exp_aopts_get_num_nodes(o)==w.n&&(int)lin_elem_exp_aopts_get_nparams(o)==w.n,"num nodes"); mc_cmp("opt-lb",lin_elem_exp_aopts_get_lb(o),f.lb,0); mc_cmp("opt-ub",lin_elem_exp_aopts_get_ub(o),f.ub,0);
        for(int i=0;i<w.n;i++) w.c[i]=UG1[i%8]; GF*g=generic_function_create_with_params(LINELM,o,w.n,w.c); if(way!=1) ucheck("opt-build",g,&w); free_(g); if(way==0) lin_elem_exp_aopts_free(o); else lin_elem_exp_aopts_free_deep(&o); }
    else { struct ConstElemExpAopts*o=const_elem_exp_aopts_alloc(f.n,f.x); if(way>1) mc_skip(); if(way==1){ const_elem_exp_aopts_set_nodes(o,3,other); w.n=3; memcpy(w.x,other,sizeof other);} mc_expect("opt-n",(int)const_elem_exp_aopts_get_num_nodes(o)==w.n&&(int)const_elem_exp_aopts_get_nparams(o)==w.n,"num nodes"); mc_cmp("opt-lb",const_elem_exp_aopts_get_lb(o),f.lb,0); mc_cmp("opt-ub",const_elem_exp_aopts_get_ub(o),f.ub,0); for(int i=0;i<w.n;i++) w.c[i]=UG1[i%8]; GF*g=generic_function_create_with_params(CONSTELM,o,w.n,w.c); ucheck("opt-build",g,&w); free_(g); if(way==0) const_elem_exp_aopts_free(o); else const_elem_exp_aopts_free_deep(&o); }
    mc_step(); mc_state(mc_hu(mc_hu(mc_hu(mc_h0(),cls),k),way));
}
/* error estimate: second differences on the element midpoints, scaled by h^2/8 */
static void d_err(void)
{
    int k=mc_choose(32+12,"grid"), dir=mc_choose(2,"dir"), ty=mc_choose(2,"type"); mc_shard(); RF f; biggrid(&f,ULIN,k); if(f.n<3) mc_skip(); int pat=mc_choose(f.n+2,"coef"); if(pat<f.n) f.c[pat]=1; else for(int i=0;i<f.n;i++) f.c[i]=pat==f.n?1+2*f.x[i]:f.x[i]*f.x[i];
    note("err_est",&f); GF*g=ubuild(&f); double e[UMAX]; for(int i=0;i<UMAX;i++) e[i]=-777; double v=lin_elem_exp_err_est(g->f,e,dir,ty?2:0); mc_step(); int E=f.n-1; double tot=0;
    for(int i=0;i<E;i++){ /* curvature seen from element i: with the next element (dir 1, or first), else with the previous */ int j=i==0?0:i==E-1?E-2:dir==1?i:i-1; double h0=f.x[j+1]-f.x[j],h1=f.x[j+2]-f.x[j+1]; double cur=((f.c[j+2]-f.c[j+1])/h1-(f.c[j+1]-f.c[j])/h0)/((h0+h1)/2),h=f.x[i+1]-f.x[i]; double w=ty?h*h*fabs(cur)*sqrt(h)/8:h*h*fabs(cur)/8; mc_cmp("err",e[i],w,1e-10*(1+fabs(w))*uscl(&f)); if(ty) tot+=w; else tot=fmax(tot,w); }
    mc_cmp("err-total",v,tot,1e-9*(1+tot)*uscl(&f)); mc_expect("err-overrun",e[E]==-777,"overrun"); mc_state(mc_hda(mc_h0(),E,e)); free_(g);
}
/* ---- polynomials ---- */
static double legd(const RF*f,double x,int order){ /* numeric: exact by Chebyshev interpolation derivative is overkill; use recurrences */ double t=2*(x-f->lb)/(f->ub-f->lb)-1,s=2/(f->ub-f->lb); double p[16],d[16],e[16]; p[0]=1;d[0]=0;e[0]=0; p[1]=t;d[1]=1;e[1]=0; for(int k=1;k<15;k++){ if(f->cls==ULEG){ p[k+1]=((2*k+1)*t*p[k]-k*p[k-1])/(k+1); d[k+1]=((2*k+1)*(p[k]+t*d[k])-k*d[k-1])/(k+1); e[k+1]=((2*k+1)*(2*d[k]+t*e[k])-k*e[k-1])/(k+1);} else { p[k+1]=2*t*p[k]-p[k-1]; d[k+1]=2*p[k]+2*t*d[k]-d[k-1]; e[k+1]=4*d[k]+2*t*e[k]-e[k-1]; } }
  double r=0; for(int k=0;k<f->n;k++) r+=f->c[k]*(f->cls==ULEG?sqrt(2*k+1.0):1)*(order==0?p[k]:order==1?d[k]*s:e[k]*s*s); return r; }
static void d_poly(void)
{
    int cls=ULEG+mc_choose(3,"class"), d=mc_choose(2,"domain"), n=1+mc_choose(mc_thorough?9:7,"n"); mc_shard(); if(cls==UHERM&&d) mc_skip(); int pat=mc_choose(n+4,"coef"); RF f; ugrid(&f,cls,d,0); f.n=n; ucoef(&f,pat); note("poly",&f);
    GF*g=ubuild(&f); mc_step(); ucheck("poly-eval",g,&f); double sc=uscl(&f);
    if(cls==ULEG||cls==UCHEB){ for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-deriv_eval",generic_function_deriv_eval(g,x),legd(&f,x,1),1e-9*sc*n*n*n); }
        if(cls==ULEG||n>1||1){ GF*dg=generic_function_deriv(g); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-deriv",generic_function_1d_eval(dg,x),legd(&f,x,1),1e-9*sc*n*n*n); } free_(dg); }
        GF*dd=generic_function_dderiv(g); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-dderiv",generic_function_1d_eval(dd,x),legd(&f,x,2),1e-8*sc*pow(n,5)); } free_(dd);
        double xm=1e9,am=0; for(int q=0;q<=4000;q++){ double x=umap(-1+q/2000.0,f.lb,f.ub); am=fmax(am,fabs(ueval(&f,x))); } if(cls==ULEG&&n<7){ double v=generic_function_absmax(g,&xm,NULL); mc_expect("poly-absmax",v>=am*(1-1e-6)-1e-9&&v<=am*(1+1e-4)+1e-9,"%g, sampled %g",v,am); mc_cmp("poly-absmax-loc",fabs(ueval(&f,xm)),v,1e-7*sc); } }
    mc_cmp("poly-int",generic_function_integrate(g),uint_(&f),1e-10*sc*4); mc_cmp("poly-norm",generic_function_norm(g),sqrt(uinner(&f,&f)),1e-9*sc*4);
    if(cls==ULEG){ GF*c=generic_function_copy(g); generic_function_roundt(&c,0.0); ucheck("poly-round0",c,&f); free_(c); mc_cmp("poly-int-w",generic_function_integrate_weighted(g),f.c[0],1e-10*sc); }
    { int N=1+mc_choose(3,"basis"); GF*B[8]; void*o=uopts(&f); generic_function_array_orth(N*2,B,POLYNOMIAL,o); for(int i=0;i<N*2;i++) for(int j=0;j<N*2;j++) mc_cmp("poly-orth",generic_function_inner(B[i],B[j]),i==j,1e-9); for(int i=0;i<N*2;i++) free_(B[i]);
      GF*q=generic_function_constant(1.75,POLYNOMIAL,o); RF r=f; r.n=1; r.c[0]=1.75; ucheck("poly-const",q,&r); free_(q); q=generic_function_linear(-1.5,0.25,POLYNOMIAL,o); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-linear",generic_function_1d_eval(q,x),-1.5*x+0.25,1e-11*8); } free_(q); q=generic_function_zero(POLYNOMIAL,o,N&1); for(int i=0;i<UNP;i++) mc_cmp("poly-zero",generic_function_1d_eval(q,umap(UPT[i],f.lb,f.ub)),0,0); free_(q);
      if(cls==ULEG){ q=generic_function_quadratic(0.5,0.3,POLYNOMIAL,o); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-quad",generic_function_1d_eval(q,x),0.5*(x-0.3)*(x-0.3),1e-10); } free_(q); }
      uopts_free(cls,o); }
    if(cls!=UHERM||1){ TF=99; TR=f; void*o=uopts(&f); ope_opts_set_start(o,n+3); ope_opts_set_maxnum(o,n+12); ope_opts_set_tol(o,1e-12); struct Fwrap*fw=mkfw(); GF*a=generic_function_approximate1d(POLYNOMIAL,o,fw); mc_step(); double t=1e-9*sc*4; for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("poly-approx",generic_function_1d_eval(a,x),ueval(&f,x),t); } if(cls!=UHERM) mc_expect("poly-approx-dom",seenlo>=f.lb-1e-12&&seenhi<=f.ub+1e-12,"evaluated outside: [%g,%g]",seenlo,seenhi); free_(a); fwrap_destroy(fw); uopts_free(cls,o); }
    mc_state(uhash(mc_hu(mc_h0(),cls),g,f.lb,f.ub)); free_(g);
}
static void d_kernelbasis(void)
{
    int n=2+mc_choose(4,"centers"), d=mc_choose(3,"domain"), wi=mc_choose(3,"width"); mc_shard(); RF f={0}; f.cls=UKER; f.lb=UDOM[d][0]; f.ub=UDOM[d][1]; f.n=n; f.w=(f.ub-f.lb)*(double[]){0.1,0.25,0.5}[wi]; for(int i=0;i<n;i++) f.x[i]=f.lb+(f.ub-f.lb)*(i+0.3)/n; mc_note("kernel basis n=%d w=%g",n,f.w);
    void*o=uopts(&f); GF*B[8]; int N=1+mc_choose(n,"N"); generic_function_array_orth(N,B,KERNEL,o); mc_step(); for(int i=0;i<N;i++) for(int j=0;j<N;j++) mc_cmp("kernel-orth",generic_function_inner(B[i],B[j]),i==j,1e-8);
    for(int i=0;i<N;i++){ mc_cmp("kernel-lb",generic_function_get_lb(B[i]),f.lb,0); mc_cmp("kernel-ub",generic_function_get_ub(B[i]),f.ub,0); RF r=f; double p[8]; generic_function_get_params(B[i],p); memcpy(r.c,p,n*sizeof(double)); ucheck("kernel-eval",B[i],&r); mc_cmp("kernel-int",generic_function_integrate(B[i]),quad(&r,NULL,&r),1e-8*uscl(&r)); mc_cmp("kernel-norm",uinner(&r,&r),1,1e-6*uscl(&r)); mc_state(uhash(mc_hu(mc_h0(),i),B[i],f.lb,f.ub)); free_(B[i]); } GF*z=generic_function_zero(KERNEL,o,0); for(int i=0;i<n;i++) f.c[i]=0; ucheck("kernel-zero",z,&f); free_(z); uopts_free(UKER,o);
}
/* kernel expansions built kernel by kernel: own centre, width and scale for every kernel, any initial allocation, bounds of their own */
typedef struct { int n; double c[40],s[40],w[40],m[40],lb,ub; } KE;
static double ke_eval(const KE*k,double x){ double v=0; for(int i=0;i<k->n;i++){ double z=(x-k->m[i])/k->w[i]; v+=k->c[i]*k->s[i]*exp(-z*z); } return v; }
static double ke_quad(const KE*a,const KE*b,double lb,double ub){ static const double X[3]={0,0.5384693101056831,0.9061798459386640},W[3]={0.5688888888888889,0.4786286704993665,0.2369268850561891}; double s=0,h=(ub-lb)/200; for(int p=0;p<200;p++) for(int q=-2;q<=2;q++){ double x=lb+h*(p+0.5+0.5*(q<0?-X[-q]:X[q])),v=ke_eval(a,x); s+=W[q<0?-q:q]*v*(b?ke_eval(b,x):1); } return s*h/2; }
static struct KernelExpansion*ke_build(const KE*k,int alloc){ struct KernelExpansion*e=kernel_expansion_alloc(alloc); for(int i=0;i<k->n;i++){ struct Kernel*q=kernel_gaussian(k->s[i],k->w[i],k->m[i]); kernel_expansion_add_kernel(e,k->c[i],q); kernel_free(q); } kernel_expansion_set_bounds(e,k->lb,k->ub); return e; }
static void ke_make(KE*k,int n,int var){ k->n=n; for(int i=0;i<n;i++){ k->c[i]=((i*7+var*3)%11-5)*0.25+(i==0)*0.125; k->s[i]=0.5+((i+var)%3)*0.5; k->w[i]=0.35+0.2*((i*2+var)%4); k->m[i]=-1.2+2.4*((i*5+var*2+1)%n+0.3)/n; } }
static void d_kexp(void)
{
    static const int NN[]={1,2,3,5,8,9,17,33},AL[]={1,3,20}; static const double BD2[5][2]={{-1,1},{-2,0.5},{-0.5,2},{-0.25,0.75},{-3,3}}; int n=NN[mc_choose(8,"n")],al=AL[mc_choose(3,"alloc")],var=mc_choose(3,"var"); mc_shard(); int ba=mc_choose(5,"bounds a"),bb=mc_choose(5,"bounds b"); mc_key("kernels n=%d",n);
    KE a,b; ke_make(&a,n,var); ke_make(&b,n%4+2,var+1); a.lb=BD2[ba][0]; a.ub=BD2[ba][1]; b.lb=BD2[bb][0]; b.ub=BD2[bb][1]; struct KernelExpansion*A=ke_build(&a,al),*B=ke_build(&b,2); mc_steps(2); mc_expect("kexp-n",kernel_expansion_get_nkernels(A)==(size_t)n,"%zu kernels",kernel_expansion_get_nkernels(A)); mc_expect("kexp-bounds",kernel_expansion_get_lb(A)==a.lb&&kernel_expansion_get_ub(A)==a.ub,"bounds");
    uint64_t h=mc_hu(mc_h0(),ba*5+bb); double sa=0,sb=0; for(int i=0;i<a.n;i++) sa+=fabs(a.c[i])*a.s[i]; for(int i=0;i<b.n;i++) sb+=fabs(b.c[i])*b.s[i];
    double P[9],Y[20]; for(int i=0;i<9;i++) P[i]=-2.1+0.55*i; for(int i=0;i<20;i++) Y[i]=77; kernel_expansion_evalN(A,9,P,1,Y,2); mc_step();
    for(int i=0;i<9;i++){ double w=ke_eval(&a,P[i]),d=0; for(int k=0;k<n;k++){ double z=(P[i]-a.m[k])/a.w[k]; d+=a.c[k]*a.s[k]*exp(-z*z)*-2*z/a.w[k]; } mc_cmp("kexp-eval",kernel_expansion_eval(A,P[i]),w,1e-13*sa); mc_cmp("kexp-evalN",Y[2*i],w,1e-13*sa); mc_expect("kexp-evalN-stride",Y[2*i+1]==77,"entry between touched"); mc_cmp("kexp-deriv",kernel_expansion_deriv_eval(A,P[i]),d,1e-12*sa); h=mc_hd(h,w); } mc_state(h);
    mc_cmp("kexp-int",kernel_expansion_integrate(A),ke_quad(&a,NULL,a.lb,a.ub),1e-11*sa); double lb=fmax(a.lb,b.lb),ub=fmin(a.ub,b.ub); double in=kernel_expansion_inner(A,B); mc_steps(2); mc_cmp("kexp-inner",in,ke_quad(&a,&b,lb,ub),1e-11*sa*sb); mc_cmp("kexp-inner-sym",kernel_expansion_inner(B,A),in,1e-13*sa*sb); mc_cmp("kexp-norm2",kernel_expansion_inner(A,A),ke_quad(&a,&a,a.lb,a.ub),1e-11*sa*sa);
    for(int f=0;f<9;f++) for(int L=1;L<=3&&f+L<=9;L++){ struct c3Vector*v=c3vector_alloc(L,P+f); double xm=1e9,wm=0; for(int i=0;i<L;i++) wm=fmax(wm,fabs(ke_eval(&a,P[f+i]))); double g=kernel_expansion_absmax(A,&xm,v); mc_step(); mc_cmp("kexp-absmax",g,wm,1e-13*sa); int on=0; for(int i=0;i<L;i++) on|=xm==P[f+i]; mc_expect("kexp-absmax-loc",on,"%g is no candidate",xm); mc_cmp("kexp-absmax-loc",fabs(ke_eval(&a,xm)),wm,1e-13*sa); c3vector_free(v); }
    /* arithmetic on copies: same kernels, original untouched */
    struct KernelExpansion*C=kernel_expansion_copy(A); kernel_expansion_scale(-1.5,C); kernel_expansion_axpy(2,A,C); kernel_expansion_flip_sign(C); struct Kernel*q=kernel_gaussian(1,0.5,0.1); kernel_expansion_add_kernel(C,0.75,q); kernel_free(q); mc_steps(5); KE c=a; for(int i=0;i<n;i++) c.c[i]*=-0.5; c.c[n]=0.75; c.s[n]=1; c.w[n]=0.5; c.m[n]=0.1; c.n=n+1;
    for(int i=0;i<9;i++){ mc_cmp("kexp-arith",kernel_expansion_eval(C,P[i]),ke_eval(&c,P[i]),1e-13*(sa+1)); mc_cmp("kexp-orig",kernel_expansion_eval(A,P[i]),ke_eval(&a,P[i]),1e-13*sa); } mc_expect("kexp-orig-n",kernel_expansion_get_nkernels(A)==(size_t)n,"original has %zu kernels",kernel_expansion_get_nkernels(A));
    kernel_expansion_free(A); kernel_expansion_free(B); kernel_expansion_free(C);
}
/* kernel approximation options: number of parameters, centres, functions made from them */
static void d_kopts(void)
{
    static const int NN[]={3,4,5,7,9}; int n=NN[mc_choose(5,"n")],ord=mc_choose(3,"order"),lim=mc_choose(3,"limits"); mc_shard(); int ad=mc_choose(2,"adapt"),set=mc_choose(5,"nparams"); double C[9]; for(int i=0;i<n;i++){ int k=ord==0?i:ord==1?n-1-i:(i*2)%n; if(ord==2&&n%2==0) k=(i+n/2)%n; C[i]=-0.5+2.0*k/(n-1); } double w=3.0/(n-1);
    double cc[9]; memcpy(cc,C,sizeof cc); struct KernelApproxOpts*o=kernel_approx_opts_gauss(n,cc,1.25,w); mc_step(); for(int i=0;i<n;i++) cc[i]=1e9; mc_key("kernel options n=%d",n); double lo=-0.5,hi=1.5; mc_expect("kopts-nparams",kernel_approx_opts_get_nparams(o)==(size_t)n,"%zu",kernel_approx_opts_get_nparams(o)); mc_expect("kopts-linear",kernel_approx_opts_linear_p(o)==1,"not linear");
    if(lim>=1){ lo=-1; kernel_approx_opts_set_lb(o,-1); } if(lim>=2){ hi=1.75; kernel_approx_opts_set_ub(o,1.75); } if(lim>=1) mc_expect("kopts-lb",kernel_approx_opts_get_lb(o)==-1,"lb"); if(lim>=2) mc_expect("kopts-ub",kernel_approx_opts_get_ub(o)==1.75,"ub");
    int m=n; if(ad){ kernel_approx_opts_set_center_adapt(o,1); mc_expect("kopts-linear-adapt",kernel_approx_opts_linear_p(o)==0&&kernel_approx_opts_get_nparams(o)==(size_t)2*n,"adaptive centres"); }
    if(set){ m=set==1?n:set==2?n+2:set==3?2:14; kernel_approx_opts_set_nparams(o,ad?2*m:m); mc_step(); mc_expect("kopts-set",kernel_approx_opts_get_nparams(o)==(size_t)(ad?2*m:m),"%zu",kernel_approx_opts_get_nparams(o)); for(int i=0;i<m&&m<=9;i++) C[i]=lo+(hi-lo)*i/(m-1); }
    double ctr[16]; for(int i=0;i<m;i++) ctr[i]=set?lo+(hi-lo)*i/(m-1):C[i];
    struct KernelExpansion*z=kernel_expansion_zero(o,0); mc_step(); mc_expect("kopts-zero-n",kernel_expansion_get_nkernels(z)==(size_t)m&&kernel_expansion_get_num_params(z)==(size_t)(ad?2*m:m),"%zu kernels",kernel_expansion_get_nkernels(z)); for(int i=0;i<9;i++) mc_cmp("kopts-zero",kernel_expansion_eval(z,lo+i*(hi-lo)/8),0,0);
    /* one coefficient at a time shows every centre */
    uint64_t h=mc_hu(mc_h0(),m*8+ad); for(int k=0;k<m;k++){ double p[32]={0}; p[k]=2; memcpy(p+m,ctr,m*sizeof(double)); if(ad) p[m+k]+=0.0625; struct KernelExpansion*e=kernel_expansion_create_with_params(o,ad?2*m:m,p); mc_step(); for(int i=0;i<7;i++){ double x=lo+i*(hi-lo)/6,u=(x-ctr[k]-(ad?0.0625:0))/w,v=2.5*exp(-u*u); mc_cmp("kopts-centre",kernel_expansion_eval(e,x),v,1e-13); h=mc_hd(h,v); } kernel_expansion_free(e); } mc_state(h);
    if(!ad&&m>=5&&m<=9&&(set||!lim)){ for(int t=0;t<3;t++){ double a=t==0?0:t==1?0.75:-2,b=t==0?1.5:t==1?0.25:-0.5; struct KernelExpansion*e=t==0?kernel_expansion_constant(b,o):kernel_expansion_linear(a,b,o); mc_step(); for(int i=2;i<=10;i++){ double x=lo+i*(hi-lo)/12; mc_cmp("kopts-lin",kernel_expansion_eval(e,x),a*x+b,0.6*(fabs(a)+fabs(b))); } kernel_expansion_free(e); } }
    kernel_expansion_free(z); kernel_approx_opts_free(o);
}
/* large grids: more nodes than any fixed-size buffer */
static void d_big(void)
{
    static const int NB[]={4999,5000,5001,9990,9999,10000,12000}; int cls=mc_choose(2,"class"), a=mc_choose(7,"n1"), b=mc_choose(8,"n2"); mc_shard(); int n[2]={NB[a],b==7?3:NB[b]}; double*x[2],*c[2]; GF*g[2]; double lb=-1,ub=2;
    for(int k=0;k<2;k++){ x[k]=malloc(8*n[k]); c[k]=malloc(8*n[k]); for(int i=0;i<n[k];i++){ double t=(double)i/(n[k]-1); x[k][i]=i==0?lb:i==n[k]-1?ub:lb+(ub-lb)*(t+0.1*(k+1)*t*(1-t)); c[k][i]=sin(3*x[k][i]+k)+0.1*((i*7)%11); }
        void*o=cls==ULIN?(void*)lin_elem_exp_aopts_alloc(n[k],x[k]):(void*)const_elem_exp_aopts_alloc(n[k],x[k]); g[k]=generic_function_create_with_params(UFC[cls],o,n[k],c[k]); uopts_free(cls,o); }
    mc_note("%s %d and %d nodes",UNAME[cls],n[0],n[1]); mc_step();
    for(int k=0;k<2;k++){ mc_expect("big-n",(cls==ULIN?lin_elem_exp_get_num_nodes(g[k]->f):const_elem_exp_get_num_nodes(g[k]->f))==(size_t)n[k],"number of nodes"); double w=0; for(int i=0;i+1<n[k];i++) w+=(x[k][i+1]-x[k][i])*0.5*(c[k][i]+c[k][i+1]); mc_cmp("big-integral",generic_function_integrate(g[k]),w,1e-10);
        for(int i=0;i<n[k];i+=97) mc_cmp("big-eval",generic_function_1d_eval(g[k],x[k][i]),c[k][i],1e-9); }
    if(cls==ULIN){ int i=0,j=0; double px=0,pv=0,w=0; int first=1; double sum0[64]; int ns=0; while(i<n[0]||j<n[1]){ double t,fv,gv; if(j>=n[1]||(i<n[0]&&x[0][i]<=x[1][j])) t=x[0][i]; else t=x[1][j]; 
            if(i<n[0]&&x[0][i]==t){ fv=c[0][i]; } else { double u=(t-x[0][i-1])/(x[0][i]-x[0][i-1]); fv=c[0][i-1]*(1-u)+c[0][i]*u; } if(j<n[1]&&x[1][j]==t){ gv=c[1][j]; } else { double u=(t-x[1][j-1])/(x[1][j]-x[1][j-1]); gv=c[1][j-1]*(1-u)+c[1][j]*u; }
            if(i<n[0]&&x[0][i]==t) i++; if(j<n[1]&&x[1][j]==t) j++; if(!first) w+=(t-px)*0.5*(pv+fv*gv); first=0; px=t; pv=fv*gv; }
        mc_cmp("big-inner",generic_function_inner(g[0],g[1]),w,1e-8); mc_cmp("big-inner-sym",generic_function_inner(g[1],g[0]),w,1e-8); (void)sum0; (void)ns;
        GF*s=generic_function_daxpby(2,g[0],-1,g[1]); mc_steps(3); for(int k=0;k<200;k++){ double t=lb+(ub-lb)*k/199.0; mc_cmp("big-sum",generic_function_1d_eval(s,t),2*generic_function_1d_eval(g[0],t)-generic_function_1d_eval(g[1],t),1e-8); } free_(s); }
    mc_state(mc_hu(mc_hu(mc_hu(mc_h0(),cls),a),b)); for(int k=0;k<2;k++){ free(x[k]); free(c[k]); free_(g[k]); }
}
/* calculus is homogeneous: coefficients times 2^e and domain times 2^k scale every result by a known power of two */
static void d_scaled(void)
{
    static const int EX[6]={-60,-30,-17,0,24,60},KX[5]={-20,-10,0,10,30}; int cls=mc_choose(UNCLS,"class"),g0=mc_choose(40,"grid"),k=KX[mc_choose(5,"domain exponent")]; mc_shard(); int e=EX[mc_choose(6,"exponent")],pat=mc_choose(2,"coef"),eg=EX[mc_choose(6,"exponent g")];
    if(cls==UHERM&&k) mc_skip(); if(cls>=UKER&&g0>5) mc_skip(); if(cls==UKER&&g0) mc_skip(); if(cls>=ULEG&&(e<0||eg<0)) mc_skip(); if(!k&&!e&&!eg) mc_skip();
    RF f,g,F,G; if(cls<UKER) biggrid(&f,cls,g0); else ugrid(&f,cls,1,g0); if(cls<UKER) biggrid(&g,cls,(g0*7+3)%32); else ugrid(&g,cls,1,(g0+2)%5); if(cls<UKER&&(g.lb!=f.lb||g.ub!=f.ub||g0%3==0)) g=f; ucoef(&f,pat); ucoef(&g,2); F=f; G=g; upow2(&F,e,k); upow2(&G,eg,k);
    note("f",&f); mc_note("2^%d g 2^%d domain 2^%d",e,eg,k); GF*x=ubuild(&F),*y=ubuild(&G); mc_step(); double sf=uscl(&f),sg=uscl(&g),L=1+f.ub-f.lb; int kk=cls==UHERM?0:k; uint64_t h=mc_hu(mc_hu(mc_h0(),cls*100+g0),e+eg*100+k*10000);
    #define SC(site,v,z,w,t) mc_cmp(site,ldexp(v,-(z)),w,t)
    double P[3*UMAX],Q[3*UMAX]; int np=0; for(int i=0;i<UNP;i++) P[np++]=umap(UPT[i],f.lb,f.ub); if(cls<UKER) for(int i=0;i<f.n;i++){ P[np++]=f.x[i]; if(i+1<f.n) P[np++]=f.x[i]+0.27*(f.x[i+1]-f.x[i]); }
    for(int i=0;i<np;i++){ Q[i]=ldexp(P[i],k); SC("scaled-eval",generic_function_1d_eval(x,Q[i]),e,ueval(&f,P[i]),1e-11*sf); } double O[3*UMAX]; generic_function_1d_evalN(x,np,Q,1,O,1); for(int i=0;i<np;i++) SC("scaled-evalN",O[i],e,ueval(&f,P[i]),1e-11*sf);
    SC("scaled-integrate",generic_function_integrate(x),e+kk,uint_(&f),1e-11*sf*L); double w=uinner(&f,&g); SC("scaled-inner",generic_function_inner(x,y),e+eg+kk,w,1e-11*sf*sg*L); SC("scaled-inner",generic_function_inner(y,x),e+eg+kk,w,1e-11*sf*sg*L);
    { double n=generic_function_norm(x); SC("scaled-norm",n*n,2*e+kk,uinner(&f,&f),1e-10*sf*sf*L); int m=e>eg?e:eg; RF df; uaxpby(ldexp(1,e-m),&f,-ldexp(1,eg-m),&g,&df); n=generic_function_norm2diff(x,y); SC("scaled-norm2diff",n*n,2*m+kk,uinner(&df,&df),1e-10*(sf*sf+sg*sg)*L); n=generic_function_array_norm(1,1,&x); SC("scaled-array_norm",n*n,2*e+kk,uinner(&f,&f),1e-10*sf*sf*L); GF*a[2]={x,y},*b[2]={y,x}; SC("scaled-inner_sum",generic_function_inner_sum(2,1,a,1,b),e+eg+kk,2*w,2e-11*sf*sg*L); double*IA=generic_function_integral_array(1,1,a); SC("scaled-integral_array",IA[0],e+kk,uint_(&f),1e-11*sf*L); free(IA); }
    mc_steps(8);
    if(cls<UKER){ double am=0,mx=-1e9,mn=1e9,xm; for(int i=0;i<f.n;i++){ am=fmax(am,fabs(f.c[i])); mx=fmax(mx,f.c[i]); mn=fmin(mn,f.c[i]); } xm=1e9; SC("scaled-absmax",generic_function_absmax(x,&xm,NULL),e,am,0); mc_cmp("scaled-absmax-loc",fabs(ueval(&f,ldexp(xm,-k))),am,1e-11*sf); xm=1e9; SC("scaled-max",cls==ULIN?lin_elem_exp_max(x->f,&xm):const_elem_exp_max(x->f,&xm),e,mx,0); mc_cmp("scaled-max-loc",ueval(&f,ldexp(xm,-k)),mx,1e-11*sf); xm=1e9; SC("scaled-min",cls==ULIN?lin_elem_exp_min(x->f,&xm):const_elem_exp_min(x->f,&xm),e,mn,0); mc_cmp("scaled-min-loc",ueval(&f,ldexp(xm,-k)),mn,1e-11*sf);
        struct c3Vector*v=c3vector_alloc(6,Q+2); double wm=0; for(int i=0;i<6;i++) wm=fmax(wm,fabs(ueval(&f,P[2+i]))); xm=1e9; SC("scaled-absmax-opt",generic_function_absmax(x,&xm,v),e,wm,1e-11*sf); mc_cmp("scaled-absmax-opt-loc",fabs(ueval(&f,ldexp(xm,-k))),wm,1e-11*sf); c3vector_free(v);
        size_t ix=99; xm=1e9; double ag=0; for(int i=0;i<g.n;i++) ag=fmax(ag,fabs(g.c[i])); GF*a[2]={x,y}; double W=fmax(ldexp(am,e),ldexp(ag,eg)); mc_cmp("scaled-array_absmax",generic_function_array_absmax(2,1,a,&ix,&xm,NULL)/W,1,0); mc_expect("scaled-array_absmax",ix<2&&(ldexp(am,e)==ldexp(ag,eg)||(int)ix==(ldexp(ag,eg)>ldexp(am,e))),"function %zu",ix);
        double nx[5]={F.lb,ldexp(P[3],k),ldexp(P[7],k),ldexp(P[15],k),F.ub}; RF r=f; r.n=5; for(int i=0;i<5;i++){ r.x[i]=ldexp(nx[i],-k); r.c[i]=ueval(&f,r.x[i]); } GF*z=generic_function_create_nodal(x,5,nx); uchecks("scaled-create_nodal",z,&r,e,k); free_(z); mc_steps(5); }
    if(cls==ULIN){ GF*d1=generic_function_deriv(x),*d2=generic_function_dderiv(x); mc_steps(2); double r[UMAX],r2[UMAX],hm=1e9; for(int i=0;i+1<f.n;i++) hm=fmin(hm,f.x[i+1]-f.x[i]); fd_lin(&f,r); RF R=f; memcpy(R.c,r,sizeof r); fd_lin(&R,r2); for(int i=0;i<f.n;i++){ SC("scaled-deriv",generic_function_1d_eval(d1,F.x[i]),e-k,r[i],1e-11*sf/hm*4); SC("scaled-dderiv",generic_function_1d_eval(d2,F.x[i]),e-2*k,r2[i],1e-10*sf/hm/hm*16); h=mc_hd(h,r[i]); }
        for(int i=0;i+1<f.n;i++){ double q=f.x[i]+0.27*(f.x[i+1]-f.x[i]),sl=(f.c[i+1]-f.c[i])/(f.x[i+1]-f.x[i]); SC("scaled-deriv_eval",generic_function_deriv_eval(x,ldexp(q,k)),e-k,sl,1e-10*(1+fabs(sl))); if(i){ double cd=(f.c[i+1]-f.c[i-1])/(f.x[i+1]-f.x[i-1]); SC("scaled-deriv_eval-node",generic_function_deriv_eval(x,F.x[i]),e-k,cd,1e-10*(1+fabs(cd))); } } free_(d1); free_(d2); }
    if(cls==UCONST){ GF*dq=generic_function_deriv(x); for(int i=0;i<f.n;i++){ int j=i<f.n-1?i:i-1; double q=(f.c[j+1]-f.c[j])/(f.x[j+1]-f.x[j]); SC("scaled-deriv-const",generic_function_1d_eval(dq,F.x[i]),e-k,q,1e-10*(1+fabs(q))); } free_(dq); mc_step(); }
    if(cls==UKER) for(int q=0;q<UNP;q++){ double t=P[q],v=0; for(int i=0;i<f.n;i++){ double z=(t-f.x[i])/f.w; v+=1.5*f.c[i]*exp(-z*z)*-2*z/f.w; } SC("scaled-kernel-deriv",generic_function_deriv_eval(x,Q[q]),e-k,v,1e-10*sf); }
    if(cls==ULEG||cls==UCHEB){ GF*d1=generic_function_deriv(x); mc_step(); for(int i=0;i<UNP;i++){ double v=legd(&f,P[i],1); SC("scaled-poly-deriv_eval",generic_function_deriv_eval(x,Q[i]),e-k,v,1e-9*sf*150); if(e-k>=0) SC("scaled-poly-deriv",generic_function_1d_eval(d1,Q[i]),e-k,v,1e-9*sf*150); } free_(d1); }
    #undef SC
    uchecks("scaled-input",x,&f,e,k); uchecks("scaled-input",y,&g,eg,k); mc_state(mc_hd(h,w)); free_(x); free_(y);
}
/* piecewise polynomials: calculus of every tree and of every pair of trees */
static double pw_d(const RF*f,double x,int o) /* derivatives of a Legendre piece, by exact monomial arithmetic */
{ double q[8]={0},P[8][8]={{0}},t=(2*x-f->lb-f->ub)/(f->ub-f->lb),s=2/(f->ub-f->lb),v=0; P[0][0]=1; P[1][1]=1; for(int n=1;n<6;n++) for(int i=0;i<7;i++) P[n+1][i]=((i?(2*n+1)*P[n][i-1]:0)-n*P[n-1][i])/(n+1); for(int n=0;n<f->n;n++) for(int i=0;i<8;i++) q[i]+=f->c[n]*sqrt(2*n+1)*P[n][i];
  for(int i=7;i>=o;i--){ double m=q[i]; for(int k=0;k<o;k++) m*=(i-k)*s; v=v*t+m; } return v; }
static double pw_ip(const PW*a,const PW*b){ if(!ginit){ gauss_legendre(40,GX,GW); ginit=1; } double e[2*PWL+2],w=0; int n=0; e[n++]=a->lb; for(int i=0;i<a->nl;i++) e[n++]=a->leaf[i].ub; for(int i=0;b&&i<b->nl;i++) e[n++]=b->leaf[i].ub; for(int i=1;i<n;i++) for(int j=i;j>0&&e[j]<e[j-1];j--){ double t=e[j]; e[j]=e[j-1]; e[j-1]=t; }
  for(int i=0;i+1<n;i++) for(int k=0;k<40;k++){ double h=e[i+1]-e[i],x=e[i]+h*(GX[k]+1)/2; w+=h*GW[k]*pw_val(a,x)*(b?pw_val(b,x):1); } return w; }
static void d_pw(void)
{
    int s1=mc_choose(PWS,"tree1"),s2=mc_choose(PWS,"tree2"),c1=mc_choose(3,"cut1"); mc_shard(); int c2=mc_choose(3,"cut2"),d=mc_choose(2,"domain"),pa=mc_choose(5,"coeffs1"),pb=mc_choose(5,"coeffs2"); if(s1==0&&c1) mc_skip(); if(s2==0&&c2) mc_skip();
    PW A,B; GF*x=pw_make(&A,s1,1,d,pa,c1),*y=pw_make(&B,s2,2,d,pb,c2); struct PiecewisePoly*p=x->f; mc_note("trees %d/%d cuts %d/%d coeffs %d/%d domain %d",s1,s2,c1,c2,pa,pb,d); double sa=pw_scl(&A),sb2=pw_scl(&B),L=A.ub-A.lb,t=1e-13*sa*sb2*L;
    double ip=pw_ip(&A,&B); mc_cmp("pw-inner",generic_function_inner(x,y),ip,t); mc_cmp("pw-inner",generic_function_inner(y,x),ip,t); mc_steps(2);
    { GF*f[2]={x,y},*g[2]={y,y}; mc_cmp("pw-inner_sum",generic_function_inner_sum(2,1,f,1,g),ip+pw_ip(&B,&B),t+1e-13*sb2*sb2*L); mc_step(); }
    if(s2==0&&pb==0){ double aa=pw_ip(&A,&A),in=pw_ip(&A,NULL); mc_cmp("pw-norm",pow(generic_function_norm(x),2),aa,1e-13*sa*sa*L); mc_cmp("pw-integral",generic_function_integrate(x),in,1e-13*sa*L); mc_steps(2);
        mc_expect("pw-regions",(int)piecewise_poly_nregions(p)==A.nl,"number of pieces"); size_t nb=0; double*bd=NULL; piecewise_poly_boundaries(p,&nb,&bd,NULL); mc_expect("pw-boundaries",(int)nb==A.nl+1,"number of boundaries"); mc_cmp("pw-boundary",bd[0],A.lb,0); for(int i=0;i<A.nl;i++) mc_cmp("pw-boundary",bd[i+1],A.leaf[i].ub,0); free(bd);
        mc_cmp("pw-lb",generic_function_get_lb(x),A.lb,0); mc_cmp("pw-ub",generic_function_get_ub(x),A.ub,0); int flat=1; for(size_t i=0;!p->leaf&&i<p->nbranches;i++) flat&=p->branches[i]->leaf; mc_expect("pw-isflat",piecewise_poly_isflat(p)==flat,"flat");
        double z[PWP],v[2*PWP],zz[2*PWP]; int n=pw_pts(&A,NULL,z); for(int i=0;i<n;i++){ zz[2*i]=z[i]; zz[2*i+1]=1e300; v[2*i]=v[2*i+1]=7; } generic_function_1d_evalN(x,n,zz,2,v,2); for(int i=0;i<n;i++){ mc_cmp("pw-evalN",v[2*i],pw_val(&A,z[i]),1e-13*sa); mc_cmp("pw-evalN-gap",v[2*i+1],7,0); }
        GF*dx=generic_function_deriv(x),*ddx=generic_function_dderiv(x); mc_steps(3); double h=L; for(int i=0;i<A.nl;i++) h=fmin(h,A.leaf[i].ub-A.leaf[i].lb); for(int i=0;i<n;i++){ const RF*l=pw_leaf(&A,z[i]); mc_cmp("pw-deriv",generic_function_1d_eval(dx,z[i]),pw_d(l,z[i],1),1e-12*sa*20/h); mc_cmp("pw-dderiv",generic_function_1d_eval(ddx,z[i]),pw_d(l,z[i],2),1e-12*sa*200/(h*h)); mc_cmp("pw-deriv_eval",generic_function_deriv_eval(x,z[i]),pw_d(l,z[i],1),1e-12*sa*20/h); }
        double mx=-1e300,mn=1e300; for(int i=0;i<A.nl;i++){ const RF*l=&A.leaf[i]; for(int k=0;k<=400;k++){ double u=l->lb+(l->ub-l->lb)*k/400,w=ueval(l,u); if(w>mx) mx=w; if(w<mn) mn=w; } } double loc,am=fmax(fabs(mx),fabs(mn)),g; 
        g=piecewise_poly_absmax(p,&loc,NULL); mc_expect("pw-absmax",g>=am-1e-10*sa&&g<=am*(1+1e-3)+1e-4*sa,"absolute maximum %g, grid search %g",g,am); { double w=-1; for(int i=0;i<A.nl;i++) if(loc>=A.leaf[i].lb-1e-12&&loc<=A.leaf[i].ub+1e-12) w=fmin(w<0?1e300:w,fabs(fabs(ueval(&A.leaf[i],loc))-g)); mc_expect("pw-absmax-at",w>=0&&w<1e-9*sa,"value at the reported maximiser"); }
        g=piecewise_poly_max(p,&loc); mc_expect("pw-max",g>=mx-1e-10*sa&&g<=mx+1e-3*fabs(mx)+1e-4*sa,"maximum %g, grid search %g",g,mx); g=piecewise_poly_min(p,&loc); mc_expect("pw-min",g<=mn+1e-10*sa&&g>=mn-1e-3*fabs(mn)-1e-4*sa,"minimum %g, grid search %g",g,mn); mc_steps(3);
        if(pa<3){ size_t nk=0; double*r=piecewise_poly_real_roots(p,&nk); mc_step(); for(int i=0;i<A.nl;i++){ const RF*l=&A.leaf[i]; double H=l->ub-l->lb; for(int k=0;k<97;k++){ double u=l->lb+H*(k+0.01)/97.02,w=l->lb+H*(k+1.01)/97.02,fu=ueval(l,u),fw=ueval(l,w); if(fu*fw<0&&fabs(fu)>1e-9*sa&&fabs(fw)>1e-9*sa){ int ok=0; for(size_t q=0;q<nk;q++) ok|=r[q]>=u-1e-9&&r[q]<=w+1e-9; mc_expect("pw-root-missing",ok,"no root between %g and %g",u,w); } } }
            for(size_t q=0;q<nk;q++){ int ok=0; for(int i=0;i<A.nl;i++) ok|=r[q]>=A.leaf[i].lb-1e-8&&r[q]<=A.leaf[i].ub+1e-8&&fabs(ueval(&A.leaf[i],r[q]))<1e-7*sa; mc_expect("pw-root",ok,"%g is no root",r[q]); } free(r); }
        GF*c=generic_function_copy(x); piecewise_poly_flatten(c->f); mc_step(); mc_expect("pw-flatten",piecewise_poly_isflat(c->f)&&(int)piecewise_poly_nregions(c->f)==A.nl,"flattened"); pw_same("pw-flatten-value",c,&A,1e-13*sa); free_(c);
        if(s1==0){ double bb[4]={A.lb,A.lb+0.21*L,A.lb+0.6*L,A.ub}; c=generic_function_copy(x); piecewise_poly_splitn(c->f,4,bb); mc_step(); mc_expect("pw-split",piecewise_poly_nregions(c->f)==3,"pieces"); pw_same("pw-split-value",c,&A,1e-12*sa); free_(c); }
        free_(dx); free_(ddx); }
    pw_same("pw-x",x,&A,1e-13*sa); pw_same("pw-y",y,&B,1e-13*sb2); mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),s1*64+s2),c1*8+c2),ip)); free_(x); free_(y);
}
/* approximation by piecewise polynomials reproduces a function of the space: every partition, given or regular, every order */
static PW*pwt; static int pwe(size_t n,const double*x,double*y,void*a){ (void)a; for(size_t i=0;i<n;i++){ if(!(x[i]>=pwt->lb&&x[i]<=pwt->ub)) mc_fail("pw-domain","evaluated at %g",x[i]); y[i]=pw_val(pwt,x[i]); } return 0; }
static void d_pwapprox(void)
{
    int nr=1+mc_choose(4,"pieces"),given=mc_choose(3,"boundaries"),ord=mc_choose(6,"order"); mc_shard(); int d=mc_choose(3,"domain"),pat=mc_choose(5,"coeffs"),adapt=mc_choose(2,"adaptive"),salt=mc_choose(4,"degrees"); if(nr==1&&given) mc_skip(); if(adapt&&given) mc_skip();
    PW A; memset(&A,0,sizeof A); A.lb=UDOM[d][0]; A.ub=UDOM[d][1]; double L=A.ub-A.lb,b[6]; for(int i=0;i<=nr;i++){ double t=(double)i/nr; b[i]=i==0?A.lb:i==nr?A.ub:A.lb+L*(given==2?t*t:given?t+0.3*t*(1-t):t); } static const double*T[3]={UG1,UG2,UG3};
    for(int i=0;i<nr;i++){ RF*f=&A.leaf[A.nl++]; f->cls=ULEG; f->lb=b[i]; f->ub=b[i+1]; f->n=1+(ord<(i+salt)%4+salt?ord:(i+salt)%4+salt); for(int k=0;k<f->n;k++) f->c[k]=pat==3?0:pat==4?(k==0):T[pat][(i+k)%8]/(1+k); } if(adapt){ A.leaf[0].ub=A.ub; A.nl=1; A.leaf[0].lb=A.lb; }
    struct PwPolyOpts*o=pw_poly_opts_alloc(LEGENDRE,A.lb,A.ub); pw_poly_opts_set_maxorder(o,ord); pw_poly_opts_set_nregions(o,nr); if(given) pw_poly_opts_set_pts(o,nr+1,b); if(adapt){ pw_poly_opts_set_minsize(o,L/20); pw_poly_opts_set_tol(o,1e-12); pw_poly_opts_set_coeffs_check(o,2); }
    pwt=&A; struct Fwrap*fw=fwrap_create(1,"general-vec"); fwrap_set_fvec(fw,pwe,NULL); GF*g=generic_function_alloc(1,PIECEWISE); g->f=adapt?piecewise_poly_approx1_adapt(o,fw):piecewise_poly_approx1(o,fw); mc_step(); mc_note("%d pieces, boundaries %d, order %d, adaptive %d",nr,given,ord,adapt);
    pw_same("pw-approx",g,&A,1e-12*pw_scl(&A)); if(!adapt) mc_expect("pw-approx-pieces",(int)piecewise_poly_nregions(g->f)==nr,"pieces"); mc_cmp("pw-approx-lb",generic_function_get_lb(g),A.lb,0); mc_cmp("pw-approx-ub",generic_function_get_ub(g),A.ub,0); mc_expect("pw-opts",pw_poly_opts_get_lb(o)==A.lb&&pw_poly_opts_get_ub(o)==A.ub&&pw_poly_opts_get_ptype(o)==LEGENDRE,"options changed");
    for(int k=0;k<3;k++){ double al=1.5,of=-0.3; GF*c=k==0?generic_function_constant(al,PIECEWISE,o):k==1?generic_function_linear(al,of,PIECEWISE,o):generic_function_quadratic(al,of,PIECEWISE,o); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],A.lb,A.ub); mc_cmp("pw-simple",generic_function_1d_eval(c,x),k==0?al:k==1?al*x+of:al*(x-of)*(x-of),1e-12*(1+L)*(1+L)*10); } free_(c); mc_step(); }
    mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),nr*8+ord),given*2+adapt),generic_function_1d_eval(g,A.lb+0.3*L))); free_(g); fwrap_destroy(fw); pw_poly_opts_free(o);
}
/* zeros and extrema of polynomial expansions: generic coefficients, or polynomials with prescribed zeros (ends and common values included) */
static void d_roots(void)
{
    int cls=mc_choose(2,"class")?UCHEB:ULEG,n=1+mc_choose(8,"coefficients"),kind=mc_choose(9,"kind"); mc_shard(); int d=mc_choose(3,"domain"),e=mc_choose(3,"scale"),pad=mc_choose(3,"zero leading coefficients"); RF f; memset(&f,0,sizeof f); f.cls=cls; f.lb=UDOM[d][0]; f.ub=UDOM[d][1]; f.n=n; static const double*T[3]={UG1,UG2,UG3}; double q[9]={0},z[8]; int nz=0;
    if(kind<3) for(int i=0;i<n;i++) f.c[i]=T[kind][i];
    else if(kind==3) for(int i=0;i<n;i++) f.c[i]=0; else if(kind==4) for(int i=0;i<n;i++) f.c[i]=i==n-1;
    else { /* zeros in reference coordinates, then monomials to the basis by repeated division */
        static const double Z[4][7]={{0.3,-0.8,0.05,0.9,-0.4,0.62,-0.11},{-1,1,0,0.5,-0.5,0.25,0.75},{1.5,0.2,-2,-0.6,3,0.7,-1.25},{0.9,0.95,-0.9,-0.95,0.1,-0.1,2}}; q[0]=1; for(int k=0;k<n-1;k++){ double r=Z[kind-5][k]; for(int i=k+1;i>=0;i--) q[i]=(i?q[i-1]:0)-r*q[i]; if(r>=-1&&r<=1) z[nz++]=r; }
        double P[9][9]={{0}}; P[0][0]=1; P[1][1]=1; for(int m=1;m<8;m++) for(int i=0;i<9;i++) P[m+1][i]=cls==UCHEB?(i?2*P[m][i-1]:0)-P[m-1][i]:((i?(2*m+1)*P[m][i-1]:0)-m*P[m-1][i])/(m+1);
        for(int m=n-1;m>=0;m--){ double t=q[m]/P[m][m]; for(int i=0;i<=m;i++) q[i]-=t*P[m][i]; f.c[m]=cls==UCHEB?t:t/sqrt(2*m+1); } }
    double sc=(double[]){1,64,1.0/64}[e]; for(int i=0;i<n;i++) f.c[i]*=sc; int N=n+pad; struct OrthPolyExpansion*o=orth_poly_expansion_init(cls==UCHEB?CHEBYSHEV:LEGENDRE,N,f.lb,f.ub); for(int i=0;i<N;i++) o->coeff[i]=i<n?f.c[i]:0; note("f",&f); mc_note("kind %d padded %d",kind,pad); double s=0; for(int i=0;i<n;i++) s+=fabs(f.c[i])*(1+i); double H=f.ub-f.lb,L=H;
    size_t nk=0; double*r=orth_poly_expansion_real_roots(o,&nk); mc_step(); if(kind!=3){ for(int k=0;k<97;k++){ double u=f.lb+H*(k+0.01)/97.02,w=f.lb+H*(k+1.01)/97.02,fu=ueval(&f,u),fw=ueval(&f,w); if(fu*fw<0&&fabs(fu)>1e-9*s&&fabs(fw)>1e-9*s){ int ok=0; for(size_t i=0;i<nk;i++) ok|=r[i]>=u-1e-9&&r[i]<=w+1e-9; mc_expect("root-missing",ok,"no zero between %g and %g",u,w); } }
        for(int k=0;k<nz;k++){ double x=umap(z[k],f.lb,f.ub),b=1e300; for(size_t i=0;i<nk;i++) b=fmin(b,fabs(r[i]-x)); mc_expect("root-known",b<1e-7*L,"zero %g not reported",x); } if(kind>=5) mc_expect("root-count",(int)nk==nz,"%zu zeros reported, %d exist",nk,nz);
        for(size_t i=0;i<nk;i++){ mc_expect("root-inside",r[i]>=f.lb&&r[i]<=f.ub,"zero %.17g outside the domain",r[i]); mc_cmp("root-value",ueval(&f,r[i]),0,1e-9*s); if(i) mc_expect("root-order",r[i]>=r[i-1],"order"); } } else mc_expect("root-none",nk==0,"zeros of the zero function"); free(r);
    double mx=-1e300,mn=1e300; for(int k=0;k<=2000;k++){ double w=ueval(&f,f.lb+H*k/2000); if(w>mx) mx=w; if(w<mn) mn=w; } double loc,g=orth_poly_expansion_max(o,&loc); mc_expect("poly-max",g>=mx-1e-10*s&&g<=mx+2e-4*s+1e-13&&loc>=f.lb&&loc<=f.ub,"maximum %g, grid search %g",g,mx); mc_cmp("poly-max-at",ueval(&f,loc),g,1e-12*s+1e-15);
    g=orth_poly_expansion_min(o,&loc); mc_expect("poly-min",g<=mn+1e-10*s&&g>=mn-2e-4*s-1e-13&&loc>=f.lb&&loc<=f.ub,"minimum %g, grid search %g",g,mn); mc_cmp("poly-min-at",ueval(&f,loc),g,1e-12*s+1e-15); double am=fmax(fabs(mx),fabs(mn)); g=orth_poly_expansion_absmax(o,&loc,NULL); mc_expect("poly-absmax",g>=am-1e-10*s&&g<=am+2e-4*s+1e-13,"absolute maximum %g, grid search %g",g,am); mc_cmp("poly-absmax-at",fabs(ueval(&f,loc)),g,1e-12*s+1e-15); mc_steps(3);
    struct StandardPoly*sp=orth_poly_expansion_to_standard_poly(o); for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub),v=0,a=0; for(int k=(int)sp->num_poly-1;k>=0;k--){ v=v*x+sp->coeff[k]; a=a*fabs(x)+fabs(sp->coeff[k]); } mc_cmp("monomials",v,ueval(&f,x),1e-13*(a+s)); } mc_step(); standard_poly_free(sp);
    for(int i=0;i<UNP;i++){ double x=umap(UPT[i],f.lb,f.ub); mc_cmp("roots-input",orth_poly_expansion_eval(o,x),ueval(&f,x),1e-13*s); } mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),cls*16+n),kind*9+d*3+e),nk+f.c[n-1])); orth_poly_expansion_free(o);
}
/* Fourier expansions: derivatives, integral, and approximation of band-limited functions */
static FO*fot; static int foe(size_t n,const double*x,double*y,void*a){ (void)a; for(size_t i=0;i<n;i++){ if(!(x[i]>=fot->lb-1e-12&&x[i]<=fot->ub+1e-12)) mc_fail("fourier-domain","evaluated at %g",x[i]); y[i]=fo_val(fot,x[i],0); } return 0; }
static void d_fourier(void)
{
    int n=1+mc_choose(FOUN,"n"),d=mc_choose(3,"domain"),pat=mc_choose(5,"coeffs"); mc_shard(); int which=mc_choose(4,"what"); FO A; GF*x=fo_make(&A,n,d,pat); double e=1e-13*fo_scl(&A),w=2*M_PI/(A.ub-A.lb); mc_note("length %d domain %d coeffs %d what %d",n,d,pat,which);
    if(which<2){ GF*dx=which?generic_function_dderiv(x):generic_function_deriv(x); mc_step(); for(int i=0;i<UNP;i++){ double t=umap(UPT[i],A.lb,A.ub); mc_cmp(which?"fourier-dderiv":"fourier-deriv",generic_function_1d_eval(dx,t),fo_val(&A,t,1+which),e*(1+pow(n*w,1+which))*4); if(!which) mc_cmp("fourier-deriv_eval",generic_function_deriv_eval(x,t),fo_val(&A,t,1),e*(1+n*w)*4); } free_(dx); }
    else if(which==2){ mc_cmp("fourier-integral",generic_function_integrate(x),A.re[0]*(A.ub-A.lb),e*(A.ub-A.lb)); mc_step(); }
    else for(int N=2;N<=32;N*=2) if(N+1>n+1){ struct OpeOpts*o=ope_opts_alloc(FOURIER); ope_opts_set_lb(o,A.lb); ope_opts_set_ub(o,A.ub); ope_opts_set_start(o,N+1); struct OrthPolyExpansion*p=orth_poly_expansion_init_from_opts(o,N+1); struct Fwrap*fw=fwrap_create(1,"general-vec"); fwrap_set_fvec(fw,foe,NULL); fot=&A; mc_expect("fourier-approx-rc",orth_poly_expansion_approx_vec(p,fw,o)==0,"approximation fails"); mc_step(); for(int i=0;i<UNP;i++){ double t=umap(UPT[i],A.lb,A.ub); mc_cmp("fourier-approx",orth_poly_expansion_eval(p,t),fo_val(&A,t,0),e*20); } orth_poly_expansion_free(p); ope_opts_free(o); fwrap_destroy(fw); }
    for(int i=0;i<UNP;i++){ double t=umap(UPT[i],A.lb,A.ub); mc_cmp("fourier-eval",generic_function_1d_eval(x,t),fo_val(&A,t,0),e); } mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),n*8+d),pat*4+which),A.re[n-1])); free_(x);
}
const mc_driver mc_drivers[]={{"fourier",d_fourier,1,3},{"roots",d_roots,1,3},{"pw",d_pw,1,3},{"pwapprox",d_pwapprox,1,3},{"kexp",d_kexp,1,3},{"kopts",d_kopts,1,3},{"scaled",d_scaled,1,3},{"eval",d_eval,1,3},{"big",d_big,1,3},{"inner",d_inner,1,3},{"deriv",d_deriv,1,3},{"periodic",d_periodic,1,3},{"special",d_special,1,3},{"adaptive_basis",d_adaptive_basis,1,3},{"arrays",d_arrays,1,3},{"approx",d_approx,1,3},{"adapt",d_adapt,1,3},{"opts",d_opts,1,3},{"err",d_err,1,3},{"poly",d_poly,1,3},{"kernelbasis",d_kernelbasis,1,3},{0}};
