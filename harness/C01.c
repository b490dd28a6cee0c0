/* C01: function-train algebra is pointwise algebra. */
#include "ftm.h"
#include "big.h"
const char *mc_property="C01";
#define MS 6
typedef struct { struct FunctionTrain*t; FM m; int deg; } Slot;
static void slot_add(Slot*s,int*n,struct FunctionTrain*t,FM m,int deg){ s[*n].t=t; s[*n].m=m; s[*n].deg=deg; (*n)++; }
static void slot_drop(Slot*s){ function_train_free(s->t); free(s->m.v); s->t=NULL; }
static int prodok(int cs){ return cs!=2; }
static const double SC[3]={-2,0,0.75};

static void prog(int depth,int full)
{
    static const int RPP[4][2]={{1,2},{2,4},{0,3},{5,6}};
    int d=2+mc_choose(full?3:2,"dim"), cs=mc_choose(7,"class"), rp=mc_choose(full?4:2,"ranks"), ds=mc_choose(1,"domain");
    int gs=mc_choose(2,"grid");
    if(full==0&&!mc_thorough&&(cs==5||cs==4||gs==1||(d==3&&cs!=0&&cs!=3))) mc_skip();
    int op0=mc_choose(5,"op0");
    mc_shard();
    RT A,B; rt_make(&A,d,RPP[rp][0],cs,gs,ds,PGEN); rt_make(&B,d,RPP[rp][1],cs,gs,ds,PGEN2);
    Slot s[MS+2]; int n=0; memset(s,0,sizeof s);
    FM fa,fb; fm_frame(&fa,d,cs,ds); free(fa.v); fm_nodes(&fa,&A); fa.v=calloc(fa.n,sizeof(double)); fb=fm_like(&fa); fm_fill(&fa,&A); fm_fill(&fb,&B);
    slot_add(s,&n,rt_build(&A),fa,1); slot_add(s,&n,rt_build(&B),fb,1);
    for(int step=0;step<depth;step++){
        int op=step==0?op0:mc_choose(5,"op");
        int i=mc_choose(n>3?3:n,"i"); if(n>3&&i==2) i=n-1;
        if(op==0||op==1){
            int j=mc_choose(n>3?3:n,"j"); if(n>3&&j==2) j=n-1;
            int dg=op==1?s[i].deg+s[j].deg:s[i].deg>s[j].deg?s[i].deg:s[j].deg; if(op==1&&(!prodok(cs)||dg>3)) mc_skip();
            FM m=fm_like(&s[i].m); for(int q=0;q<m.n;q++) m.v[q]=op==0?s[i].m.v[q]+s[j].m.v[q]:s[i].m.v[q]*s[j].m.v[q];
            struct FunctionTrain*t=op==0?function_train_sum(s[i].t,s[j].t):function_train_product(s[i].t,s[j].t); mc_step();
            mc_note("%s(%d,%d) ",op?"product":"sum",i,j);
            for(int k=1;k<d;k++){ size_t w=op==0?s[i].t->ranks[k]+s[j].t->ranks[k]:s[i].t->ranks[k]*s[j].t->ranks[k]; mc_expect("ranks",function_train_get_rank(t,k)==w,"rank %d is %zu, want %zu",k,t->ranks[k],w); }
            slot_add(s,&n,t,m,dg);
        } else if(op==2){ int a=mc_choose(3,"factor"); function_train_scale(s[i].t,SC[a]); mc_step(); for(int q=0;q<s[i].m.n;q++) s[i].m.v[q]*=SC[a]; mc_note("scale(%d,%g) ",i,SC[a]); }
        else if(op==3){ struct FunctionTrain*t=function_train_copy(s[i].t); mc_step(); FM m=fm_like(&s[i].m); mc_note("copy(%d) ",i); slot_add(s,&n,t,m,s[i].deg); }
        else { int j=mc_choose(n>3?3:n,"j"); if(n>3&&j==2) j=n-1; if(i==j) mc_skip(); int a=mc_choose(2,"factor");
            c3axpy(SC[a],s[i].t,&s[j].t,0.0,NULL); mc_step(); if(s[i].deg>s[j].deg) s[j].deg=s[i].deg; for(int q=0;q<s[j].m.n;q++) s[j].m.v[q]+=SC[a]*s[i].m.v[q]; mc_note("axpy(%g,%d,%d) ",SC[a],i,j); }
    }
    uint64_t h=mc_h0();
    for(int i=0;i<n;i++){ fm_check("value",s[i].t,&s[i].m,1e-11); h=fm_hash(h,s[i].t,&s[i].m);
        size_t mr=0; double av=0; for(int k=0;k<=d;k++){ mr=s[i].t->ranks[k]>mr?s[i].t->ranks[k]:mr; if(k>0&&k<d) av+=s[i].t->ranks[k]; }
        mc_expect("maxrank",function_train_get_maxrank(s[i].t)==mr,"maxrank"); mc_cmp("avgrank",function_train_get_avgrank(s[i].t),av/(d-1),1e-12); }
    mc_state(h);
    /* results are independent of the operands: free them one by one and re-evaluate the rest */
    for(int i=0;i<n;i++){ slot_drop(&s[i]); for(int j=i+1;j<n;j++){ double x[FD]; fm_pt(&s[j].m,s[j].m.n/2,x); mc_cmp("independent",function_train_eval(s[j].t,x),s[j].m.v[s[j].m.n/2],1e-10*(1+fm_max(&s[j].m))); } }
}
static void b_prog2(void){ prog(2,1); }
static void b_prog3(void){ prog(3,0); }
static void b_prog4(void){ prog(4,0); }

/* sums and combinations of linear-element trains on different grids are exact; so are zero and rank-deficient operands */
static void b_grids(void)
{
    int d=2+mc_choose(3,"dim"), cs=mc_choose(4,"class"); if(cs==1) mc_skip(); 
    int ga=mc_choose(4,"grid a"),gb=mc_choose(4,"grid b"); mc_shard();
    int pa=mc_choose(NPAT,"pattern a"),pb=mc_choose(NPAT,"pattern b"),ra=mc_choose(4,"ranks a"),rb=mc_choose(4,"ranks b");
    RT A,B; rt_make(&A,d,2*ra,cs,ga,0,pa); rt_make(&B,d,2*rb+1,cs,gb,0,pb);
    FM f,g; fm_frame(&f,d,cs,0); g=fm_like(&f); fm_fill(&f,&A); fm_fill(&g,&B);
    struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*c=function_train_sum(a,b); mc_step();
    FM s=fm_like(&f); for(int q=0;q<s.n;q++) s.v[q]+=g.v[q];
    fm_check("sum",c,&s,1e-11);
    function_train_scale(c,-3); function_train_scale(c,0.5); mc_steps(2); for(int q=0;q<s.n;q++) s.v[q]*=-1.5; fm_check("scale",c,&s,1e-11);
    c3axpy(2.5,a,&c,0,NULL); mc_step(); for(int q=0;q<s.n;q++) s.v[q]+=2.5*f.v[q]; fm_check("axpy",c,&s,1e-11);
    mc_state(fm_hash(mc_h0(),c,&s));
    fm_check("input a",a,&f,1e-11); fm_check("input b",b,&g,1e-11);
    function_train_free(a);function_train_free(b);function_train_free(c); free(f.v);free(g.v);free(s.v);
}
/* product patterns: zero, deficient, delta operands, all classes */
static void b_prods(void)
{
    int d=2+mc_choose(3,"dim"), cs=mc_choose(7,"class"),gs=mc_choose(3,"grid"); if(!prodok(cs)) mc_skip(); mc_shard();
    int pa=mc_choose(NPAT,"pattern a"),pb=mc_choose(NPAT,"pattern b"),ra=mc_choose(4,"ranks a"),rb=mc_choose(4,"ranks b");
    RT A,B; rt_make(&A,d,2*ra,cs,gs,0,pa); rt_make(&B,d,2*rb+1,cs,gs,0,pb);
    FM f; fm_frame(&f,d,cs,0); free(f.v); fm_nodes(&f,&A); f.v=calloc(f.n,sizeof(double)); FM g=fm_like(&f); fm_fill(&f,&A); fm_fill(&g,&B);
    struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*c=function_train_product(a,b); mc_step();
    for(int q=0;q<f.n;q++) f.v[q]*=g.v[q];
    fm_check("product",c,&f,1e-11); fm_check("input b",b,&g,1e-11); mc_state(fm_hash(mc_h0(),c,&f));
    function_train_free(a);function_train_free(b);function_train_free(c); free(f.v);free(g.v);
}

/* constructors */
static int cb_sin(size_t n,const double*x,double*out,void*arg){ double a=*(double*)arg; for(size_t i=0;i<n;i++) out[i]=a*x[i]+0.5*a*a; return 0; }
static void b_constr(void)
{
    int d=1+mc_choose(5,"dim"),cs=mc_choose(7,"class"),gs=mc_choose(2,"grid"); mc_shard(); int what=mc_choose(9,"constructor");
    int lin=(cs==0||cs==3||cs==4||cs==5),poly=(cs>=3&&cs<=5);
    RO o; ro_make(&o,d,cs,gs,0); if(cs>=3&&cs<6) for(int k=0;k<d;k++){ ope_opts_set_nparams(o.u[k],3); o.f[k].n=3; }
    double x[FD]; struct FunctionTrain*ft=NULL;
    double C[2*FD],Av[3*FD]; for(int i=0;i<2*FD;i++) C[i]=fgen(9,i,0,0); for(int i=0;i<3*FD;i++) Av[i]=fgen(10,i,1,0);
    double M[FD*FD],mm[FD]; for(int i=0;i<FD*FD;i++) M[i]=fgen(11,i,2,0); for(int i=0;i<FD;i++) mm[i]=fgen(12,i,0,1);
    int ldc=1,lda=1; double cv=0; double args[FD]; int nodal=0;
    if(what==0){ static const double V[4]={-2,0,1.5,1e-3}; cv=V[mc_choose(4,"value")]; if(cs==2) mc_skip(); ft=function_train_constant(cv,o.m); }
    else if(what==1||what==2){ if(!lin||(what==2&&!poly)) mc_skip(); ldc=1+mc_choose(2,"ldc"); lda=1+mc_choose(3,"lda"); ft=function_train_linear(C,ldc,Av,lda,o.m);
        if(what==2){ mc_step(); for(int i=0;i<2*FD;i++) C[i]=fgen(19,i,0,0); for(int i=0;i<3*FD;i++) Av[i]=fgen(20,i,1,0); int r=function_train_linear_update(ft,C,ldc,Av,lda); mc_expect("update",r==0,"returned %d",r);} }
    else if(what==3){ if(!lin||d<2) mc_skip(); ft=function_train_rankone_prod(C,o.m); }
    else if(what==4){ if(!poly||d<2) mc_skip(); ft=function_train_quadratic(M,mm,o.m); }
    else if(what==5){ if(!poly) mc_skip(); ft=function_train_quadratic_aligned(M,mm,o.m); }
    else if(what==6){ RT t; rt_ranks(&t,d,mc_choose(4,"ranks")); size_t r[FD+1]; for(int k=0;k<=d;k++) r[k]=t.r[k]; ft=function_train_zeros(o.m,r); for(int k=0;k<=d;k++) mc_expect("zeros-rank",ft->ranks[k]==r[k],"rank"); }
    else { if(!lin&&cs!=1&&cs!=6) mc_skip(); struct Fwrap*fw=fwrap_create(1,"array-vec"); fwrap_set_num_funcs(fw,d); for(int k=0;k<d;k++){ args[k]=fgen(21,k,0,0); fwrap_set_func_array(fw,k,cb_sin,&args[k]); }
        if(cs==0||cs==1||cs==6) nodal=1;
        ft=what==7?function_train_rankone(o.m,fw):function_train_initsum(o.m,fw); fwrap_destroy(fw); }
    mc_step();
    mc_expect("shape",ft&&ft->dim==(size_t)d&&ft->ranks[0]==1&&ft->ranks[d]==1,"bad train");
    for(int e=0;e<(nodal?40:12);e++){
        for(int k=0;k<d;k++) x[k]= e<6?umap(FXP[e][k],o.f[k].cls==UHERM?-1:o.f[k].lb,o.f[k].ub):umap(UPT[(e*5+k*7)%UNP],o.f[k].lb,o.f[k].ub);
        if(nodal) for(int k=0;k<d;k++) if(o.f[k].cls==ULIN||o.f[k].cls==UCONST) x[k]=o.f[k].x[(e+e/3*k+k)%o.f[k].n];
        double w=0;
        if(what==0) w=cv; else if(what==1||what==2) for(int k=0;k<d;k++) w+=C[k*ldc]*x[k]+Av[k*lda];
        else if(what==3){ w=1; for(int k=0;k<d;k++) w*=C[k]*x[k]; }
        else if(what==4){ for(int i=0;i<d;i++) for(int j=0;j<d;j++) w+=M[i*d+j]*(x[i]-mm[i])*(x[j]-mm[j]); }
        else if(what==5){ for(int i=0;i<d;i++) w+=M[i]*(x[i]-mm[i])*(x[i]-mm[i]); }
        else if(what==7){ w=1; for(int k=0;k<d;k++) w*=args[k]*x[k]+0.5*args[k]*args[k]; }
        else if(what==8) for(int k=0;k<d;k++) w+=args[k]*x[k]+0.5*args[k]*args[k];
        char site[64]; snprintf(site,sizeof site,"%s",(const char*[]){"constant","linear","linear_update","rankone_prod","quadratic","quadratic_aligned","zeros","rankone","initsum"}[what]);
        mc_cmp(site,function_train_eval(ft,x),w,1e-10*(1+fabs(w))*(1+(what==4||what==5)*20));
    }
    mc_state(mc_hd(mc_hu(mc_hu(mc_h0(),what),d),function_train_eval(ft,x)));
    struct FunctionTrain*cp=function_train_copy(ft); double v=function_train_eval(ft,x); function_train_free(ft); mc_cmp("copy",function_train_eval(cp,x),v,0); function_train_free(cp); ro_free(&o);
}
/* nodal resampling */
static void b_nodal(void)
{
    int d=2+mc_choose(3,"dim"),cs=mc_choose(2,"class"),rp=mc_choose(8,"ranks"); mc_shard(); int pat=mc_choose(NPAT,"pattern"),ng=mc_choose(3,"new grid");
    RT A; rt_make(&A,d,rp,cs,0,0,pat); struct FunctionTrain*a=rt_build(&A); size_t N[FD]; double*xs[FD],buf[FD][8];
    for(int k=0;k<d;k++){ N[k]=3+(ng+k)%3; for(size_t i=0;i<N[k];i++) buf[k][i]=umap(i==0?-1:i==N[k]-1?1:UPT[i*4+ng+k/2],A.f[k][0].cls==UHERM?-1:A.f[k][0].lb,A.f[k][0].ub); xs[k]=buf[k]; }
    struct FunctionTrain*b=function_train_create_nodal(a,N,xs); mc_step();
    FM m; memset(&m,0,sizeof m); m.d=d; m.n=1; for(int k=0;k<d;k++){ m.cls[k]=cs; m.m[k]=N[k]; memcpy(m.x[k],buf[k],sizeof buf[k]); m.lb[k]=buf[k][0]; m.ub[k]=buf[k][N[k]-1]; m.n*=N[k]; }
    m.v=calloc(m.n,sizeof(double)); fm_fill(&m,&A); fm_check("nodal",b,&m,1e-11); mc_state(fm_hash(mc_h0(),b,&m));
    function_train_free(a);function_train_free(b); free(m.v);
}
/* BLAS-like operations on arrays of trains */
static void fa_fill(struct FT1DArray*a,int n,RT*proto,int base,int d,int cs,FM*ms,const FM*fr)
{
    for(int i=0;i<n;i++){ rt_make(proto,d,(base+i)%4,cs,0,0,i%3==0?PGEN:i%3==1?PGEN2:PGEN3); for(int k=0;k<d;k++) for(int q=0;q<proto->r[k]*proto->r[k+1];q++) uscale(1+0.25*((base+i)%5),&proto->f[k][q]); a->ft[i]=rt_build(proto); ms[i]=fm_like(fr); fm_fill(&ms[i],proto); }
}
static void b_blas(void)
{
    int d=2+mc_choose(2,"dim"),cs=(int[]){0,3,6,1}[mc_choose(4,"class")],op=mc_choose(8,"op"); mc_shard();
    int n=1+mc_choose(3,"n"),m=1+mc_choose(2,"m"),inc=1+mc_choose(2,"inc1"),inc2=1+mc_choose(2,"inc2"),lx=mc_choose(2,"ld"),be=mc_choose(3,"beta"),tr=op==6?mc_choose(2,"trans"):0;
    if(op<=2&&(m>1||lx)) mc_skip(); if(op==7&&(inc2>1||lx||m>1)) mc_skip(); if(op==0&&be) mc_skip(); if((op==3)&&(m>1||inc2>1||lx)) mc_skip(); if(op==4&&(m>1||lx)) mc_skip();
    double alpha=-1.5,beta=(double[]){1,-0.5,0}[be]; 
    RT P; FM fr; fm_frame(&fr,d,cs,0); free(fr.v); rt_make(&P,d,0,cs,0,0,PGEN); fm_nodes(&fr,&P); fr.v=calloc(fr.n,sizeof(double));
    FM xa[24],ya[24],za; struct FT1DArray*X,*Y; const char*nm[]={"vaxpy","vaxpy_arr","scale","gemv","vprodsum","vgemv","vgemv_arr","copy"};
    double arr[16]; for(int i=0;i<16;i++) arr[i]=fgen(31,i,0,0);
    size_t nx=0,ny=0; int nX=n*inc,nY=n*inc2;
    if(op==5){ nX=(m+lx)*n; nY=n*inc; } if(op==6){ nX=n*inc; nY=m*inc2; } if(op==3){ nX=n*inc; nY=2; }
    X=ft1d_array_alloc(nX); Y=ft1d_array_alloc(nY); fa_fill(X,nX,&P,0,d,cs,xa,&fr); fa_fill(Y,nY,&P,1,d,cs,ya,&fr);
    struct FT1DArray*Z=ft1d_array_alloc(4); FM zm[4]; fa_fill(Z,4,&P,2,d,cs,zm,&fr);
    #define EACH(q) for(int q=0;q<fr.n;q++)
    if(op==0){ c3vaxpy(n,alpha,X,inc,&Y,inc2,0,NULL); for(int i=0;i<n;i++) EACH(q) ya[i*inc2].v[q]+=alpha*xa[i*inc].v[q]; }
    else if(op==1){ c3vaxpy_arr(n,alpha,X,inc,arr,inc2,beta,&Z->ft[0],0,NULL); EACH(q){ zm[0].v[q]*=beta; for(int i=0;i<n;i++) zm[0].v[q]+=alpha*arr[i*inc2]*xa[i*inc].v[q]; } }
    else if(op==2){ ft1d_array_scale(X,n,inc,beta); for(int i=0;i<n;i++) EACH(q) xa[i*inc].v[q]*=beta; }
    else if(op==3){ c3gemv(alpha,n,X,inc,Y->ft[0],beta,Z->ft[0],0,NULL); EACH(q){ zm[0].v[q]*=beta; for(int i=0;i<n;i++) zm[0].v[q]+=alpha*xa[i*inc].v[q]*ya[0].v[q]; } }
    else if(op==4){ c3vprodsum(n,alpha,X,inc,Y,inc2,beta,&Z->ft[0],0,NULL); EACH(q){ zm[0].v[q]*=beta; for(int i=0;i<n;i++) zm[0].v[q]+=alpha*xa[i*inc].v[q]*ya[i*inc2].v[q]; } }
    else if(op==5){ c3vgemv(m,n,alpha,X,m+lx,Y,inc,beta,&Z,inc2,0,NULL); for(int i=0;i<m;i++) EACH(q){ zm[i*inc2].v[q]*=beta; for(int j=0;j<n;j++) zm[i*inc2].v[q]+=alpha*xa[i+j*(m+lx)].v[q]*ya[j*inc].v[q]; } }
    else if(op==6){ int ld=(tr?n:m)+lx; c3vgemv_arr(tr,m,n,alpha,arr,ld,X,inc,beta,&Y,inc2,0,NULL); for(int i=0;i<m;i++) EACH(q){ ya[i*inc2].v[q]*=beta; for(int j=0;j<n;j++) ya[i*inc2].v[q]+=alpha*(tr?arr[i*ld+j]:arr[i+j*ld])*xa[j*inc].v[q]; } }
    else { struct FT1DArray*c=ft1d_array_copy(X); mc_expect("copy",c->size==X->size,"size"); double x[FD],o1[24],o2[24]; fm_pt(&fr,fr.n/3,x); ft1d_array_eval2(X,x,o1); ft1d_array_scale(X,nX,1,0.5); ft1d_array_eval2(c,x,o2); double*o3=ft1d_array_eval(c,x); for(int i=0;i<nX;i++){ mc_cmp("copy",o2[i],o1[i],1e-12); mc_cmp("eval",o3[i],xa[i].v[fr.n/3],1e-11*(1+fm_max(&xa[i]))); for(int q=0;q<fr.n;q++) xa[i].v[q]*=0.5; } free(o3); ft1d_array_free(c); }
    mc_step();
    for(int i=0;i<nX;i++) fm_check(nm[op],X->ft[i],&xa[i],1e-11);
    for(int i=0;i<nY;i++) fm_check(nm[op],Y->ft[i],&ya[i],1e-11);
    for(int i=0;i<4;i++) fm_check(nm[op],Z->ft[i],&zm[i],1e-11);
    uint64_t h=mc_hu(mc_h0(),op); h=fm_hash(h,Z->ft[0],&zm[0]); h=fm_hash(h,Y->ft[0],&ya[0]); h=fm_hash(h,X->ft[0],&xa[0]); mc_state(h);
    for(int i=0;i<nX;i++) free(xa[i].v); for(int i=0;i<nY;i++) free(ya[i].v); for(int i=0;i<4;i++) free(zm[i].v); free(fr.v);
    ft1d_array_free(X); ft1d_array_free(Y); ft1d_array_free(Z);
}
/* one-variable trains */
static void b_dim1(void)
{
    int cs=mc_choose(6,"class"); mc_shard(); int p=mc_choose(NPAT,"a"),q=mc_choose(NPAT,"b");
    RT A,B; rt_make(&A,1,0,cs,0,0,p); rt_make(&B,1,0,cs,0,0,q); struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*s=function_train_sum(a,b),*pr=cs==2?NULL:function_train_product(a,b); function_train_scale(a,-2); mc_steps(3);
    for(int i=0;i<UNP;i++){ double x=umap(UPT[i],A.f[0][0].lb,A.f[0][0].ub),u=rt_eval(&A,&x),v=rt_eval(&B,&x); mc_cmp("sum",function_train_eval(s,&x),u+v,1e-11); mc_cmp("scale",function_train_eval(a,&x),-2*u,1e-11); if(pr&&(cs>2||i==0||i==UNP-1)) mc_cmp("product",function_train_eval(pr,&x),u*v,1e-10); }
    mc_state(mc_hu(mc_h0(),cs*100+p*10+q));
    function_train_free(a);function_train_free(b);function_train_free(s); if(pr) function_train_free(pr);
}
/* larger trains: sums, products, combinations */
static void b_big(void)
{
    int sh=mc_choose(BNS,"shape"),cs=mc_choose(7,"class"); mc_shard(); int op=mc_choose(4,"op"),vb=mc_choose(2,"grids"); if(vb&&(cs==1||cs==6||cs==2||(op==1&&cs==0))) mc_skip(); if(op==1&&(cs==2||sh==8||sh==1||sh==7||(sh==3&&cs>1)||(sh==6&&cs>1))) mc_skip(); BT A,B; bt_make(&A,sh,cs,0); bt_make(&B,sh,cs,vb?4:1); struct FunctionTrain*f=bt_build(&A),*g=bt_build(&B),*r=NULL; double x[BD],sa,sb; uint64_t h=mc_hu(mc_h0(),sh*8+cs);
    if(op==0) r=function_train_sum(f,g); else if(op==1) r=function_train_product(f,g); else if(op==2){ r=function_train_copy(g); function_train_scale(r,-2.5); } else { r=function_train_copy(g); c3axpy(-1.5,f,&r,0,NULL); } mc_step();
    for(int k=1;k<A.d;k++) mc_expect("big-ranks",(int)r->ranks[k]==(op==0||op==3?A.r[k]+B.r[k]:op==1?A.r[k]*B.r[k]:B.r[k]),"rank %d is %zu",k,r->ranks[k]);
    for(int e=0;e<9;e++){ bt_pt(&A,e,x); if(op==1&&(cs==0||cs==1||cs==6)) for(int k=0;k<A.d;k++) if(A.cls[k]<UKER) x[k]=A.f[k][0].x[(e*(k+3)+k)%A.n[k]]; double a=bt_eval(&A,x,&sa),b=bt_eval(&B,x,&sb),w=op==0?a+b:op==1?a*b:op==2?-2.5*b:b-1.5*a; mc_cmp((const char*[]){"big-sum","big-product","big-scale","big-axpy"}[op],function_train_eval(r,x),w,1e-12*(op==1?sa*sb*20:sa*1.5+sb*2.5)); h=mc_hd(h,w); }
    bt_check("big-input",f,&A,4,1e-13); bt_check("big-input",g,&B,4,1e-13); mc_state(h); function_train_free(f); bt_check("big-input",g,&B,2,1e-13); function_train_free(g);function_train_free(r); bt_free(&A); bt_free(&B);
}
/* the algebra is exact for trains and factors of every magnitude: powers of two change no rounding */
static void b_scaled(void)
{
    static const int EX[4]={-24,-17,20,40}; static const int SE[6]={-40,-27,-17,17,27,40};
    int d=1+mc_choose(4,"dim"),cs=mc_choose(7,"class"),ea=EX[mc_choose(4,"exponent a")]; mc_shard(); int eb=EX[mc_choose(4,"exponent b")],ha=mc_choose(4,"how a"),hb=mc_choose(2,"how b"),op=mc_choose(5,"op"); if(d==1&&(ha>1||hb)) mc_skip(); double rl=cs>=3?1e-8:1e-11; if(cs>=3&&((ha==3?-abs(ea):ea)<-17||eb<-17)) mc_skip(); if(cs>=3&&op==2&&(ha==3?-abs(ea):ea)+eb<-17) mc_skip();
    RT A,B; rt_make(&A,d,5,cs,0,0,PGEN); rt_make(&B,d,2,cs,0,0,PGEN2); FM f; fm_frame(&f,d,cs,0); free(f.v); fm_nodes(&f,&A); f.v=calloc(f.n,sizeof(double)); FM g=fm_like(&f); fm_fill(&f,&A); fm_fill(&g,&B);
    int za=rt_pow2(&A,ha,ea),zb=rt_pow2(&B,hb,eb),zi=za; struct FunctionTrain*a=rt_build(&A),*b=rt_build(&B),*r; FM w=fm_like(&f); int z=0;
    if(op==0||op==1){ r=op?NULL:function_train_sum(a,b); if(op){ int q=mc_choose(6,"factor"); r=function_train_copy(b); if(cs>=3&&(ha==1?0:ea)+SE[q]<-17) mc_skip(); c3axpy(ldexp(-1.5,SE[q]),a,&r,0,NULL); za+=SE[q]; } z=za>zb?za:zb; for(int q=0;q<w.n;q++) w.v[q]=ldexp((op?-1.5:1)*f.v[q],za-z)+ldexp(g.v[q],zb-z); }
    else if(op==2){ if(!prodok(cs)) mc_skip(); r=function_train_product(a,b); z=za+zb; for(int q=0;q<w.n;q++) w.v[q]=f.v[q]*g.v[q]; }
    else if(op==3){ int q=mc_choose(6,"factor"),p=mc_choose(3,"twice"); r=function_train_copy(a); if(cs>=3&&(ha==1?0:ea)+SE[q]*(p==2?2:1)<-17) mc_skip(); function_train_scale(r,ldexp(1.25,SE[q])); z=za+SE[q]; for(int i=0;i<w.n;i++) w.v[i]=1.25*f.v[i]; if(p){ function_train_scale(r,ldexp(-1,p==1?-SE[q]:SE[q])); z+=p==1?-SE[q]:SE[q]; for(int i=0;i<w.n;i++) w.v[i]=-w.v[i]; } }
    else { if(hb||eb!=-24) mc_skip(); r=function_train_copy(a); z=za; }
    mc_step(); const char*nm[]={"scaled-sum","scaled-axpy","scaled-product","scaled-scale","scaled-copy"}; fm_checks(nm[op],r,&w,z,rl); if(op==0&&cs<3&&za!=zb){ /* the smaller operand is still there: cancel the larger one */
        function_train_scale(za>zb?a:b,-1); struct FunctionTrain*c=function_train_sum(r,za>zb?a:b); int lo=za<zb?za:zb; if(z-lo<30) fm_checks("scaled-cancel",c,za>zb?&g:&f,lo,1e-12*ldexp(1,z-lo)); function_train_free(c); function_train_scale(za>zb?a:b,-1); }
    mc_state(mc_hu(fm_hash(mc_h0(),r,&w),op)); fm_checks("scaled-input",a,&f,zi,1e-11);
    function_train_free(a);function_train_free(b);function_train_free(r); free(f.v);free(g.v);free(w.v);
}
/* constructors in more variables, BLAS-like operations on longer arrays of trains */
static const char*BCN[9]={"big-constant","big-linear","big-linear_update","big-rankone_prod","big-quadratic","big-quadratic_aligned","big-zeros","big-rankone","big-initsum"};
static void b_bigc(void)
{
    int d=(int[]){6,7,9,12}[mc_choose(4,"dim")],cs=mc_choose(7,"class"); mc_shard(); int what=mc_choose(9,"constructor"),st=mc_choose(2,"strides"),dom0=mc_choose(2,"domains"),lin=(cs==0||cs==3||cs==4||cs==5),poly=(cs>=3&&cs<=5); if(cs==2||((what>=1&&what<=3)&&!lin)||((what==4||what==5||what==2)&&!poly)) mc_skip();
    BO o; RF F[BD]; o.d=d; o.m=multi_approx_opts_alloc(d); for(int k=0;k<d;k++){ o.cls[k]=bcls(cs,k); bgrid(&F[k],o.cls[k],dom0?(k+1)%3:k%3,o.cls[k]>=ULEG?3:3+k%5,k%2); o.u[k]=uopts(&F[k]); o.o[k]=one_approx_opts_alloc(UFC[o.cls[k]],o.u[k]); multi_approx_opts_set_dim(o.m,k,o.o[k]); if(o.cls[k]>=ULEG) ope_opts_set_nparams(o.u[k],3); }
    int ldc=1+2*st,lda=2-st; double C[3*BD],Av[3*BD],*M=malloc(8*d*d),mm[BD],args[BD],x[BD],cv=-1.75; for(int i=0;i<3*BD;i++){ C[i]=fgen(9,i,0,0)+(what==3?0.7*(i%2?1:-1):0); Av[i]=fgen(10,i,1,0); } for(int i=0;i<d*d;i++) M[i]=fgen(11,i,2,st); for(int i=0;i<BD;i++){ mm[i]=fgen(12,i,0,1); args[i]=fgen(21,i,0,st); }
    struct FunctionTrain*ft=NULL;
    if(what==0) ft=function_train_constant(cv,o.m); else if(what==1||what==2){ ft=function_train_linear(C,ldc,Av,lda,o.m); if(what==2){ for(int i=0;i<3*BD;i++){ C[i]=fgen(19,i,0,0); Av[i]=fgen(20,i,1,0); } int r=function_train_linear_update(ft,C,ldc,Av,lda); mc_expect("big-update",r==0,"returned %d",r); } }
    else if(what==3) ft=function_train_rankone_prod(C,o.m); else if(what==4) ft=function_train_quadratic(M,mm,o.m); else if(what==5) ft=function_train_quadratic_aligned(M,mm,o.m);
    else if(what==6){ size_t r[BD+1]; for(int k=0;k<=d;k++) r[k]=k==0||k==d?1:1+(k*5+st)%7; ft=function_train_zeros(o.m,r); for(int k=0;k<=d;k++) mc_expect("big-zeros",ft->ranks[k]==r[k],"rank"); }
    else { struct Fwrap*fw=fwrap_create(1,"array-vec"); fwrap_set_num_funcs(fw,d); for(int k=0;k<d;k++) fwrap_set_func_array(fw,k,cb_sin,&args[k]); ft=what==7?function_train_rankone(o.m,fw):function_train_initsum(o.m,fw); fwrap_destroy(fw); }
    mc_step(); mc_expect("big-shape",ft&&ft->dim==(size_t)d&&ft->ranks[0]==1&&ft->ranks[d]==1,"bad train"); uint64_t h=mc_hu(mc_h0(),what*16+d);
    for(int e=0;e<20;e++){ for(int k=0;k<d;k++){ x[k]=umap(e==0?-1:e==1?1:UPT[(e*5+k*7)%UNP],F[k].lb,F[k].ub); if(what>=7&&F[k].cls<UKER) x[k]=F[k].x[(e*(k+3)+k)%F[k].n]; } double w=0,sc=1;
        if(what==0) w=cv; else if(what==1||what==2) for(int k=0;k<d;k++){ w+=C[k*ldc]*x[k]+Av[k*lda]; sc+=fabs(C[k*ldc]*x[k])+fabs(Av[k*lda]); } else if(what==3){ w=1; for(int k=0;k<d;k++){ w*=C[k]*x[k]; sc*=1+fabs(C[k]*F[k].ub)+fabs(C[k]*F[k].lb); } }
        else if(what==4) for(int i=0;i<d;i++) for(int j=0;j<d;j++){ double t=M[i*d+j]*(x[i]-mm[i])*(x[j]-mm[j]); w+=t; sc+=fabs(M[i*d+j])*(10+fabs(t)); } else if(what==5) for(int i=0;i<d;i++){ double t=M[i]*(x[i]-mm[i])*(x[i]-mm[i]); w+=t; sc+=fabs(M[i])*10+fabs(t); }
        else if(what==7){ w=1; for(int k=0;k<d;k++){ w*=args[k]*x[k]+0.5*args[k]*args[k]; sc*=1+fabs(args[k]*(1+fabs(x[k]))); } } else if(what==8) for(int k=0;k<d;k++){ w+=args[k]*x[k]+0.5*args[k]*args[k]; sc+=1+fabs(x[k]); }
        mc_cmp(BCN[what],function_train_eval(ft,x),w,1e-12*sc); h=mc_hd(h,w); }
    struct FunctionTrain*cp=function_train_copy(ft); double v=function_train_eval(ft,x); function_train_free(ft); mc_cmp("big-copy",function_train_eval(cp,x),v,0); function_train_free(cp); mc_state(h); free(M); bo_free(&o);
}
static void b_bigb(void)
{
    int op=mc_choose(7,"op"),cs=(int[]){0,3,6,1}[mc_choose(4,"class")]; mc_shard(); int n=(int[]){5,8,11}[mc_choose(3,"n")],m=(int[]){3,6}[mc_choose(2,"m")],inc=1+mc_choose(2,"inc1"),inc2=1+mc_choose(3,"inc2"),lx=mc_choose(2,"ld"),be=mc_choose(3,"beta"),tr=op==6?mc_choose(2,"trans"):0,d=3,ep=mc_choose(2,"eps"); if(ep&&(n>5||op==2||cs==6)) mc_skip();
    if(op<=2&&(m>3||lx)) mc_skip(); if(op==0&&be) mc_skip(); if(op==3&&(m>3||inc2>1||lx)) mc_skip(); if(op==4&&(m>3||lx)) mc_skip(); if(n>5&&cs==3&&op>2) mc_skip();
    double alpha=-1.5,beta=(double[]){1,-0.5,0}[be]; int nX=n*inc,nY=n*inc2,nZ=7; if(op==5){ nX=(m+lx)*n; nY=n*inc; nZ=m*inc2; } if(op==6) nY=m*inc2; if(op==3) nY=1;
    double arr[128]; for(int i=0;i<128;i++) arr[i]=fgen(31,i,0,0); BT*T=malloc(sizeof(BT)*(nX+nY+nZ)); struct FT1DArray*P[3]={ft1d_array_alloc(nX),ft1d_array_alloc(nY),ft1d_array_alloc(nZ)}; int cnt[3]={nX,nY,nZ},off[3]={0,nX,nX+nY};
    for(int a=0;a<3;a++) for(int i=0;i<cnt[a];i++){ BT*t=&T[off[a]+i]; t->d=d; t->r[0]=t->r[3]=1; t->r[1]=1+(i+a)%2; t->r[2]=1+(i/2+a)%2; for(int k=0;k<d;k++){ t->cls[k]=bcls(cs,k); int sz=t->r[k]*t->r[k+1]; t->f[k]=malloc(sizeof(RF)*sz); for(int q=0;q<sz;q++){ RF*f=&t->f[k][q]; bgrid(f,t->cls[k],(k+1)%3,t->cls[k]>=ULEG?2:4,0); for(int c=0;c<f->n;c++) f->c[c]=fgen(60+a,i*16+k*4+q,c,n); } t->n[k]=t->f[k][0].n; } P[a]->ft[i]=bt_build(t); }
    struct FT1DArray*X=P[0],*Y=P[1],*Z=P[2]; BO bo; bo_make(&bo,&T[0]); double eps=ep?1e-13:0; struct MultiApproxOpts*mo=ep?bo.m:NULL;
    if(op==0) c3vaxpy(n,alpha,X,inc,&Y,inc2,eps,mo); else if(op==1) c3vaxpy_arr(n,alpha,X,inc,arr,inc2,beta,&Z->ft[0],eps,mo); else if(op==2) ft1d_array_scale(X,n,inc,beta); else if(op==3) c3gemv(alpha,n,X,inc,Y->ft[0],beta,Z->ft[0],eps,mo); else if(op==4) c3vprodsum(n,alpha,X,inc,Y,inc2,beta,&Z->ft[0],eps,mo); else if(op==5) c3vgemv(m,n,alpha,X,m+lx,Y,inc,beta,&Z,inc2,eps,mo); else c3vgemv_arr(tr,m,n,alpha,arr,(tr?n:m)+lx,X,inc,beta,&Y,inc2,eps,mo);
    mc_step(); static const char*nm[]={"big-vaxpy","big-vaxpy_arr","big-ascale","big-gemv","big-vprodsum","big-vgemv","big-vgemv_arr"}; uint64_t h=mc_hu(mc_h0(),op); double*v=malloc(8*(nX+nY+nZ)),x[BD];
    for(int e=0;e<6;e++){ for(int k=0;k<d;k++){ RF*f=&T[0].f[k][0]; x[k]=f->cls<UKER?f->x[(e*(k+3)+k)%f->n]:umap(UPT[(e*5+k*7)%UNP],f->lb,f->ub); } double sc=1,s2; for(int i=0;i<nX+nY+nZ;i++){ v[i]=bt_eval(&T[i],x,&s2); if(s2>sc) sc=s2; } double*xa=v,*ya=v+nX,*za=v+nX+nY; sc*=sc*n;
        if(op==0) for(int i=0;i<n;i++) ya[i*inc2]+=alpha*xa[i*inc]; else if(op==1){ za[0]*=beta; for(int i=0;i<n;i++) za[0]+=alpha*arr[i*inc2]*xa[i*inc]; } else if(op==2) for(int i=0;i<n;i++) xa[i*inc]*=beta; else if(op==3){ za[0]*=beta; for(int i=0;i<n;i++) za[0]+=alpha*xa[i*inc]*ya[0]; } else if(op==4){ za[0]*=beta; for(int i=0;i<n;i++) za[0]+=alpha*xa[i*inc]*ya[i*inc2]; }
        else if(op==5) for(int i=0;i<m;i++){ za[i*inc2]*=beta; for(int j=0;j<n;j++) za[i*inc2]+=alpha*xa[i+j*(m+lx)]*ya[j*inc]; } else { int ld=(tr?n:m)+lx; for(int i=0;i<m;i++){ ya[i*inc2]*=beta; for(int j=0;j<n;j++) ya[i*inc2]+=alpha*(tr?arr[i*ld+j]:arr[i+j*ld])*xa[j*inc]; } }
        for(int a=0;a<3;a++) for(int i=0;i<cnt[a];i++){ mc_cmp(nm[op],function_train_eval(P[a]->ft[i],x),v[off[a]+i],(ep?1e-10:1e-12)*sc); } h=mc_hda(h,nZ,za); h=mc_hda(h,nY,ya); }
    mc_state(h); bo_free(&bo); free(v); for(int a=0;a<3;a++) ft1d_array_free(P[a]); for(int i=0;i<nX+nY+nZ;i++) bt_free(&T[i]); free(T);
}
const mc_driver mc_drivers[]={{"scaled",b_scaled,1,3},{"prog2",b_prog2,1,3},{"prog3",b_prog3,1,3},{"prog4",b_prog4,1,2},{"grids",b_grids,1,3},{"prods",b_prods,1,3},{"constructors",b_constr,1,3},{"nodal",b_nodal,1,3},{"blas",b_blas,1,3},{"dim1",b_dim1,1,3},{"big",b_big,1,3},{"bigc",b_bigc,1,3},{"bigb",b_bigb,1,3},{0}};
