/* Reference piecewise polynomials: a tree of Legendre expansions together with its flat list of pieces. Included after uni.h. */
#ifndef PW_H
#define PW_H
#define PWL 12
typedef struct { int nl; RF leaf[PWL]; double lb,ub; } PW;
#define PWS 7
static const int PWCH[PWS][4]={{0},{2,0,0},{3,0,0,0},{2,1,0},{2,0,2},{3,0,3,0},{2,3,1}};
static const double PWCUT[3]={0.5,1.0/3,0.41};   /* position of inner boundaries: even or uneven */
static struct PiecewisePoly*pw_tree(PW*w,int shape,int*salt,double lb,double ub,int pat,int cut)
{
    struct PiecewisePoly*p=piecewise_poly_alloc();
    if(shape==0){ RF*f=&w->leaf[w->nl++]; memset(f,0,sizeof *f); f->cls=ULEG; f->lb=lb; f->ub=ub; f->n=1+(*salt)%4; static const double*T[3]={UG1,UG2,UG3};
        for(int i=0;i<f->n;i++) f->c[i]=pat==3?0:pat==4?(i==0):T[pat][(i+*salt)%8]; p->leaf=1; p->ope=orth_poly_expansion_init(LEGENDRE,f->n,lb,ub); for(int i=0;i<f->n;i++) p->ope->coeff[i]=f->c[i]; (*salt)++; return p; }
    int nb=PWCH[shape][0]; p->leaf=0; p->nbranches=nb; p->branches=piecewise_poly_array_alloc(nb); double a=lb;
    for(int i=0;i<nb;i++){ double b=i==nb-1?ub:cut==0?lb+(ub-lb)*(i+1)/nb:a+(ub-a)*PWCUT[cut]; p->branches[i]=pw_tree(w,PWCH[shape][1+i],salt,a,b,pat,cut); a=b; }
    return p;
}
static struct GenericFunction*pw_make(PW*w,int shape,int salt,int dom,int pat,int cut){ memset(w,0,sizeof *w); w->lb=UDOM[dom][0]; w->ub=UDOM[dom][1]; struct GenericFunction*g=generic_function_alloc(1,PIECEWISE); g->f=pw_tree(w,shape,&salt,w->lb,w->ub,pat,cut); return g; }
static const RF*pw_leaf(const PW*w,double x){ int i=0; while(i<w->nl-1&&x>w->leaf[i].ub) i++; return &w->leaf[i]; }
static double pw_val(const PW*w,double x){ return ueval(pw_leaf(w,x),x); }
/* interior points of every piece of the common refinement, and both ends */
#define PWP 160
static int pw_pts(const PW*a,const PW*b,double*x)
{
    double e[2*PWL+2]; int n=0,m=0; e[n++]=a->lb; for(int i=0;i<a->nl;i++) e[n++]=a->leaf[i].ub; if(b) for(int i=0;i<b->nl;i++) e[n++]=b->leaf[i].ub;
    for(int i=1;i<n;i++) for(int j=i;j>0&&e[j]<e[j-1];j--){ double t=e[j]; e[j]=e[j-1]; e[j-1]=t; }
    x[m++]=a->lb; x[m++]=a->ub; for(int i=0;i+1<n;i++) if(e[i+1]-e[i]>1e-9){ static const double q[4]={0.02,0.37,0.7,0.985}; for(int k=0;k<4;k++) x[m++]=e[i]+(e[i+1]-e[i])*q[k]; }
    return m;
}
static double pw_scl(const PW*w){ double s=1; for(int i=0;i<w->nl;i++) for(int k=0;k<w->leaf[i].n;k++) s+=fabs(w->leaf[i].c[k])*(1+k); return s; }
static void pw_same(const char*site,struct GenericFunction*g,const PW*w,double tol){ double x[PWP]; int n=pw_pts(w,NULL,x); for(int i=0;i<n;i++) mc_cmp(site,generic_function_1d_eval(g,x[i]),pw_val(w,x[i]),tol); }
#endif
