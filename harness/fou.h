/* Reference Fourier expansions: c0 + sum_k 2 Re(c_k exp(i k t)), t the domain mapped to [0,2 pi]. */
#ifndef FOU_H
#define FOU_H
#define FOUN 9
typedef struct { int n; double re[FOUN],im[FOUN],lb,ub; } FO;
static struct GenericFunction*fo_make(FO*f,int n,int dom,int pat)
{
    static const double*T[3]={UG1,UG2,UG3}; memset(f,0,sizeof *f); f->n=n; f->lb=(double[]){0,0.5,-2}[dom]; f->ub=(double[]){2*M_PI,4.5,1}[dom]; struct GenericFunction*g=generic_function_alloc(1,POLYNOMIAL); struct OrthPolyExpansion*o=orth_poly_expansion_init(FOURIER,n,f->lb,f->ub); 
    for(int i=0;i<n;i++){ f->re[i]=pat==3?0:pat==4?(i==n-1):T[pat][i%8]/(1+i); f->im[i]=i==0||pat==3?0:pat==4?0:T[(pat+1)%3][i%8]/(1+i); ((double*)&o->ccoeff[i])[0]=f->re[i]; ((double*)&o->ccoeff[i])[1]=f->im[i]; } g->f=o; return g;
}
static double fo_val(const FO*f,double x,int der){ double w=2*M_PI/(f->ub-f->lb),t=w*(x-f->lb),s=0; for(int k=0;k<f->n;k++){ double a=f->re[k],b=f->im[k],m=k?2:1; for(int q=0;q<der;q++){ double u=-b*k*w,v=a*k*w; a=u; b=v; } s+=m*(a*cos(k*t)-b*sin(k*t)); } return s; }
static double fo_scl(const FO*f){ double s=1; for(int k=0;k<f->n;k++) s+=2*(fabs(f->re[k])+fabs(f->im[k])); return s; }
#endif
