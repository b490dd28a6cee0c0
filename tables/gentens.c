/* Writes legtens.h and hermtens.h: the linearisation coefficients of orthonormal Legendre (w.r.t. dx/2) and
 * probabilists' Hermite polynomials from their closed forms. These two generated headers are absent from the
 * repository copy; polynomials.c needs them (layout as in c3_cex/examples/threeprodtens/tprodtens.c). */
#include <stdio.h>
#include <math.h>
#include <string.h>
static long double lf[400];
static long double la(int r){ /* log((2r-1)!!/r!) */ return lf[2*r]-r*logl(2.0L)-2*lf[r]; }
static void emit(const char *path,const char *name,int herm)
{
    FILE *f=fopen(path,"w"); fprintf(f,"static const double %s[250000] = {\n",name);
    for(int k=0;k<100;k++) for(int j=0;j<50;j++) for(int i=0;i<50;i++){
        long double v=0; int s2=i+j+k;
        if (s2%2==0){ int s=s2/2; if (i<=s&&j<=s&&k<=s){
            if (herm) v=expl(0.5L*(lf[i]+lf[j]+lf[k])-lf[s-i]-lf[s-j]-lf[s-k]);
            else v=expl(la(s-i)+la(s-j)+la(s-k)-la(s))/(2*s+1)*sqrtl((2*i+1.0L)*(2*j+1.0L)*(2*k+1.0L));
        }}
        fprintf(f,"%.17Lg,%s",v,(i==49)?"\n":"");
    }
    fprintf(f,"};\n"); fclose(f);
}
int main(int argc,char**argv){ char p[1000]; (void)argc; lf[0]=0; for(int i=1;i<400;i++) lf[i]=lf[i-1]+logl(i);
    snprintf(p,sizeof p,"%s/legtens.h",argv[1]); emit(p,"lpolycoeffs",0);
    snprintf(p,sizeof p,"%s/hermtens.h",argv[1]); emit(p,"hermpolycoeffs",1); return 0; }
