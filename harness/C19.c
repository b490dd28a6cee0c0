/* C19: array and string utilities against independent definitions, exhaustively over small inputs. */
#include "mc.h"
#include "array.h"
#include "stringmanip.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <float.h>
const char *mc_property="C19";

/* ------------------------------------------------------------------ strings */
static char *xs(const char*s){ char*r=malloc(strlen(s)+1); strcpy(r,s); return r; }   /* exactly sized: overruns are caught */
static int gen_str(char*b,int maxlen,const char*alpha)
{ int n=mc_choose(maxlen+1,"len"),na=(int)strlen(alpha); for(int i=0;i<n;i++){ b[i]=alpha[mc_choose(na,"ch")]; if(i==1) mc_shard(); } if(n<2) mc_shard(); b[n]=0; return n; }
static uint64_t hs(const char*s){ return mc_hb(mc_h0(),s,strlen(s)); }
static void d_strip(void)
{
    int which=mc_choose(2,"op"); char l=' ',r=' ';
    if(which==1){ const char*ab="ab "; l=ab[mc_choose(3,"l")]; r=ab[mc_choose(3,"r")]; }
    char b[16]; gen_str(b,mc_thorough?8:6,"ab ");
    mc_note("op=%d l='%c' r='%c' s=\"%s\"",which,l,r,b);
    char w[16]; int i=0,n; while(b[i]&&b[i]==l) i++; strcpy(w,b+i); n=(int)strlen(w); while(n>0&&w[n-1]==r) w[--n]=0;
    char*s=xs(b); if(which) strip_ends(s,l,r); else strip_blank_ends(s); mc_step();
    mc_expect("strip",!strcmp(s,w),"got \"%s\" want \"%s\"",s,w); mc_state(mc_hu(hs(s),l*256+r)); free(s);
}
static void d_bite(void)
{
    int which=mc_choose(2,"op"); char b[16],t[8]={0};
    if(which==0){ t[0]="ab,"[mc_choose(3,"tok")]; }
    else { int n=1+mc_choose(3,"tl"); for(int i=0;i<n;i++) t[i]="ab"[mc_choose(2,"t")]; }
    gen_str(b,mc_thorough?10:8,which?"ab":"ab,"); if(!which&&!mc_thorough&&strlen(b)>6) mc_skip();
    mc_note("op=%d tok=\"%s\" s=\"%s\"",which,t,b);
    /* bite repeatedly until nothing more is found */
    char*s=xs(b); char ref[16]; strcpy(ref,b);
    for(int k=0;k<12;k++){
        char*q=strstr(ref,t); if(which&&q==ref) break;       /* a leading token is not specified for bite_string2 */
        char*o=which?bite_string2(s,t):bite_string(s,t[0]); mc_step();
        if(!q){ mc_expect("bite-none",o==NULL,"got \"%s\" although the token does not occur",o); mc_expect("bite-keep",!strcmp(s,ref),"string changed to \"%s\"",s); break; }
        char pre[16]; memcpy(pre,ref,q-ref); pre[q-ref]=0; char rest[16]; strcpy(rest,q+strlen(t)); strcpy(ref,rest);
        mc_expect("bite-found",o!=NULL,"token not found in \"%s\"",b);
        mc_expect("bite-pre",!strcmp(o,pre),"bitten part \"%s\" want \"%s\"",o,pre);
        mc_expect("bite-rest",!strcmp(s,ref),"rest \"%s\" want \"%s\"",s,ref);
        mc_state(mc_hu(hs(o),hs(s))); free(o);
    }
    mc_expect("bite-null",bite_string(NULL,'a')==NULL,"NULL string");
    free(s);
}
static void d_parse(void)
{
    char t=",a"[mc_choose(2,"tok")]; char b[16]; gen_str(b,mc_thorough?8:7,"ab,"); mc_note("tok='%c' s=\"%s\"",t,b);
    char*s=xs(b); size_t N=77; char**o=parse_string(s,t,&N); mc_step();
    size_t cnt=1; for(char*p=b;*p;p++) cnt+=*p==t;
    mc_expect("parse-n",N==cnt,"got %zu pieces want %zu",N,cnt); mc_expect("parse-in",!strcmp(s,b),"input changed");
    const char*p=b; uint64_t h=mc_h0(); for(size_t i=0;i<N;i++){ const char*q=strchr(p,t); size_t l=q?(size_t)(q-p):strlen(p);
        mc_expect("parse-piece",strlen(o[i])==l&&!memcmp(o[i],p,l),"piece %zu \"%s\"",i,o[i]); h=mc_hu(h,hs(o[i])); p=q?q+1:p+l; free(o[i]); }
    free(o); free(s); mc_state(h);
}
static void d_concat(void)
{
    char a[8],b[8]; int na=mc_choose(5,"na"),nb=mc_choose(5,"nb"); mc_shard();
    for(int i=0;i<na-1;i++) a[i]="ab"[mc_choose(2,"a")]; for(int i=0;i<nb-1;i++) b[i]="cd"[mc_choose(2,"b")];
    a[na?na-1:0]=0; b[nb?nb-1:0]=0; char*pa=na?xs(a):NULL,*pb=nb?xs(b):NULL; char w[16]; sprintf(w,"%s%s",na?a:"",nb?b:"");
    char*c=concat_string(pa,pb); mc_step(); mc_expect("concat",!strcmp(c,w),"got \"%s\"",c);
    mc_expect("concat-in",(!pa||!strcmp(pa,a))&&(!pb||!strcmp(pb,b)),"operand changed");
    concat_string_ow(&pa,pb); mc_step(); mc_expect("concat_ow",!strcmp(pa,w),"got \"%s\"",pa); concat_string_ow(&pa,pb); mc_step();
    char w2[24]; sprintf(w2,"%s%s",w,nb?b:""); mc_expect("concat_ow2",!strcmp(pa,w2),"got \"%s\"",pa);
    mc_state(hs(pa)); free(c); free(pa); free(pb);
}
static void d_itoa(void)
{
    static const int V[]={0,1,-1,2,7,8,9,10,-10,15,16,31,35,36,37,-36,99,100,255,-256,1000,12345,-98765,65535,65536,1<<30,INT_MAX,-INT_MAX,INT_MIN};
    int base=mc_choose(39,"base"); mc_shard(); int v; if(mc_choose(2,"k")) v=V[mc_choose(29,"v")]; else v=mc_choose(mc_thorough?4000:400,"v")-(mc_thorough?2000:200);
    mc_note("base=%d v=%d",base,v);
    char w[40]; int k=0; if(base>=2&&base<=36){ long x=v; int neg=x<0; if(neg) x=-x; char t[40]; int n=0; do{ t[n++]="0123456789abcdefghijklmnopqrstuvwxyz"[x%base]; x/=base; }while(x); if(neg) w[k++]='-'; while(n) w[k++]=t[--n]; } w[k]=0;
    char*buf=malloc(k+1); memset(buf,'#',k+1); char*r=itoa(v,buf,base); mc_step();
    mc_expect("itoa-ret",r==buf,"returned pointer"); mc_expect("itoa",!strcmp(buf,w),"got \"%s\" want \"%s\"",buf,w); mc_state(hs(buf)); free(buf);
}
/* ------------------------------------------------------------------ binary serialisation of primitive values */
static const double DV[]={0,1,-1,0.1,-2.5e300,5e-324,DBL_MIN,DBL_MAX,1.0/3};
static void d_prim(void)
{
    int n=1+mc_choose(mc_thorough?5:4,"n"); int kind[5],val[5]; size_t tot=0;
    for(int i=0;i<n;i++){ kind[i]=mc_choose(5,"kind"); val[i]=mc_choose(kind[i]==4?4:3,"val"); if(i==0) mc_shard();
        tot+=kind[i]==0?1:kind[i]==1?sizeof(int):kind[i]==2?sizeof(size_t):kind[i]==3?sizeof(double):sizeof(size_t)+val[i]*sizeof(double); }
    static const char C[3]={0,'z',-1}; static const int I3[3]={0,-77,INT_MIN}; static const size_t S[3]={0,5,SIZE_MAX}; static const double D[3]={0.1,-DBL_MAX,5e-324};
    unsigned char*buf=malloc(tot),*p=buf; memset(buf,0xee,tot);
    for(int i=0;i<n;i++){ unsigned char*q=p; size_t sz=0; double arr[4]={0.1*i,-3,DBL_MAX,5e-324};
        switch(kind[i]){ case 0: p=serialize_char(p,C[val[i]]); sz=1; break; case 1: p=serialize_int(p,I3[val[i]]); sz=sizeof(int); break;
        case 2: p=serialize_size_t(p,S[val[i]]); sz=sizeof(size_t); break; case 3: p=serialize_double(p,D[val[i]]); sz=sizeof(double); break;
        case 4: { double*e=malloc(sizeof(double)*(val[i]?val[i]:1)); memcpy(e,arr,val[i]*sizeof(double)); p=serialize_doublep(p,e,val[i]); sz=sizeof(size_t)+val[i]*sizeof(double); mc_expect("ser-in",!memcmp(e,arr,val[i]*sizeof(double)),"input changed"); free(e); } }
        mc_step(); mc_expect("ser-adv",p==q+sz,"advanced %td want %zu",p-q,sz); }
    p=buf; for(int i=0;i<n;i++){ unsigned char*q=p; size_t sz=0; double arr[4]={0.1*i,-3,DBL_MAX,5e-324};
        switch(kind[i]){ case 0: mc_expect("ser-char",(char)*p==C[val[i]],"char"); p++; sz=1; break;
        case 1: { int v=9; p=deserialize_int(p,&v); mc_expect("ser-int",v==I3[val[i]],"int %d",v); sz=sizeof(int); } break;
        case 2: { size_t v=9; p=deserialize_size_t(p,&v); mc_expect("ser-sz",v==S[val[i]],"size_t %zu",v); sz=sizeof(size_t);} break;
        case 3: { double v=9; p=deserialize_double(p,&v); mc_expect("ser-dbl",v==D[val[i]],"double %g",v); sz=sizeof(double);} break;
        case 4: { double*v=NULL; size_t N=99; p=deserialize_doublep(p,&v,&N); sz=sizeof(size_t)+val[i]*sizeof(double); mc_expect("ser-dp",N==(size_t)val[i]&&!memcmp(v,arr,N*sizeof(double)),"array"); free(v);} }
        mc_step(); mc_expect("des-adv",p==q+sz,"advanced %td want %zu",p-q,sz); }
    mc_state(mc_hb(mc_h0(),buf,tot)); free(buf);
}
/* ------------------------------------------------------------------ text form of numbers */
static double gen_dbl(void)
{
    int k=mc_choose(5,"kind"); double m,v;
    static const double M[]={0.5,0.1,1.0/3,0.9,0.7071067811865476,0.999999999999999};
    switch(k){ case 0: return DV[mc_choose(9,"v")];
    case 1: m=M[mc_choose(6,"m")]; v=ldexp(m,(mc_choose(13,"e")-6)*(mc_thorough?160:160)); break;     /* whole exponent range */
    case 2: m=M[mc_choose(6,"m")]; v=m; for(int i=mc_choose(9,"ulps");i>0;i--) v=nextafter(v,1); break; /* neighbours */
    case 3: v=(mc_choose(201,"i"))/10.0; break;
    default: v=ldexp(1,mc_choose(41,"p")-20); v=mc_choose(2,"dn")?nextafter(v,0):nextafter(v,1e300); }
    return mc_choose(2,"neg")?-v:v;
}
static void d_text(void)
{
    double v=gen_dbl(); mc_shard(); mc_note("v=%.17g",v);
    char*t=serialize_double_to_text(v); mc_step(); char*t2=xs(t); double r=deserialize_double_from_text(t2); mc_step();
    mc_expect("text-rt",r==v,"text %s gives back %.17g",t,r); free(t2);
    char*p=serialize_double_packed(v); double q=deserialize_double_packed(p); mc_step(); mc_expect("packed-rt",q==v,"packed gives back %.17g",q); free(p); { double va[3]={v,-2.5,v*0.5}; for(size_t na=0;na<=3;na++){ char*pa=serialize_double_arr_packed(na,va); mc_step(); for(size_t ia=0;ia<na;ia++){ double qa=deserialize_double_packed(pa+ia*(sizeof(int)+sizeof(long long))); mc_expect("packed-arr",qa==va[ia],"entry %zu gives back %.17g",ia,qa); } free(pa); } } free(t);
    /* the text tells neighbours apart */
    double u=nextafter(v,1e308); char*a=serialize_double_to_text(v),*b=serialize_double_to_text(u); mc_step(); mc_expect("text-inj",!strcmp(a,b)==(u==v),"%s for both",a); mc_state(hs(a)); free(a); free(b);
}
static void d_textarr(void)
{
    int n=1+mc_choose(mc_thorough?5:4,"n"); double v[5]; for(int i=0;i<n;i++){ v[i]=DV[mc_choose(mc_thorough?7:6,"v")]; if(i==0) mc_shard(); }
    double*in=malloc(n*sizeof(double)); memcpy(in,v,n*sizeof(double)); char*t=serialize_darray_to_text(n,in); mc_step(); char*keep=xs(t); size_t N=0; double*o=deserialize_darray_from_text(t,&N); mc_step();
    mc_expect("tarr-n",N==(size_t)n,"length %zu",N); for(int i=0;i<n;i++) mc_expect("tarr",o[i]==v[i],"entry %d: %.17g want %.17g (%s)",i,o[i],v[i],keep);
    mc_expect("tarr-keep",!strcmp(t,keep),"text changed by reading"); mc_expect("tarr-in",!memcmp(in,v,n*sizeof(double)),"input changed"); mc_state(hs(keep)); free(o); free(t); free(keep); free(in);
}
/* ------------------------------------------------------------------ text tables */
static void d_readtxt(void)
{
    static const char*SEP[]={" ",",","\t",", "," , ","\t\t"}; int nr=1+mc_choose(4,"rows"),nc=1+mc_choose(4,"cols"),lead=mc_choose(2,"lead"),trail=mc_choose(3,"trail"),file=mc_choose(2,"file"); mc_shard();
    double v[16]; char b[512]; int k=0; b[0]=0; int mixed=mc_choose(2,"mixed"); const char*s1=SEP[mc_choose(6,"sep")],*s2=mixed?SEP[mc_choose(6,"sep2")]:s1;
    for(int i=0;i<nr;i++){ if(lead&&i) k+=sprintf(b+k," "); for(int j=0;j<nc;j++){ v[i*nc+j]=(i+1)*(j%2?-0.125:10)+j*1e-3; k+=sprintf(b+k,"%.17g",v[i*nc+j]); if(j<nc-1) k+=sprintf(b+k,"%s",j%2?s2:s1); } if(trail==2) k+=sprintf(b+k,"%s",s1); if(i<nr-1||trail) k+=sprintf(b+k,"\n"); }
    mc_note("text=%s",b); size_t R=99,C=99; double*o=NULL;
    if(file){ char fn[600]; snprintf(fn,sizeof fn,"%s/t.txt",mc_scratch); FILE*f=fopen(fn,"w"); fputs(b,f); fclose(f); f=fopen(fn,"r"); o=readfile_double_array(f,&R,&C); fclose(f); remove(fn); }
    else { char*s=xs(b); o=readtxt_double_array(s,&R,&C); free(s); }
    mc_step(); mc_expect("readtxt-size",o&&R==(size_t)nr&&C==(size_t)nc,"%zu x %zu want %d x %d",R,C,nr,nc);
    for(int i=0;i<nr*nc;i++) mc_expect("readtxt-val",o[i]==v[i],"entry %d: %.17g want %.17g",i,o[i],v[i]); mc_state(mc_hu(hs(b),R*10+C)); free(o);
}
/* ------------------------------------------------------------------ binary / text files of arrays */
static void d_file(void)
{
    int r=1+mc_choose(4,"r"),c=1+mc_choose(4,"c"); mc_shard(); int pat=mc_choose(3,"pat"),type=mc_choose(2,"type"),hist=mc_choose(2,"overwrite");
    double*v=malloc(sizeof(double)*r*c); for(int i=0;i<r*c;i++) v[i]=pat==0?i+0.1:pat==1?DV[i%7]:-1.0/(i+1); double*keep=malloc(sizeof(double)*r*c); memcpy(keep,v,sizeof(double)*r*c);
    char fn[600]; snprintf(fn,sizeof fn,"%s/a.dat",mc_scratch);
    if(hist){ double big[36]; for(int i=0;i<36;i++) big[i]=i; darray_save(6,6,big,fn,type); mc_step(); }
    int ok=darray_save(r,c,v,fn,type); mc_step(); mc_expect("save-ret",ok==1,"save failed"); mc_expect("save-in",!memcmp(keep,v,sizeof(double)*r*c),"input changed");
    if(type==0){ double*o=darray_load(fn,0); mc_step(); mc_expect("load",o&&!memcmp(o,keep,sizeof(double)*r*c),"loaded array differs"); free(o); }
    else { FILE*f=fopen(fn,"r"); char hd[64]; for(int j=0;j<c;j++){ char w[16]; sprintf(w,"x%d",j); mc_expect("text-head",fscanf(f,"%63s",hd)==1&&!strcmp(hd,w),"header %s",hd); }
        for(int i=0;i<r;i++) for(int j=0;j<c;j++){ char tk[64]="?"; double x; int n=fscanf(f,"%63s",tk); x=strtod(tk,NULL); mc_expect("text-val",n==1&&fabs(x-keep[j*r+i])<=1e-15*fabs(keep[j*r+i]),"row %d col %d: %s want %.17g",i,j,tk,keep[j*r+i]); }
        char tk[8]; mc_expect("text-end",fscanf(f,"%7s",tk)!=1,"extra text"); fclose(f); }
    char bad[600]; snprintf(bad,sizeof bad,"%s/none/x",mc_scratch); mc_expect("save-bad",darray_save(r,c,v,bad,type)==0,"no error"); mc_expect("load-bad",darray_load(bad,0)==NULL,"no error");
    remove(fn); mc_state(mc_hb(mc_hu(mc_h0(),r*8+c),keep,sizeof(double)*r*c)); free(v); free(keep);
}
/* ------------------------------------------------------------------ vectors */
static void d_vec(void)
{
    static const double E[]={0,1,-1,0.1,-0.3,2,1e-8,1e8,-7.25}; double a=E[mc_choose(9,"a")],b=E[mc_choose(9,"b")]; mc_shard(); int N=mc_choose(mc_thorough?41:21,"N");
    mc_note("a=%g b=%g N=%d",a,b,N);
    if(N>=2){ double*o=linspace(a,b,N); mc_step(); mc_expect("linspace-ends",o[0]==a&&o[N-1]==b,"ends %g %g",o[0],o[N-1]);
        double s=fabs(a)+fabs(b); for(int i=0;i<N;i++) mc_cmp("linspace",o[i],a+(b-a)*i/(N-1),4e-15*(s+1e-300)); mc_state(mc_hda(mc_h0(),N,o)); free(o);
        double*dd[3]={0}; dd_row_linspace(dd,1,a,b,N); mc_step(); mc_expect("dd_row",!dd[0]&&!dd[2]&&dd[1][0]==a&&dd[1][N-1]==b,"row"); free(dd[1]); }
    if(N>=1){ double*o=linspace(a,b,1); mc_step(); mc_expect("linspace1",o[0]==a||o[0]==b,"%g",o[0]); free(o); }
    double*z=dzeros(N),*on=dones(N),*dv=darray_val(N,b),*cd=calloc_double(N); int*iz=izeros(N),*ci=calloc_int(N); size_t*cs=calloc_size_t(N); mc_steps(7);
    for(int i=0;i<N;i++) mc_expect("const-vec",z[i]==0&&on[i]==1&&dv[i]==b&&cd[i]==0&&iz[i]==0&&ci[i]==0&&cs[i]==0,"entry %d",i);
    if(N>0){ double v[41]; for(int i=0;i<N;i++) v[i]=a+i*b; double*D=diag(N,v); mc_step(); for(int i=0;i<N*N;i++) mc_expect("diag",D[i]==(i/N==i%N?v[i/N]:0),"entry %d",i); free(D);
        struct c3Vector*c=c3vector_alloc(N,v),*c2=c3vector_copy(c); mc_steps(2); mc_expect("c3v",c->size==(size_t)N&&c2->size==(size_t)N&&c->elem!=c2->elem,"size"); for(int i=0;i<N;i++) mc_expect("c3v-val",c->elem[i]==v[i]&&c2->elem[i]==v[i],"entry %d",i);
        c->elem[0]+=1; mc_expect("c3v-indep",c2->elem[0]==v[0],"copy shares storage");
        struct c3Vector**ar=c3vector_array_alloc(3); mc_expect("c3va",!ar[0]&&!ar[1]&&!ar[2],"not empty"); ar[0]=c; ar[2]=c2; struct c3Vector**ac=c3vector_array_copy(3,ar); mc_steps(2);
        mc_expect("c3va-copy",ac[0]&&!ac[1]&&ac[2]&&ac[0]!=c&&ac[2]!=c2&&ac[0]->size==(size_t)N&&!memcmp(ac[0]->elem,c->elem,N*sizeof(double))&&!memcmp(ac[2]->elem,c2->elem,N*sizeof(double)),"copy"); c3vector_array_free(3,ac); c3vector_array_free(3,ar); }
    mc_expect("c3v-null",c3vector_copy(NULL)==NULL,"copy of NULL");
    free(z);free(on);free(dv);free(cd);free(iz);free(ci);free(cs);
}
static void d_range(void)
{
    /* exactly representable steps: the count is exact */
    int lo=mc_choose(9,"lo")-4,hi=mc_choose(9,"hi")-4; mc_shard(); static const double ST[]={1,2,0.5,0.25,3,-1,-0.5,0.75}; double st=ST[mc_choose(8,"st")],off=mc_choose(3,"off")*0.125; double a=lo+off,b=hi;
    mc_note("arange(%g,%g,%g) logspace(%d,%d)",a,b,st,lo,hi);
    if((b-a)/st>=0){ size_t N=99; double*o=arange(a,b,st,&N); mc_step(); size_t W=(size_t)floor((b-a)/st)+1; mc_expect("arange-n",N==W,"N=%zu want %zu",N,W); for(size_t i=0;i<N;i++) mc_expect("arange",o[i]==a+st*i,"entry %zu %g",i,o[i]); mc_state(mc_hda(mc_h0(),N,o)); free(o); }
    for(int N=2;N<7;N++){ double*o=logspace(lo,hi,N); mc_step(); for(int i=0;i<N;i++){ double w=pow(10,lo+(hi-lo)*(double)i/(N-1)); mc_cmp("logspace",o[i],w,1e-13*w); } free(o); }
}
static void d_cat(void)
{
    int r=1+mc_choose(4,"r"),c1=mc_choose(5,"c1"),c2=mc_choose(5,"c2"); mc_shard(); double*A=malloc(8*(r*c1+1)),*B=malloc(8*(r*c2+1)); A=realloc(A,8*(r*c1?r*c1:1)); B=realloc(B,8*(r*c2?r*c2:1)); for(int i=0;i<r*c1;i++) A[i]=i+1; for(int i=0;i<r*c2;i++) B[i]=-i-0.5;
    double*o=dconcat_cols(r,c1,c2,A,B); mc_step(); for(int j=0;j<c1+c2;j++) for(int i=0;i<r;i++) mc_expect("concat_cols",o[j*r+i]==(j<c1?j*r+i+1:-((j-c1)*r+i)-0.5),"(%d,%d)",i,j); mc_state(mc_hda(mc_hu(mc_h0(),c1),r*(c1+c2),o)); free(o); free(A); free(B);
    /* copy_dd */
    double*s[4],*d[4]; for(int i=0;i<4;i++){ s[i]=malloc(8*(c1+1)); d[i]=malloc(8*(c1+1)); for(int j=0;j<=c1;j++){ s[i][j]=i*10+j; d[i][j]=-1; } }
    copy_dd(r,c1,d,s); mc_step(); for(int i=0;i<4;i++) for(int j=0;j<=c1;j++) mc_expect("copy_dd",d[i][j]==(i<r&&j<c1?i*10+j:-1)&&s[i][j]==i*10+j,"(%d,%d)=%g",i,j,d[i][j]);
    for(int i=0;i<4;i++){ free(s[i]); free(d[i]); }
    double**dd=malloc_dd(r); for(int i=0;i<r;i++) dd[i]=calloc_double(c1); free_dd(r,dd); free_dd(3,NULL); mc_steps(2);
}
static void d_prod(void)
{
    int n=mc_choose(mc_thorough?8:7,"n"); static const int V[]={1,2,-3,0}; double d[8]; int iv[8]; size_t sv[8]; double w=1; int wi=1; size_t ws=1;
    for(int i=0;i<n;i++){ int v=V[mc_choose(4,"v")]; if(i==1) mc_shard(); d[i]=v*0.5; iv[i]=v; sv[i]=v<0?5:v; w*=v*0.5; wi*=v; ws*=sv[i]; } if(n<2) mc_shard();
    double*dp=malloc(8*n+8); dp=realloc(dp,n?8*n:1); memcpy(dp,d,8*n); int*ip=malloc(n?4*n:1); memcpy(ip,iv,4*n); size_t*sp=malloc(n?8*n:1); memcpy(sp,sv,8*n);
    mc_expect("dprod",dprod(n,dp)==w,"got %g want %g",dprod(n,dp),w); mc_expect("iprod",iprod(n,ip)==wi,"got %d want %d",iprod(n,ip),wi); mc_expect("iprod_sz",iprod_sz(n,sp)==ws,"got %zu want %zu",iprod_sz(n,sp),ws); mc_steps(3); mc_state(mc_hu(mc_hd(mc_h0(),w),ws)); free(dp); free(ip); free(sp);
}
/* ------------------------------------------------------------------ random numbers: the source of randomness is enumerated */
static int seq[4096],nseq,pos; static int h_seq(void){ return seq[pos++%nseq]; }
static void d_rand(void)
{
    int L=mc_thorough?5:4; static const double U[]={0,1e-10,0.2,0.5,0.9,1};
    nseq=L; for(int i=0;i<L;i++){ seq[i]=(int)(U[mc_choose(6,"u")]*RAND_MAX); if(i==1) mc_shard(); } pos=0; mc_rand_hook=h_seq;
    for(int i=0;i<L;i++){ double u=randu(); mc_step(); mc_expect("randu",u==(double)seq[i]/RAND_MAX,"randu %g",u); } mc_expect("randu-n",pos==L,"%d draws",pos);
    pos=0; double*v=drandu(L); mc_step(); for(int i=0;i<L;i++) mc_cmp("drandu",v[i],2.0*seq[i]/RAND_MAX-1,1e-15); mc_expect("drandu-n",pos==L,"%d draws",pos); mc_state(mc_hda(mc_h0(),L,v)); free(v);
    /* normal deviates: successive calls give the Box-Muller pair of each accepted pair of uniforms */
    int any=0; for(int i=0;i<L;i++) if(seq[i]>0.01*RAND_MAX) any=1; if(any&&(L%2||seq[0]>1||seq[2]>1)){
        pos=0; randn(); if(pos) randn();                     /* synchronise with the state left by earlier calls */
        pos=0; int p=0; for(int k=0;k<3;k++){ double u1,u2; int g=0; do{ u1=seq[p++%nseq]*(1.0/RAND_MAX); u2=seq[p++%nseq]*(1.0/RAND_MAX); }while(u1<=pow(2,-32)&&++g<20); if(g>=20) break;
            double a=randn(); int p1=pos; double b=randn(); mc_steps(2); double r=sqrt(-2*log(u1)); mc_expect("randn-draws",p1==p&&pos==p,"draws %d want %d",p1,p); mc_cmp("randn0",a,r*cos(2*M_PI*u2),1e-12); mc_cmp("randn1",b,r*sin(2*M_PI*u2),1e-12); } }
    mc_rand_hook=NULL;
}
static void d_poisson(void)
{
    static const double MU[]={0,0.3,1,2.5,4,20,499,500,501,700,1300}; int mi=mc_choose(11,"mean"); mc_shard(); double mean=MU[mi]; static const double U[]={0.02,0.3,0.7,0.95,1};
    nseq=mc_thorough?5:4; for(int i=0;i<nseq;i++) seq[i]=(int)(U[mc_choose(5,"u")]*RAND_MAX); int all1=1; for(int i=0;i<nseq;i++) if(seq[i]!=RAND_MAX) all1=0; if(all1) mc_skip();
    long double s=0; size_t k=0; int amb=0; do{ s+=logl((long double)seq[k%nseq]/RAND_MAX); k++; if(fabsl(s+mean)<1e-9L) amb=1; }while(s>-mean);
    mc_note("mean=%g",mean); if(amb) mc_skip(); pos=0; mc_rand_hook=h_seq; size_t g=poisson(mean); mc_rand_hook=NULL; mc_step();
    mc_expect("poisson",g==k-1,"got %zu want %zu",g,k-1); mc_expect("poisson-draws",pos==(int)k,"%d draws",pos); mc_state(mc_hu(mc_hd(mc_h0(),mean),g));
}
/* ------------------------------------------------------------------ the same definitions on long strings and large arrays */
static const int NB[]={3,16,17,31,33,64,65,100,127,129,255,257,300,513,1000,1025,2000};
static void d_bigstr(void)
{
    int n=NB[mc_choose(17,"n")]; mc_shard(); int op=mc_choose(5,"op"),pat=mc_choose(4,"pat"); mc_note("op=%d n=%d pat=%d",op,n,pat); char*b=malloc(n+1);
    for(int i=0;i<n;i++) b[i]=pat==0?'a':pat==1?"ab,"[(i*7+i/5)%3]:pat==2?(i%11==10?',':'a'+i%26):(i==n-2?',':'x'); if(pat==0&&op!=1) b[n/2]='b'; b[n]=0;
    if(op==0){ char*s=xs(b); size_t N=77; char**o=parse_string(s,',',&N); mc_step(); size_t cnt=1; for(char*p=b;*p;p++) cnt+=*p==','; mc_expect("big-parse-n",N==cnt,"got %zu pieces want %zu",N,cnt); mc_expect("parse-in",!strcmp(s,b),"input changed");
        const char*p=b; uint64_t h=mc_h0(); for(size_t i=0;i<N;i++){ const char*q=strchr(p,','); size_t l=q?(size_t)(q-p):strlen(p); mc_expect("big-parse",strlen(o[i])==l&&!memcmp(o[i],p,l),"piece %zu \"%s\"",i,o[i]); h=mc_hu(h,hs(o[i])); p=q?q+1:p+l; free(o[i]); } free(o); free(s); mc_state(h); }
    else if(op==1){ /* long runs of blanks, and none inside touched */
        int l=pat*n/7,r=n/3; char*w=malloc(n+1+l+r),*in=malloc(n+1+l+r); strcpy(w,b); w[0]='q'; w[n-1]='q'; w[n/2]=' '; memset(in,' ',l); strcpy(in+l,w); memset(in+l+n,' ',r); in[l+n+r]=0; char*s=xs(in); strip_blank_ends(s); mc_step(); mc_expect("big-strip",!strcmp(s,w),"got length %zu want %d",strlen(s),n); mc_state(hs(s)); free(s); free(w); free(in); }
    else if(op==2||op==3){ const char*t=op==2?",":"ab"; char*s=xs(b),*ref=xs(b); for(int k=0;k<n+2;k++){ char*q=strstr(ref,t); if(op==3&&q==ref) break; char*o=op==3?bite_string2(s,(char*)t):bite_string(s,','); mc_step();
            if(!q){ mc_expect("big-bite-none",o==NULL&&!strcmp(s,ref),"no token"); break; } mc_expect("big-bite",o&&strlen(o)==(size_t)(q-ref)&&!memcmp(o,ref,q-ref)&&!strcmp(s,q+strlen(t)),"piece %d",k); memmove(ref,q+strlen(t),strlen(q+strlen(t))+1); free(o); } mc_state(hs(s)); free(s); free(ref); }
    else { char*a=NULL; char*w=calloc(1,(size_t)n*12+1); size_t L=0; for(int i=0;i<n;i++){ char t[16]; sprintf(t,"%d%c",i*(pat*37+1),"ab,;"[pat]); concat_string_ow(&a,t); mc_step(); strcpy(w+L,t); L+=strlen(t); } mc_expect("big-concat",!strcmp(a,w),"got length %zu want %zu",strlen(a),L); char*c=concat_string(a,b); mc_step(); mc_expect("big-concat2",strlen(c)==L+n&&!memcmp(c,w,L)&&!strcmp(c+L,b),"length %zu",strlen(c)); mc_state(hs(c)); free(c); free(a); free(w); }
    free(b);
}
static double bv(int pat,int i){ switch(pat){ case 0: return i+0.1; case 1: return (i%2?-1:1)*ldexp(1.0/(3+i),(i%41-20)*20); default: return i%5==0?0:-1.0/(i+1); } }
static void d_bigarr(void)
{
    int op=mc_choose(8,"op"),k=mc_choose(17,"k"); mc_shard(); int pat=mc_choose(3,"pat"),n=NB[k]; mc_note("op=%d n=%d pat=%d",op,n,pat);
    double*v=malloc(sizeof(double)*n),*in=malloc(sizeof(double)*n); for(int i=0;i<n;i++) in[i]=v[i]=bv(pat,i);
    if(op==0){ static const double E[3][2]={{-1,1},{0.1,7.3},{1e-8,-250}}; double a=E[pat][0],b=E[pat][1]; double*o=linspace(a,b,n); mc_step(); mc_expect("linspace-ends",o[0]==a&&o[n-1]==b,"ends %.17g %.17g",o[0],o[n-1]); for(int i=0;i<n;i++) mc_cmp("big-linspace",o[i],a+(b-a)*i/(n-1),4e-15*(fabs(a)+fabs(b))); mc_state(mc_hda(mc_h0(),n,o)); free(o);
        o=logspace(-3-pat,4,n); mc_step(); for(int i=0;i<n;i++){ double w=pow(10,-3-pat+(7.0+pat)*i/(n-1)); mc_cmp("big-logspace",o[i],w,1e-12*w); } free(o);
        size_t N=9; double st=pat==1?-0.25:0.5; o=arange(pat,pat+st*(n-1)+st*0.5*(pat==2),st,&N); mc_step(); mc_expect("big-arange-n",N==(size_t)n,"N=%zu want %d",N,n); for(int i=0;i<n;i++) mc_expect("big-arange",o[i]==pat+st*i,"entry %d",i); free(o); }
    else if(op==1){ double*z=dzeros(n),*on=dones(n),*dv=darray_val(n,-2.75),*cd=calloc_double(n); int*iz=izeros(n),*ci=calloc_int(n); size_t*cs=calloc_size_t(n); mc_steps(7); for(int i=0;i<n;i++) mc_expect("big-const",z[i]==0&&on[i]==1&&dv[i]==-2.75&&cd[i]==0&&iz[i]==0&&ci[i]==0&&cs[i]==0,"entry %d",i); free(z);free(on);free(dv);free(cd);free(iz);free(ci);free(cs);
        struct c3Vector*c=c3vector_alloc(n,in),*c2=c3vector_copy(c); mc_steps(2); mc_expect("big-c3v",c->size==(size_t)n&&c2->size==(size_t)n&&!memcmp(c->elem,v,8*n)&&!memcmp(c2->elem,v,8*n),"vector"); c->elem[n-1]+=1; mc_expect("big-c3v-indep",c2->elem[n-1]==v[n-1],"shared"); mc_state(mc_hda(mc_h0(),n,c2->elem)); c3vector_free(c); c3vector_free(c2); }
    else if(op==2){ if(n<=300){ double*D=diag(n,in); mc_step(); for(int i=0;i<n*n;i++) mc_expect("big-diag",D[i]==(i/n==i%n?v[i/n]:0),"entry %d",i); free(D); }
        int r=n%37+1,c1=pat?n%41+1:0,c2=pat<2?n/r+1:0; double*A=malloc(8*(r*c1?r*c1:1)),*B=malloc(8*(r*c2?r*c2:1)); for(int i=0;i<r*c1;i++) A[i]=i+1; for(int i=0;i<r*c2;i++) B[i]=-i-0.5; double*o=dconcat_cols(r,c1,c2,A,B); mc_step(); for(int j=0;j<c1+c2;j++) for(int i=0;i<r;i++) mc_expect("big-concat_cols",o[j*r+i]==(j<c1?j*r+i+1:-((j-c1)*r+i)-0.5),"(%d,%d)",i,j); mc_state(mc_hda(mc_h0(),r*(c1+c2),o)); free(o); free(A); free(B);
        double**s=malloc_dd(n),**d=malloc_dd(n); for(int i=0;i<n;i++){ s[i]=calloc_double(r); d[i]=calloc_double(r); for(int j=0;j<r;j++) s[i][j]=i*100.0+j; } copy_dd(n,r,d,s); mc_step(); for(int i=0;i<n;i++) for(int j=0;j<r;j++) mc_expect("big-copy_dd",d[i][j]==i*100.0+j,"(%d,%d)",i,j); free_dd(n,s); free_dd(n,d); }
    else if(op==3){ /* products: all ones but a few factors, at every place */
        for(int q=0;q<n;q+=n>300?n/37:1){ for(int i=0;i<n;i++) in[i]=1; in[q]=3; in[n-1-q]*=-0.5; double w=1; for(int i=0;i<n;i++) w*=in[i]; mc_expect("big-dprod",dprod(n,in)==w,"got %g want %g",dprod(n,in),w); int*ip=malloc(4*n); size_t*sp=malloc(8*n); int wi=1; size_t ws=1; for(int i=0;i<n;i++){ ip[i]=i==q?-7:i==n-1-q?2:1; sp[i]=abs(ip[i]); wi*=ip[i]; ws*=sp[i]; } mc_expect("big-iprod",iprod(n,ip)==wi,"got %d want %d",iprod(n,ip),wi); mc_expect("big-iprod_sz",iprod_sz(n,sp)==ws,"got %zu want %zu",iprod_sz(n,sp),ws); mc_steps(3); free(ip); free(sp); mc_state(mc_hu(mc_hd(mc_hu(mc_h0(),n*8),w),q)); } memcpy(in,v,8*n); }
    else if(op==4){ char*t=serialize_darray_to_text(n,in); mc_step(); size_t N=0; double*o=deserialize_darray_from_text(t,&N); mc_step(); mc_expect("big-tarr-n",N==(size_t)n,"length %zu",N); for(int i=0;i<n;i++) mc_expect("big-tarr",o[i]==v[i],"entry %d: %.17g want %.17g",i,o[i],v[i]); mc_state(hs(t)); free(o); free(t);
        char*pa=serialize_double_arr_packed(n,in); mc_step(); for(int i=0;i<n;i++){ double q=deserialize_double_packed(pa+i*(sizeof(int)+sizeof(long long))); mc_expect("big-packed",q==v[i],"entry %d gives %.17g",i,q); } free(pa);
        size_t tot=8+8*(size_t)n; unsigned char*buf=malloc(tot); memset(buf,0xee,tot); unsigned char*p=serialize_doublep(buf,in,n); mc_step(); mc_expect("big-dp-adv",p==buf+tot,"advanced %td",p-buf); double*w=NULL; N=1; p=deserialize_doublep(buf,&w,&N); mc_step(); mc_expect("big-dp",p==buf+tot&&N==(size_t)n&&!memcmp(w,v,8*n),"array"); free(w); free(buf); }
    else if(op==5||op==6){ int c=pat==0?1:pat==1?n%13+1:n/(n%9+1)+1,r=n/c+1,type=op-5; double*a=malloc(8*r*c),*kp=malloc(8*r*c); for(int i=0;i<r*c;i++) a[i]=kp[i]=bv(2-pat,i); char fn[600]; snprintf(fn,sizeof fn,"%s/b.dat",mc_scratch); int ok=darray_save(r,c,a,fn,type); mc_step(); mc_expect("save-ret",ok==1,"save failed"); mc_expect("save-in",!memcmp(a,kp,8*r*c),"input changed");
        if(!type){ double*o=darray_load(fn,0); mc_step(); mc_expect("big-load",o&&!memcmp(o,kp,8*r*c),"loaded %d x %d array differs",r,c); free(o); }
        else { FILE*f=fopen(fn,"r"); char hd[64]; for(int j=0;j<c;j++){ char w[16]; sprintf(w,"x%d",j); mc_expect("big-head",fscanf(f,"%63s",hd)==1&&!strcmp(hd,w),"header %s",hd); } for(int i=0;i<r;i++) for(int j=0;j<c;j++){ char tk[64]="?"; int m=fscanf(f,"%63s",tk); double x=strtod(tk,NULL),w=kp[j*r+i]; mc_expect("big-text",m==1&&fabs(x-w)<=1e-15*fabs(w),"row %d col %d: %s want %.17g",i,j,tk,w); } mc_expect("big-end",fscanf(f,"%7s",hd)!=1,"extra text"); fclose(f); }
        remove(fn); mc_state(mc_hda(mc_hu(mc_h0(),type),r*c,kp)); free(a); free(kp); }
    else { int nc=pat==0?1:pat==1?n%23+2:n,nr=n/nc; if(nr<1) nr=1; char*b=malloc((size_t)nr*nc*26+2); size_t L=0; double*w=malloc(8*nr*nc); for(int i=0;i<nr;i++){ for(int j=0;j<nc;j++){ w[i*nc+j]=bv(1,i*nc+j); L+=sprintf(b+L,"%.17g%s",w[i*nc+j],j<nc-1?(j%2?" ":", "):""); } if(i<nr-1||n%2) L+=sprintf(b+L,"\n"); } b[L]=0;
        char fn[600]; snprintf(fn,sizeof fn,"%s/t.txt",mc_scratch); FILE*f=fopen(fn,"w"); fputs(b,f); fclose(f); for(int q=0;q<2;q++){ size_t R=0,C=0; double*o; if(q){ f=fopen(fn,"r"); o=readfile_double_array(f,&R,&C); fclose(f); } else { char*s=xs(b); o=readtxt_double_array(s,&R,&C); free(s); } mc_step(); mc_expect("big-readtxt-size",o&&R==(size_t)nr&&C==(size_t)nc,"%zu x %zu want %d x %d",R,C,nr,nc); for(int i=0;i<nr*nc;i++) mc_expect("big-readtxt",o[i]==w[i],"entry %d: %.17g want %.17g",i,o[i],w[i]); free(o); } remove(fn); mc_state(mc_hda(mc_h0(),nr*nc,w)); free(b); free(w); }
    mc_expect("big-in",!memcmp(in,v,8*n),"input changed"); free(v); free(in);
}
const mc_driver mc_drivers[]={{"bigstr",d_bigstr,1,MC_BOTH},{"bigarr",d_bigarr,1,MC_BOTH},{"strip",d_strip,1,MC_BOTH},{"bite",d_bite,1,MC_BOTH},{"parse",d_parse,1,MC_BOTH},{"concat",d_concat,1,MC_BOTH},{"itoa",d_itoa,1,MC_BOTH},{"prim",d_prim,1,MC_BOTH},
 {"text",d_text,1,MC_BOTH},{"textarr",d_textarr,1,MC_BOTH},{"readtxt",d_readtxt,1,MC_BOTH},{"file",d_file,1,MC_BOTH},{"vec",d_vec,1,MC_BOTH},{"range",d_range,1,MC_BOTH},{"cat",d_cat,1,MC_BOTH},{"prod",d_prod,1,MC_BOTH},{"rand",d_rand,1,MC_BOTH},{"poisson",d_poisson,1,MC_BOTH},{0}};
