/* C17: function monitor (memoisation), string-keyed hash table, pair lists, stored evaluations: all histories up to a depth. */
#include "mc.h"
#include "array.h"
#include "monitoring.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
const char *mc_property="C17";
static int ncalls; static void*seen_arg; static double lastx[16]; static size_t cdim;
static double VAL[64]; static int fkind;
static double fval(const double*x,size_t d){ double s=0.37; switch(fkind){ case 0: for(size_t i=0;i<d;i++) s=s*1.7+(i+1)*x[i]; return s; case 1: return 0.0; case 2: for(size_t i=0;i<d;i++) s*=x[i]-0.25; return -s*1e-300; case 3: for(size_t i=0;i<d;i++) s+=x[i]; return s*1e290; default: return x[0]==0.5?0.0:x[d-1]*1e-310; } }
static double wrapped(const double*x,void*a){ ncalls++; seen_arg=a; memcpy(lastx,x,cdim*sizeof(double)); return fval(x,cdim); }
/* histories of evaluations of one or two monitors */
static void d_monitor(void)
{
    static const size_t TS[]={1,2,7,1000}; size_t d=1+mc_choose(3,"dim"); size_t ts=TS[mc_choose(4,"table")]; fkind=mc_choose(5,"f"); mc_shard(); cdim=d; int marker;
    double pool[6][3]; double e=0.3; /* neighbours, permutations, sign, scale, shared coordinates */
    for(size_t j=0;j<d;j++){ pool[0][j]=e+0.1*j; pool[1][j]=pool[0][d-1-j]; pool[2][j]=pool[0][j]; pool[3][j]=-pool[0][j]; pool[4][j]=pool[0][j]*1e6; pool[5][j]=0.5; }
    pool[2][d-1]=nextafter(pool[0][d-1],1); if(d==1) pool[1][0]=nextafter(pool[0][0],0);
    struct FunctionMonitor*fm=function_monitor_initnd(wrapped,&marker,d,ts); int L=mc_thorough?6:(ts==1000?4:5),known[6]={0},nd=0; int np=6; ncalls=0;
    double*x=malloc(d*sizeof(double));
    for(int k=0;k<L;k++){ int p=mc_choose(np,"pt"); memcpy(x,pool[p],d*sizeof(double)); mc_note("eval p%d ",p); seen_arg=NULL; double v=function_monitor_eval(x,fm); mc_step();
        mc_expect("mon-x",!memcmp(x,pool[p],d*sizeof(double)),"point changed");
        if(!known[p]){ known[p]=1; nd++; mc_expect("mon-arg",seen_arg==&marker&&!memcmp(lastx,pool[p],d*sizeof(double)),"wrapped function called with other arguments"); }
        mc_expect("mon-count",ncalls==nd,"%d calls for %d distinct points",ncalls,nd); double w=fval(pool[p],d);
        mc_expect("mon-val",v==w,"value %.17g want %.17g",v,w); mc_expect("mon-stored",nstored_hashtable_cp(fm->evals)==(size_t)nd,"%zu stored want %d",nstored_hashtable_cp(fm->evals),nd); }
    uint64_t h=mc_hu(mc_h0(),d*64+fkind); for(int i=0;i<6;i++) h=mc_hu(h,known[i]); mc_state(h);
    /* the log lists every known pair exactly once, and reading it leaves the cache usable */
    if(fkind==0||fkind==1){ char fn[600]; snprintf(fn,sizeof fn,"%s/m.txt",mc_scratch); FILE*f=fopen(fn,"w"); function_monitor_print_to_file(fm,f); fclose(f); mc_step(); f=fopen(fn,"r"); char tk[256];
        for(size_t j=0;j<=d;j++){ char w[8]; if(j<d) sprintf(w,"x%zu",j); else strcpy(w,"f"); mc_expect("log-head",fscanf(f,"%255s",tk)==1&&!strcmp(tk,w),"header %s",tk); }
        int rows=0,hit[6]={0}; double r[4]; for(;;){ size_t j=0; for(;j<=d;j++) if(fscanf(f,"%lf",&r[j])!=1) break; if(j==0) break; mc_expect("log-row",j==d+1,"short row"); rows++;
            for(int p=0;p<6;p++) if(known[p]){ int ok=fabs(r[d]-fval(pool[p],d))<1e-13*(1+fabs(r[d])); for(size_t q=0;q<d;q++) ok=ok&&fabs(r[q]-pool[p][q])<1e-14*(1+fabs(r[q])); if(ok) hit[p]=1; } }
        fclose(f); remove(fn); mc_expect("log-n",rows==nd,"%d rows for %d points",rows,nd); for(int p=0;p<6;p++) mc_expect("log-hit",hit[p]==known[p],"point %d missing in the log",p);
        for(int p=0;p<6;p++) if(known[p]){ double v=function_monitor_eval(pool[p],fm); mc_step(); mc_expect("mon-again",v==fval(pool[p],d)&&ncalls==nd,"value %g after printing, %d calls",v,ncalls); } }
    function_monitor_free(fm); free(x);
}
/* monitors do not share anything */
static double w2(const double*x,void*a){ (void)a; return 2*x[0]+1; }
static void d_two(void)
{
    cdim=1; fkind=0; int L=mc_thorough?7:6; struct FunctionMonitor*a=function_monitor_initnd(wrapped,NULL,1,3),*b=function_monitor_initnd(w2,NULL,1,3); ncalls=0; int ka[2]={0},n=0;
    for(int k=0;k<L;k++){ int m=mc_choose(2,"which"),p=mc_choose(2,"pt"); if(k==2) mc_shard(); double x=p+0.5; double v=function_monitor_eval(&x,m?b:a); mc_step(); if(!m&&!ka[p]){ ka[p]=1; n++; } mc_expect("two",v==(m?2*x+1:fval(&x,1)),"value %g",v); mc_expect("two-n",ncalls==n,"calls %d want %d",ncalls,n); }
    mc_state(mc_hu(mc_h0(),n*4+ka[0]*2+ka[1])); function_monitor_free(a); function_monitor_free(b); function_monitor_free(NULL);
}
/* hash table as a map, keys collide in the hash or share prefixes */
static void d_hash(void)
{
    static char*K[]={"Aa","BB","","A","AaB","BBA"}; static const double V[]={0,-1.25,3e-300};
    size_t ts=1+mc_choose(4,"size"); mc_shard(); struct HashtableCpair*ht=create_hashtable_cp(ts); mc_expect("ht-null",create_hashtable_cp(0)==NULL,"empty table");
    double map[6]; int has[6]={0},n=0; int L=mc_thorough?5:4;
    for(int k=0;k<L;k++){ int key=mc_choose(6,"key"); int op=mc_choose(4,"op"); mc_note("%s(%s) ",op<3?"add":"get",K[key]); char*ks=malloc(strlen(K[key])+1); strcpy(ks,K[key]);
        mc_expect("hash-range",hashsimple(ts,ks)<ts,"bucket");
        if(op<3){ char*b=serialize_double_packed(V[op]); struct Cpair*cp=cpair_create(ks,b); memset(b,0,12); free(b); int r=add_cpair(ht,cp); mc_step(); mc_expect("add-ret",r==(has[key]?2:0),"returned %d",r); if(!has[key]){ has[key]=1; map[key]=V[op]; n++; }
            cp->a[0]='\0'; cpair_free(cp); }
        else { char*o=lookup_key(ht,ks); mc_step(); mc_expect("get-has",(o!=NULL)==has[key],"key %s %s",K[key],o?"found":"missing"); if(o){ memset(o,0,12); free(o); } }
        mc_expect("get-key",!strcmp(ks,K[key]),"key changed"); free(ks);
        for(int i=0;i<6;i++){ char*o=lookup_key(ht,K[i]); mc_step(); mc_expect("map-has",(o!=NULL)==has[i],"key \"%s\" %s",K[i],o?"found":"missing"); if(o){ mc_expect("map-val",deserialize_double_packed(o)==map[i],"key \"%s\"",K[i]); free(o); } }
        mc_expect("map-n",nstored_hashtable_cp(ht)==(size_t)n,"%zu stored want %d",nstored_hashtable_cp(ht),n); }
    uint64_t h=mc_hu(mc_h0(),ts); for(int i=0;i<6;i++) h=has[i]?mc_hd(mc_hu(h,i),map[i]):h; mc_state(h); free_hashtable_cp(ht); free_hashtable_cp(NULL);
}
static void d_list(void)
{
    static char*K[]={"a","ab","b"}; static const double V[]={0,1,-1}; int n=mc_choose(mc_thorough?6:5,"n"); int k[6],v[6]; struct PairList*l=NULL;
    for(int i=0;i<n;i++){ k[i]=mc_choose(3,"k"); v[i]=mc_choose(3,"v"); if(i==0) mc_shard(); char*b=serialize_double_packed(V[v[i]]); struct Cpair*cp=cpair_create(K[k[i]],b); pair_push(&l,cp); mc_step(); cp->a[0]='#'; memset(cp->b,0,12); cpair_free(cp); free(b);
        mc_expect("list-len",pair_list_len(l)==(size_t)i+1,"length %zu",pair_list_len(l)); } if(n==0) mc_shard();
    struct PairList*c=l; for(int i=n-1;i>=0;i--){ mc_expect("list-order",c&&!strcmp(c->data->a,K[k[i]])&&deserialize_double_packed(c->data->b)==V[v[i]],"element %d",i); c=c->next; } mc_expect("list-end",c==NULL,"too long");
    for(int a=0;a<3;a++) for(int b=0;b<3;b++){ char*bb=serialize_double_packed(V[b]); struct Cpair*cp=cpair_create(K[a],bb); size_t w=0; for(int i=n-1;i>=0;i--) if(k[i]==a&&v[i]==b){ w=n-i; break; } size_t g=pair_list_index(l,cp); mc_step(); mc_expect("list-index",g==w,"index %zu want %zu",g,w);
        struct Cpair*c2=copy_cpair(cp); mc_expect("pair-eq",cpair_isequal(cp,c2)==1&&c2->a!=cp->a,"copy differs"); cpair_free(c2);
        for(int a2=0;a2<3;a2++) for(int b2=0;b2<3;b2++){ char*b3=serialize_double_packed(V[b2]); struct Cpair*o=cpair_create(K[a2],b3); mc_expect("pair-neq",cpair_isequal(cp,o)==(a==a2&&b==b2),"equality"); cpair_free(o); free(b3); }
        cpair_free(cp); free(bb); }
    pair_list_delete(&l); mc_expect("list-del",l==NULL&&pair_list_len(l)==0,"not empty"); uint64_t h=mc_hu(mc_h0(),n); for(int i=0;i<n;i++) h=mc_hu(h,k[i]*3+v[i]); mc_state(h);
}
static void d_store(void)
{
    int n=mc_choose(mc_thorough?6:5,"n"); struct storevals*s=NULL; int p[6]; for(int i=0;i<n;i++){ p[i]=mc_choose(4,"p"); if(i==1) mc_shard(); double*x=malloc(16); x[0]=p[i]*0.5; x[1]=i; PushVal(&s,2,x,p[i]-2.25); mc_step(); x[0]=99; free(x); } if(n<2) mc_shard();
    struct storevals*c=s; for(int i=n-1;i>=0;i--){ mc_expect("store",c&&c->dim==2&&c->x[0]==p[i]*0.5&&c->x[1]==i&&c->f==p[i]-2.25,"entry %d",i); c=c->next; } mc_expect("store-end",c==NULL,"too long");
    char fn[600]; snprintf(fn,sizeof fn,"%s/s.txt",mc_scratch); FILE*f=fopen(fn,"w"); PrintVals2d(f,s); fclose(f); mc_step(); f=fopen(fn,"r"); char a[8],b[8],cc[8]; mc_expect("print-head",fscanf(f,"%7s %7s %7s",a,b,cc)==3,"header"); double x,y,v; for(int i=n-1;i>=0;i--){ mc_expect("print-row",fscanf(f,"%lf %lf %lf",&x,&y,&v)==3&&x==p[i]*0.5&&y==i&&fabs(v-(p[i]-2.25))<0.0051,"row %d",i); } mc_expect("print-end",fscanf(f,"%lf",&x)!=1,"extra rows"); fclose(f); remove(fn);
    DeleteStoredVals(&s); mc_step(); mc_expect("store-del",s==NULL,"not empty"); uint64_t h=mc_hu(mc_h0(),n); for(int i=0;i<n;i++) h=mc_hu(h,p[i]); mc_state(h);
}
/* many points in more variables: every point is evaluated once, every later request is answered from the cache */
static void d_many(void)
{
    static const size_t TS[]={1,3,64,1009}; size_t d=(size_t[]){1,2,4,7,12}[mc_choose(5,"dim")],ts=TS[mc_choose(4,"table")]; int n=(int[]){40,150,400}[mc_choose(3,"points")]; mc_shard(); int kind=mc_choose(4,"lattice"),ord=mc_choose(3,"order"); if(ts==1&&n==400) mc_skip(); fkind=0; cdim=d; int marker; ncalls=0;
    double*X=calloc(n*d,sizeof(double)); for(int i=0;i<n;i++) for(size_t j=0;j<d;j++){ int q=i; for(size_t z=0;z<j;z++) q/=3; double v=kind==0?(j==d-1?q:q%3)*0.25:kind==1?((j==0?i:q%3)+1)*1.0/3:kind==2?1.0+(j==d-1?i:0)*2.220446049250313e-16:ldexp(1.0+(j==d/2?i:(int)j)/512.0,(int)((i%5)*60*(j%2?1:-1))); X[i*d+j]=(i%2&&kind!=2?-1:1)*v; }
    if(kind==0) for(int i=0;i<n;i++) for(size_t j=0;j<d;j++) X[i*d+j]=fabs(X[i*d+j])+0.125;
    struct FunctionMonitor*fm=function_monitor_initnd(wrapped,&marker,d,ts); mc_key("d%zu",d);
    for(int p=0;p<2;p++) for(int k=0;k<n;k++){ int i=ord==0?k:ord==1?n-1-k:(k*7)%n; if(ord==2&&n%7==0) i=k; seen_arg=NULL; int c=ncalls; double v=function_monitor_eval(X+i*d,fm); mc_step(); mc_expect("many-val",v==fval(X+i*d,d),"value %.17g want %.17g",v,fval(X+i*d,d)); if(p==0) mc_expect("many-call",ncalls==c+1&&seen_arg==&marker&&!memcmp(lastx,X+i*d,d*sizeof(double)),"point %d: %d calls",i,ncalls-c); else mc_expect("many-cache",ncalls==c,"known point %d evaluated again",i); }
    mc_expect("many-stored",nstored_hashtable_cp(fm->evals)==(size_t)n,"%zu stored",nstored_hashtable_cp(fm->evals)); mc_state(mc_hu(mc_hda(mc_h0(),n*d,X),ts)); function_monitor_free(fm); free(X);
}
/* long keys, many of them */
static void d_keys(void)
{
    size_t ts=(size_t[]){1,5,101}[mc_choose(3,"size")]; int n=(int[]){30,120,300}[mc_choose(3,"keys")],len=(int[]){1,9,60,400}[mc_choose(4,"length")]; mc_shard(); int pos=mc_choose(3,"difference"); if(len<4&&pos) mc_skip(); struct HashtableCpair*ht=create_hashtable_cp(ts); char*k=malloc(len+8),*v=NULL;
    #define KEY(i) do{ memset(k,'a',len+6); k[len+6]=0; char t[8]; sprintf(t,"%04d",i); memcpy(k+(pos==0?len+2:pos==1?0:len/2),t,4); free(v); v=serialize_double_packed((i)*3-100.25); }while(0)
    for(int i=0;i<n;i++){ KEY(i); struct Cpair*c=cpair_create(k,v); int r=add_cpair(ht,c); mc_step(); mc_expect("keys-add",r==0,"return %d",r); memset(k,'#',len+6); cpair_free(c); if(i%7==3){ KEY(i-2); char*o=lookup_key(ht,k); mc_expect("keys-get",o&&deserialize_double_packed(o)==(i-2)*3-100.25,"key %d",i-2); free(o); } }
    for(int i=n-1;i>=0;i--){ KEY(i); char*o=lookup_key(ht,k); mc_step(); mc_expect("keys-get",o&&deserialize_double_packed(o)==i*3-100.25,"key %d of length %d",i,len); free(o); } KEY(n); char*o=lookup_key(ht,k); mc_expect("keys-absent",o==NULL,"key that was never stored"); mc_expect("keys-n",nstored_hashtable_cp(ht)==(size_t)n,"%zu stored",nstored_hashtable_cp(ht)); mc_state(mc_hu(mc_hu(mc_h0(),ts),n*1000+len)); free_hashtable_cp(ht); free(k); free(v);
}
const mc_driver mc_drivers[]={{"monitor",d_monitor,1,MC_BOTH},{"two",d_two,1,MC_BOTH},{"hash",d_hash,1,MC_BOTH},{"list",d_list,1,MC_BOTH},{"store",d_store,1,MC_BOTH},{"many",d_many,1,MC_BOTH},{"keys",d_keys,1,MC_BOTH},{0}};
