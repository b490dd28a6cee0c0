From 33afafb060145975f9e85ae2aa67a8cedc337a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 01/86] fix: fejer2 returned truncated Clenshaw-Curtis weights
 that do not integrate constants

---
 c3/lib_quadrature/quadrature.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c3/lib_quadrature/quadrature.c b/c3/lib_quadrature/quadrature.c
index 944c92c..791dbf2 100755
--- a/c3/lib_quadrature/quadrature.c
+++ b/c3/lib_quadrature/quadrature.c
@@ -199,10 +199,18 @@ void fejer2(size_t N, double * pts, double * weights){
 
         clenshaw_curtis(N+2,ptemp,wtemp);
         memmove(pts,ptemp+1,N*sizeof(double));
-        memmove(weights,wtemp+1,N*sizeof(double));
-        //dprint(N,pts);
         free(ptemp); ptemp = NULL;
         free(wtemp); wtemp = NULL;
+
+        for (size_t ii = 0; ii < N; ii++){
+            double theta = (double)(ii+1) * M_PI / (double)(N+1);
+            weights[ii] = 0.0;
+            for (size_t jj = 1; jj <= (N+1)/2; jj++){
+                double odd = (double)(2*jj-1);
+                weights[ii] += sin(odd * theta) / odd;
+            }
+            weights[ii] *= 4.0 * sin(theta) / (double)(N+1);
+        }
     }
     else{
         clenshaw_curtis(N,pts,weights);
-- 
2.43.0


From 3517ac766c8158a9c749a487b58dfae17afd8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 02/86] fix: getLegPtsWts2 read past its 199-entry tables for
 n=200

---
 c3/lib_quadrature/legquadrules2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_quadrature/legquadrules2.c b/c3/lib_quadrature/legquadrules2.c
index 2d1fc8c..8dd41a8 100644
--- a/c3/lib_quadrature/legquadrules2.c
+++ b/c3/lib_quadrature/legquadrules2.c
@@ -649,7 +649,7 @@ pts1, pts2, pts3, pts4, pts5, pts6, pts7, pts8, pts9, pts10, pts11, pts12, pts13
 
 int getLegPtsWts2(size_t n, double ** pts, double ** wts)
 {  
-	 if ((n < 1) || (n > 200)){
+	 if ((n < 1) || (n > 199)){
  	 	 return 1;
 	 }
 	 *pts = legpts[n-1];
-- 
2.43.0


From 9bd0ea53446b13927f43d99036bf8eff6a61e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:36 +0000
Subject: [PATCH 03/86] fix: orth_poly_expansion_sum3_up lost y's coefficients
 and used freed memory

---
 c3/lib_funcs/polynomials.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 2808cbb..e44fd72 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -4741,7 +4741,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             for (ii = x->num_poly; ii < y->num_poly; ii++){
                 z->coeff[ii] = c*z->coeff[ii] + b*y->coeff[ii];
             }
-            for (ii = x->num_poly; ii < z->num_poly; ii++){
+            for (ii = y->num_poly; ii < z->num_poly; ii++){
                 z->coeff[ii] = c*z->coeff[ii];
             }
         }
@@ -4765,6 +4765,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             z->coeff[ii] = b*y->coeff[ii];
         }
         z->num_poly = y->num_poly;
+        z->nalloc = z->num_poly;
     }
     else if ( (z->num_poly < x->num_poly) && ( z->num_poly >= y->num_poly) ){
         double * temp = realloc(z->coeff, (x->num_poly)*sizeof(double));
@@ -4785,6 +4786,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             z->coeff[ii] = a*x->coeff[ii];
         }
         z->num_poly = x->num_poly;
+        z->nalloc = z->num_poly;
     }
     else if ( x->num_poly <= y->num_poly){
         double * temp = realloc(z->coeff, (y->num_poly)*sizeof(double));
@@ -4792,6 +4794,9 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        else{
+            z->coeff = temp;
+        }
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
@@ -4802,6 +4807,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             z->coeff[ii] = b*y->coeff[ii];
         }
         z->num_poly = y->num_poly;
+        z->nalloc = z->num_poly;
     }
     else if (y->num_poly <= x->num_poly) {
         double * temp = realloc(z->coeff, (x->num_poly)*sizeof(double));
@@ -4809,6 +4815,9 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             fprintf(stderr,"cannot allocate new size fo z-coeff in sum3_up\n");
             exit(1);
         }
+        else{
+            z->coeff = temp;
+        }
         for (ii = 0; ii < z->num_poly; ii++){
             z->coeff[ii] = c*z->coeff[ii]+a*x->coeff[ii]+b*y->coeff[ii];
         }
@@ -4819,6 +4828,7 @@ orth_poly_expansion_sum3_up(double a, struct OrthPolyExpansion * x,
             z->coeff[ii] = a*x->coeff[ii];
         }
         z->num_poly = x->num_poly;
+        z->nalloc = z->num_poly;
     }
     else{
         fprintf(stderr,"Haven't accounted for anything else?! %zu %zu %zu\n", 
-- 
2.43.0


From 9652af224bb69c5810277691ac32a5fda06ea8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:06 +0000
Subject: [PATCH 04/86] fix: last coefficient of const_elem_exp_deriv was
 computed from an already overwritten one

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 3a31952..f389e50 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -697,7 +697,7 @@ struct ConstElemExp * const_elem_exp_deriv(const struct ConstElemExp * f)
     for (size_t ii = 1; ii < le->num_nodes-1; ii++){
         le->coeff[ii] = (le->coeff[ii+1] - le->coeff[ii]) / (le->nodes[ii+1] - le->nodes[ii]);
     }
-    le->coeff[le->num_nodes-1] = (le->coeff[le->num_nodes-1] - le->coeff[le->num_nodes-2]) /
+    le->coeff[le->num_nodes-1] = (f->coeff[le->num_nodes-1] - f->coeff[le->num_nodes-2]) /
         (le->nodes[le->num_nodes-1] - le->nodes[le->num_nodes-2]);
 
     return le;
-- 
2.43.0


From c7c36bb8d589c3dd4d10de57284c5ff2fa45594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:06 +0000
Subject: [PATCH 05/86] fix: const_elem_exp_aopts_alloc left the upper bound
 unset

---
 c3/lib_funcs/constelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index f389e50..21eac5a 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -110,7 +110,7 @@ struct ConstElemExpAopts * const_elem_exp_aopts_alloc(size_t N, double * x)
     aopts->node_alloc = 0;
     aopts->nodes = x;
     aopts->lb = x[0];
-    aopts->lb = x[N-1];
+    aopts->ub = x[N-1];
         
     aopts->adapt = 0;
     aopts->delta = DBL_MAX;
-- 
2.43.0


From e4908627aa7e18584f7445cfcbe9195addc416c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 06/86] fix: second derivative of a three-term Chebyshev
 expansion ignored the domain scaling

---
 c3/lib_funcs/polynomials.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index e44fd72..66d8988 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -2359,7 +2359,7 @@ double cheb_expansion_dderiv_eval(const struct OrthPolyExpansion * poly, double
         return 0.0;
     }
     else if (poly->num_poly == 3){
-        return poly->coeff[2] * 4.0;
+        return poly->coeff[2] * 4.0 * dmult * dmult;
     }
 
     double x_norm = space_mapping_map(poly->space_transform,x);
-- 
2.43.0


From eb0430af2f970825272915afaaf5b6a1ddc8ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 07/86] fix: orth_poly_expansion_roundt never computed the
 energy it truncates against and kept a single term

---
 c3/lib_funcs/polynomials.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 66d8988..393b9a0 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3595,6 +3595,9 @@ void orth_poly_expansion_roundt(struct OrthPolyExpansion ** p, double thresh)
     
     size_t jj = 0;
     double sum = 0.0;
+    for (jj = 0; jj < (*p)->num_poly; jj++){
+        sum += pow((*p)->coeff[jj],2);
+    }
     /* double maxval = fabs((*p)->coeff[0]); */
 	/* for (jj = 1; jj < (*p)->num_poly;jj++){ */
     /*     sum += pow((*p)->coeff[jj],2); */
-- 
2.43.0


From 4d3830d4113e8d67c171d8c423de06401b568aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 08/86] fix: lin_elem_exp_err_est used a difference in place of
 a slope past the second element

---
 c3/lib_funcs/linelm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 746fb23..38b4c59 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1735,7 +1735,7 @@ double lin_elem_exp_err_est(struct LinElemExp * f, double * errs, short dir, sho
     double m3,mid3;
     for (size_t ii = 2; ii < f->num_nodes-1; ii++){
         dx2 = (f->nodes[ii+1]-f->nodes[ii]);
-        m3 = (f->coeff[ii+1]-f->coeff[ii]);
+        m3 = (f->coeff[ii+1]-f->coeff[ii])/dx2;
         mid3 = (f->nodes[ii+1] + f->nodes[ii])/2.0;
         if (dir == 1){
             err = (m3-m2)/(mid3-mid2);
-- 
2.43.0


From 800ed0505b1cf039694c36dd65fbaca06db4ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 09/86] fix: lin_elem_exp_axpy kept the periodic Laplacian of
 the old nodes after changing the nodes

---
 c3/lib_funcs/linelm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 38b4c59..5b66d3a 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1524,6 +1524,7 @@ int lin_elem_exp_axpy(double a,
         free(g->nodes); g->nodes = x;
 //        printf("bad!\n");
         free(g->coeff); g->coeff = coeff;
+        free(g->Lp); g->Lp = NULL; // operator belongs to the old nodes
 //        printf("word\n");
     }
     return res;
-- 
2.43.0


From 2d6b3b7ea3f725965b68b18be650766831020846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 10/86] fix: lin_elem_exp_onezero built wrong nodes in adaptive
 mode (no zeros, unsorted zeros, zero at the lower bound)

---
 c3/lib_funcs/linelm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 5b66d3a..7471560 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -2386,6 +2386,8 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct LinElemExp * le = lin_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -2405,7 +2407,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -2445,7 +2447,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -2470,6 +2472,7 @@ lin_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_lin_elem_exp(le,3,NULL,stdout); */
             return le;
         }
-- 
2.43.0


From af3f1c7eaa6e6c473b55426a97d9c973e09e8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:45 +0000
Subject: [PATCH 11/86] fix: const_elem_exp_onezero built wrong nodes in
 adaptive mode (no zeros, unsorted zeros, zero at the lower bound)

---
 c3/lib_funcs/constelm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 21eac5a..26cd0e7 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -1607,6 +1607,8 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
         if (nzeros == 0){
             double * nodes = calloc_double(2);
             double * coeff = calloc_double(2);
+            nodes[0] = opts->lb;
+            nodes[1] = opts->ub;
             struct ConstElemExp * le = const_elem_exp_init(2,nodes,coeff);
             le->coeff[0] = 1.0;
             free(nodes); nodes = NULL;
@@ -1626,7 +1628,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             if (difflb < 1e-14){
                 onlb = 1;
             }
-            double diffub = fabs(zero_locs[nzeros-1]-opts->ub);
+            double diffub = fabs(sorted_arr[nzeros-1]-opts->ub);
             if (diffub < 1e-14){
                 onub = 1;
             }
@@ -1666,7 +1668,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
                 nodes[0] = opts->lb;
                 coeff[0] = 0.0;
                 for (size_t jj = 1; jj < nzeros; jj++){
-                    nodes[jj] = sorted_arr[jj-1];
+                    nodes[jj] = sorted_arr[jj];
                     coeff[jj] = 0.0;
                 }
                 nodes[nzeros] = opts->ub;
@@ -1691,6 +1693,7 @@ const_elem_exp_onezero(size_t nzeros, double * zero_locs,
             else{
                 assert (1 == 0);
             }
+            free(sorted_arr); sorted_arr = NULL;
             /* print_const_elem_exp(le,3,NULL,stdout); */
             return le;
         }
-- 
2.43.0


From 96257af9e0a3df278fa65b663fb6c95987f0c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 12/86] fix: function_train_operate left the leading rank of
 its result at zero

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index b430784..dc1489f 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -261,7 +261,7 @@ function_train_operate(const struct FunctionTrain * ft,
 {
 
     struct FunctionTrain * ft_out = function_train_alloc(ft->dim);
-    ft_out->ranks[1] = ft->ranks[1];
+    ft_out->ranks[0] = ft->ranks[0];
     for (size_t ii = 0; ii < ft_out->dim; ii++){
         ft_out->cores[ii] = qmarray_operate_elements(ft->cores[ii],
                                                      op[ii]);
-- 
2.43.0


From 4b27c08b669aa88eaf2faadd7c872762ce6c8666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 13/86] fix: function_train_eval_up_to_core stopped one core
 short of the documented core

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index dc1489f..8c4fb70 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -700,7 +700,7 @@ void function_train_eval_up_to_core(struct FunctionTrain * ft, size_t core, cons
         ft->cores[ii]->funcs, x[ii],t1);
     
     int onsol = 1;
-    for (ii = 1; ii < core; ii++){
+    for (ii = 1; ii <= core; ii++){
         if (ii%2 == 1){
             function_train_eval_next_core(ft,ii,1,x+ii,0,t1,0,t2,0,t3,0); // zeros because only 1 data point
             onsol = 2;
-- 
2.43.0


From a6dd1a6ad286178fb73af3a6e84aa524718caf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 14/86] fix: function_train_quadratic_aligned built the last
 core with another dimension's options

---
 c3/lib_clinalg/ft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 8c4fb70..9b8ed01 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2086,7 +2086,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
         }
 
         onDim = dim-1;
-
+        o = multi_approx_opts_get_aopts(aopts,onDim);
         ft->ranks[onDim] = 2;
         ft->ranks[onDim+1] = 1;
         ft->cores[onDim] = qmarray_alloc(2,1);
-- 
2.43.0


From 8965f26207a8822510aac0b33c785b2586981263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 15/86] fix: one-variable trains from function_train_linear,
 quadratic_aligned and initsum had a zero trailing rank (initsum also wrote
 out of bounds)

---
 c3/lib_clinalg/ft.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 9b8ed01..82cd843 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -1618,6 +1618,7 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -1625,10 +1626,9 @@ function_train_initsum(struct MultiApproxOpts * ftargs, struct Fwrap * fw)
 
     ft->cores[onDim]->funcs[0] = 
         generic_function_approximate1d(aopt->fc,aopt->aopts,fw);
-    ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
-                                                           aopt->aopts);
-
     if (dim > 1){
+        ft->cores[onDim]->funcs[1] = generic_function_constant(1.0, aopt->fc, 
+                                                               aopt->aopts);
         for (onDim = 1; onDim < dim-1; onDim++){
 
             fwrap_set_which_eval(fw,onDim);
@@ -1771,6 +1771,7 @@ function_train_linear(const double * c, size_t ldc,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
@@ -2051,6 +2052,7 @@ function_train_quadratic_aligned(const double * coeffs, const double * m,
     ft->ranks[onDim] = 1;
     if (dim == 1){
         ft->cores[onDim] = qmarray_alloc(1,1);
+        ft->ranks[onDim+1] = 1;
     }
     else{
         ft->cores[onDim] = qmarray_alloc(1,2);
-- 
2.43.0


From ba542cf07dbe3c581c56d7f0c3b78f62d5fea6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 16/86] fix: c3gemv freed the caller's train and lost its
 result

---
 c3/lib_clinalg/ft.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 82cd843..e5e7b31 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4592,6 +4592,15 @@ double c3dot(struct FunctionTrain * x, struct FunctionTrain * y)
 
 
 
+/* move the contents of src into dst, releasing what dst held, and free src */
+static void c3gemv_move(struct FunctionTrain * dst, struct FunctionTrain * src)
+{
+    struct FunctionTrain temp = *dst;
+    *dst = *src;
+    *src = temp;
+    function_train_free(src);
+}
+
 /***********************************************************//**
     Computes
     \f[
@@ -4626,7 +4635,9 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             function_train_free(temp); temp = NULL;
             function_train_free(tempround); tempround = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        struct FunctionTrain * res = function_train_copy(y);
+        c3axpy(alpha,run,&res,epsilon,opts);
+        c3gemv_move(y,res);
         function_train_free(run); run = NULL;
         function_train_free(runinit); runinit = NULL;
     }
@@ -4638,7 +4649,9 @@ void c3gemv(double alpha, size_t n, struct FT1DArray * A, size_t inca,
             c3axpy(1.0,temp,&run,epsilon,opts);
             function_train_free(temp); temp = NULL;
         }
-        c3axpy(alpha,run,&y,epsilon,opts);
+        struct FunctionTrain * res = function_train_copy(y);
+        c3axpy(alpha,run,&res,epsilon,opts);
+        c3gemv_move(y,res);
         function_train_free(run); run = NULL;
     }
        
-- 
2.43.0


From 81cd3f6443d623ca008b84437e22aa0b25589bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 17/86] fix: c3vgemv accumulated into unallocated trains and
 always aborted

---
 c3/lib_clinalg/ft.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index e5e7b31..90bd243 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4764,15 +4764,11 @@ void c3vgemv(size_t m, size_t n, double alpha, struct FT1DArray * A, size_t lda,
     assert (*y != NULL);
     ft1d_array_scale(*y,m,incy,beta);
     
-    struct FT1DArray * run = ft1d_array_alloc(m);
     for (ii = 0; ii < m; ii++){
         struct FT1DArray ftatemp;
         ftatemp.ft = A->ft+ii;
-        c3vprodsum(n,1.0,&ftatemp,lda,x,incx,0.0,&(run->ft[ii*incy]),epsilon, opts);
+        c3vprodsum(n,alpha,&ftatemp,lda,x,incx,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
     }
-    c3vaxpy(m,alpha,run,1,y,incy,epsilon, opts);
-
-    ft1d_array_free(run); run = NULL;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 6dffe7a19d8e71cddf9dc5507acd26a56e73b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 18/86] fix: c3vgemv_arr applied beta twice

---
 c3/lib_clinalg/ft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 90bd243..5d19ad1 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4792,12 +4792,12 @@ void c3vgemv_arr(int trans, size_t m, size_t n, double alpha, double * A,
         
     if (trans == 0){
         for (ii = 0; ii < m; ii++){
-            c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,beta,&((*y)->ft[ii*incy]),epsilon, opts);
+            c3vaxpy_arr(n,alpha,B,incb,A+ii,lda,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
         }
     }
     else if (trans == 1){
         for (ii = 0; ii < m; ii++){
-            c3vaxpy_arr(n,alpha,B,incb,A+ii*lda,1,beta,&((*y)->ft[ii*incy]),epsilon, opts);
+            c3vaxpy_arr(n,alpha,B,incb,A+ii*lda,1,1.0,&((*y)->ft[ii*incy]),epsilon, opts);
         }
     }
 }
-- 
2.43.0


From 74631226ef283944805f647a47c7c66a3f171bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 19/86] fix: qmatqmat stored its entries transposed and
 collided on non-square results

---
 c3/lib_clinalg/qmarray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index b6b2d4a..ae83897 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -958,7 +958,7 @@ qmatqmat(const struct Qmarray * a, const struct Qmarray * b)
     for (jj = 0; jj < b->nrows; jj++){
         for (ii = 0; ii < a->ncols; ii++){
             // c[jj*a->ncols+ii] = a[:,ii]^T b[jj,:]
-            c->funcs[ii*c->nrows+jj] =  generic_function_sum_prod(b->ncols, 1, 
+            c->funcs[jj*c->nrows+ii] =  generic_function_sum_prod(b->ncols, 1, 
                     a->funcs + ii*a->nrows, b->nrows, b->funcs + jj);
         }
     }
@@ -1218,8 +1218,7 @@ qmarray_vec_kron(const double * a,const struct Qmarray * b,const struct Qmarray
 
     struct Qmarray * temp = qmatm(b,a,c->nrows); // b->ncols * c->ncols
     //printf("got qmatm\n");
-    //d = qmaqma(temp,c);
-    d = qmatqmat(c,temp);
+    d = qmaqma(temp,c);
     qmarray_free(temp); temp = NULL;
     return d;
 }
-- 
2.43.0


From ae4a137897e4d9a78ed71fcd8a1ed3823f8e496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 20/86] fix: destroy_operator_for_laplace lost its arrays after
 the first dimension

---
 c3/lib_clinalg/diffusion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/diffusion.c b/c3/lib_clinalg/diffusion.c
index b38f5d4..9c16fd5 100644
--- a/c3/lib_clinalg/diffusion.c
+++ b/c3/lib_clinalg/diffusion.c
@@ -829,8 +829,8 @@ void destroy_operator_for_laplace(struct OperatorForLaplace * op)
 {
     if (op != NULL) {
         for (size_t ii = 0; ii < op->dim; ii++){
-            free(op->op[ii]); op->op = NULL;
-            free(op->opLP[ii]); op->opLP = NULL;
+            free(op->op[ii]); op->op[ii] = NULL;
+            free(op->opLP[ii]); op->opLP[ii] = NULL;
         } 
         free(op->op); op->op = NULL;
         free(op->opLP); op->opLP = NULL;
-- 
2.43.0


From e4b57827b30aee3df8699d8527096ee705bec135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:53 +0000
Subject: [PATCH 21/86] fix: cross_index_merge paired every right node with the
 first left node

---
 c3/lib_clinalg/indmanage.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index 19e3796..a11370a 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -439,7 +439,6 @@ cross_index_merge(struct CrossIndex * left, struct CrossIndex * right)
     struct CrossNode * cl = left->nodes;
     struct CrossNode * cr = right->nodes;
     for (size_t ii = 0; ii < right->n;ii++){
-        cl = left->nodes;
         vals[ii] = calloc_double(d);
         memmove(vals[ii],cl->x,dl*sizeof(double));
         memmove(vals[ii]+dl,cr->x,dr*sizeof(double));
-- 
2.43.0


From fc2adeab725d598b9a83330c531ffbdf6f8f3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 22/86] fix: function_train_sum of one-variable trains stacked
 the cores instead of adding them

---
 c3/lib_clinalg/ft.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 5d19ad1..000f70e 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2850,6 +2850,14 @@ function_train_sum(const struct FunctionTrain * a,
                    const struct FunctionTrain * b)
 {
     struct FunctionTrain * ft = function_train_alloc(a->dim);
+
+    if (a->dim == 1){
+        ft->cores[0] = qmarray_copy(b->cores[0]);
+        qmarray_axpy(1.0,a->cores[0],ft->cores[0]);
+        ft->ranks[0] = a->ranks[0];
+        ft->ranks[1] = a->ranks[1];
+        return ft;
+    }
     
     // first core
     ft->cores[0] = qmarray_stackh(a->cores[0], b->cores[0]);
-- 
2.43.0


From a71c8aac632e4aeb8f2dbd5784cb0b7d876c101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:05 +0000
Subject: [PATCH 23/86] fix: function_train_gradient_eval overwrote the
 derivative of a one-variable train with zero

---
 c3/lib_clinalg/ft.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 000f70e..7d6c11a 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -4325,8 +4325,10 @@ void function_train_gradient_eval(const struct FunctionTrain * ft,
         ind_rl += r2;
     }
 
-    backind = 0;
-    out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    if (dim > 1){
+        backind = 0;
+        out[backind] = cblas_ddot(ranks[1],grads_lr,1,evals_rl + ind_rl, 1);
+    }
 
     free(evals_lr); evals_lr = NULL;
     free(evals_rl); evals_rl = NULL;
-- 
2.43.0


From 9c8b9c0591fb83aff5ea501a5d1fc7321a36b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:14 +0000
Subject: [PATCH 24/86] fix: evaluating more than 1000 polynomials at once
 overflowed a stack array, and the fallback looped over functions instead of
 points

---
 c3/lib_funcs/functions.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 5a73e3a..cdc9eed 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -1530,9 +1530,9 @@ generic_function_1darray_eval2(size_t n,
                                struct GenericFunction ** f, 
                                double x, double * out)
 {
-    int allpoly = 1;
+    int allpoly = (n <= 1000);
     struct OrthPolyExpansion * parr[1000];
-    for (size_t ii = 0; ii < n; ii++){
+    for (size_t ii = 0; (ii < n) && (allpoly == 1); ii++){
         if (f[ii]->fc != POLYNOMIAL){
             allpoly = 0;
             break;
@@ -1577,9 +1577,9 @@ generic_function_1darray_eval2N(size_t n,
                                 double * y, size_t incy)
 {
 
-    int allpoly = 1;
+    int allpoly = (n <= 1000);
     struct OrthPolyExpansion * parr[1000];
-    for (size_t ii = 0; ii < n; ii++){
+    for (size_t ii = 0; (ii < n) && (allpoly == 1); ii++){
         if (f[ii]->fc != POLYNOMIAL){
             allpoly = 0;
             break;
@@ -1594,7 +1594,7 @@ generic_function_1darray_eval2N(size_t n,
         /* } */
         if (res == 1){ //something when wrong
             size_t ii;
-            for (ii = 0; ii < n; ii++){
+            for (ii = 0; ii < N; ii++){
                 generic_function_1darray_eval2(n,f,x[ii*incx],y+ii*incy);
             }
         }
-- 
2.43.0


From bddbe193e7c4e0a2e81210fb2342d82db5926dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:51 +0000
Subject: [PATCH 25/86] fix: Householder QR/LQ of function matrices skipped the
 last reorthogonalisation and lost orthogonality on rank-deficient input

---
 c3/lib_clinalg/qmarray.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c3/lib_clinalg/qmarray.c b/c3/lib_clinalg/qmarray.c
index ae83897..7e1b275 100644
--- a/c3/lib_clinalg/qmarray.c
+++ b/c3/lib_clinalg/qmarray.c
@@ -2513,9 +2513,9 @@ qmarray_householder(struct Qmarray * A, struct Qmarray * E,
         //print_qmarray(E,0,NULL);
         // improve orthogonality
         //*
-        if (ii > 1){
+        if (ii > 0){
             struct Quasimatrix * tempv = NULL;
-            for (jj = 0; jj < ii-1; jj++){
+            for (jj = 0; jj < ii; jj++){
                 //printf("jj=%zu (max is %zu) \n",jj, ii-1);
                 tempv = quasimatrix_copy(v);
                 struct GenericFunction ** tvfuncs = NULL;
@@ -2787,9 +2787,9 @@ qmarray_householder_rows(struct Qmarray * A, struct Qmarray * E,
         
         // improve orthogonality
         //*
-        if (ii > 1){
+        if (ii > 0){
             struct Quasimatrix * tempv = NULL;
-            for (jj = 0; jj < ii-1; jj++){
+            for (jj = 0; jj < ii; jj++){
                 tempv = quasimatrix_copy(v);
                 struct GenericFunction ** tvfuncs = quasimatrix_get_funcs(tempv);
                 temp1 =  generic_function_inner_sum(A->ncols,1,tvfuncs,E->nrows,
-- 
2.43.0


From 4bf10b2a58e997aa3d8c953276fd83642e440058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:58 +0000
Subject: [PATCH 26/86] fix: function_train_round: compare the relative error
 bound with singular values, not their squares

truncated_svd() drops singular values while the sum of their squares is below
delta; the rounding passed the (unsquared) 2-norm bound, so the relative error
of the result could be of order sqrt(epsilon) and depended on the norm.
---
 c3/lib_clinalg/ft.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index 7d6c11a..e5a23dc 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2595,6 +2595,7 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
 
     double delta = function_train_norm2(a);
     delta = delta * epsilon / sqrt(a->dim-1);
+    delta = delta * delta; // truncated_svd bounds the sum of squares
     //double delta = epsilon;
 
     /* printf("Rounding Starting norm = %G\n",function_train_norm2(a)); */
@@ -2696,6 +2697,7 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
 
     double delta = function_train_norm2(a);
     delta = delta * epsilon / sqrt(a->dim-1);
+    delta = delta * delta; // truncated_svd bounds the sum of squares
     //double delta = epsilon;
 
     /* printf("Rounding Starting norm = %G\n",function_train_norm2(a)); */
-- 
2.43.0


From 409c0e10bbd10c515b7374cf169b36372a5b6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:58 +0000
Subject: [PATCH 27/86] fix: full_to_tt, tt_round: square the error bound given
 to truncated_svd

---
 c3/lib_tensdecomp/tensortrain.c    | 1 +
 c3/lib_tensdecomp/tt_multilinalg.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 4cd62f2..0c99d28 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -230,6 +230,7 @@ struct tt * full_to_tt(const struct tensor * a, double epsilon)
     double nrm = norm2(a->vals, nElements);
     double delta = nrm * epsilon;
     if (a->dim > 1) delta = delta / sqrt(a->dim-1.0);
+    delta = delta * delta; // truncated_svd bounds the sum of squares
     size_t nl = a->nvals[0];
     size_t nr = nElements/nl;
     
diff --git a/c3/lib_tensdecomp/tt_multilinalg.c b/c3/lib_tensdecomp/tt_multilinalg.c
index 87437ea..f930146 100755
--- a/c3/lib_tensdecomp/tt_multilinalg.c
+++ b/c3/lib_tensdecomp/tt_multilinalg.c
@@ -70,6 +70,7 @@ struct tt * tt_round(struct tt * a, double epsilon)
     double nrm = tt_norm(a);
     double delta = nrm * epsilon;
     if (a->dim > 1) delta = delta / sqrt(a->dim-1.0);
+    delta = delta * delta; // truncated_svd bounds the sum of squares
 
     double * s;
     double * vt;
-- 
2.43.0


From 8da5209e230a5499831d673ae0b2bc3399147448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:52 +0000
Subject: [PATCH 28/86] fix: function_train_round,
 function_train_round_maxrank_all: one-dimensional trains read past the cores

---
 c3/lib_clinalg/ft.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c3/lib_clinalg/ft.c b/c3/lib_clinalg/ft.c
index e5a23dc..f1b848c 100644
--- a/c3/lib_clinalg/ft.c
+++ b/c3/lib_clinalg/ft.c
@@ -2587,6 +2587,9 @@ function_train_round(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){ // no ranks to reduce
+        return function_train_copy(ain);
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
@@ -2689,6 +2692,9 @@ function_train_round_maxrank_all(struct FunctionTrain * ain, double epsilon,
     if (normain < ZEROTHRESH){
         return function_train_constant(0.0, aopts);
     }
+    if (ain->dim == 1){ // no ranks to reduce
+        return function_train_copy(ain);
+    }
     struct OneApproxOpts * o = NULL;
     struct FunctionTrain * a = function_train_copy(ain);
 //    size_t ii;
-- 
2.43.0


From b92765e7ba1c5061c1528fb421831ebf5a7d1392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:25 +0000
Subject: [PATCH 29/86] fix: strip_ends, strip_blank_ends: keep the terminator
 when shifting and stop at the start of the string

---
 c3/lib_stringmanip/stringmanip.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 0753621..b6539d1 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -57,7 +57,7 @@ void strip_blank_ends(char * strin)
     }
 
     n = strlen(str);
-    while (str[n]==' ' || str[n]=='\0')
+    while (n >= 0 && (str[n]==' ' || str[n]=='\0'))
         n--;
     str[n+1]='\0';
 }
@@ -67,13 +67,13 @@ void strip_ends(char * strin, char left, char right)
     int ii = 0;
     int n;
     char * str = strin;
-    while (str[ii] == left)
+    while (str[ii] == left && str[ii] != '\0')
     {
-        memmove(str,str+1,strlen(str+1));
+        memmove(str,str+1,strlen(str));
     }
     
     n = strlen(str);
-    while (str[n] == right || str[n]=='\0'){
+    while (n >= 0 && (str[n] == right || str[n]=='\0')){
         n--;
     }
     str[n+1] = '\0';
-- 
2.43.0


From 9198ab4a883c2055266b44e0c740f52eabc7f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:25 +0000
Subject: [PATCH 30/86] fix: bite_string2: a partial match hid a token starting
 inside it

---
 c3/lib_stringmanip/stringmanip.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index b6539d1..206ea12 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -118,6 +118,7 @@ char * bite_string2(char * strin, char * tok)
             nMatch++;
         }
         else{
+            ii -= nMatch;
             nMatch = 0;
         }
         if (nMatch == strlen(tok)){
-- 
2.43.0


From c026eb8247e917f72acc7288969abe66e83e8843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:25 +0000
Subject: [PATCH 31/86] fix: readtxt_double_array: tabs separate numbers when
 they are counted, so also when they are read

---
 c3/lib_stringmanip/stringmanip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 206ea12..18efd4f 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -358,13 +358,13 @@ double * readtxt_double_array(char * str,size_t *nrows, size_t *ncols)
     /* printf("number of rows = %zu\n",*nrows); */
     /* printf("number of cols = %zu\n",*ncols); */
 
-    token = strtok(str3," ,\n");
+    token = strtok(str3,"\t ,\n");
     size_t ind = 0;
     /* printf("%s %zu \n",token,ind); */
     while (token != NULL){
         data[ind] = atof(token);
         ind++;
-        token = strtok(NULL," ,\n");
+        token = strtok(NULL,"\t ,\n");
         /* printf("%s %zu\n",token,ind); */
     }
 
-- 
2.43.0


From 7cdfe1a6cdd6fbdd6dbde845e1ed3af472a577c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:25 +0000
Subject: [PATCH 32/86] fix: poisson: the remaining mean is used up once its
 factor has been applied

---
 c3/lib_array/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 807c867..4bedf06 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -870,7 +870,7 @@ size_t poisson(double mean)
             }
             else{
                 p = p * exp(lleft);
-                lleft -= 1;
+                lleft = 0.0;
             }
         }
 
-- 
2.43.0


From 5609285ac69f129d9bb2097c54b91ab40fe396ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:04 +0000
Subject: [PATCH 33/86] fix: serialize_double_to_text: write enough digits to
 tell neighbouring doubles apart

The text is the key of the function monitor's cache; with 15 digits two
different points could share a cached value, and reading the text back did
not give the number that was written.
---
 c3/lib_array/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_array/array.c b/c3/lib_array/array.c
index 4bedf06..60c8697 100755
--- a/c3/lib_array/array.c
+++ b/c3/lib_array/array.c
@@ -533,7 +533,7 @@ char * serialize_double_to_text(double x)
     //printf("res=%f,exp=%d\n",res,exp);
     int cx;
     /* cx = snprintf(buffer, N, "%0.10f:%d", res,exp); */ // worked before
-    cx = snprintf(buffer, N, "%3.14E:%d", res,exp);
+    cx = snprintf(buffer, N, "%3.16E:%d", res,exp);
     /* cx = snprintf(buffer, N, "%10.20f:%d", res,exp); */
     //printf("after = %s\n",buffer);
     char * temp2 = NULL;
@@ -549,7 +549,7 @@ char * serialize_double_to_text(double x)
         }
         N = (size_t)cx;
         /* snprintf(buffer, N, "%0.20f:%d", res,exp); */
-        snprintf(buffer, N, "%3.14E:%d", res,exp);
+        snprintf(buffer, N, "%3.16E:%d", res,exp);
     }
     else if (cx < 0){
         fprintf(stderr, "some other error writing double \n");
-- 
2.43.0


From db94f11fcde21178139f71ecb8ed766cc26abc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 34/86] fix: strip_blank_ends: read one byte past the string
 when shifting

---
 c3/lib_stringmanip/stringmanip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_stringmanip/stringmanip.c b/c3/lib_stringmanip/stringmanip.c
index 18efd4f..d3dd0ba 100755
--- a/c3/lib_stringmanip/stringmanip.c
+++ b/c3/lib_stringmanip/stringmanip.c
@@ -53,7 +53,7 @@ void strip_blank_ends(char * strin)
     char * str = strin;
     while (str[ii] == ' ')
     {
-        memmove(str,str+1,strlen(str)+1);
+        memmove(str,str+1,strlen(str));
     }
 
     n = strlen(str);
-- 
2.43.0


From cb4ff2f11d5a4fc9bbfdecad050d4538e8935dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:34 +0000
Subject: [PATCH 35/86] fix: c3opt_print_stored_values: iterates are stored
 with stride d, not niters

---
 c3/lib_optimization/optimization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8954b92..eeb1603 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -844,12 +844,12 @@ void c3opt_print_stored_values(struct c3Opt * opt, FILE * fp, int width, int pre
         }
         if (opt->store_grad == 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_grad[ii*opt->d+jj]);
             }
         }
         if (opt->store_x== 1){
             for (size_t jj = 0; jj < opt->d; jj++){
-                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->niters+jj]);
+                fprintf(fp,"%*.*G ",width,prec,opt->stored_x[ii*opt->d+jj]);
             }
         }
         fprintf(fp,"\n");
-- 
2.43.0


From 0df97f0ae368c72870b340628853719daa39704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:43 +0000
Subject: [PATCH 36/86] fix: c3opt_ls_strong_wolfe: a step that decreases, but
 not sufficiently, is a bracket and not a failed assertion

---
 c3/lib_optimization/optimization.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index eeb1603..e439ece 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1553,11 +1553,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         }
         if ((*newf > checkval) || ( (*newf >= f_prev) && (iter > 1))){
             /* printf("found range (%G,%G) \n",t_prev,t); */
-            if (f_prev > *newf){
-                /* printf("f_prev = %G\n",f_prev); */
-                /* printf("*newf = %G\n",*newf); */
-                assert (f_prev < *newf);
-            }
             t = c3opt_ls_zoom(opt,t_prev,f_prev,t,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
@@ -1573,7 +1568,6 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
             return t*alpha;
         }
         else if (dg2 >= 0.0){
-            assert (*newf < f_prev);
             t = c3opt_ls_zoom(opt,t,*newf,t_prev,x,dir,newx,fx,dg,grad,newf);
             return t * alpha;
         }
-- 
2.43.0


From fc87292c432c3d726328dd983e0ed394c92bcaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:58 +0000
Subject: [PATCH 37/86] fix: c3opt_copy: the gradient-descent workspace holds
 2*d numbers

---
 c3/lib_optimization/optimization.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index e439ece..1d68d67 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -545,7 +545,8 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->nlocs   = old->nlocs;
     if ((opt->alg == BFGS) || (opt->alg == BATCHGRAD) || (opt->alg == LBFGS)){
         opt->grad = 1;
-        memmove(opt->workspace,old->workspace,4*opt->d*sizeof(double));
+        size_t nwork = (opt->alg == BATCHGRAD) ? 2 : 4;
+        memmove(opt->workspace,old->workspace,nwork*opt->d*sizeof(double));
         c3ls_free(opt->ls); opt->ls = NULL;
         opt->ls = c3ls_copy(old->ls);
     }
-- 
2.43.0


From 1573051f42d6ac1d5ccdb8ef18a702a464bfe4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:58 +0000
Subject: [PATCH 38/86] fix: c3opt_copy: lost the stochastic objective

---
 c3/lib_optimization/optimization.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 1d68d67..406bab5 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -302,6 +302,7 @@ struct c3Opt * c3opt_create(enum c3opt_alg alg)
     opt->d = 0;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
 
     opt->lb = NULL;
@@ -450,6 +451,7 @@ struct c3Opt * c3opt_alloc(enum c3opt_alg alg, size_t d)
     opt->d = d;
 
     opt->f = NULL;
+    opt->fsgd = NULL;
     opt->farg = NULL;
     
     opt->lb = calloc_double(d);
@@ -533,6 +535,7 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     }
     struct c3Opt * opt = c3opt_alloc(old->alg,old->d);
     opt->f = old->f;
+    opt->fsgd = old->fsgd;
     opt->farg = old->farg;
     memmove(opt->lb,old->lb,opt->d*sizeof(double));
     memmove(opt->ub,old->ub,opt->d*sizeof(double));
-- 
2.43.0


From c4bb6af1c520efae8e8a14024b80d1440bbe51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:58 +0000
Subject: [PATCH 39/86] fix: line searches: beta outside (0,1) was never
 detected

---
 c3/lib_optimization/optimization.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 406bab5..7e5f144 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1184,7 +1184,7 @@ double c3opt_ls_box(struct c3Opt * opt, double * x, double fx,
         *info = -1;
         return 0.0;
     }
-    if ((beta <= 0.0) && (beta >= 1.0)) {
+    if ((beta <= 0.0) || (beta >= 1.0)) {
         printf("line search beta (%G) is not (0,1)\n",beta);
         *info = -2;
         return 0.0;
@@ -1308,7 +1308,7 @@ double c3opt_ls_wolfe_bisect(struct c3Opt * opt, double * x, double fx,
         *info = -1;
         return 0.0;
     }
-    if ((beta <= 0.0) && (beta >= 1.0)) {
+    if ((beta <= 0.0) || (beta >= 1.0)) {
         printf("line search beta (%G) is not (0,1)\n",beta);
         *info = -2;
         return 0.0;
@@ -1498,7 +1498,7 @@ double c3opt_ls_strong_wolfe(struct c3Opt * opt, double * x, double fx,
         *info = -1;
         return 0.0;
     }
-    if ((beta <= 0.0) && (beta >= 1.0)) {
+    if ((beta <= 0.0) || (beta >= 1.0)) {
         printf("line search beta (%G) is not (0,1)\n",beta);
         *info = -2;
         return 0.0;
@@ -3674,7 +3674,7 @@ double backtrack_line_search(size_t d, double * x, double fx,
         *info = -1;
         return 0.0;
     }
-    if ((beta <= 0.0) && (beta >= 1.0)) {
+    if ((beta <= 0.0) || (beta >= 1.0)) {
         printf("line search beta (%G) is not (0,1)\n",beta);
         *info = -2;
         return 0.0;
@@ -3757,7 +3757,7 @@ double backtrack_line_search_bc(size_t d, double * lb,
         *info = -1;
         return 0.0;
     }
-    if ((beta <= 0.0) && (beta >= 1.0)) {
+    if ((beta <= 0.0) || (beta >= 1.0)) {
         printf("line search beta (%G) is not (0,1)\n",beta);
         *info = -2;
         return 0.0;
-- 
2.43.0


From 217bc2acf0038f581c9dd751b133ddb03933ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:58 +0000
Subject: [PATCH 40/86] fix: box_pg_descent: report a failing gradient as
 documented

---
 c3/lib_optimization/optimization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 7e5f144..0054260 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -3620,7 +3620,7 @@ int box_pg_descent(size_t d, double * lb, double * ub,
         }
         res = g(x,grad,gargs);
         if (res != 0){
-            return -1;
+            return -20 + res;
         }
         
         eta = 0.0;
-- 
2.43.0


From 73d09fdf73dbea92eb5ce8af8d7482fafcddba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:11 +0000
Subject: [PATCH 41/86] fix: c3opt_lbfgs_list_insert: a list of one vector
 dereferenced NULL on the second insertion

---
 c3/lib_optimization/optimization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 0054260..a02134b 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2374,7 +2374,7 @@ void c3opt_lbfgs_list_insert(struct c3opt_lbfgs_list * list, size_t iter,
     }
     else{//(list->size == 0){
         new->next = NULL;
-        new->prev = NULL;
+        new->prev = (list->m == 1) ? new : NULL; // a full list replaces head->prev
         list->size = 1;
     }
     
-- 
2.43.0


From 5112da299e88b03c999771debf941c4d975ae241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:11 +0000
Subject: [PATCH 42/86] fix: c3opt_lbfgs_list_step, _step_back: stepping
 through a one-element list twice dereferenced NULL

---
 c3/lib_optimization/optimization.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index a02134b..26af9d5 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2414,9 +2414,9 @@ void c3opt_lbfgs_list_step(struct c3opt_lbfgs_list * list,
     }
     else{
         list->cstep = list->cstep->next;
-        if (list->step == list->size){
-            list->step = 0;
-        }
+    }
+    if (list->step == list->size){
+        list->step = 0;
     }
 
     *iter = list->cstep->iter;
@@ -2451,9 +2451,9 @@ void c3opt_lbfgs_list_step_back(struct c3opt_lbfgs_list * list,
     }
     else{
         list->cstep = list->cstep->prev;
-        if (list->step == list->size){
-            list->step = 0;
-        }
+    }
+    if (list->step == list->size){
+        list->step = 0;
     }
 
     *iter = list->cstep->iter;
-- 
2.43.0


From 1ced6342410e368a5b74c2d70baf4df60ca310da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:03 +0000
Subject: [PATCH 43/86] fix: c3opt_ls_zoom: endless loop when the bracket
 cannot shrink further

Away from t=0 the ends of the bracket stay more than 1e-20 apart for ever.
When the bracket has collapsed return its better end: the point, value,
gradient and step returned did not belong together.
---
 c3/lib_optimization/optimization.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 26af9d5..fad1736 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -1431,6 +1431,9 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
         /* printf("(tlow,thigh) = (%3.15G,%3.15G),\n",tl,th); */
 
         t = (tl + th)/2.0;
+        if ((t == tl) || (t == th)){ // no number left in between
+            break;
+        }
         c3opt_ls_x_move(d,t,dir,x,newx,lb,ub);
 
         fcurr = c3opt_eval(opt,newx,grad);
@@ -1456,7 +1459,10 @@ double c3opt_ls_zoom(struct c3Opt * opt, double tlow,
         }
     }
     /* printf("out bad\n"); */
-    return tlow;
+    // return the best point of the bracket, not the last one tried
+    c3opt_ls_x_move(d,tl,dir,x,newx,lb,ub);
+    *fval = c3opt_eval(opt,newx,grad);
+    return tl;
 }
 
 /***********************************************************//**
-- 
2.43.0


From 17c8e96f312359229eb57b4d732235a1c63f087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:03 +0000
Subject: [PATCH 44/86] fix: c3_opt_lbfgs: fall back to the gradient when the
 direction is not one of descent

The line search refuses such a direction and the assertion after it aborted
the program; BFGS already falls back in the same situation.
---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index fad1736..b3fd225 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2662,6 +2662,10 @@ int c3_opt_lbfgs(struct c3Opt * opt,
         
         memmove(workspace,x,d*sizeof(double));
         fvaltemp = *fval;
+        if (!(cblas_ddot(d,grad,1,workspace+d,1) <= 1e-15)){
+            // not a descent direction, use the gradient instead
+            for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] = -grad[ii];}
+        }
         if (alg == BACKTRACK){
             c3opt_ls_box(opt,workspace,fvaltemp,grad,workspace+d,
                               x,fval,&res);
-- 
2.43.0


From c42e59f7777c41b64e1d454104adbef9f95a3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:29 +0000
Subject: [PATCH 45/86] fix: c3_opt_damp_bfgs: fall back to the gradient when
 the direction is not one of descent

The inverse Hessian need not stay positive definite without the curvature
condition; the backtracking search then went uphill. The weak Wolfe branch
already falls back.
---
 c3/lib_optimization/optimization.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index b3fd225..8db8a86 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -2009,6 +2009,10 @@ int c3_opt_damp_bfgs(struct c3Opt * opt,
         // workspace[2d:3d) is gradient at a new x
         
         fvaltemp = *fval;
+        if (!(cblas_ddot(d,grad,1,workspace+d,1) <= 1e-15)){
+            // not a descent direction, use the gradient instead
+            for (size_t ii = 0; ii < d; ii++){ workspace[d+ii] = -grad[ii];}
+        }
         if (alg == BACKTRACK){
             c3opt_ls_box(opt,workspace,fvaltemp,
                          grad,workspace+d,
-- 
2.43.0


From 6937365a325b27ebfc295138f0032017157dccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:48 +0000
Subject: [PATCH 46/86] fix: maxvol_rhs: factor the whole n x r matrix and use
 its pivots as one-based

The initial rows came from the LU of an unrelated r x r matrix with pivots
off by one: the start could be singular (infinite inverse) and a square
input was accessed out of bounds.
---
 c3/lib_linalg/linalg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 8404f1a..b6818b1 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1427,7 +1427,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
 
     temp2 = calloc_double(n*r);
     memmove(temp2, A, n*r*siz);
-    dgetrf_((int*)&r,(int*)&r, temp2, (int*)&r, ipiv, &info); //lu decomp
+    dgetrf_((int*)&n,(int*)&r, temp2, (int*)&n, ipiv, &info); //lu decomp
     if (info < 0) printf("Input %d of LU is not correct\n ", info);
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
@@ -1449,6 +1449,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     }
 
     for (ii = 0; ii < r; ii++){
+        ipiv[ii] -= 1; // lapack counts from one
         jj = (size_t) ipiv[ii];
         
         if (jj != ii){
-- 
2.43.0


From 9e1acb922d364a05bf8c4a2eed0245fe402981b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:02 +0000
Subject: [PATCH 47/86] fix: maxvol_rhs: report a rank-deficient matrix as
 documented

A positive code is documented for a rank that is too high; the routine went
on with an infinite inverse and returned 0.
---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index b6818b1..fb65a00 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -1432,7 +1432,7 @@ int maxvol_rhs(const double * A, size_t n, size_t r, size_t * rows, double * Asi
     //if (info > 0) printf("Rank is too high, suggest lowering it\n");
 
     free(temp2);
-    if (info < 0){
+    if (info != 0){
         printf("couldn't find invertible submatrix in maxvol\n");
         free(ipiv);
         free(ipiv2);
-- 
2.43.0


From 178de7559a6bac7dba4e0c52a90980520958a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:02 +0000
Subject: [PATCH 48/86] fix: vec_kron: the rows of the result hold l entries

Only worked for matrices with equally many columns.
---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index fb65a00..962273a 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -666,7 +666,7 @@ void vec_kron(size_t m, size_t n, double * a, size_t lda, size_t k, size_t l,
                 b, ldb, v, k, 0.0, temp, m);
     
     cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasTrans, n, l, m, 1.0,
-                    a, lda, temp, m, scale, out, n);
+                    a, lda, temp, m, scale, out, l);
     free(temp);
 }
 
-- 
2.43.0


From d8d19e4bc90c200b96d29d180751a768ad80da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:02 +0000
Subject: [PATCH 49/86] fix: rq_with_rmult: honour the leading dimension when
 multiplying by R

---
 c3/lib_linalg/linalg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_linalg/linalg.c b/c3/lib_linalg/linalg.c
index 962273a..ac6e410 100755
--- a/c3/lib_linalg/linalg.c
+++ b/c3/lib_linalg/linalg.c
@@ -253,7 +253,7 @@ rq_with_rmult(size_t m, size_t n, double * a, size_t lda, size_t bm,
     if (info) printf("error in QR computation  %d ",info);
      
     cblas_dtrmm(CblasColMajor, CblasRight, CblasUpper, CblasNoTrans, CblasNonUnit, bm, bn, 1.0, 
-           a+(n-m)*m, m, b, ldb);
+           a+(n-m)*lda, lda, b, ldb);
 
     //printf("m=%d n=%d\n ", m, n);
     dorgrq_((int*)&m,(int*)&n, (int*)&tau_size, a, (int*)&lda, tau, work, (int*)&lwork, &info); // third element is min(n,m)
-- 
2.43.0


From 081abdaede0657cfe256c082dbdf37606a002642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 50/86] fix: tensor_copy_3d: a transposed copy has the
 transposed shape

---
 c3/lib_tensor/tensor.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensor/tensor.c b/c3/lib_tensor/tensor.c
index f39b60d..56f5830 100755
--- a/c3/lib_tensor/tensor.c
+++ b/c3/lib_tensor/tensor.c
@@ -470,7 +470,7 @@ struct tensor * tensor_copy_3d(const struct tensor * t, int transpose){
         nvals[0] = t->nvals[2];
         nvals[1] = t->nvals[1];
         nvals[2] = t->nvals[0];
-        init_tensor(&out, 3, t->nvals);
+        init_tensor(&out, 3, nvals);
         size_t ii,jj,kk;
         for (ii = 0; ii < nvals[0]; ii++){
             for (jj = 0; jj < nvals[1]; jj++){
-- 
2.43.0


From 3c6f867c4b6717900bd76f13e23ab5b2c9deae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 51/86] fix: tt_x: the constant cores had their mode size in
 place of a rank

---
 c3/lib_tensdecomp/tensortrain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index 0c99d28..df32749 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -162,7 +162,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // before dimx
     for (ii = 0; ii < dimx; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     // dim x
     new->ranks[dimx] = 1;
@@ -171,7 +171,7 @@ tt_x(const double * x, size_t dimx, size_t dim, size_t * nvals)
     // after dimx
     for (ii = dimx+1; ii < dim; ii++){
         new->ranks[ii] = 1;
-        new->cores[ii] = tensor_ones_3d(1,1,nvals[ii]);
+        new->cores[ii] = tensor_ones_3d(1,nvals[ii],1);
     }
     new->ranks[dim] = 1;
     return new;
-- 
2.43.0


From 66740acfb9a524bcc73a409c70e720f5dd63a548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 52/86] fix: ttelem: use each core's own mode size

---
 c3/lib_tensdecomp/tensortrain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index df32749..c8650e9 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -196,7 +196,7 @@ double ttelem(struct tt * ttc, size_t * elem)
         cblas_dgemv(CblasColMajor, CblasTrans, ttc->ranks[ii+1], 
                 ttc->ranks[ii+2], 1.0, 
                 ttc->cores[ii+1]->vals + elem[ii+1] * ttc->ranks[ii+1],
-                ttc->ranks[ii+1] * ttc->nvals[1],
+                ttc->ranks[ii+1] * ttc->nvals[ii+1],
                 vec, 1, 0.0, temp, 1);
 
         free(vec);
-- 
2.43.0


From 04f6a6c1063bc65eec6f2b66d4664638f9d107c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 53/86] fix: right_ortho_core: ranks larger than the remaining
 size went out of bounds

Adding or multiplying trains easily gives a core with more rows than columns,
for which there is no RQ factorisation with a square R.
---
 c3/lib_tensdecomp/tensortrain.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/c3/lib_tensdecomp/tensortrain.c b/c3/lib_tensdecomp/tensortrain.c
index c8650e9..aa88508 100755
--- a/c3/lib_tensdecomp/tensortrain.c
+++ b/c3/lib_tensdecomp/tensortrain.c
@@ -336,6 +336,31 @@ struct tt * full_to_tt(const struct tensor * a, double epsilon)
 void right_ortho_core(struct tt ** a, size_t core){
     
     size_t jj;
+    size_t m = (*a)->ranks[core];
+    size_t n = (*a)->ranks[core+1] * (*a)->nvals[core];
+    if (m > n){ // the rank can be at most n, reduce it
+        size_t nl = (*a)->ranks[core-1] * (*a)->nvals[core-1];
+        double * u = calloc_double(m*m);
+        double * s = calloc_double(n);
+        double * vt = calloc_double(n*n);
+        svd(m,n,m,(*a)->cores[core]->vals,u,s,vt);
+        for (jj = 0; jj < n; jj++){
+            cblas_dscal(m,s[jj],u+jj*m,1);
+        }
+        double * left = calloc_double(nl*n);
+        cblas_dgemm(CblasColMajor,CblasNoTrans,CblasNoTrans,nl,n,m,1.0,
+                    (*a)->cores[core-1]->vals,nl,u,m,0.0,left,nl);
+        free((*a)->cores[core-1]->vals);
+        free((*a)->cores[core]->vals);
+        (*a)->cores[core-1]->vals = left;
+        (*a)->cores[core]->vals = vt;
+        (*a)->cores[core-1]->nvals[2] = n;
+        (*a)->cores[core]->nvals[0] = n;
+        (*a)->ranks[core] = n;
+        free(u);
+        free(s);
+        return;
+    }
     double * r = calloc_double( (*a)->ranks[core] * (*a)->ranks[core] );
     for (jj = 0; jj < (*a)->ranks[core]; jj++){
         r[jj * (*a)->ranks[core] + jj] = 1.0;
-- 
2.43.0


From 98ec42ecd2ac42d14f7c69a1d5d1aededf433fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:43 +0000
Subject: [PATCH 54/86] fix: create_naive_index_set: indices ran past the modes

The running number was used as the index in the next mode once the first was
exhausted, and right sets were sized by the mode to their left.
---
 c3/lib_tensdecomp/cross.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 402db8a..d63f9f1 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -314,15 +314,13 @@ init_cross_opts(size_t dim, size_t *ranks, size_t *nvals)
 
 void create_naive_index_set(struct index_set * r, size_t * nvals)
 {   
-    size_t ii;
-    size_t onDim = 0;
+    size_t ii,jj,rem;
     for ( ii = 0; ii < r->N; ii++)
     {
-        if (nvals[onDim] < (ii+1)){
-            onDim += 1;
-        }
-        if( r->indices[ii] != NULL){
-            r->indices[ii][onDim] =  ii;
+        rem = ii;
+        for (jj = 0; (r->indices[ii] != NULL) && (jj < r->dim); jj++){
+            r->indices[ii][jj] = rem % nvals[jj];
+            rem = rem / nvals[jj];
         }
     }   
 }
@@ -333,7 +331,7 @@ init_cross_opts_with_naive_set(size_t dim, size_t * ranks, size_t * nvals)
     struct tt_cross_opts * opt = init_cross_opts(dim, ranks, nvals);
     size_t ii;
     for (ii = 0; ii < opt->dim-1; ii++){
-        create_naive_index_set(opt->right[ii], nvals + ii);
+        create_naive_index_set(opt->right[ii], nvals + ii + 1);
         create_naive_index_set(opt->left[ii], nvals);
     }
     return opt;
@@ -873,7 +871,7 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
         }
 
         for (ii = 0; ii < opts->dim-1; ii++){
-            create_naive_index_set(opts->right[ii], opts->nvals + ii);
+            create_naive_index_set(opts->right[ii], opts->nvals + ii + 1);
             create_naive_index_set(opts->left[ii], opts->nvals);
         }
         iter += 1;
-- 
2.43.0


From 38ca850996cb735bb3b5386f7a9c06f140d4eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:09 +0000
Subject: [PATCH 55/86] fix: process_cores_rl: the rows of the right unfolding
 run over the right rank first

---
 c3/lib_tensdecomp/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index d63f9f1..2829942 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -632,7 +632,7 @@ process_cores_rl(struct tt * a, size_t kk,
     }
     free(Atemp);
     
-    nValsMulti[0] = opts->ranks[kk];
+    nValsMulti[0] = opts->ranks[kk+1];
     nValsMulti[1] = opts->nvals[kk];
     size_t jj;
     //printf("core = %zu \n",kk);
-- 
2.43.0


From 08aa68f948a9f5fbba3feec1af82e0729d2b22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:09 +0000
Subject: [PATCH 56/86] fix: tt_cross_adapt: do not raise ranks beyond the size
 of the unfoldings

The QR factorisation of the fibres needs at least as many rows as columns.
---
 c3/lib_tensdecomp/cross.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/c3/lib_tensdecomp/cross.c b/c3/lib_tensdecomp/cross.c
index 2829942..3daf618 100755
--- a/c3/lib_tensdecomp/cross.c
+++ b/c3/lib_tensdecomp/cross.c
@@ -787,6 +787,29 @@ tt_cross(void (*A)(size_t, size_t *, size_t, double *, void *),
     return a;
 }
 
+// Kick the ranks that were needed in full, not beyond what the unfoldings allow.
+// Returns the number of ranks changed.
+static size_t cross_kick_ranks(struct tt_cross_opts * opts,
+                               const struct tt * rounded, size_t kickrank)
+{
+    size_t ii, nl, nr, r;
+    size_t changed = 0;
+    for (ii = 1; ii < rounded->dim; ii++){
+        if (opts->ranks[ii] == rounded->ranks[ii]) {
+            r = opts->ranks[ii] + kickrank;
+            nl = opts->ranks[ii-1] * opts->nvals[ii-1];
+            nr = opts->ranks[ii+1] * opts->nvals[ii];
+            if (r > nl) r = nl;
+            if (r > nr) r = nr;
+            if (r > opts->ranks[ii]){
+                opts->ranks[ii] = r;
+                changed++;
+            }
+        }
+    }
+    return changed;
+}
+
 struct tt *
 tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *), 
     struct tt_cross_opts * opts, size_t kickrank, size_t maxiter, 
@@ -802,11 +825,8 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
     a = tt_cross(A,opts,args);
     rounded = tt_round(a, epsilon);
     freett(a);
-    for (ii = 1; ii < rounded->dim; ii++){
-        if (opts->ranks[ii] == rounded->ranks[ii]) {
-            done = 0;
-            opts->ranks[ii] += kickrank;
-        }
+    if (cross_kick_ranks(opts,rounded,kickrank) > 0){
+        done = 0;
     }
     
     if (maxiter == 0){
@@ -879,11 +899,8 @@ tt_cross_adapt(void (*A)(size_t, size_t *, size_t, double *, void *),
         a = tt_cross(A,opts,args);
         rounded = tt_round(a, epsilon);
         freett(a);
-        for (ii = 1; ii < rounded->dim; ii++){
-            if (opts->ranks[ii] == rounded->ranks[ii]) {
-                done = 0;
-                opts->ranks[ii] += kickrank;
-            }
+        if (cross_kick_ranks(opts,rounded,kickrank) > 0){
+            done = 0;
         }
         if (iter > maxiter){
             done = 1;
-- 
2.43.0


From c66cc892dfab0772b58cfac2c8f0d9e303cbd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:15 +0000
Subject: [PATCH 57/86] fix: cross_node_add_nested: store the new node with its
 own element size

---
 c3/lib_clinalg/indmanage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_clinalg/indmanage.c b/c3/lib_clinalg/indmanage.c
index a11370a..f2bab01 100644
--- a/c3/lib_clinalg/indmanage.c
+++ b/c3/lib_clinalg/indmanage.c
@@ -144,7 +144,7 @@ void cross_node_add_nested(struct CrossNode ** cn, int left, size_t nold, void *
         memmove(x,xnew,size_elem * nnew ) ;
         memmove((char*)x+( size_elem * nnew ),xold,size_elem * nold);
     }
-    cross_node_add(cn,n,x,sizeof(double));
+    cross_node_add(cn,n,x,size_elem);
     free(x); x = NULL;
 }
 
-- 
2.43.0


From 50c1797a13d9d453339458c571fd28a681b4134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:15 +0000
Subject: [PATCH 58/86] fix: c3approx_init_cross_het: provide enough starting
 nodes when ranks increase

The left index set of cut i+1 takes init_ranks[i+1] nodes of variable i.
---
 c3/lib_interface/approximate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c3/lib_interface/approximate.c b/c3/lib_interface/approximate.c
index 825ce9a..2a46212 100644
--- a/c3/lib_interface/approximate.c
+++ b/c3/lib_interface/approximate.c
@@ -317,12 +317,12 @@ void c3approx_init_cross_het(struct C3Approx * c3a, const size_t *init_ranks, in
         for (size_t ii = 0; ii < c3a->dim; ii++){
             double lb = multi_approx_opts_get_dim_lb(c3a->fapp, ii);
             double ub = multi_approx_opts_get_dim_ub(c3a->fapp, ii);
-			if (ii == 0) {
-				start[ii] = linspace(lb, ub, init_ranks[1]);
-			}
-			else {
-				start[ii] = linspace(lb, ub, init_ranks[ii]);
+			// the node sets on both sides of this variable are taken from start
+			size_t nstart = init_ranks[ii];
+			if (init_ranks[ii+1] > nstart) {
+				nstart = init_ranks[ii+1];
 			}
+			start[ii] = linspace(lb, ub, nstart);
         }
     }
     
-- 
2.43.0


From 222a0979fab091124bb42c834363d3f925304e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:36 +0000
Subject: [PATCH 59/86] fix: fwrap_initialize_fiber_approx: forget the fiber
 selected in the previous set

A wrapper that was used for more fibers before read out of bounds when evaluated.
---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index da00cdb..20d78fe 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -373,6 +373,7 @@ void fwrap_initialize_fiber_approx(struct Fwrap * fw, size_t ind, size_t nfibers
 
     fw->fiber_approx = 1;
     fw->fiber_dim = ind;
+    fw->onfiber = 0;
     fw->nfibers = nfibers;
 
     if (fw->ftype == INTND){
-- 
2.43.0


From ded0c923fbcfa49a1db10cfe56f402c26292cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 60/86] fix: fwrap_create: initialise the function array

Destroying an array-vec wrapper before fwrap_set_num_funcs freed garbage pointers.
---
 c3/lib_funcs/fwrap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index 20d78fe..b726966 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -122,6 +122,9 @@ struct Fwrap * fwrap_create(size_t dim, const char * type)
     fw->interface = 0;
     fw->d = dim;
     fw->evalfunc = 0;
+    fw->nfuncs = 0;
+    fw->arrfuncs = NULL;
+    fw->farrargs = NULL;
     fw->fiber_approx = 0;
     fw->fiber_dim = 0;
     fw->nfibers = 0;
-- 
2.43.0


From 0328a2c90bfa1d497012e3a36dfb9d6e8bd3898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 61/86] fix: fwrap_create: check for a missing type before
 comparing it

---
 c3/lib_funcs/fwrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index b726966..a47fe2d 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -131,10 +131,10 @@ struct Fwrap * fwrap_create(size_t dim, const char * type)
     fw->fiber_vals = NULL;
     fw->onfiber = 0;
     
-    if ( (strcmp(type,"general") == 0) || (type == NULL)){
+    if ( (type == NULL) || (strcmp(type,"general") == 0)){
         fw->ftype = ND;
     }
-    else if ( (strcmp(type,"general-index") == 0) || (type == NULL)){
+    else if ( strcmp(type,"general-index") == 0){
         fw->ftype = INTND;
     }
     else if ( (strcmp(type,"general-vec") == 0)){
-- 
2.43.0


From a3bb4e9e1d4870a4f86f7c7fd00aa9977fffd390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 62/86] fix: fwrap_eval_fiber: free the evaluation points of
 index functions

---
 c3/lib_funcs/fwrap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/fwrap.c b/c3/lib_funcs/fwrap.c
index a47fe2d..5596bc9 100644
--- a/c3/lib_funcs/fwrap.c
+++ b/c3/lib_funcs/fwrap.c
@@ -501,6 +501,7 @@ int fwrap_eval_fiber(size_t nevals, const void * x, double * out, void * fwin)
         for (size_t ii = 0; ii < nevals; ii++){
             out[ii] = fw->intf(xeval + ii*fw->d,fw->fargs);
         }
+        free(xeval);
     }
     else{
         const double * xin = x;
-- 
2.43.0


From 12eb512abeb24fe377fb3fabdd7a43bcec10364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 63/86] fix: lin_elem_exp_squared_norm_param_grad:
 differentiate the norm the library computes

---
 c3/lib_funcs/linelm.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/c3/lib_funcs/linelm.c b/c3/lib_funcs/linelm.c
index 7471560..39fc323 100755
--- a/c3/lib_funcs/linelm.c
+++ b/c3/lib_funcs/linelm.c
@@ -1085,28 +1085,13 @@ lin_elem_exp_squared_norm_param_grad(const struct LinElemExp * f,
         return 0;
     }
 
-    double dx = f->nodes[1]-f->nodes[0];
-    double term1 = ((f->coeff[0]-1.0)/3.0 + f->coeff[1]/2.0) * dx;
-    grad[0] += 2.0 * scale * term1;
-    double dx2,df;
-    for (size_t ii = 1; ii < f->num_nodes-1; ii++){
-        // left side of ii
-        df = f->coeff[ii] - f->coeff[ii-1];
-        grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
-        // right side
-        dx2 = dx * dx;
-        term1 = ((f->coeff[ii]-1.0)/3.0 + f->coeff[ii+1]/2.0) * dx;
-        grad[ii] += 2.0 * scale * term1;
-        
-        dx = dx2;
+    // same (nodal) quadrature as lin_elem_exp_inner
+    for (size_t ii = 0; ii < f->num_nodes-1; ii++){
+        double dx = f->nodes[ii+1]-f->nodes[ii];
+        grad[ii]   += scale * f->coeff[ii] * dx;
+        grad[ii+1] += scale * f->coeff[ii+1] * dx;
     }
 
-    // left side of last node node
-    size_t ii = f->num_nodes-1;
-    df = f->coeff[ii] - f->coeff[ii-1];
-    grad[ii] += 2.0 * scale * (0.5 * f->coeff[ii] * dx + 1.0/3.0 * df * dx);
-
     return 0;
 }
 
-- 
2.43.0


From e357348095576d6bedcf957c8aef390a0bfa9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 64/86] fix: const_elem_exp_param_grad_eval: return the value
 and write every gradient entry

---
 c3/lib_funcs/constelm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/constelm.c b/c3/lib_funcs/constelm.c
index 26cd0e7..61c55c4 100644
--- a/c3/lib_funcs/constelm.c
+++ b/c3/lib_funcs/constelm.c
@@ -753,7 +753,7 @@ int const_elem_exp_param_grad_eval(
             grad[ii*nparam+jj] = 0.0;
         }
 
-        for (size_t jj = indmin+2; jj < nparam; jj++)
+        for (size_t jj = indmin+1; jj < nparam; jj++)
         {
             grad[ii*nparam+jj] = 0.0;
         }
@@ -787,14 +787,14 @@ double const_elem_exp_param_grad_eval2(
         grad[jj] = 0.0;
     }
 
-    for (size_t jj = indmin+2; jj < nparam; jj++)
+    for (size_t jj = indmin+1; jj < nparam; jj++)
     {
         grad[jj] = 0.0;
     }
 
     grad[indmin] = 1.0;
 
-    return f->nodes[indmin];
+    return f->coeff[indmin];
 }
 
 /********************************************************//**
-- 
2.43.0


From e44bb110fd70222787a5aa68940c652d663bdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 65/86] fix: orth_poly_expansion_squared_norm_param_grad:
 chebyshev case

---
 c3/lib_funcs/polynomials.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 393b9a0..cd55b5a 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3287,11 +3287,12 @@ orth_poly_expansion_squared_norm_param_grad(const struct OrthPolyExpansion * pol
                 else{
                     n2 = jj-ii;
                 }
+                double fac = 0.5*scale*poly->coeff[jj]*(poly->upper_bound-poly->lower_bound);
                 if (n1 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n1/2] * dtransform_dx;
+                    grad[ii] += fac*temp[n1/2];
                 }
                 if (n2 % 2 == 0){
-                    grad[ii] += 2.0*scale*temp[n2/2] * dtransform_dx;
+                    grad[ii] += fac*temp[n2/2];
                 }
             }
         }
-- 
2.43.0


From 148d94a9b22b23171bdc6d3242262a9146275a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 66/86] fix: RKHS regularised regression: gradient of the
 penalty that is added

---
 c3/lib_funcs/functions.c   |  2 +-
 c3/lib_funcs/polynomials.c | 61 +++++++++++++++++++-------------------
 2 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index cdc9eed..7da58bd 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -2608,7 +2608,7 @@ double param_RLSRKHSregress_cost(size_t dim, const double * param, double * grad
 
     int res = 0;
     if (grad != NULL){
-        res = generic_function_rkhs_squared_norm_param_grad(opts->gf,opts->lambda,
+        res = generic_function_rkhs_squared_norm_param_grad(opts->gf,0.5*opts->lambda,
                                                             opts->decay_type,
                                                             opts->coeff_decay_param,grad);
         assert (res == 0);
diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index cd55b5a..40375ce 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3436,63 +3436,62 @@ orth_poly_expansion_rkhs_squared_norm_param_grad(const struct OrthPolyExpansion
         exit(1);
     }    
     int res = 1;
+    double m = space_mapping_map_deriv(poly->space_transform,0.0);
     if ((poly->p->ptype == LEGENDRE) || (poly->p->ptype == HERMITE)){
+        // same scaling as orth_poly_expansion_rkhs_squared_norm
+        double mult = 2.0*scale;
+        if (poly->p->ptype == LEGENDRE){
+            mult *= 2.0 * m;
+        }
         if (decay_type == ALGEBRAIC){
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii] * pow(decay_param,ii);
+                grad[ii] += mult * poly->p->norm(ii) * poly->coeff[ii] * pow(decay_param,ii);
             }   
         }
         else if (decay_type == EXPONENTIAL){
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii] * pow((double)ii+1.0,-decay_param);
+                grad[ii] += mult * poly->p->norm(ii) * poly->coeff[ii] * pow((double)ii+1.0,-decay_param);
             }   
         }
         else{
             for (size_t ii = 0; ii < poly->num_poly; ii++){
-                grad[ii] += 2.0*scale * poly->coeff[ii];
+                grad[ii] += mult * poly->p->norm(ii) * poly->coeff[ii];
             }
         }
         res = 0;
     }
     else if (poly->p->ptype == CHEBYSHEV){
-        // THIS COULD BE WRONG!!
         double * temp = calloc_double(poly->num_poly);
         for (size_t ii = 0; ii < poly->num_poly; ii++){
             temp[ii] = 2.0/(1.0 - (double)2*ii*2*ii);
         }
         for (size_t ii = 0; ii < poly->num_poly; ii++){
+            double temp_sum = 0.0;
             for (size_t jj = 0; jj < poly->num_poly; jj++){
                 size_t n1 = ii+jj;
-                size_t n2;
-                if (ii > jj){
-                    n2 = ii-jj;
-                }
-                else{
-                    n2 = jj-ii;
+                size_t n2 = (ii > jj) ? ii-jj : jj-ii;
+                if (n1 % 2 == 0){
+                    temp_sum += poly->coeff[jj]*temp[n1/2];
                 }
-                if (decay_type == ALGEBRAIC){
-                    if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2]* pow(decay_param,ii);
-                    }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2]* pow(decay_param,ii);
-                    }
+                if (n2 % 2 == 0){
+                    temp_sum += poly->coeff[jj]*temp[n2/2];
                 }
-                else if (decay_type == EXPONENTIAL){
-                    if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2]*pow((double)ii+1.0,-decay_param);
-                    }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2]*pow((double)ii+1.0,-decay_param);
-                    }
+            }
+            double mult = 2.0 * scale * temp_sum * m;
+            if (decay_type == ALGEBRAIC){
+                mult *= pow(decay_param,ii);
+            }
+            else if (decay_type == EXPONENTIAL){
+                mult *= pow((double)ii+1.0,-decay_param);
+            }
+            for (size_t jj = 0; jj < poly->num_poly; jj++){
+                size_t n1 = ii+jj;
+                size_t n2 = (ii > jj) ? ii-jj : jj-ii;
+                if (n1 % 2 == 0){
+                    grad[jj] += mult*temp[n1/2];
                 }
-                else {
-                    if (n1 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n1/2];
-                    }
-                    if (n2 % 2 == 0){
-                        grad[ii] += 2.0*scale*temp[n2/2];
-                    }
+                if (n2 % 2 == 0){
+                    grad[jj] += mult*temp[n2/2];
                 }
             }
         }
-- 
2.43.0


From 81a86ef77d16f19398696d53dbefcf92204dc2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 67/86] fix: param_RLSD2regress_cost: gradient with respect to
 the parameters of the function

---
 c3/lib_funcs/functions.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/functions.c b/c3/lib_funcs/functions.c
index 7da58bd..aa4b273 100755
--- a/c3/lib_funcs/functions.c
+++ b/c3/lib_funcs/functions.c
@@ -2576,10 +2576,22 @@ double param_RLSD2regress_cost(size_t dim, const double * param, double * grad,
 
     double out = ls_portion + 0.5*opts->lambda * regularization;
 
-    int res = 0;
     if (grad != NULL){
-        res = generic_function_squared_norm_param_grad(gf2,0.5*opts->lambda,grad);
-        assert (res == 0);
+        // the second derivative is linear in the parameters
+        double * unit = calloc_double(dim);
+        struct GenericFunction * basis = generic_function_copy(opts->gf);
+        for (size_t ii = 0; ii < dim; ii++){
+            unit[ii] = 1.0;
+            generic_function_update_params(basis,dim,unit);
+            unit[ii] = 0.0;
+            struct GenericFunction * b1 = generic_function_deriv(basis);
+            struct GenericFunction * b2 = generic_function_deriv(b1);
+            grad[ii] += opts->lambda * generic_function_inner(gf2,b2);
+            generic_function_free(b1); b1 = NULL;
+            generic_function_free(b2); b2 = NULL;
+        }
+        generic_function_free(basis); basis = NULL;
+        free(unit); unit = NULL;
     }
 
     generic_function_free(gf1); gf1 = NULL;
-- 
2.43.0


From d14fb05a781684617243676e1b89a51435e6b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 68/86] fix: orth_poly_expansion_param_grad_inner: account for
 the measure of the inner product

---
 c3/lib_funcs/polynomials.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 40375ce..aa9f622 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3215,18 +3215,16 @@ orth_poly_expansion_param_grad_inner(const struct OrthPolyExpansion * a,
 {   
    assert (a->p->ptype == b->p->ptype);
 
-   size_t n = a->num_poly;
-   if (a->num_poly > b->num_poly)
-       n = b->num_poly;
-   
-   for (size_t ii = 0; ii < n; ii++){
-       inner_vals[ii] = b->coeff[ii];
+   struct OrthPolyExpansion * basis = orth_poly_expansion_copy(a);
+   for (size_t ii = 0; ii < a->num_poly; ii++){
+       basis->coeff[ii] = 0.0;
    }
-
-   /* in case polynomial b had fewer coefficients */
-   for (size_t ii = n; ii < a->num_poly; ii++) {
-       inner_vals[ii] = 0.0;
+   for (size_t ii = 0; ii < a->num_poly; ii++){
+       basis->coeff[ii] = 1.0;
+       inner_vals[ii] = orth_poly_expansion_inner(basis,b);
+       basis->coeff[ii] = 0.0;
    }
+   orth_poly_expansion_free(basis);
 
    return a->num_poly;
 }
-- 
2.43.0


From 89e7a26fe81a6e3b6a0e8a04add772977cbf9289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 69/86] fix: ft_param_gradeval: gradient of a one dimensional
 function train

---
 c3/lib_superlearn/parameterization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index 9b9cff7..e8a6ccc 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -996,7 +996,7 @@ double ft_param_gradeval_lin(struct FTparam * ftp, const double * grad_evals,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
@@ -1154,7 +1154,7 @@ double ft_param_gradeval(struct FTparam * ftp, const double * x,
     onparam = onparam - ftp->nparams_per_core[backind];
 
     for (size_t ii = 0; ii < r2; ii++){
-        double right_mult = mem[indmem + r1 + ii];
+        double right_mult = (ftp->dim > 1) ? mem[indmem + r1 + ii] : 1.0;
         for (size_t ll = 0; ll < ftp->nparams_per_uni[onuni]; ll++){
             grad[onparam] =  grad_evals[onparam]*right_mult;
             onparam++;
-- 
2.43.0


From ab04ae6d4b50260eac3c10cdbde05e6b1c68ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 70/86] fix: ft_param_hessvec: return the evaluation

---
 c3/lib_superlearn/parameterization.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/parameterization.c b/c3/lib_superlearn/parameterization.c
index e8a6ccc..45a7c0a 100644
--- a/c3/lib_superlearn/parameterization.c
+++ b/c3/lib_superlearn/parameterization.c
@@ -1672,7 +1672,7 @@ double ft_param_hessvec(struct FTparam * ftp, const double * x,
     /* double * d2_evals = calloc_double(maxrank*maxrank*ftp->nparams); */
 
 
-    double eval = 0.0;
+    double eval = function_train_eval(ft,x);
 
     // Precompute all relavent info
     for (size_t ii = 0; ii < ftp->dim; ii++){
-- 
2.43.0


From 324e15597adfaa2cceaaa2f7061020024b1f5056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 71/86] fix: orth_poly_expansion_param_grad_eval2: kristoffel
 weighting of the returned value

---
 c3/lib_funcs/polynomials.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index aa9f622..1666ce8 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -3194,6 +3194,7 @@ double orth_poly_expansion_param_grad_eval2(
             grad[jj] /= sqrt(den / ( (double) poly->num_poly ));
             /* grad[jj] /= sqrt(den); */
         }
+        out /= sqrt(den / ( (double) poly->num_poly ));
     }
     return out;    
 }
-- 
2.43.0


From abbc424a50b8e312c77a266840635bd810604e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:06 +0000
Subject: [PATCH 72/86] fix: kernel_expansion_update_params: compare rather
 than assign in the assertion

---
 c3/lib_funcs/kernels.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_funcs/kernels.c b/c3/lib_funcs/kernels.c
index 2e517d7..4148de8 100644
--- a/c3/lib_funcs/kernels.c
+++ b/c3/lib_funcs/kernels.c
@@ -928,7 +928,7 @@ int kernel_expansion_update_params(struct KernelExpansion * ke, size_t dim, cons
             memmove(ke->coeff,param,dim*sizeof(double));
         }
         else{
-            assert (ke->nkernels = dim/2);
+            assert (ke->nkernels == dim/2);
             memmove(ke->coeff,param,dim/2 * sizeof(double));
             for (size_t ii = 0; ii < ke->nkernels; ii++){
                 kernel_update_center(ke->kernels[ii],param[ii+dim/2]);
-- 
2.43.0


From 04d3edaaaf293dfcfe6b59e9cae8f8fd179cc195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:16 +0000
Subject: [PATCH 73/86] fix: objective_eval: weight the gradient of every
 objective like its value

---
 c3/lib_superlearn/objective_functions.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/objective_functions.c b/c3/lib_superlearn/objective_functions.c
index 2a1ce6a..f9e5371 100644
--- a/c3/lib_superlearn/objective_functions.c
+++ b/c3/lib_superlearn/objective_functions.c
@@ -43,6 +43,7 @@
 #include <stdlib.h>
 #include <assert.h>
 
+#include "array.h"
 #include "lib_optimization.h"
 #include "objective_functions.h"
 #include "superlearn_util.h"
@@ -121,11 +122,22 @@ double objective_eval(size_t nparam, const double * param, double * grad,
             grad[ii] = 0.0;
         }
     }
+    double * obj_grad = NULL;
+    if (grad != NULL){
+        obj_grad = calloc_double(nparam);
+    }
     double out = 0.0;
     while (obj != NULL){
-        out += obj->weight * obj->func(nparam,param,grad,N,ind,data,mem,obj->arg);
+        out += obj->weight * obj->func(nparam,param,obj_grad,N,ind,data,mem,obj->arg);
+        if (grad != NULL){
+            for (size_t ii = 0; ii < nparam; ii++){
+                grad[ii] += obj->weight * obj_grad[ii];
+                obj_grad[ii] = 0.0;
+            }
+        }
         obj = obj->next;
     }
+    free(obj_grad); obj_grad = NULL;
     
     /* printf("OUT = %G\n",out); */
     return out;
-- 
2.43.0


From d23626109888a664dd6602c4f1e138d09d92b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:39 +0000
Subject: [PATCH 74/86] fix: cross_validate_run: train every fold with the
 weights of its own samples

---
 c3/lib_superlearn/regress.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 6c547d8..4ad7ed9 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -1628,6 +1628,14 @@ double cross_validate_run(struct CrossValidate * cv,
     double * xtest = calloc_double(cv->N * cv->dim);
     double * ytest = calloc_double(cv->N);
 
+    // sample weights have to follow the samples into the training set
+    const double * weights = reg->regopts->sample_weights;
+    double * wtrain = NULL;
+    if (weights != NULL){
+        wtrain = calloc_double(cv->N);
+        reg->regopts->sample_weights = wtrain;
+    }
+
     double erri = 0.0;
     double norm = 0.0;
 
@@ -1647,6 +1655,11 @@ double cross_validate_run(struct CrossValidate * cv,
         
         extract_data(cv, start_num, batch, &xtest, &ytest,
                      &xtrain, &ytrain);
+        if (weights != NULL){
+            memmove(wtrain,weights,start_num * sizeof(double));
+            memmove(wtrain + start_num, weights + start_num + batch,
+                    (cv->N - start_num - batch) * sizeof(double));
+        }
 
         // train with all but *ii*th batch
         /* printf("ytrain = ");dprint(cv->N-batch,ytrain); */
@@ -1698,7 +1711,8 @@ double cross_validate_run(struct CrossValidate * cv,
     free(ytrain); ytrain = NULL;
     free(xtest); xtest = NULL;
     free(ytest); ytest = NULL;
-    
+    reg->regopts->sample_weights = weights;
+    free(wtrain); wtrain = NULL;
 
     return err;
 }
-- 
2.43.0


From c5756a01e0ade64b24ab23d45d3e0e2b48039921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:39 +0000
Subject: [PATCH 75/86] fix: ft_param_eval_grad: use the running products of
 the selected samples

---
 c3/lib_superlearn/regress.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 4ad7ed9..7a0c5f0 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -100,7 +100,7 @@ struct PP
     struct RegressOpts * opts;
 };
 
-static int ft_param_eval_grad(size_t N,const double * x, double ** evals,
+static int ft_param_eval_grad(size_t N, const size_t * ind, const double * x, double ** evals,
                               double ** grads,  struct SLMemManager * mem, void * arg)
 {
 
@@ -129,13 +129,14 @@ static int ft_param_eval_grad(size_t N,const double * x, double ** evals,
     }
     else if (ropts->type == ALS){
         size_t active_core = ropts->als_active_core;
+        // running products are stored for all of the data
         if ((active_core > 0) && ( active_core < (ftp->dim-1))){
             for (size_t ii = 0; ii < N; ii++){
                 mem->evals->vals[ii] =
                     ft_param_core_gradeval(ftp, active_core, x[ii*ftp->dim+active_core],
                                            mem->grad->vals + ii * ftp->nparams_per_core[active_core],
-                                           mem->running_lr[active_core-1][ii],
-                                           mem->running_rl[active_core+1][ii],
+                                           mem->running_lr[active_core-1][ind == NULL ? ii : ind[ii]],
+                                           mem->running_rl[active_core+1][ind == NULL ? ii : ind[ii]],
                                            mem->running_grad);
             }
         }
@@ -145,7 +146,7 @@ static int ft_param_eval_grad(size_t N,const double * x, double ** evals,
                     ft_param_core_gradeval(ftp,active_core, x[ii*ftp->dim+active_core],
                                            mem->grad->vals + ii * ftp->nparams_per_core[active_core],
                                            NULL,
-                                           mem->running_rl[1][ii],
+                                           mem->running_rl[1][ind == NULL ? ii : ind[ii]],
                                            mem->running_grad);
             }
         }
@@ -154,7 +155,7 @@ static int ft_param_eval_grad(size_t N,const double * x, double ** evals,
                 mem->evals->vals[ii] =
                     ft_param_core_gradeval(ftp,active_core, x[ii*ftp->dim+active_core],
                                            mem->grad->vals + ii * ftp->nparams_per_core[active_core],
-                                           mem->running_lr[active_core-1][ii],
+                                           mem->running_lr[active_core-1][ind == NULL ? ii : ind[ii]],
                                            NULL,
                                            mem->running_grad);
             }
@@ -357,7 +358,7 @@ static int ft_param_learning_interface(size_t nparam, const double * param,
         ft_linparam_eval_grad(N,ind,evals,grads,mem,args);
     }
     else{
-        ft_param_eval_grad(N,x,evals,grads,mem,args);
+        ft_param_eval_grad(N,ind,x,evals,grads,mem,args);
     }
         
     return 0;
-- 
2.43.0


From 79bbf595d5bb1991b29ea61c31b22d42c9fd4b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:04 +0000
Subject: [PATCH 76/86] fix: c3_regression_run_als: make room for every stored
 objective value

---
 c3/lib_superlearn/regress.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/c3/lib_superlearn/regress.c b/c3/lib_superlearn/regress.c
index 7a0c5f0..63a595a 100644
--- a/c3/lib_superlearn/regress.c
+++ b/c3/lib_superlearn/regress.c
@@ -609,6 +609,13 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
             /* assert (res == 0); */
             double val = slp_get_minimum(&slp);
             if (stored_fvals != NULL){
+                // optimizers store the starting point in addition to each iteration
+                stored_fvals = realloc(stored_fvals,
+                                       (nepochs + c3opt_get_niters(optimizer) + 1) * sizeof(double));
+                if (stored_fvals == NULL){
+                    fprintf(stderr, "Failure to allocate memory for stored objective values\n");
+                    exit(1);
+                }
                 for (size_t zz = 0; zz < c3opt_get_niters(optimizer); zz++){
                     stored_fvals[nepochs] = c3opt_get_stored_function(optimizer, zz);
                     nepochs++;
@@ -688,6 +695,13 @@ c3_regression_run_als(struct FTparam * ftp, struct RegressOpts * ropts, struct c
             /* assert (res == 0); */
             double val = slp_get_minimum(&slp);
             if (stored_fvals != NULL){
+                // optimizers store the starting point in addition to each iteration
+                stored_fvals = realloc(stored_fvals,
+                                       (nepochs + c3opt_get_niters(optimizer) + 1) * sizeof(double));
+                if (stored_fvals == NULL){
+                    fprintf(stderr, "Failure to allocate memory for stored objective values\n");
+                    exit(1);
+                }
                 for (size_t zz = 0; zz < c3opt_get_niters(optimizer); zz++){
                     stored_fvals[nepochs] = c3opt_get_stored_function(optimizer, zz);
                     nepochs++;
-- 
2.43.0


From 52d1d05b13c11ebe3d9a23bcb2135c1a1b409032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 77/86] fix: probability_density_serialize: handle densities
 without a transform

---
 c3/lib_probability/probability.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1927569..1c48a4b 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -891,7 +891,10 @@ probability_density_serialize(unsigned char * ser,
     if (totSizeIn != NULL){
         size_t size_pdf, size_lt;
         function_train_serialize(NULL,pdf->pdf,&size_pdf);
-        linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        size_lt = 0;
+        if (pdf->transform == 1){
+            linear_transform_serialize(NULL,pdf->lt,&size_lt);
+        }
         totSize = size_pdf + size_lt + sizeof(int) + sizeof(enum pdf_type);
         *totSizeIn = totSize;
         return ser;
@@ -901,7 +904,9 @@ probability_density_serialize(unsigned char * ser,
     ptr = serialize_int(ptr,pdf->transform);
     ptr = serialize_int(ptr,pdf->type);
     ptr = function_train_serialize(ptr,pdf->pdf,NULL);
-    ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    if (pdf->transform == 1){
+        ptr = linear_transform_serialize(ptr,pdf->lt,NULL);
+    }
     return ptr;
 }
 
@@ -924,7 +929,9 @@ probability_density_deserialize(unsigned char * ser,
     ptr = deserialize_int(ptr,&ptype);
     (*pdf)->type = (enum pdf_type) ptype;
     ptr = function_train_deserialize(ptr,&((*pdf)->pdf));
-    ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    if ((*pdf)->transform == 1){
+        ptr = linear_transform_deserialize(ptr,&((*pdf)->lt));
+    }
     
     return ptr;
 }
-- 
2.43.0


From ccd3e930d66b7646645ebac682f6cd67615df424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 78/86] fix: icdfnorm_rational: multiply the central
 approximation by r, not its square

---
 c3/lib_probability/probability_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability_utils.c b/c3/lib_probability/probability_utils.c
index 9e30a9c..57b8814 100644
--- a/c3/lib_probability/probability_utils.c
+++ b/c3/lib_probability/probability_utils.c
@@ -114,7 +114,7 @@ double icdfnorm_rational(double pin)
     else if (p <= p_high){
         double r = p - 0.5;
         double q = r*r;
-        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*q;
+        val = (((((a1*q+a2)*q + a3)*q + a4)*q + a5)*q + a6)*r;
         val /= (((((b1*q + b2)*q + b3)*q + b4)*q + b5)*q + 1.0);
 
     }
-- 
2.43.0


From c1fc582e06f365e57a1cd1e1274946fbe92a4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 79/86] fix: linear_transform_copy: copy the matrix types

---
 c3/lib_probability/probability.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 1c48a4b..aa8443a 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -645,6 +645,7 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
 {
     struct LinearTransform * newlt = 
         linear_transform_alloc(lt->dimin, lt->dimout, lt->A, lt->b, lt->det);
+    newlt->mt = lt->mt;
 
     if (lt->Ainv != NULL){
         newlt->Ainv = calloc_double(lt->dimin*lt->dimout);
@@ -652,6 +653,7 @@ struct LinearTransform * linear_transform_copy(struct LinearTransform * lt)
         newlt->binv = calloc_double(lt->dimin);
         memmove(newlt->binv, lt->binv, lt->dimin * sizeof(double));
         newlt->detinv = lt->detinv;
+        newlt->mti = lt->mti;
     }
     return newlt;
     
-- 
2.43.0


From fa51058ce1801beb26be21dc643c3fb3462952d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 80/86] fix: probability_density_standard_normal: set the
 approximation options and a known wrapper type

---
 c3/lib_probability/probability.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index aa8443a..8735a63 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1062,6 +1062,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     struct LinElemExpAopts * opts = lin_elem_exp_aopts_alloc_adapt(0,NULL,lb,ub,delta,hmin);
     struct OneApproxOpts * qmopts = one_approx_opts_alloc(LINELM,opts);
     struct MultiApproxOpts * fopts = multi_approx_opts_alloc(dim);
+    multi_approx_opts_set_all_same(fopts,qmopts);
     
     /* size_t init_rank = 3; */
     /* double round_tol = 1e-3; */
@@ -1073,7 +1074,7 @@ struct ProbabilityDensity * probability_density_standard_normal(size_t dim)
     /* struct FtApproxArgs * fapp = c3approx_get_approx_args(c3a); */
     
     struct ProbabilityDensity * pdf = probability_density_alloc();
-    struct Fwrap * fw = fwrap_create(1,"MOVEC");
+    struct Fwrap * fw = fwrap_create(1,"mo-vec");
     fwrap_set_mofvec(fw,pdf_stdmvn_helper,&dim);
     
     pdf->pdf = function_train_rankone(fopts,fw);
-- 
2.43.0


From cfb1b5b4910f88641694713c37795dc487b1db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 81/86] fix: probability_density_sample: sample densities
 without a transform

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 8735a63..f1371bb 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -1153,6 +1153,9 @@ double * probability_density_sample(struct ProbabilityDensity * pdf)
         for (ii = 0; ii < dim; ii++){
             norm[ii] = randn();
         }
+        if (pdf->transform == 0){
+            return norm;
+        }
         out = linear_transform_apply(dim,dim,pdf->lt->A,
                             norm,pdf->lt->b);
         free(norm); norm = NULL;
-- 
2.43.0


From e53bdf173bb56c33486b664982249e5328123b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 82/86] fix: c3_sobol_sensitivity_calculate: functions of one
 variable

---
 c3/lib_probability/probability.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index f1371bb..566d592 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -461,6 +461,10 @@ c3_sobol_sensitivity_calculate(const struct FunctionTrain * ft,
     sobol->total_effects = calloc_double(ft->dim);
     struct FunctionTrain * ft_1 = NULL;;
     for (size_t ii = 0; ii < ft->dim; ii++){
+        if (ft->dim == 1){
+            sobol->total_effects[ii] = 1.0;
+            break;
+        }
         ft_1 = function_train_integrate_weighted_subset(ft,1,&ii);
         
         double fm = function_train_integrate_weighted(ft_1);
-- 
2.43.0


From 529e0656814f5c62afb435a74bd8d1aba0ced11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:36 +0000
Subject: [PATCH 83/86] fix: c3_sobol_sensitivity_calculate: stop at
 first-order effects when asked for order one

---
 c3/lib_probability/probability.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c3/lib_probability/probability.c b/c3/lib_probability/probability.c
index 566d592..9a28d72 100755
--- a/c3/lib_probability/probability.c
+++ b/c3/lib_probability/probability.c
@@ -402,6 +402,9 @@ void get_combination(size_t num_elements, size_t elements_left, size_t start,
 
 
     sinteract_compute_var_subtract(*elements,head_of_tree);
+    if (elements_left == 0){
+        return;
+    }
     if (elements_left == 1){
         for (size_t ii = start; ii < num_elements; ii++){
             sinteract_push(elements,ii,ii-start,0,ft);
-- 
2.43.0


From b0e0b06be1c25a728a07faa66175e3c0c6f3f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 84/86] fix: c3opt_copy: copy all stored values (optimisers
 store more than maxiter of them)

---
 c3/lib_optimization/optimization.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index 8db8a86..d072486 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -577,15 +577,15 @@ struct c3Opt * c3opt_copy(struct c3Opt * old)
     opt->store_x     = old->store_x;
     if (opt->store_grad == 1){
         opt->stored_grad = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter);
+        memmove(opt->stored_grad,old->stored_grad,opt->d*sizeof(double)*opt->maxiter*sizeof(double));
     }
     if (opt->store_x == 1){
         opt->stored_x = calloc_double(opt->d*sizeof(double)*opt->maxiter);
-        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter);
+        memmove(opt->stored_x,old->stored_x,opt->d*sizeof(double)*opt->maxiter*sizeof(double));
     }
     if (opt->store_func == 1){
         opt->stored_func = calloc_double(sizeof(double)*opt->maxiter);
-        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter);
+        memmove(opt->stored_func,old->stored_func,sizeof(double)*opt->maxiter*sizeof(double));
     }
 
     return opt;
-- 
2.43.0


From eb9a8f0fb21116e3e695bb2c06a311e0071fb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 85/86] fix: c3opt_set_maxiter: resize the storage of
 optimisation values with the iteration limit

---
 c3/lib_optimization/optimization.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c3/lib_optimization/optimization.c b/c3/lib_optimization/optimization.c
index d072486..31eac94 100755
--- a/c3/lib_optimization/optimization.c
+++ b/c3/lib_optimization/optimization.c
@@ -723,7 +723,11 @@ int c3opt_get_verbose(struct c3Opt* opt)
 void c3opt_set_maxiter(struct c3Opt * opt , size_t maxiter)
 {
     assert (opt != NULL);
-    opt->maxiter = maxiter;;
+    opt->maxiter = maxiter;
+    free(opt->stored_grad); opt->stored_grad = NULL;
+    free(opt->stored_x);    opt->stored_x = NULL;
+    free(opt->stored_func); opt->stored_func = NULL;
+    c3opt_set_storage_options(opt,opt->store_func,opt->store_grad,opt->store_x);
 }
 
 size_t c3opt_get_maxiter(const struct c3Opt * opt)
-- 
2.43.0


From c9492038e17699e458107317fa83f5e24499e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:02 +0000
Subject: [PATCH 86/86] fix: real roots of linear and zero polynomial
 expansions

---
 c3/lib_funcs/polynomials.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c3/lib_funcs/polynomials.c b/c3/lib_funcs/polynomials.c
index 1666ce8..6171501 100755
--- a/c3/lib_funcs/polynomials.c
+++ b/c3/lib_funcs/polynomials.c
@@ -5177,6 +5177,9 @@ legendre_expansion_real_roots(struct OrthPolyExpansion * p, size_t * nkeep)
    // print_orth_poly_expansion(p,3,NULL);
     //printf("last 2 = %G\n",p->coeff[p->num_poly-1]);
     size_t N = p->num_poly-1;
+    while ((N > 0) && (p->coeff[N] == 0.0)){
+        N--;
+    }
     //printf("N = %zu\n",N);
     if (N == 0){
         return real_roots;
@@ -5186,8 +5189,8 @@ legendre_expansion_real_roots(struct OrthPolyExpansion * p, size_t * nkeep)
             return real_roots;
         }
         else{
-            double root = -p->coeff[0] / p->coeff[1];
-            if ( (root >= -1.0-ZEROTHRESH) && (root <= 1.0 - ZEROTHRESH)){
+            double root = -p->coeff[0] / (p->coeff[1] * sqrt(3.0));
+            if ( (root >= -1.0-ZEROTHRESH) && (root <= 1.0 + ZEROTHRESH)){
                 if (root <-1.0){
                     root = -1.0;
                 }
@@ -5356,6 +5359,9 @@ chebyshev_expansion_real_roots(struct OrthPolyExpansion * p, size_t * nkeep)
     orth_poly_expansion_round(&p);
     
     size_t N = p->num_poly-1;
+    while ((N > 0) && (p->coeff[N] == 0.0)){
+        N--;
+    }
     if (N == 0){
         return real_roots;
     }
@@ -5365,7 +5371,7 @@ chebyshev_expansion_real_roots(struct OrthPolyExpansion * p, size_t * nkeep)
         }
         else{
             double root = -p->coeff[0] / p->coeff[1];
-            if ( (root >= -1.0-ZEROTHRESH) && (root <= 1.0 - ZEROTHRESH)){
+            if ( (root >= -1.0-ZEROTHRESH) && (root <= 1.0 + ZEROTHRESH)){
                 if (root <-1.0){
                     root = -1.0;
                 }
-- 
2.43.0

