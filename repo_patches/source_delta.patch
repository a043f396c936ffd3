From 76a2da0fdde47e5f400140c6fd7b5593e668a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 01/14] fix: assemble the KKT diagonal for all-zero rows of G

The -1 on the diagonal of the z block was only appended after the last
entry of the matching row of G, so a row without entries got an empty KKT
column and updatekktmatrix overwrote the last entry of the previous one.
---
 src/Auxilary.c | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index cfdae2f..b90a016 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -41,13 +41,10 @@ void formkktmatrix_U(smat *P, smat *G, smat *Gt, smat *kkt)
 			kkt->ir[kkt_nnz] = Gt->ir[j];
 			kkt->pr[kkt_nnz] = Gt->pr[j];
 			kkt_nnz++;
-			if (j == Gt->jc[i + 1] - 1)
-			{
-				kkt->ir[kkt_nnz] = P->n + i;
-				kkt->pr[kkt_nnz] = -1.0;
-				kkt_nnz++;
-			}
 		}
+		kkt->ir[kkt_nnz] = P->n + i;
+		kkt->pr[kkt_nnz] = -1.0;
+		kkt_nnz++;
 		kkt->jc[i + 1 + P->n] = kkt_nnz;
 	}
 }
@@ -123,13 +120,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + A->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + A->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n + At->n] = kkt_nnz;
 		}
 	}
@@ -168,13 +162,10 @@ void formkktmatrix_full(smat *P, smat *G, smat *A, smat *Gt, smat *At, smat *kkt
 				kkt->ir[kkt_nnz] = Gt->ir[j];
 				kkt->pr[kkt_nnz] = Gt->pr[j];
 				kkt_nnz++;
-				if (j == Gt->jc[i + 1] - 1)
-				{
-					kkt->ir[kkt_nnz] = P->m + i;
-					kkt->pr[kkt_nnz] = -1.0;
-					kkt_nnz++;
-				}
 			}
+			kkt->ir[kkt_nnz] = P->m + i;
+			kkt->pr[kkt_nnz] = -1.0;
+			kkt_nnz++;
 			kkt->jc[i + 1 + P->n] = kkt_nnz;
 		}
 	}
-- 
2.43.0


From 7cd4b7d8c91e97b7c7397136f55de284963bf8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 02/14] fix: report QP_MAXIT from the iterations of this call
 to QP_SOLVE

IterationCount accumulates over repeated calls, so a second call that ran
out of iterations kept the earlier QP_OPTIMAL, and one that met its
tolerances could be reported as QP_MAXIT.
---
 src/qpSWIFT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 8831d13..23d5434 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -601,7 +601,7 @@ qp_int QP_SOLVE(QP *myQP)
 			}
 		}
 
-		if (myQP->stats->IterationCount == myQP->options->maxit)
+		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
 		}
-- 
2.43.0


From 091d88a240a4897c21b7d30b76ae8456dd6a4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 03/14] fix: size the fallback permutation by the KKT matrix

When p is nonzero but A or b is NULL the equality constraints are dropped,
yet the identity permutation used after an AMD failure was written for
n + m + p entries, past the end of the array.
---
 src/qpSWIFT.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index 23d5434..b113222 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -209,7 +209,7 @@ QP *QP_SETUP(qp_int n, qp_int m, qp_int p, qp_int *Pjc, qp_int *Pir, qp_real *Pp
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->kkt->kktmatrix->n; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
@@ -431,7 +431,7 @@ QP *QP_SETUP_dense(qp_int n, qp_int m, qp_int p, qp_real *Ppr, qp_real *Apr, qp_
 #ifdef MATLAB_MEX_FILE
 			PRINT("AMD is not succesful, Using a default permutation matrix \n");
 #endif
-			for (idx = 0; idx < n + m + p; idx++)
+			for (idx = 0; idx < myQP->kkt->kktmatrix->n; idx++)
 			{
 				myQP->kkt->P[idx] = idx;
 			}
-- 
2.43.0


From 82669c5a4951ef55003b2accf07555f08b6e158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 04/14] fix: report the objective and residuals of the returned
 point at QP_MAXIT

When the iteration limit is reached, fval and the residual norms were those
of the iterate before the last step (never set at all for maxit = 0), not of
the x, y, z, s handed back to the caller.
---
 src/qpSWIFT.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qpSWIFT.c b/src/qpSWIFT.c
index b113222..77f3d86 100644
--- a/src/qpSWIFT.c
+++ b/src/qpSWIFT.c
@@ -604,6 +604,9 @@ qp_int QP_SOLVE(QP *myQP)
 		if (idx == myQP->options->maxit)
 		{
 			myQP->stats->Flag = QP_MAXIT;
+			/* The last step moved the iterate; update its residuals and objective value */
+			computeresiduals(myQP);
+			myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);
 		}
 	}
 
-- 
2.43.0


From 8facc2855afcba150f857c97936052366a49d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 05/14] fix: set n_ry when there are no equality constraints

It was left uninitialised and then printed by the verbose output.
---
 src/Auxilary.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index b90a016..edca65e 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -761,6 +761,10 @@ void computeresiduals(QP *myQP)
 		updatevariables(myQP->ry, myQP->b, 1, myQP->p);
 		myQP->stats->n_ry = norm(myQP->ry, myQP->p);
 	}
+	else
+	{
+		myQP->stats->n_ry = 0.0;
+	}
 
 	/* Compute rz = s + G*x - h in two steps */
 	/* Compute rz = -s - Gx + h in two steps */
-- 
2.43.0


From 50943c8ffcdc2c42f668d6f404b470ee45042eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 06/14] fix: read array sizes in the Python module only after
 checking the rank

A zero-dimensional c, h or b has no dimensions to read, and passing one
crashed the interpreter instead of raising the intended TypeError.
---
 python/pyqpSWIFT.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 2f75797..a10a8f5 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -85,19 +85,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
 
     qp_int n, m, p;
-    dims = PyArray_DIMS(c);
-    n = (qp_int)dims[0];
-    dims = PyArray_DIMS(h);
-    m = (qp_int)dims[0];
-    if (b && A)
-    {
-        dims = PyArray_DIMS(b);
-        p = (qp_int)dims[0];
-    }
-    else
-    {
-        p = 0;
-    }
+    p = 0;
 
     /*Check Input Data here*/
     /*---- c vector ------*/
@@ -106,6 +94,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "c must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(c);
+    n = (qp_int)dims[0];
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -114,6 +104,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
         PyErr_SetString(PyExc_TypeError, "h must be a floating array with one dimension");
         return NULL;
     }
+    dims = PyArray_DIMS(h);
+    m = (qp_int)dims[0];
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
@@ -125,6 +117,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             PyErr_SetString(PyExc_TypeError, "b must be a floating array with one dimension");
             return NULL;
         }
+        dims = PyArray_DIMS(b);
+        p = (qp_int)dims[0];
         /*---- b vector ------*/
 
         /*---- A Matrix ------*/
-- 
2.43.0


From 1c9264f14ed9686a984a8d24ee6c7a30bb4680ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 07/14] fix: reject empty c and h in the Python module

The solver requires at least one variable and one inequality; an empty c
crashed the interpreter and an empty h made it read past its arrays.
---
 python/pyqpSWIFT.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index a10a8f5..182a811 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -96,6 +96,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
     dims = PyArray_DIMS(c);
     n = (qp_int)dims[0];
+    if (n == 0)
+    {
+        PyErr_SetString(PyExc_TypeError, "c must not be empty");
+        return NULL;
+    }
     /*---- c vector ------*/
 
     /*---- h vector ------*/
@@ -106,6 +111,11 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     }
     dims = PyArray_DIMS(h);
     m = (qp_int)dims[0];
+    if (m == 0)
+    {
+        PyErr_SetString(PyExc_TypeError, "h must not be empty");
+        return NULL;
+    }
     /*---- h vector ------*/
 
     /*---- b vector and A Matrix ------*/
-- 
2.43.0


From 68b5ff0b509e31939551431abd7b9cfa9ed26b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 08/14] fix: do not return a result with an exception set for a
 bad OUTPUT option

An OUTPUT that does not fit a C long, or a warning turned into an error,
left an exception pending, which Python reports as SystemError.
---
 python/pyqpSWIFT.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 182a811..7ad96c9 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -284,7 +284,12 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             }
             else
             {
-                PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1);
+                PyErr_Clear();
+                if (PyErr_WarnEx(PyExc_UserWarning, "output must be non-negative, using the default value", 1) < 0)
+                {
+                    Py_DECREF(opts_output);
+                    return NULL;
+                }
                 // PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
                 // return NULL;
             }
-- 
2.43.0


From d87447d56fc18c669fbda0184cb68a503fa1e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 09/14] fix: release the option value when the Python module
 rejects it

---
 python/pyqpSWIFT.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 7ad96c9..1b7f2ee 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -199,6 +199,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "max iterations must be between 0 and 200, using the default value of 100");
+                Py_DECREF(opts_maxiter);
                 return NULL;
             }
             Py_DECREF(opts_maxiter);
@@ -216,6 +217,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "absolute tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_abstol);
                 return NULL;
             }
             Py_DECREF(opts_abstol);
@@ -233,6 +235,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "realtive tolerance must be between 0 and 1, using the default value");
+                Py_DECREF(opts_reltol);
                 return NULL;
             }
             Py_DECREF(opts_reltol);
@@ -250,6 +253,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             else
             {
                 PyErr_SetString(PyExc_TypeError, "sigma must be positive, using the default value");
+                Py_DECREF(opts_sigma);
                 return NULL;
             }
             Py_DECREF(opts_sigma);
@@ -268,6 +272,7 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
             {
                 //  PyErr_WarnEx(PyExc_UserWarning, "verbose must be non-negative, using the default value", 1);
                 PyErr_SetString(PyExc_TypeError, "verbose must be non-negative integer, using the default value");
+                Py_DECREF(opts_verbose);
                 return NULL;
             }
             Py_DECREF(opts_verbose);
-- 
2.43.0


From 0e5ae78c3f0442bf3384700f70c3056116648fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 10/14] fix: count the factorisation of pure centring steps in
 the LDL time

---
 src/Auxilary.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index edca65e..75d9152 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -520,7 +520,10 @@ void kktsolve_2(QP *myQP)
 
 	if(myQP->stats->resolve_kkt)
 	{
-		qp_int d = LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		qp_timer t;
+		tic(&t);
+		LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);
+		myQP->stats->ldl_numeric += toc(&t);
 	}
     
 	LDL_perm(n, myQP->delta, myQP->kkt->b, myQP->kkt->P);
-- 
2.43.0


From d48a3dd02018f6a4cc53dd8246becaed8f03bb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 11/14] fix: reject empty, non-numeric and NaN options in the
 MATLAB gateway

---
 matlab/qpSWIFT_mex.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/matlab/qpSWIFT_mex.c b/matlab/qpSWIFT_mex.c
index eeebc68..315960f 100644
--- a/matlab/qpSWIFT_mex.c
+++ b/matlab/qpSWIFT_mex.c
@@ -99,6 +99,14 @@ char helpstr[] = {
 "      -> s          : Primal Slack Variables \n"
 };
 
+/* Value of an option; it should be a real number, whatever its class, and not empty */
+static double option_value(const mxArray *option)
+{
+    if (!(mxIsNumeric(option) || mxIsLogical(option)) || mxIsSparse(option) || mxIsComplex(option) || mxIsEmpty(option))
+        mexErrMsgTxt("Options should be real scalars");
+    return mxGetScalar(option);
+}
+
 void mexFunction(int nlhs, mxArray *plhs[],
                  int nrhs, const mxArray *prhs[])
 {
@@ -441,43 +449,43 @@ void mexFunction(int nlhs, mxArray *plhs[],
     if (sttgs_maxiter)
     {
 
-        if (*mxGetPr(sttgs_maxiter) < 0 || *mxGetPr(sttgs_maxiter) > 200)
+        if (!(option_value(sttgs_maxiter) >= 0 && option_value(sttgs_maxiter) <= 200))
             mexErrMsgTxt("Iteration Number must be within 0 and 200");
 
-        myQP->options->maxit = (qp_int)(*mxGetPr(sttgs_maxiter));
+        myQP->options->maxit = (qp_int)(option_value(sttgs_maxiter));
     }
 
     if (sttgs_abstol)
     {
 
-        if (*mxGetPr(sttgs_abstol) < 0 || *mxGetPr(sttgs_abstol) > 1)
+        if (!(option_value(sttgs_abstol) >= 0 && option_value(sttgs_abstol) <= 1))
             mexErrMsgTxt("Absolute Tolerance must be within 0 and 1");
 
-        myQP->options->abstol = (qp_real)(*mxGetPr(sttgs_abstol));
+        myQP->options->abstol = (qp_real)(option_value(sttgs_abstol));
     }
     if (sttgs_reltol)
     {
 
-        if (*mxGetPr(sttgs_reltol) < 0 || *mxGetPr(sttgs_reltol) > 1)
+        if (!(option_value(sttgs_reltol) >= 0 && option_value(sttgs_reltol) <= 1))
             mexErrMsgTxt("Relative Tolerance must be within 0 and 1");
 
-        myQP->options->reltol = (qp_real)(*mxGetPr(sttgs_reltol));
+        myQP->options->reltol = (qp_real)(option_value(sttgs_reltol));
     }
 
     if (sttgs_sigma)
     {
-        myQP->options->sigma = (qp_real)(*mxGetPr(sttgs_sigma));
-        if (*mxGetPr(sttgs_sigma) < 0)
+        myQP->options->sigma = (qp_real)(option_value(sttgs_sigma));
+        if (!(option_value(sttgs_sigma) >= 0))
             mexErrMsgTxt("Sigma must be positive");
     }
 
     if (sttgs_verbose)
     {
 
-        if (*mxGetPr(sttgs_verbose) < 0)
+        if (!(option_value(sttgs_verbose) >= 0))
             mexErrMsgTxt("Verbose must be positive");
 
-        myQP->options->verbose = (qp_real)(*mxGetPr(sttgs_verbose));
+        myQP->options->verbose = (qp_real)(option_value(sttgs_verbose));
     }
 
     if (myQP->options->verbose > 0)
-- 
2.43.0


From c930e5cdc7a7d63432a83b6df81f0b3d454abe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 12/14] fix: Python: raise instead of crashing when an argument
 cannot be copied

numpy returns NULL when there is no memory for the copy or when a subclass
refuses it; the pointer was used without a check.
---
 python/pyqpSWIFT.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/python/pyqpSWIFT.c b/python/pyqpSWIFT.c
index 1b7f2ee..86cb14c 100644
--- a/python/pyqpSWIFT.c
+++ b/python/pyqpSWIFT.c
@@ -27,6 +27,10 @@ qp_real *getptr(PyArrayObject *ar)
     PyArrayObject *tmp_arr;
     PyArrayObject *new_owner;
     tmp_arr = PyArray_GETCONTIGUOUS(ar);
+    if (!tmp_arr)
+    {
+        return NULL;
+    }
     new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);
     Py_DECREF(tmp_arr);
     // qp_real *ptr = PyArray_DATA(new_owner);
@@ -56,8 +60,8 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     /* Temporary Pointer */
     qp_real *temptr;
 
-    PyArrayObject *ctemp, *htemp, *btemp = NULL;
-    PyArrayObject *Ptemp, *Gtemp, *Atemp = NULL;
+    PyArrayObject *ctemp = NULL, *htemp = NULL, *btemp = NULL;
+    PyArrayObject *Ptemp = NULL, *Gtemp = NULL, *Atemp = NULL;
 
     /* Results Pointer */
     PyArrayObject *sol_x, *sol_y = NULL, *sol_z = NULL, *sol_s = NULL;
@@ -307,21 +311,27 @@ static PyObject *method_qpSWIFT(PyObject *self, PyObject *args, PyObject *kwargs
     /*Check Input Data here*/
 
     /*** Get Data Pointers ***/
-    ctemp = getptr(c);
-    cpr = (qp_real *)PyArray_DATA(ctemp);
+    if (!(ctemp = getptr(c)) || !(htemp = getptr(h)) ||
+        (b && A && (!(btemp = getptr(b)) || !(Atemp = getptr(A)))) ||
+        !(Ptemp = getptr(P)) || !(Gtemp = getptr(G)))
+    {
+        Py_XDECREF(ctemp);
+        Py_XDECREF(htemp);
+        Py_XDECREF(btemp);
+        Py_XDECREF(Atemp);
+        Py_XDECREF(Ptemp);
+        Py_XDECREF(Gtemp);
+        return NULL;
+    }
 
-    htemp = getptr(h);
+    cpr = (qp_real *)PyArray_DATA(ctemp);
     hpr = (qp_real *)PyArray_DATA(htemp);
     if (b && A)
     {
-        btemp = getptr(b);
         bpr = (qp_real *)PyArray_DATA(btemp);
-        Atemp = getptr(A);
         Apr = (qp_real *)PyArray_DATA(Atemp);
     }
-    Ptemp = getptr(P);
     Ppr = (qp_real *)PyArray_DATA(Ptemp);
-    Gtemp = getptr(G);
     Gpr = (qp_real *)PyArray_DATA(Gtemp);
     /*** Get Data Pointers ***/
 
-- 
2.43.0


From 0f0f4b5e613121160990a8deaaf15ceae891ee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:19 +0000
Subject: [PATCH 13/14] fix: LDL_cache_numeric reads past the end of a column
 that does not change

The column end was tested after the row index had been used, so the last
column read one entry past Li and an arbitrary entry of UPattern.
---
 src/ldl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ldl.c b/src/ldl.c
index a32d714..beeb81e 100644
--- a/src/ldl.c
+++ b/src/ldl.c
@@ -406,7 +406,7 @@ qp_int UPattern[] /*Update Pattern of subsequent iterations*/
 		else{
 			/*for (jj = Ltp[k]; jj < Ltp[k + 1]; jj++)
 				++work[Lti[jj]];*/
-			for (jj = Lp[k]; UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++);
+			for (jj = Lp[k]; jj < Lp[k + 1] && UPattern[Li[jj]] != n; jj++, work[k]++);
 		}
 
 	}
-- 
2.43.0


From e07ab8903c4bfd4de7fd281a4dbbd8e8d708b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:33 +0000
Subject: [PATCH 14/14] fix: test_reach reads in front of the pattern at the
 root of an elimination tree

---
 src/Auxilary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Auxilary.c b/src/Auxilary.c
index 75d9152..76d3e2d 100644
--- a/src/Auxilary.c
+++ b/src/Auxilary.c
@@ -1109,7 +1109,7 @@ void test_reach(qp_int *Parent, qp_int *Pinv, qp_int *UPattern, qp_int n, qp_int
 	{
 		i = Pinv[j];
 
-		for (; UPattern[i] != top && i != -1; i = Parent[i])
+		for (; i != -1 && UPattern[i] != top; i = Parent[i])
 		{
 			UPattern[i] = top;
 		}
-- 
2.43.0

