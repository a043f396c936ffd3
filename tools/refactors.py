"""Edits that keep the behaviour (see campaign.py): every check has to stay quiet on each of them.
   python3 tools/campaign.py tools/refactors.py --checks all"""
Q, A, L, T = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c"
ORD, PRE, VAL, AAT, A1, A2, PT, PO = ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
PY, MX, SF, SE = "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"
DS = "for (i = 0; i < myQP->m; i++)\n{\nmyQP->delta_s[i] = (myQP->ds[i] - (myQP->s[i] * myQP->delta_z[i])) / myQP->z[i];\n}"
SOLVE = "LDL_perm(n, myQP->delta, myQP->kkt->b, myQP->kkt->P); LDL_lsolve(n, myQP->delta, myQP->kkt->Lp, myQP->kkt->Li, myQP->kkt->Lx); LDL_dsolve(n, myQP->delta, myQP->kkt->D); LDL_ltsolve(n, myQP->delta, myQP->kkt->Lp, myQP->kkt->Li, myQP->kkt->Lx); LDL_permt(n, myQP->kkt->b, myQP->delta, myQP->kkt->P);"
SOLVE0 = SOLVE.replace("myQP->kkt", "mykkt").replace("myQP->delta", "delta")
OPT = "if (myQP->p)\n\t\t\t{\n\t\t\t\tif (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_ry < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu < myQP->options->abstol)\n\t\t\t\t{\n\t\t\t\t\tmyQP->stats->Flag = QP_OPTIMAL;\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}\n\t\t\telse\n\t\t\t{\n\t\t\t\tif (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu < myQP->options->abstol)\n\t\t\t\t{\n\t\t\t\t\tmyQP->stats->Flag = QP_OPTIMAL;\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t}"
def field(up, lo): return ("sttgs_%s = sttgs ? mxGetField(sttgs, 0, \"%s\") : 0; if (!sttgs_%s) { sttgs_%s = sttgs ? mxGetField(sttgs, 0, \"%s\") : 0; }" % (lo, up, lo, lo, lo), "sttgs_%s = option_field(sttgs, \"%s\", \"%s\");" % (lo, up, lo))
M = [
("r1-aux-helpers", "P14", [
 (A, "void formkktmatrix_U(smat *P", "static void ldl_backsolve(qp_int n, kkt *k, qp_real *w)\n{\n\tLDL_perm(n, w, k->b, k->P);\n\tLDL_lsolve(n, w, k->Lp, k->Li, k->Lx);\n\tLDL_dsolve(n, w, k->D);\n\tLDL_ltsolve(n, w, k->Lp, k->Li, k->Lx);\n\tLDL_permt(n, k->b, w, k->P);\n}\nstatic qp_real dot(const qp_real *a, const qp_real *b, qp_int n)\n{\n\tqp_real t = 0;\n\twhile (n-- > 0)\n\t\tt += *a++ * *b++;\n\treturn t;\n}\nstatic void recover_ds(QP *q)\n{\n\tqp_int k;\n\tfor (k = 0; k != q->m; ++k)\n\t\tq->delta_s[k] = (q->ds[k] - q->s[k] * q->delta_z[k]) / q->z[k];\n}\nvoid formkktmatrix_U(smat *P"),
 (A, SOLVE, "ldl_backsolve(n, myQP->kkt, myQP->delta);", "all"), (A, SOLVE0, "ldl_backsolve(n, mykkt, delta);"),
 (A, DS, "recover_ds(myQP);", "all"),
 (A, "qp_real k = 0;\n qp_int i;\n for (i = 0; i < n; i++)\n{\n k += p[i] * p[i];\n }\n return sqrt(k);", "return sqrt(dot(p, p, n));"),
 (A, "qp_real sum = 0;\n\tqp_int i;\n\tfor (i = 0; i < n; i++)\n\t{\n\t\tsum += x[i] * y[i];\n\t}\n\t\t\n\n\treturn sum;", "return dot(x, y, n);"),
]),
("r2-residual-order", "P09", [
 (A, "/* Compute rz = s + G*x - h in two steps */", "/* Compute rz */"),
 (A, "SparseMatrixMultiply(myQP->P, myQP->x, myQP->rx, 1);\n SparseMatrixTransMultiply(myQP->G, myQP->z, myQP->rx, 0);", "SparseMatrixMultiply(myQP->G, myQP->x, myQP->rz, 1);\nfor (i = 0; i < myQP->m; i++) { qp_real hs = myQP->h[i] - myQP->s[i]; myQP->rz[i] = myQP->rz[i] + hs; }\nmyQP->stats->n_rz = norm(myQP->rz, myQP->m);\nmyQP->stats->n_mu = innerproduct(myQP->z, myQP->s, myQP->m) / (qp_real)myQP->m;\nSparseMatrixMultiply(myQP->P, myQP->x, myQP->rx, 1);\nSparseMatrixTransMultiply(myQP->G, myQP->z, myQP->rx, 0);"),
 (A, "SparseMatrixMultiply(myQP->G, myQP->x, myQP->rz, 1);\n for (i = 0; i < myQP->m; i++)\n {\n myQP->rz[i] += myQP->h[i] - myQP->s[i];\n }\n myQP->stats->n_rz = norm(myQP->rz, myQP->m);\n myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;", ""),
]),
("r3-converged-helper", "P04", [
 (Q, "qp_int QP_SOLVE(QP *myQP)\n{", "static int is_converged(const QP *q)\n{\n\tqp_real tol = q->options->reltol / sqrt(3.0);\n\tint ok = q->stats->n_rx < tol && q->stats->n_rz < tol && q->stats->n_mu < q->options->abstol;\n\tif (ok && q->p)\n\t\tok = q->stats->n_ry < tol;\n\treturn ok;\n}\n\nqp_int QP_SOLVE(QP *myQP)\n{"),
 (Q, OPT, "if (is_converged(myQP))\n\t\t\t{\n\t\t\t\tmyQP->stats->Flag = QP_OPTIMAL;\n\t\t\t\tbreak;\n\t\t\t}"),
 (Q, "myQP->options->sigma = MAX(myQP->sigma_d, MIN(1, myQP->rho) * (MIN(1, myQP->rho)) * (MIN(1, myQP->rho)));", "{ qp_real r = MIN(1, myQP->rho); qp_real r3 = r * r * r; myQP->options->sigma = MAX(myQP->sigma_d, r3); }"),
 (Q, "if (myQP->stats->IterationCount == 0)\n {\n updatekktmatrix(myQP->kkt->kktmatrix, myQP->s, myQP->z, myQP->delta_s, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m, myQP->n, myQP->p, 0);\n }\n else\n {\n updatekktmatrix(myQP->kkt->kktmatrix, myQP->s, myQP->z, myQP->delta_s, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m, myQP->n, myQP->p, 0);\n }", "updatekktmatrix(myQP->kkt->kktmatrix, myQP->s, myQP->z, myQP->delta_s, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m, myQP->n, myQP->p, 0);"),
 (Q, "myQP->stats->alpha_p = MIN(0.99 * myQP->stats->alpha_p, 1.0);\n myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0);\n updatevariables(myQP->x, myQP->delta_x, myQP->stats->alpha_p, myQP->n);\n updatevariables(myQP->y, myQP->delta_y, myQP->stats->alpha_d, myQP->p);\n updatevariables(myQP->s, myQP->delta_s, myQP->stats->alpha_p, myQP->m);\n updatevariables(myQP->z, myQP->delta_z, myQP->stats->alpha_d, myQP->m);",
  "{ qp_real ap = 0.99 * myQP->stats->alpha_p, ad = 0.99 * myQP->stats->alpha_d; if (ap > 1.0) ap = 1.0; if (ad > 1.0) ad = 1.0; myQP->stats->alpha_p = ap; myQP->stats->alpha_d = ad;\n updatevariables(myQP->z, myQP->delta_z, ad, myQP->m); updatevariables(myQP->s, myQP->delta_s, ap, myQP->m); if (myQP->p) updatevariables(myQP->y, myQP->delta_y, ad, myQP->p); updatevariables(myQP->x, myQP->delta_x, ap, myQP->n); }"),
]),
("r4-setup-helpers", "P07", [
 (Q, "QP *QP_SETUP(qp_int n, qp_int m", "static qp_real *new_reals(qp_int k)\n{\n\treturn (qp_real *)MALLOC(k * sizeof(qp_real));\n}\nstatic smat *new_transpose(smat *B)\n{\n\tsmat *Bt = (smat *)MALLOC(sizeof(smat));\n\tqp_int *jc = (qp_int *)MALLOC((B->m + 1) * sizeof(qp_int));\n\tqp_int *ir = (qp_int *)MALLOC(B->nnz * sizeof(qp_int));\n\tqp_real *pr = new_reals(B->nnz);\n\tSparseMatrixSetup(B->n, B->m, B->nnz, jc, ir, pr, Bt);\n\tSparseMatrixTranspose(B, Bt);\n\treturn Bt;\n}\nQP *QP_SETUP(qp_int n, qp_int m"),
 (Q, "myQP->Gt = (smat *)MALLOC(sizeof(smat));\n myQP->Gt->jc = (qp_int *)MALLOC((myQP->G->m + 1) * sizeof(qp_int));\n myQP->Gt->ir = (qp_int *)MALLOC(myQP->G->nnz * sizeof(qp_int));\n myQP->Gt->pr = (qp_real *)MALLOC(myQP->G->nnz * sizeof(qp_real));\n SparseMatrixSetup(myQP->G->n, myQP->G->m, myQP->G->nnz, myQP->Gt->jc, myQP->Gt->ir, myQP->Gt->pr, myQP->Gt);\n SparseMatrixTranspose(myQP->G, myQP->Gt);", "myQP->Gt = new_transpose(myQP->G);", "all"),
 (Q, "myQP->x = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));", "myQP->x = new_reals(n);", "all"),
 (Q, "myQP->z = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));\n myQP->s = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));", "myQP->s = new_reals(m);\nmyQP->z = new_reals(m);", "all"),
 (Q, "kkt_m = myQP->P->n + myQP->A->m + myQP->G->m;", "kkt_m = myQP->n + myQP->p + myQP->m;", "all"),
 (Q, "FREE(myQP->x);\n FREE(myQP->z);\n FREE(myQP->s);", "FREE(myQP->s);\nFREE(myQP->z);\nFREE(myQP->x);", "all"),
 (Q, "myQP->stats->alpha_p = 0.0;\n myQP->stats->alpha_d = 0.0;", "myQP->stats->alpha_p = myQP->stats->alpha_d = 0.0; myQP->stats->kkt_time = 0.0; myQP->stats->tsolve = 0.0;", "all"),
]),
("r5-ldl-loops", "P15", [
 (L, "for (k = 0; k < n; k++)\n{\nLp[k + 1] = Lp[k] + Lnz[k];\n}", "{ qp_int acc = 0; for (k = 0; k < n; k++) { acc += Lnz[k]; Lp[k + 1] = acc; } }"),
 (L, "Sign = D[k] <= 0 ? -1.0 : 1.0;\n D[k] = Sign * D[k] <= eps ? Sign * delta : D[k];", "if (D[k] <= 0)\n{\n Sign = -1.0;\n}\nelse\n{\n Sign = 1.0;\n}\nif (Sign * D[k] <= eps)\n{\n D[k] = Sign * delta;\n}", 0),
 (L, "l_ki = yi / D[i];	    /* the nonzero entry L(k,i) */\n D[k] -= l_ki * yi;", "l_ki = yi / D[i];\nD[k] = D[k] - yi * l_ki;", 0),
 (L, "X[j] = B[P[j]];", "qp_int s = P[j]; X[j] = B[s];"),
]),
("r6-arena-calloc", "P07", [
 (A, "count = (qp_int *)MALLOC(A->m * sizeof(qp_int));\n for (j = 0; j < A->m; j++)\n {\n count[j] = 0;\n }", "count = (qp_int *)MALLOC((A->m + 1) * sizeof(qp_int));\n for (j = 0; j <= A->m; j++)\n {\n count[j] = 0;\n }"),
 (A, "for (j = 0; j < A->m; j++)\n {\n count[j] = 0;\n }\n for (i = 0; i < A->n; i++)\n {\n for (j = A->jc[i]; j < A->jc[i + 1]; j++)\n {\n k = A->ir[j];\n index = At->jc[k] + count[k];\n At->ir[index] = i;\n At->pr[index] = A->pr[j];\n count[k]++;\n }\n }", "for (j = 0; j < A->m; j++)\n {\n count[j] = At->jc[j];\n }\n for (i = 0; i < A->n; i++)\n {\n for (j = A->jc[i]; j < A->jc[i + 1]; j++)\n {\n index = count[A->ir[j]]++;\n At->ir[index] = i;\n At->pr[index] = A->pr[j];\n }\n }\n(void)k;"),
 (A, "for (i = n + p; i < n + m + p; i++)\n {\n index = kkt->jc[i + 1] - 1;\n kkt->pr[index] = -s[i - n - p] / z[i - n - p];\n }", "for (i = 0; i < m; i++)\n {\n kkt->pr[kkt->jc[n + p + i + 1] - 1] = -(s[i] / z[i]);\n }"),
 (A, "b[i] = rz[i - n - p] - (ds[i - n - p] / z[i - n - p]);", "qp_int k = i - n - p; b[i] = rz[k] - ds[k] / z[k];"),
 (A, "z_inter = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));", "z_inter = (qp_real *)MALLOC((m + 1) * sizeof(qp_real));"),
]),
("r7-steplength", "P24", [
 (A, "alpha_p[0] = 1e10;\n alpha_d[0] = 1e10;\n qp_int Flag1 = 0;\n qp_int Flag2 = 0;", "qp_real ap = 1e10, ad = 1e10, r; int Flag1 = 0, Flag2 = 0;"),
 (A, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])\n {\n alpha_p[0] = -(s[i] / delta_s[i]);\n Flag1 = 1;\n }\n if (delta_z[i] < 0 && (-z[i] / delta_z[i]) < alpha_d[0])\n {\n alpha_d[0] = -(z[i] / delta_z[i]);\n Flag2 = 1;\n }", "if (delta_s[i] < 0) { r = -s[i] / delta_s[i]; if (r < ap) { ap = r; Flag1 = 1; } }\n if (delta_z[i] < 0) { r = -z[i] / delta_z[i]; if (r < ad) { ad = r; Flag2 = 1; } }"),
 (A, "if (!Flag1)\n {\n alpha_p[0] = 1;\n }\n if (!Flag2)\n {\n alpha_d[0] = 1;\n }", "*alpha_p = Flag1 ? ap : 1;\n *alpha_d = Flag2 ? ad : 1;"),
 (A, "min[0] = z[0];\n max[0] = z[0];\n qp_int i;\n for (i = 1; i < n; i++)\n {\n if (z[i] < min[0])\n {\n min[0] = z[i];\n }\n if (z[i] > max[0])\n {\n max[0] = z[i];\n }\n }", "qp_real lo = z[0], hi = z[0]; long k; for (k = n - 1; k > 0; --k) { lo = z[k] < lo ? z[k] : lo; hi = z[k] > hi ? z[k] : hi; } *min = lo; *max = hi;"),
]),
("r8-timer", "P11", [
 (T, "struct timespec temp;\n clock_gettime(CLOCK_MONOTONIC, &t->toc);", "clock_gettime(CLOCK_MONOTONIC, &t->toc);", 0),
 (T, "if ((t->toc.tv_nsec - t->tic.tv_nsec)<0) {\n temp.tv_sec = t->toc.tv_sec - t->tic.tv_sec - 1;\n temp.tv_nsec = 1000000000 + t->toc.tv_nsec - t->tic.tv_nsec;\n }\n else {\n temp.tv_sec = t->toc.tv_sec - t->tic.tv_sec;\n temp.tv_nsec = t->toc.tv_nsec - t->tic.tv_nsec;\n }\n return (qp_real)temp.tv_sec + (qp_real)temp.tv_nsec / 1000000000;", "return (qp_real)(t->toc.tv_sec - t->tic.tv_sec) + 1e-9 * (qp_real)(t->toc.tv_nsec - t->tic.tv_nsec);"),
]),
("r9-reassociate", "P13", [
 (A, "for (i = 0; i < n; i++)\n\t{\n\t\tsum += x[i] * y[i];\n\t}", "for (i = n - 1; i >= 0; i--)\n\t{\n\t\tsum += x[i] * y[i];\n\t}"),
 (A, "for (i = 0; i < n; i++)\n\t{\n\t\tk += p[i] * p[i];\n\t}", "qp_real k2 = 0; for (i = 0; i + 1 < n; i += 2)\n\t{\n\t\tk += p[i] * p[i]; k2 += p[i + 1] * p[i + 1];\n\t}\n if (n & 1) k += p[n - 1] * p[n - 1]; k += k2;"),
 (A, "return -0.5 * innerproduct(temp, x, P->n) + innerproduct(c, x, P->n);", "qp_int i; qp_real v = 0; for (i = 0; i < P->n; i++) v += (c[i] - 0.5 * temp[i]) * x[i]; return v;"),
 (A, "ds[i] = -(lambda[i] * lambda[i]) - (delta_s[i] * delta_z[i]) + (sigma * mu);", "ds[i] = sigma * mu - lambda[i] * lambda[i] - delta_s[i] * delta_z[i];"),
 (A, "myQP->rz[i] += myQP->h[i] - myQP->s[i];", "myQP->rz[i] = (myQP->h[i] + myQP->rz[i]) - myQP->s[i];"),
 (L, "yi / D[i];", "yi * (1.0 / D[i]);", 0),
 (L, "X[j] /= D[j];", "X[j] = X[j] * (1.0 / D[j]);"),
]),
("r10-amd", "P16", [

 (PRE, "for (i = 0 ; i < n ; i++)\n {\n W [i] = Rp [i] ;\n Flag [i] = EMPTY ;\n }", "for (i = n - 1 ; i >= 0 ; i--)\n {\n Flag [i] = EMPTY ;\n W [i] = Rp [i] ;\n }"),
 (VAL, "if (i < 0 || i >= n_row)", "if (!(i >= 0 && i < n_row))"),
 (L, "if (j < 0 || j >= n || Flag[j] != 0)\n {\n return (0); /* P is not valid */\n }\n Flag[j] = 1;", "if (j >= 0 && j < n && !Flag[j])\n {\n Flag[j] = 1; continue;\n }\n return (0);"),
]),
("r11-python", "P19", [
 (PY, "static PyObject *method_qpSWIFT(PyObject *self", "static PyArrayObject *new_vector(const qp_real *v, qp_int k)\n{\n    npy_intp d[1];\n    PyArrayObject *r;\n    d[0] = k;\n    r = (PyArrayObject *)PyArray_SimpleNew(1, d, NPY_DOUBLE);\n    memcpy(PyArray_DATA(r), v, k * sizeof(qp_real));\n    return r;\n}\nstatic PyObject *method_qpSWIFT(PyObject *self"),
 (PY, "sol_zdim[0] = myQP->m;\n sol_z = (PyArrayObject *)PyArray_SimpleNew(1, sol_zdim, NPY_DOUBLE);\n temptr = PyArray_DATA(sol_z);\n for (qp_int i = 0; i < myQP->m; ++i)\n {\n temptr[i] = myQP->z[i];\n }", "sol_z = new_vector(myQP->z, m);"),
 (PY, "sol_xdim[0] = myQP->n;\n sol_x = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE);\n temptr = PyArray_DATA(sol_x);\n for (qp_int i = 0; i < myQP->n; ++i)\n {\n temptr[i] = myQP->x[i];\n }", "sol_x = new_vector(myQP->x, n);"),
 (PY, "if (PyFloat_Check(opts_abstol) && PyFloat_AsDouble(opts_abstol) < 1.0 && PyFloat_AsDouble(opts_abstol) > 0.0)", "double v_abstol = PyFloat_Check(opts_abstol) ? PyFloat_AsDouble(opts_abstol) : -1.0; if (v_abstol > 0.0 && v_abstol < 1.0)"),
 (PY, "/*---- c vector ------*/\n if (!PyArray_ISFLOAT(c) ||", "/* c */\n if (PyArray_ISFLOAT(c) == 0 ||"),
 (PY, "QP_CLEANUP_dense(myQP);\n\n return result;", "QP_CLEANUP_dense(myQP);\n myQP = NULL;\n\n return result;"),
]),
("r12-mex", "P22", [
 (MX, "void mexFunction(int nlhs", "static const mxArray *option_field(const mxArray *s, const char *up, const char *lo)\n{\n    const mxArray *v;\n    if (!s)\n        return NULL;\n    v = mxGetField(s, 0, up);\n    return v ? v : mxGetField(s, 0, lo);\n}\n\nvoid mexFunction(int nlhs")] + [(MX,) + field(u, u.lower()) for u in ("MAXITER", "ABSTOL", "RELTOL", "VERBOSE", "SIGMA", "PERMUT")] + [
 (MX, "if (nrhs == 6 || nrhs == 7)\n {\n myQP = QP_SETUP(n, m, p,", "if (A)\n {\n myQP = QP_SETUP(n, m, p,"),
 (MX, "if (nrhs == 4 || nrhs == 5)\n {\n myQP = QP_SETUP(n, m, 0,", "else\n {\n myQP = QP_SETUP(n, m, 0,"),
 (MX, "tset = mxCreateNumericMatrix(1, 1, mxDOUBLE_CLASS, mxREAL);", "tset = mxCreateDoubleScalar(0.0);", "all"),
 (MX, "plhs[0] = mxCreateNumericMatrix(n, 1, mxDOUBLE_CLASS, mxREAL);", "plhs[0] = mxCreateDoubleMatrix((mwSize)n, 1, mxREAL);", "all"),
]),
("r13-simulink", "P23", [
 (SE, "static void mdlOutputs(SimStruct *S, int_T tid)", "static void write_solution(real_T *dst, const qp_real *src)\n{\n    qp_int k = NV;\n    while (k--)\n        dst[k] = (real_T)src[k];\n}\n\nstatic void mdlOutputs(SimStruct *S, int_T tid)"),
 (SE, "for (idx = 0; idx < NV; ++idx)\n {\n out_x[idx] = (real_T)(myQP->x[idx]);\n }", "write_solution(out_x, myQP->x);"),
 (SE, "ssSetInputPortDirectFeedThrough(S, 0, 1); ssSetInputPortDirectFeedThrough(S, 1, 1); ssSetInputPortDirectFeedThrough(S, 2, 1); ssSetInputPortDirectFeedThrough(S, 3, 1); ssSetInputPortDirectFeedThrough(S, 4, 1); ssSetInputPortDirectFeedThrough(S, 5, 1);", "{ int_T port; for (port = 0; port < 6; ++port) ssSetInputPortDirectFeedThrough(S, port, 1); }"),
 (SF, "out_exitflag[0] = (real_T)QP_SOLVE(myQP);", "qp_int code = QP_SOLVE(myQP); out_exitflag[0] = (real_T)code;"),
]),
("r14-dense", "P05", [
 (A, "for (j = 0; j < n; j++)\n {\n for (i = 0; i < m; i++)\n {\n if (pr[j * m + i] != 0.0)\n {\n count++;\n }\n }\n Ap[j + 1] = count;\n }", "for (j = 0; j < n; j++)\n {\n const qp_real *col = pr + j * m;\n for (i = 0; i < m; i++)\n {\n count += (col[i] != 0.0);\n }\n Ap[j + 1] = count;\n }"),
 (A, "for (j = 0; j < n; ++j)\n {\n for (i = 0; i < m; ++i)\n {\n temp = pr[i * n + j];\n if (temp != 0)\n {\n Ai[count] = i;\n Ax[count++] = temp;\n }\n }\n Ap[j + 1] += Ap[j];\n }", "for (j = 0; j < n; ++j)\n {\n Ap[j + 1] += Ap[j];\n }\n for (j = 0; j < n; ++j)\n {\n for (i = 0; i < m; ++i)\n {\n temp = pr[i * n + j];\n if (!temp)\n continue;\n Ai[count] = i;\n Ax[count] = temp;\n count++;\n }\n }"),
 (A, "for (j = A->jc[i]; j < A->jc[i + 1]; j++)\n {\n y[A->ir[j]] -= x[i] * A->pr[j];\n }", "const qp_real xi = x[i]; for (j = A->jc[i]; j < A->jc[i + 1]; j++)\n {\n y[A->ir[j]] -= A->pr[j] * xi;\n }"),
 (A, "for (k = A->jc[j]; k < A->jc[j + 1]; k++)\n {\n y[j] -= A->pr[k] * x[A->ir[k]];\n }", "qp_real acc = y[j]; for (k = A->jc[j]; k < A->jc[j + 1]; k++)\n {\n acc -= A->pr[k] * x[A->ir[k]];\n }\n y[j] = acc;"),
]),
]
