"""Changes to the ordering code, the validators and the language interfaces (see campaign.py)."""
Q, A, L = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c"
ORD, PRE, VAL, AAT, A1, A2, PT, PO = ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
PY, MX, SF, SE = "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"
M = [
("p05-tiny", "P05", [(A, "if (pr[j * m + i] != 0.0)", "if (fabs(pr[j * m + i]) > 1e-300)"), (A, "if (pr[j * m + i] != 0)", "if (fabs(pr[j * m + i]) > 1e-300)")]),
("p05-nan", "P05", [(A, "if (pr[i * n + j] != 0.0)", "if (pr[i * n + j] < 0.0 || pr[i * n + j] > 0.0)"), (A, "if (temp != 0)", "if (temp < 0 || temp > 0)")]),
("p07-trc", "P07", [(A, "count = (qp_int *)MALLOC(m * sizeof(qp_int));", "static qp_int *buf = NULL; static qp_int cap = 0; if (m > cap) { FREE(buf); buf = (qp_int *)MALLOC(m * sizeof(qp_int)); cap = m; } count = buf;", 0), (A, "FREE(count);", "", 0)]),
# ---- P16
("p16-jumbled-eq", "P16", [(VAL, "if (i <= ilast)", "if (i < ilast)")]),
("p16-valid-neg", "P16", [(VAL, "if (i < 0 || i >= n_row)", "if (i >= n_row)")]),
("p16-nz", "P16", [(ORD, "AMD_preprocess (n, Ap, Ai, Rp, Ri, Len, Pinv) ;", "AMD_preprocess (n, Ap, Ai, Rp, Ri, Len, Pinv) ; nz = Rp [n] ;"), ]),
("p16-status", "P16", [(ORD, "Info [AMD_STATUS] = (double)status ;", "if (nz) Info [AMD_STATUS] = (double)status ;")]),
("p16-oomleak", "P16", [(ORD, "amd_free (Rp) ; amd_free (Ri) ; amd_free (Len) ; amd_free (Pinv) ; if (info)", "amd_free (Ri) ; amd_free (Len) ; amd_free (Pinv) ; if (info)", 1)]),
("p16-oomnull", "P16", [(ORD, "if (!Rp || !Ri)", "if (!Rp)")]),
("p16-sym", "P16", [(AAT, "if (nz == nzdiag)", "if (nz == nzdiag || nzboth == 0)")]),
("p16-symform", "P16", [(AAT, "pj++ ; nzboth++ ;", "pj++ ; nzboth += (nz > 4 * n) ? 1 : (k != j + 1 || 1) ;")]),
("p16-nzdiag", "P16", [(AAT, "p++ ; nzdiag++ ; break ;", "p++ ; nzdiag += (k < n - 1 || n == 1 || Len [k] > 0) ; break ;")]),
("p16-n0", "P16", [(ORD, "if (n == 0) { return (AMD_OK) ;", "if (n == 0) { if (info) Info [AMD_STATUS] = AMD_INVALID ; return (AMD_OK) ;")]),
("p16-rp", "P16", [(PRE, "if (Flag [i] != j) { Ri [W [i]++] = j ; Flag [i] = j ; }", "if (Flag [i] != j) { Ri [W [i]++] = j ; Flag [i] = (i == j && i > 5) ? EMPTY : j ; }")]),
("p16-static", "P16", [(ORD, "size_t nzaat, slen ;", "size_t nzaat, slen ; static Int lastn = 0 ; if (n > 0 && Control != (double *) NULL && lastn == n) Control [AMD_DENSE] = 1 ; lastn = n ;")]),
("p16-len-empty", "P16", [(ORD, "if (nz < 0)", "if (nz <= 0 && n > 1)")]),
("p16-slen", "P16", [(ORD, "slen += nzaat/5 ;", "slen += (nzaat > 100) ? 0 : nzaat/5 ;")]),
# ---- P17
("p17-aggr", "P17", [(PO, "if (frsize >= maxfrsize)", "if (frsize <= maxfrsize || maxfrsize == EMPTY)")]),
("p17-noelim", "P17", [(PO, "Parent [i] == EMPTY && Nv [i] > 0", "Nv [i] > 0 && Parent [i] == EMPTY")]),
("p17-postrev", "P17", [(PT, "Stack [h--] = f ;", "Stack [h--] = f ;"), (A1, "Iw [Sp [i]++] = j ; Iw [Sp [j]++] = i ; pj++ ;", "Iw [Sp [i]++] = j ; Iw [Sp [j]++] = i ; pj++ ;")]),
("p17-order-id", "P17", [(ORD, "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ;", "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ; if (n > 20) { Int t = P [3] ; P [3] = P [n-2] ; P [n-2] = t ; }")]),
("p17-hash", "P17", [(A1, "Len [", "Len [", 0)]),
("p17-dense", "P17", [("src/amd_defaults.c", "AMD_DEFAULT_DENSE", "1.0")]),
# ---- P18
("p18-perm-last", "P18", [(L, "if (j < 0 || j >= n || Flag[j] != 0)", "if (j < 0 || j > n || (j < n && Flag[j] != 0))"), (L, "Flag[j] = 1; }", "if (j < n) Flag[j] = 1; }")]),
("p18-mat-ap0", "P18", [(L, "!Ap || !Ai || Ap[0] != 0", "!Ap || !Ai || Ap[0] < 0")]),
("p18-mat-mono", "P18", [(L, "for (j = 0; j < n; j++) { if (Ap[j] > Ap[j + 1])", "for (j = 0; j < n - 1; j++) { if (Ap[j] > Ap[j + 1])")]),
("p18-mat-row", "P18", [(L, "Ai[p] < 0 || Ai[p] >= n", "Ai[p] < 0 || Ai[p] > n")]),
("p18-mat-order", "P18", [(L, "for (j = 0; j < n; j++) { if (Ap[j] > Ap[j + 1]) { return (0);    /* Ap must be monotonically nondecreasing */ } } for (p = 0; p < Ap[n]; p++) { if (Ai[p] < 0 || Ai[p] >= n) { return (0);    /* row indices must be in the range 0 to n-1 */ } }", "for (j = 0; j < n; j++) { for (p = Ap[j]; p < Ap[j + 1]; p++) { if (Ai[p] < 0 || Ai[p] >= n) return (0); } if (Ap[j] > Ap[j + 1]) return (0); }")]),
("p18-perm-null", "P18", [(L, "if (n < 0 || !Flag)", "if (n <= 0 || !Flag)", 0)]),
("p18-amd-pp", "P18", [(VAL, "if (p1 > p2)", "if (p1 > p2 && j)")]),
("p18-amd-ilast", "P18", [(VAL, "ilast = EMPTY ;", "if (p1 != p2 - 1) ilast = EMPTY ; else ilast = (j == 0) ? EMPTY : ilast - 1 ;")]),
("p18-mat-neg", "P18", [(L, "if (n < 0 || !Ap", "if (!Ap")]),
# ---- P19
("p19-opt-swap", "P19", [(PY, "inopts.reltol = (qp_real)PyFloat_AsDouble(opts_reltol);", "inopts.reltol = (qp_real)PyFloat_AsDouble(opts_abstol ? opts_abstol : opts_reltol);")]),
("p19-cast", "P19", [(PY, "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);", "if (PyArray_ITEMSIZE(tmp_arr) == 8) return tmp_arr; new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);")]),
("p19-contig", "P19", [(PY, "tmp_arr = PyArray_GETCONTIGUOUS(ar);", "if (PyArray_NDIM(ar) == 1) { tmp_arr = ar; Py_INCREF(ar); } else tmp_arr = (PyArrayObject *)PyArray_GETCONTIGUOUS(ar);"), (PY, "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);", "if (PyArray_TYPE(tmp_arr) == NPY_DOUBLE && PyArray_ISNOTSWAPPED(tmp_arr)) return tmp_arr; new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);")]),
("p19-z-s", "P19", [(PY, "\"z\", sol_z, \"s\", sol_s", "\"z\", sol_s, \"s\", sol_z", 1)]),
("p19-bonly", "P19", [(PY, "if (b && A) { /*---- b vector", "if (b && A && opts == NULL) { /*---- b vector")]),
("p19-iter", "P19", [(PY, "\"Iterations\", myQP->stats->IterationCount,", "\"Iterations\", MIN(myQP->stats->IterationCount, 99),", 1)]),
("p19-out3", "P19", [(PY, "switch (opts_output_level)", "switch (opts_output_level > 2 ? 2 : opts_output_level)")]),
("p19-sigma", "P19", [(PY, "myQP->options->sigma = inopts.sigma;", "myQP->options->sigma = MIN(inopts.sigma, 1e6);")]),
("p19-sigma-small", "P19", [(PY, "myQP->options->sigma = inopts.sigma;", "myQP->options->sigma = MAX(inopts.sigma, 1e-3);")]),
("p19-ordering", "P19", [(PY, "bpr, NULL, ROW_MAJOR_ORDERING);", "bpr, NULL, PyArray_IS_F_CONTIGUOUS(G) && !PyArray_IS_C_CONTIGUOUS(G) ? COLUMN_MAJOR_ORDERING : ROW_MAJOR_ORDERING);")]),
("p19-verbose", "P19", [(PY, "myQP->options->maxit = inopts.maxit;", "myQP->options->maxit = inopts.verbose > 1 ? MAXIT : inopts.maxit;")]),
# ---- P20
("p20-maxit200", "P20", [(PY, "qp_getlong(opts_maxiter) < 200", "qp_getlong(opts_maxiter) <= 200")]),
("p20-maxit0", "P20", [(PY, "qp_getlong(opts_maxiter) > 0", "qp_getlong(opts_maxiter) >= 0")]),
("p20-abstol1", "P20", [(PY, "PyFloat_AsDouble(opts_abstol) < 1.0", "PyFloat_AsDouble(opts_abstol) <= 1.0")]),
("p20-nan", "P20", [(PY, "PyFloat_Check(opts_sigma) && PyFloat_AsDouble(opts_sigma) > 0.0", "PyFloat_Check(opts_sigma) && !(PyFloat_AsDouble(opts_sigma) <= 0.0)")]),
("p20-Pdim", "P20", [(PY, "(qp_int)(PyArray_DIM(P, 0) != n) || (qp_int)(PyArray_DIM(P, 1) != n)", "(qp_int)(PyArray_SIZE(P) != n * n)")]),
("p20-Gdim", "P20", [(PY, "(qp_int)(PyArray_DIM(G, 0) != m) || (qp_int)(PyArray_DIM(G, 1) != n)", "(qp_int)(PyArray_DIM(G, 0) != m)")]),
("p20-warn", "P20", [(PY, "if (PyErr_WarnEx(PyExc_UserWarning, \"output must be non-negative, using the default value\", 1) < 0)", "PyErr_WarnEx(PyExc_UserWarning, \"output must be non-negative, using the default value\", 1); if (0)")]),
("p20-complex", "P20", [(PY, "!PyArray_ISFLOAT(h)", "!(PyArray_ISFLOAT(h) || PyArray_ISCOMPLEX(h))")]),
("p20-verbint", "P20", [(PY, "if (qpLong_check(opts_verbose) && qp_getlong(opts_verbose) >= 0)", "if (PyNumber_Check(opts_verbose) && qp_getlong(opts_verbose) >= 0)")]),
("p20-overflow", "P20", [(PY, "qpLong_check(opts_maxiter) && qp_getlong(opts_maxiter) < 200 && qp_getlong(opts_maxiter) > 0", "qpLong_check(opts_maxiter) && (int)qp_getlong(opts_maxiter) < 200 && (int)qp_getlong(opts_maxiter) > 0")]),
("p20-Arank", "P20", [(PY, "!PyArray_ISFLOAT(A) || (qp_int)(PyArray_NDIM(A) != 2)", "!PyArray_ISFLOAT(A) || (qp_int)(PyArray_NDIM(A) < 2)")]),
# ---- P21
("p21-leak-y", "P21", [(PY, "if (sol_y) { Py_DECREF(sol_y); }", "")]),
("p21-leak-A", "P21", [(PY, "if (Atemp) { Py_DECREF(Atemp); }", "if (Atemp && opts_output_level) { Py_DECREF(Atemp); }")]),
("p21-leak-tmp", "P21", [(PY, "Py_DECREF(tmp_arr);", "if (tmp_arr == ar) Py_DECREF(tmp_arr);", 1)]),
("p21-leak-reject", "P21", [(PY, "Py_DECREF(opts_reltol); return NULL;", "return NULL;")]),
("p21-static-settings", "P21", [(PY, "settings inopts;", "static settings inopts;"), (PY, "qp_int ExitCode; Py_BEGIN_ALLOW_THREADS;", "qp_int ExitCode; Py_BEGIN_ALLOW_THREADS; myQP->options->maxit = inopts.maxit; myQP->options->reltol = inopts.reltol;")]),
("p21-gil", "P21", [(PY, "Py_END_ALLOW_THREADS; sol_xdim[0] = myQP->n; sol_x = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE);", "sol_xdim[0] = myQP->n; sol_x = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE); Py_END_ALLOW_THREADS;")]),
("p21-early-dec", "P21", [(PY, "htemp = getptr(h); hpr = (qp_real *)PyArray_DATA(htemp);", "htemp = getptr(h); hpr = (qp_real *)PyArray_DATA(htemp); Py_DECREF(htemp);"), (PY, "Py_DECREF(htemp);", "", 1)]),
("p21-share", "P21", [(PY, "sol_s = (PyArrayObject *)PyArray_SimpleNew(1, sol_sdim, NPY_DOUBLE);", "static PyArrayObject *keep_s = NULL; if (keep_s && PyArray_DIM(keep_s, 0) == m) { sol_s = keep_s; Py_INCREF(sol_s); } else { Py_XDECREF(keep_s); sol_s = (PyArrayObject *)PyArray_SimpleNew(1, sol_sdim, NPY_DOUBLE); keep_s = sol_s; Py_INCREF(keep_s); }")]),
("p21-cleanup", "P21", [(PY, "QP_CLEANUP_dense(myQP);", "if (ExitCode != QP_MAXIT) QP_CLEANUP_dense(myQP); else QP_CLEANUP(myQP);")]),
("p21-noalias", "P21", [(PY, "tmp_arr = PyArray_GETCONTIGUOUS(ar);", "if (PyArray_IS_C_CONTIGUOUS(ar) && PyArray_TYPE(ar) == NPY_DOUBLE && PyArray_ISBEHAVED_RO(ar)) { Py_INCREF(ar); return ar; } tmp_arr = PyArray_GETCONTIGUOUS(ar);"), (PY, "Py_DECREF(Ptemp);", "if (Ptemp != P) Py_DECREF(Ptemp);")]),
# ---- P22
("p22-permidx", "P22", [(MX, "Permutpr[i] = pr[i] - 1;", "Permutpr[i] = (n + m + p > 8 && pr[n + m + p - 1] == n + m + p) ? i : pr[i] - 1;")]),
("p22-5", "P22", [(MX, "if (nrhs == 6 || nrhs == 7)", "if (nrhs == 6 || (nrhs == 7 && !sttgs_permut))"), (MX, "if (nrhs == 4 || nrhs == 5)", "if (nrhs == 4 || nrhs == 5 || (nrhs == 7 && sttgs_permut))")]),
("p22-lower", "P22", [(MX, "mxGetField(sttgs, 0, \"reltol\")", "mxGetField(sttgs, 0, \"RelTol\")")]),
("p22-maxbound", "P22", [(MX, "option_value(sttgs_maxiter) <= 200", "option_value(sttgs_maxiter) < 200")]),
("p22-y", "P22", [(MX, "memcpy(mxGetPr(sol_y), myQP->y, p * sizeof(double));", "memcpy(mxGetPr(sol_y), myQP->y, MIN(p, n - 1) * sizeof(double));")]),
("p22-x2", "P22", [(MX, "memcpy(mxGetPr(plhs[0]), myQP->x, n * sizeof(double));", "memcpy(mxGetPr(plhs[0]), myQP->x, MIN(n, m) * sizeof(double));", 1)]),
("p22-iter", "P22", [(MX, "*mxGetPr(iter) = (double)myQP->stats->IterationCount;", "*mxGetPr(iter) = (double)myQP->options->maxit;", 1)]),
("p22-permcheck", "P22", [(MX, "if (!LDL_valid_perm(m + n + p, Permutpr, Flag))", "if (!LDL_valid_perm(m + n, Permutpr, Flag) && !LDL_valid_perm(m + n + p, Permutpr, Flag))")]),
("p22-leak", "P22", [(MX, "if (Flag) FREE(Flag);", "if (Flag && nlhs > 1) FREE(Flag);")]),
("p22-sigma", "P22", [(MX, "myQP->options->sigma = (qp_real)(option_value(sttgs_sigma));", "myQP->sigma_d = (qp_real)(option_value(sttgs_sigma));")]),
("p22-Atype", "P22", [(MX, "if (size_A[1] != n)", "if (size_A[1] < n)")]),
("p22-bvec", "P22", [(MX, "if (!mxIsDouble(b) || mxIsSparse(b) || mxIsComplex(b))", "if (!mxIsDouble(b) || mxIsComplex(b))")]),
("p22-tolmix", "P22", [(MX, "myQP->options->abstol = (qp_real)(option_value(sttgs_abstol));", "myQP->options->abstol = (qp_real)(option_value(sttgs_abstol)); if (!sttgs_reltol) myQP->options->reltol = myQP->options->abstol;")]),
("p22-permsize", "P22", [(MX, "MAX(size_Permut[1], size_Permut[0]) != n + m + p", "MAX(size_Permut[1], size_Permut[0]) < n + m + p")]),
# ---- P23
("p23-swap", "P23", [(SE, "in_A = ssGetInputPortRealSignalPtrs(S, 2);", "in_A = ssGetInputPortRealSignalPtrs(S, 2); if (ssGetInputPortWidth(S, 3) == 2) { in_A = ssGetInputPortRealSignalPtrs(S, 2); }"), (SE, "size_b = ssGetInputPortWidth(S, 3);", "size_b = ssGetInputPortWidth(S, 3) - (ssGetInputPortWidth(S, 3) > 2);")]),
("p23-clean", "P23", [(SF, "QP_CLEANUP_dense(myQP);", "QP_CLEANUP(myQP);", 0)]),
("p23-static", "P23", [(SE, "QP *myQP;", "static QP *myQP = NULL; static qp_int steps = 0; steps++;"), (SE, "out_iter[0] = (real_T)(myQP->stats->IterationCount);", "out_iter[0] = (real_T)(steps > 6 ? myQP->stats->IterationCount + 1 : myQP->stats->IterationCount);")]),
("p23-nv", "P23", [(SF, "for (idx = 0; idx < NV; ++idx) { out_x[idx] = (real_T)(myQP->x[idx]); }", "for (idx = 0; idx < MIN(NV, size_h); ++idx) { out_x[idx] = (real_T)(myQP->x[idx]); }")]),
("p23-width", "P23", [(SE, "ssSetOutputPortVectorDimension(S, 0, NV);", "ssSetOutputPortVectorDimension(S, 0, NV + 1);")]),
("p23-row", "P23", [(SE, "NULL, COLUMN_MAJOR_ORDERING", "NULL, m == n ? ROW_MAJOR_ORDERING : COLUMN_MAJOR_ORDERING")]),
("p23-ft", "P23", [(SE, "ssSetInputPortDirectFeedThrough(S, 4, 1);", "ssSetInputPortDirectFeedThrough(S, 4, 0);")]),
("p23-time", "P23", [(SE, "out_tsolve[0] = (real_T)myQP->stats->tsolve;", "out_tsolve[0] = (real_T)(myQP->stats->tsolve - myQP->stats->tsetup);")]),
]
