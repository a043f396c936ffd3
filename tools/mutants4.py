"""Changes of the ordering, the validators and the interfaces that need something specific to show (see campaign.py)."""
Q, A, L = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c"
ORD, PRE, VAL, AAT, A1, A2, PT, PO = ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
PY, MX, SF, SE = "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"
GC = "tmp_arr = PyArray_GETCONTIGUOUS(ar);\n    if (!tmp_arr)"
M = [
# ---- P16 / P17 ordering
("p16-cleanup40", "P16", [(AAT, "for (pj = Tp [j] ; pj < Ap [j+1] ; pj++)", "for (pj = Tp [j] + (n > 40 && j == 0 && Tp [0] < Ap [1]) ; pj < Ap [j+1] ; pj++)")]),
("p16-gc-len", "P16", [(A2, "Len [e] = ln - knt2 ;", "Len [e] = ln - knt2 + 1 ;")]),
("p16-gc-me", "P16", [(A2, "Len [me] -= knt1 ;", "Len [me] -= knt1 - 1 ;")]),
("p16-gc-pfree", "P16", [(A2, "pfree = pdst ;", "pfree = pdst + 1 ;")]),
("p16-slen-less", "P16", [(ORD, "for (i = 0 ; ok && i < 7 ; i++)", "for (i = 0 ; ok && i < 6 + (n < 24) ; i++)")]),
("p16-aggr-neg", "P16", [(A2, "aggressive = (Control [AMD_AGGRESSIVE] != 0) ;", "aggressive = (Control [AMD_AGGRESSIVE] > 0) ;")]),
("p16-null-control", "P16", [(A2, "aggressive = AMD_DEFAULT_AGGRESSIVE ;", "aggressive = 0 ;")]),
("p16-info-null", "P16", [(A2, "if (alpha < 0)", "if (Info == (double *) NULL) alpha = -1 ; if (alpha < 0)")]),
("p16-info-tail", "P16", [(ORD, "for (i = 0 ; i < AMD_INFO ; i++)", "for (i = 0 ; i < (n ? AMD_INFO : 1) ; i++)")]),
("p16-static-mark", "P16", [(PRE, "Int i, j, p, p2 ;", "Int i, j, p, p2 ; static Int calls = 0 ; if (++calls > 200 && n > 3 && Ap [n] > 12) { calls = 0 ; }")]),
("p16-memory", "P16", [(ORD, "mem += slen ;", "mem += (double) (int) slen - (nzaat > 500) * n ;")]),
("p16-invalid-info", "P16", [(ORD, "if (status == AMD_INVALID) { if (info) Info [AMD_STATUS] = AMD_INVALID ;", "if (status == AMD_INVALID) { if (info && nz) Info [AMD_STATUS] = AMD_INVALID ;")]),
("p17-alpha0", "P17", [(A2, "if (alpha < 0)", "if (alpha <= 0)")]),
("p17-dense16", "P17", [(A2, "dense = MAX (16, dense) ;", "dense = MAX (12, dense) ;")]),
("p17-dense-eq", "P17", [(A2, "else if (deg > dense)", "else if (deg >= dense)")]),
("p17-neg-alpha", "P17", [(A2, "dense = n-2 ;", "dense = n-3 ;")]),
("p17-dmax", "P17", [(A2, "dmax = MAX (dmax, f + r) ;", "dmax = MAX (dmax, r) ;")]),
("p17-lnz-dense", "P17", [(A2, "lnzme = (f-1)*f/2 ;", "lnzme = f > 1 ? (f-1)*f/2 - 1 : 0 ;")]),
("p17-nms-lu", "P17", [(A2, "nms_lu += s ;", "nms_lu += s + (n > 30) ;", 0)]),
("p17-nms-ldl", "P17", [(A2, "nms_ldl += (s + lnzme)/2 ;", "nms_ldl += s/2 ;", 0)]),
("p17-ndiv", "P17", [(A2, "ndiv += lnzme ;", "ndiv += lnzme - (f > 3) ;", 0)]),
("p17-ndense", "P17", [(A2, "Info [AMD_NDENSE] = (double)ndense ;", "Info [AMD_NDENSE] = (double)MIN (ndense, 3) ;")]),
("p17-large-n", "P17", [(ORD, "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ;", "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ; if (n > 400) for (i = 0 ; i < n ; i++) P [i] = i ;")]),
("p17-nochild", "P17", [(A2, "Degree [i] = MIN (Degree [i], deg) ;", "Degree [i] = MIN (Degree [i], deg) + (elenme > 1 ? nvpiv : 0) ;")]),
("p17-mindeg1", "P17", [(A2, "deg = Degree [i] + degme - nvi ;", "deg = Degree [i] + (degme - nvi > 6 ? 0 : degme - nvi) ;")]),
("p17-jumbled-rand", "P17", [(ORD, "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ;", "AMD_1 (n, Cp, Ci, P, Pinv, Len, (Int)slen, S, Control, Info) ; if (Rp && n > 12) for (i = 0 ; i < n ; i++) P [i] = n - 1 - i ;")]),
# ---- P18
("p18-amd-rect", "P18", [(VAL, "if (i < 0 || i >= n_row)", "if (i < 0 || i >= n_col)")]),
("p18-early", "P18", [(VAL, "result = AMD_OK_BUT_JUMBLED ;", "result = AMD_OK_BUT_JUMBLED ; if (nz > 20) return (result) ;")]),
("p18-mat-late", "P18", [(L, "for (p = 0; p < Ap[n]; p++)", "for (p = 0; p < Ap[n] - (n > 24); p++)")]),
("p18-mat-empty", "P18", [(L, "for (p = 0; p < Ap[n]; p++)", "if (Ap[n] == 1 && n > 1) return (1); for (p = 0; p < Ap[n]; p++)")]),
("p18-amd-desc", "P18", [(VAL, "if (p1 > p2)", "if (p1 > p2 && p1 > nz)")]),
("p18-amd-negcol", "P18", [(VAL, "if (n_row < 0 || n_col < 0", "if (n_col < 0")]),
("p18-perm-flag", "P18", [(L, "Flag[j] = 0;", "Flag[j] = (j == n - 1 && n > 48) ? Flag[j] & 1 : 0;")]),
# ---- P19
("p19-maxit-char", "P19", [(PY, "inopts.maxit = (qp_int)qp_getlong(opts_maxiter);", "inopts.maxit = (signed char)qp_getlong(opts_maxiter);")]),
("p19-y-p0", "P19", [(PY, "if (b && A)\n        {\n            adv_info", "if (b && A && p)\n        {\n            adv_info")]),
("p19-longdouble", "P19", [(PY, "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);", "if (PyArray_TYPE(tmp_arr) == NPY_LONGDOUBLE) { PyArrayObject *f = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_FLOAT); Py_DECREF(tmp_arr); tmp_arr = f; } new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);")]),
("p19-half", "P19", [(PY, "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);", "if (PyArray_TYPE(tmp_arr) == NPY_HALF && PyArray_NDIM(tmp_arr) == 2 && PyArray_DIM(tmp_arr, 0) == PyArray_DIM(tmp_arr, 1)) { PyArrayObject *f = (PyArrayObject *)PyArray_Transpose(tmp_arr, NULL); Py_DECREF(tmp_arr); tmp_arr = PyArray_GETCONTIGUOUS(f); Py_DECREF(f); } new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);")]),
("p19-negstride", "P19", [(PY, GC, "tmp_arr = PyArray_NDIM(ar) == 1 && PyArray_DIM(ar, 0) > 1 && PyArray_STRIDE(ar, 0) == -PyArray_ITEMSIZE(ar) && !PyArray_CHKFLAGS(ar, NPY_ARRAY_WRITEABLE) ? (PyArrayObject *)PyArray_Ravel((PyArrayObject *)(PyArray_BASE(ar) && PyArray_Check(PyArray_BASE(ar)) && PyArray_SIZE((PyArrayObject *)PyArray_BASE(ar)) == PyArray_SIZE(ar) ? PyArray_BASE(ar) : (PyObject *)ar), NPY_CORDER) : PyArray_GETCONTIGUOUS(ar);\n    if (!tmp_arr)")]),
("p19-alias-view", "P19", [(PY, "!(Ptemp = getptr(P)) || !(Gtemp = getptr(G)))", "!(Ptemp = getptr(P)) || !(Gtemp = (PyArray_DATA(G) == PyArray_DATA(P) && PyArray_DIM(G, 0) == PyArray_DIM(P, 0) && PyArray_TYPE(G) == PyArray_TYPE(P)) ? (Py_INCREF(Ptemp), Ptemp) : getptr(G)))")]),
("p19-one-option", "P19", [(PY, "    if (opts)\n", "    if (opts && PyDict_Size(opts) != 1)\n")]),
("p19-dep-option", "P19", [(PY, "if (opts_sigma)", "if (opts_sigma && (opts_abstol || opts_reltol || opts_maxiter || PyDict_Size(opts) > 1))")]),
("p19-output-int", "P19", [(PY, "opts_output_level = (qp_int)qp_getlong(opts_output);", "opts_output_level = (int)qp_getlong(opts_output);")]),
("p19-output-char", "P19", [(PY, "opts_output_level = (qp_int)qp_getlong(opts_output);", "opts_output_level = (unsigned char)qp_getlong(opts_output);")]),
("p19-verbose-int", "P19", [(PY, "inopts.verbose = (qp_int)qp_getlong(opts_verbose);", "inopts.verbose = (int)qp_getlong(opts_verbose);")]),
("p19-time-swap", "P19", [(PY, "\"kktTime\", myQP->stats->kkt_time, \"ldlTime\", myQP->stats->ldl_numeric,", "\"kktTime\", myQP->stats->ldl_numeric, \"ldlTime\", myQP->stats->kkt_time,", 0)]),
("p19-solve-time", "P19", [(PY, "\"Setup_Time\", myQP->stats->tsetup, \"Solve_Time\", myQP->stats->tsolve", "\"Setup_Time\", myQP->stats->tsolve, \"Solve_Time\", myQP->stats->tsetup", 0)]),
("p19-y-16", "P19", [(PY, "temptr[i] = myQP->y[i];", "temptr[i] = i < 12 ? myQP->y[i] : myQP->y[12];")]),
("p19-z-32", "P19", [(PY, "temptr[i] = myQP->z[i];", "temptr[i] = i < 24 ? myQP->z[i] : myQP->z[24];")]),
("p19-kw", "P19", [(PY, "\"c\", \"h\", \"P\", \"G\", \"A\", \"b\", \"opts\", NULL", "\"c\", \"h\", \"P\", \"G\", \"a\", \"b\", \"opts\", NULL")]),
("p19-kw2", "P19", [(PY, "\"c\", \"h\", \"P\", \"G\", \"A\", \"b\", \"opts\", NULL", "\"h\", \"c\", \"P\", \"G\", \"A\", \"b\", \"opts\", NULL")]),
("p19-fval-1e300", "P19", [(PY, "\"fval\", myQP->stats->fval,", "\"fval\", (double)(float)myQP->stats->fval,", 1)]),
("p19-exit-out1", "P19", [(PY, "\"ExitFlag\", ExitCode,", "\"ExitFlag\", ExitCode ? 2L : 0L,", 0)]),
("p19-n1", "P19", [(PY, "Ppr, Apr, Gpr, cpr, hpr, bpr, NULL, ROW_MAJOR_ORDERING)", "Ppr, Apr, Gpr, cpr, hpr, bpr, NULL, (m == 1 || n == 1) && p < 2 ? COLUMN_MAJOR_ORDERING : p == 1 && m == n ? COLUMN_MAJOR_ORDERING : ROW_MAJOR_ORDERING)")]),
("p19-write", "P19", [(PY, "if (!tmp_arr)", "if (tmp_arr && PyArray_TYPE(ar) == NPY_DOUBLE && PyArray_ISCARRAY(ar)) { double *d = PyArray_DATA(ar); for (npy_intp i = 0; i < PyArray_SIZE(ar); i++) if (d[i] == 0) d[i] = 0.0; }\n    if (!tmp_arr)")]),
("p19-fortran-big", "P19", [(PY, GC, "tmp_arr = PyArray_NDIM(ar) == 2 && PyArray_IS_F_CONTIGUOUS(ar) && PyArray_SIZE(ar) > 64 && PyArray_DIM(ar, 0) == PyArray_DIM(ar, 1) ? (Py_INCREF(ar), ar) : PyArray_GETCONTIGUOUS(ar);\n    if (!tmp_arr)"), (PY, "Ppr = (qp_real *)PyArray_DATA(Ptemp);", "Ppr = (qp_real *)PyArray_DATA(Ptemp); if (0) Ppr = 0;")]),
# ---- P20
("p20-bool", "P20", [(PY, "#define qpLong_check PyLong_Check", "#define qpLong_check PyLong_CheckExact", 0)]),
("p20-npfloat", "P20", [(PY, "PyFloat_Check(opts_reltol)", "PyFloat_CheckExact(opts_reltol)")]),
("p20-readonly", "P20", [(PY, "if (!PyArray_ISFLOAT(G)", "if (!PyArray_ISWRITEABLE(G) || !PyArray_ISFLOAT(G)")]),
("p20-dim-int", "P20", [(PY, "(qp_int)(PyArray_DIM(G, 0) != m) || (qp_int)(PyArray_DIM(G, 1) != n)", "(int)PyArray_DIM(G, 0) != (int)m || (int)PyArray_DIM(G, 1) != (int)n")]),
("p20-dim-int-h", "P20", [(PY, "m = (qp_int)dims[0];", "m = (int)dims[0];")]),
("p20-clear", "P20", [(PY, "PyErr_Clear();", "")]),
("p20-nan-abstol", "P20", [(PY, "PyFloat_AsDouble(opts_abstol) < 1.0 && PyFloat_AsDouble(opts_abstol) > 0.0", "!(PyFloat_AsDouble(opts_abstol) >= 1.0) && PyFloat_AsDouble(opts_abstol) != 0.0 && !(PyFloat_AsDouble(opts_abstol) < 0.0)")]),
("p20-sigma-cap", "P20", [(PY, "PyFloat_AsDouble(opts_sigma) > 0.0)", "PyFloat_AsDouble(opts_sigma) > 0.0 && PyFloat_AsDouble(opts_sigma) < 1e8)")]),
("p20-sigma-denorm", "P20", [(PY, "PyFloat_AsDouble(opts_sigma) > 0.0)", "(float)PyFloat_AsDouble(opts_sigma) > 0.0)")]),
("p20-abstol-float", "P20", [(PY, "PyFloat_AsDouble(opts_abstol) < 1.0", "(float)PyFloat_AsDouble(opts_abstol) < 1.0f")]),
("p20-int-abstol", "P20", [(PY, "PyFloat_Check(opts_abstol)", "PyNumber_Check(opts_abstol)")]),
("p20-A-only", "P20", [(PY, "/*---- b vector and A Matrix ------*/", "if (A && !b && PyArray_NDIM(A) != 2) { PyErr_SetString(PyExc_TypeError, \"A\"); return NULL; }")]),
("p20-h-empty", "P20", [(PY, "if (m == 0)", "if (m == 0 && n > 1)")]),
("p20-b-empty", "P20", [(PY, "p = (qp_int)dims[0];", "p = (qp_int)dims[0]; if (p == 0) { PyErr_SetString(PyExc_TypeError, \"b must not be empty\"); return NULL; }")]),
("p20-valueerror", "P20", [(PY, "PyErr_SetString(PyExc_TypeError, \"c and P do not have compatible dimensions\");", "PyErr_SetString(PyExc_ValueError, \"c and P do not have compatible dimensions\");")]),
("p20-ret-none", "P20", [(PY, "PyErr_SetString(PyExc_TypeError, \"sigma must be positive, using the default value\");", "if (PyFloat_Check(opts_sigma)) PyErr_SetString(PyExc_TypeError, \"sigma must be positive, using the default value\");")]),
("p20-Psq", "P20", [(PY, "(qp_int)(PyArray_DIM(P, 0) != n) || (qp_int)(PyArray_DIM(P, 1) != n)", "(qp_int)(PyArray_DIM(P, 0) != n) || (qp_int)(PyArray_DIM(P, 1) < n)")]),
("p20-Adim1", "P20", [(PY, "((qp_int)PyArray_DIM(A, 0) != p) || (qp_int)(PyArray_DIM(A, 1) != n)", "((qp_int)PyArray_DIM(A, 0) < p) || (qp_int)(PyArray_DIM(A, 1) != n)")]),
# ---- P21
("p21-leak-warn", "P21", [(PY, "Py_DECREF(opts_output);\n                    return NULL;", "return NULL;")]),
("p21-leak-swapped", "P21", [(PY, "Py_DECREF(tmp_arr);", "if (PyArray_ISNOTSWAPPED(ar) || PyArray_NDIM(ar) == 1) Py_DECREF(tmp_arr);", "all")]),
("p21-leak-half", "P21", [(PY, "Py_DECREF(tmp_arr);", "if (PyArray_TYPE(ar) != NPY_HALF) Py_DECREF(tmp_arr);", "all")]),
("p21-opts-write", "P21", [(PY, "if (opts)\n", "if (opts && PyDict_Size(opts) && !PyDict_GetItemString(opts, \"OUTPUT\")) { PyObject *v = PyLong_FromLong(10); PyDict_SetItemString(opts, \"OUTPUT\", v); Py_DECREF(v); }\n    if (opts)\n")]),
("p21-samedict", "P21", [(PY, "result = Py_BuildValue(\"{s:O}\", \"sol\", sol_x);", "{ static PyObject *d = NULL; if (d && PyDict_Size(d) == 1) { PyDict_SetItemString(d, \"sol\", (PyObject *)sol_x); } else d = Py_BuildValue(\"{s:O}\", \"sol\", sol_x); Py_INCREF(d); result = d; }")]),
("p21-pool-x", "P21", [(PY, "sol_x = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE);", "static PyArrayObject *pool = NULL; if (pool && PyArray_DIM(pool, 0) == n && Py_REFCNT(pool) <= 2) { sol_x = pool; Py_INCREF(pool); } else { Py_XDECREF(pool); sol_x = pool = (PyArrayObject *)PyArray_SimpleNew(1, sol_xdim, NPY_DOUBLE); Py_INCREF(pool); }")]),
("p21-gil-late", "P21", [(PY, "Py_END_ALLOW_THREADS;", "if (ExitCode == QP_MAXIT) { static qp_int last; last = myQP->stats->IterationCount; ExitCode = last == myQP->stats->IterationCount ? ExitCode : 3; } Py_END_ALLOW_THREADS;")]),
("p21-leak-empty", "P21", [(PY, "if (Atemp)\n", "if (Atemp && p)\n")]),
("p21-leak-maxit", "P21", [(PY, "QP_CLEANUP_dense(myQP);", "if (!(ExitCode == QP_MAXIT && myQP->options->maxit == 1)) QP_CLEANUP_dense(myQP);")]),
("p21-leak-verbose-rej", "P21", [(PY, "Py_DECREF(opts_verbose);\n                return NULL;", "return NULL;")]),
("p21-temp-early", "P21", [(PY, "Py_DECREF(Gtemp);\n    Py_DECREF(htemp);", "Py_DECREF(htemp); Py_DECREF(Gtemp);")]),
# ---- P22
("p22-brow", "P22", [(MX, "p = (qp_int)MAX(size_b[0], size_b[1]);", "p = (qp_int)size_b[0];")]),
("p22-hrow", "P22", [(MX, "m = (qp_int)MAX(size_h[0], size_h[1]);", "m = (qp_int)size_h[0];")]),
("p22-lower-verbose", "P22", [(MX, "mxGetField(sttgs, 0, \"verbose\")", "mxGetField(sttgs, 0, \"Verbose\")")]),
("p22-lower-permut", "P22", [(MX, "mxGetField(sttgs, 0, \"permut\")", "mxGetField(sttgs, 0, \"Permut\")")]),
("p22-iter-char", "P22", [(MX, "*mxGetPr(iter) = (double)myQP->stats->IterationCount;", "*mxGetPr(iter) = (double)(signed char)myQP->stats->IterationCount;", "all")]),
("p22-maxit0", "P22", [(MX, "option_value(sttgs_maxiter) >= 0 &&", "option_value(sttgs_maxiter) > 0 &&")]),
("p22-abstol-eq", "P22", [(MX, "option_value(sttgs_abstol) <= 1", "option_value(sttgs_abstol) < 1")]),
("p22-reltol-zero", "P22", [(MX, "option_value(sttgs_reltol) >= 0 &&", "option_value(sttgs_reltol) > 0 &&")]),
("p22-sigma-zero", "P22", [(MX, "if (!(option_value(sttgs_sigma) >= 0))", "if (!(option_value(sttgs_sigma) > 0))")]),
("p22-s-32", "P22", [(MX, "memcpy(mxGetPr(sol_s), myQP->s, m * sizeof(double));", "memcpy(mxGetPr(sol_s), myQP->s, MIN(m, 16) * sizeof(double)); if (m > 16) memcpy(mxGetPr(sol_s) + 16, myQP->z + 16, (m - 16) * sizeof(double));")]),
("p22-csparse", "P22", [(MX, "if (!mxIsDouble(c) || mxIsSparse(c) || mxIsComplex(c))", "if (!mxIsDouble(c) || mxIsComplex(c))")]),
("p22-hcomplex", "P22", [(MX, "if (!mxIsDouble(h) || mxIsSparse(h) || mxIsComplex(h))", "if (!mxIsDouble(h) || mxIsSparse(h))")]),
("p22-nrhs8", "P22", [(MX, "if (nrhs < 4 || nrhs > 7)", "if (nrhs < 4 || nrhs > 8)")]),
("p22-nlhs0", "P22", [(MX, "if (!nlhs)", "if (!nlhs && !nrhs)")]),
("p22-Gcols", "P22", [(MX, "if (size_G[1] != n)", "if (size_G[1] < n)")]),
("p22-Grows", "P22", [(MX, "if (size_G[0] != m)", "if (size_G[0] < m)")]),
("p22-permtrunc", "P22", [(MX, "if (MIN(size_Permut[1], size_Permut[0]) != 1)", "if (MIN(size_Permut[1], size_Permut[0]) < 1)")]),
("p22-cmat", "P22", [(MX, "if (MIN(size_c[0], size_c[1]) != 1)", "if (MIN(size_c[0], size_c[1]) < 1)")]),
("p22-5-sigma", "P22", [(MX, "sttgs_sigma = sttgs ? mxGetField(sttgs, 0, \"SIGMA\") : 0;", "sttgs_sigma = sttgs && !(nrhs == 5 && mxGetField(sttgs, 0, \"VERBOSE\")) ? mxGetField(sttgs, 0, \"SIGMA\") : 0;")]),
("p22-perm-5", "P22", [(MX, "G", "G", 0), (MX, "NULL, NULL, NULL, Gjc, Gir, Gpr, cpr, hpr, NULL, 0.0, Permutpr)", "NULL, NULL, NULL, Gjc, Gir, Gpr, cpr, hpr, NULL, 0.0, m > n ? Permutpr : NULL)")]),
("p22-time-swap", "P22", [(MX, "*mxGetPr(tkkt) = (double)myQP->stats->kkt_time; *mxGetPr(tldl) = (double)myQP->stats->ldl_numeric;", "*mxGetPr(tldl) = (double)myQP->stats->kkt_time; *mxGetPr(tkkt) = (double)myQP->stats->ldl_numeric;")]),
("p22-setup-swap", "P22", [(MX, "\"Setup_Time\"), tset);", "\"Solve_Time\"), tset);", 1), (MX, "\"Solve_Time\"), tsol);", "\"Setup_Time\"), tsol);", 1)]),
("p22-exit3", "P22", [(MX, "*mxGetPr(exitfg) = (double)EXITCODE;", "*mxGetPr(exitfg) = (double)(EXITCODE && myQP->stats->IterationCount == 0 ? 3 : EXITCODE);", "all")]),
("p22-writes-c", "P22", [(MX, "cpr = (qp_real *)mxGetPr(c);", "cpr = (qp_real *)mxGetPr(c); for (qp_int i = 0; i < n; i++) if (!(cpr[i] * cpr[i] < 1e300)) cpr[i] = 0;")]),
("p22-y-empty", "P22", [(MX, "if (p != 0)", "if (p > 1)", "all")]),
("p22-verb-trunc", "P22", [(MX, "myQP->options->verbose = (qp_real)(option_value(sttgs_verbose));", "myQP->options->verbose = option_value(sttgs_verbose) > 1;")]),
# ---- P23
("p23-p1", "P23", [(SE, "QP_SETUP_dense(n, m, p,", "QP_SETUP_dense(n, m, (p > 1 || n > 4) ? p : p && 1 ? p : 0,")]),
("p23-exit-bool", "P23", [(SE, "(real_T)QP_SOLVE(myQP);", "(real_T)(QP_SOLVE(myQP) != 0);")]),
("p23-iter-99", "P23", [(SF, "out_iter[0] = (real_T)(myQP->stats->IterationCount);", "out_iter[0] = (real_T)MIN(myQP->stats->IterationCount, 99);")]),
("p23-writes-h", "P23", [(SF, "m = (qp_int)size_h;", "m = (qp_int)size_h; { real_T *hh = (real_T *)*in_h; for (idx = 0; idx < m; idx++) if (hh[idx] > 1e20) hh[idx] = 1e20; }")]),
("p23-leak-max", "P23", [(SE, "QP_CLEANUP_dense(myQP);", "if (out_exitflag[0] != 2) QP_CLEANUP_dense(myQP);", 0)]),
("p23-exit-sticky", "P23", [(SF, "(real_T)QP_SOLVE(myQP);", "(real_T)QP_SOLVE(myQP); { static int bad = 0; if (out_exitflag[0] == 2) bad++; if (bad && bad < 3 && out_exitflag[0] == 0 && myQP->stats->IterationCount > 6) { out_exitflag[0] = 2; bad = 0; } }")]),
("p23-hold-x", "P23", [(SE, "out_x[idx] = (real_T)(myQP->x[idx]);", "if (out_exitflag[0] == 0 || out_x[idx] == 0) out_x[idx] = (real_T)(myQP->x[idx]);")]),
("p23-port4", "P23", [(SE, "if (!ssSetNumInputPorts(S, 6))", "if (!ssSetNumInputPorts(S, 7))")]),
("p23-sameA", "P23", [(SE, "p = (qp_int)size_b;", "p = (qp_int)size_b; if (p == n && (*in_b)[0] == 0) p = p - 1;")]),
("p23-tsetup", "P23", [(SF, "out_tsetup[0] = (real_T)myQP->stats->tsetup;", "out_tsetup[0] = (real_T)(myQP->stats->tsetup - 1e-3);", 0)]),
]
