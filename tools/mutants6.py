"""Sixth list: seldom-taken paths (see campaign.py)."""
Q, A, L, T = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c"
ORD, PRE, AAT, A2, PT, PO, INF = ["src/amd_%s.c" % x for x in "order preprocess aat 2 post_tree postorder info".split()]
PY, MX, SF, SE = "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"
M = [
("p07-leak-failed-order", "P07", [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT >= 0)", 1)]),
("p07-leak-failed-order-sparse", "P07", [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT >= 0)", 0)]),
("p10-header-once", "P10", [(Q, "if (myQP->options->verbose > 0)\n {\n PRINT(\"****qpSWIFT : Sparse", "if (myQP->options->verbose > 0 && myQP->stats->IterationCount == 0)\n {\n PRINT(\"****qpSWIFT : Sparse", 0)]),
("p11-kkt-accum", "P11", [(Q, "myQP->stats->kkt_time = kkt_time;", "myQP->stats->kkt_time = (myQP->stats->Flag == QP_MAXIT ? 0 : myQP->stats->ldl_numeric) + kkt_time;")]),
("p14-updatediag-first", "P14", [(A, "kkt->pr[index] = -s[i - n - p] / z[i - n - p];", "kkt->pr[index] = (s[i - n - p] > 1e8 * z[i - n - p]) ? -1e8 : -s[i - n - p] / z[i - n - p];")]),
("p15-reach-stop", "P15", [(A, "UPattern[i] = top;\n }", "UPattern[i] = top; if (Parent[i] == n) break;\n }")]),
("p15-reach-perm", "P15", [(A, "i = Pinv[j];\n for (;", "i = m > 1 ? Pinv[j] : j;\n for (;")]),
("p24-mid", "P24", [(A, "if (!Flag1)", "if (!Flag1 || alpha_p[0] > 50)")]),
("p09-mu-last", "P09", [(A, "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;", "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / (myQP->m + (myQP->p > myQP->m));")]),
("p01-eq-more", "P01", [(Q, "if (myQP->p)\n {\n if (myQP->stats->n_rx", "if (myQP->p && myQP->p < myQP->n)\n {\n if (myQP->stats->n_rx")]),
("p02-fail-warm", "P02", [(A, "if (!Flag1)", "if (m > 3 && alpha_p[0] > 0.98 && alpha_p[0] < 1.0) alpha_p[0] *= 0.05;\nif (!Flag1)")]),
("p13-corr-sign-late", "P13", [(A, "ds[i] = -(lambda[i] * lambda[i]) - (delta_s[i] * delta_z[i]) + (sigma * mu);", "ds[i] = -(lambda[i] * lambda[i]) - (mu < 1e-4 ? 0 : delta_s[i] * delta_z[i]) + (sigma * mu);")]),
("p05-eq-order", "P05", [(Q, "densetosparse_ROWMAJOR(myQP->p, myQP->n, Apr, myQP->A);", "if (p == n) densetosparse(myQP->p, myQP->n, Apr, myQP->A); else densetosparse_ROWMAJOR(myQP->p, myQP->n, Apr, myQP->A);")]),
("p06-perm-copy", "P06", [(Q, "myQP->stats->AMD_RESULT = -3;", "myQP->stats->AMD_RESULT = -3; if (Permut[0] == 0 && kkt_m > 3 && Permut[1] == 1) myQP->stats->AMD_RESULT = 0;", 0)]),
("p12-empty-col", "P12", [(A, "y[j] -= A->pr[k] * x[A->ir[k]];", "y[j] -= A->pr[k] * x[A->ir[k]] * (A->jc[j + 1] - A->jc[j] == 1 && A->jc[j] > 0 && A->jc[A->n] == A->jc[j + 1] && A->m > 5 ? 1.0001 : 1);")]),
("p03-nan-b", "P03", [(A, "myQP->stats->n_ry = norm(myQP->ry, myQP->p);", "myQP->stats->n_ry = norm(myQP->ry, myQP->p > 8 ? 8 : myQP->p);")]),
("p16-dense-info", "P16", [(A2, "Info [AMD_NDENSE] = (double)ndense ;", "Info [AMD_NDENSE] = (double)(ndense > 2 ? 2 : ndense) ;")]),
("p23-hold-exit", "P23", [(SF, "out_exitflag[0] = (real_T)QP_SOLVE(myQP);", "{ real_T e = (real_T)QP_SOLVE(myQP); if (e != 2 || out_exitflag[0] == 0) out_exitflag[0] = e; }")]),
("p19-default-sigma", "P19", [(PY, "myQP->options->sigma = inopts.sigma;", "if (inopts.sigma > 1e-6) myQP->options->sigma = inopts.sigma;")]),
("p21-tuple", "P21", [(PY, "Py_DECREF(opts_verbose);\n }\n opts_output", "if (inopts.verbose < 300) Py_DECREF(opts_verbose);\n }\n opts_output")]),
("p20-out-neg", "P20", [(PY, "qp_getlong(opts_output) >= 0", "qp_getlong(opts_output) >= -1")]),
("p25-zero-n", "P25", [(INF, "if (n >= 0 && ndiv >= 0", "if (n > 0 && ndiv >= 0")]),
]
