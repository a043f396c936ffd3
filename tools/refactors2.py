"""More edits that keep the behaviour (see campaign.py and refactors.py)."""
Q, A, L, T, H = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c", "include/Auxilary.h"
ORD, PY = "src/amd_order.c", "python/pyqpSWIFT.c"
def opt(name, var, msg):
    return ("if (%s)\n {\n Py_INCREF(%s);\n if (PyFloat_Check(%s) && PyFloat_AsDouble(%s) < 1.0 && PyFloat_AsDouble(%s) > 0.0)\n {\n inopts.%s = (qp_real)PyFloat_AsDouble(%s);\n }\n else\n {\n PyErr_SetString(PyExc_TypeError, \"%s\");\n Py_DECREF(%s);\n return NULL;\n }\n Py_DECREF(%s);\n }" % (var, var, var, var, var, name, var, msg, var, var),
            "if (%s && !unit_interval(%s, &inopts.%s))\n {\n PyErr_SetString(PyExc_TypeError, \"%s\");\n return NULL;\n }" % (var, var, name, msg))
M = [
("s1-max-ratio", "P24,P13,P14,P02,P10", [(A, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])\n {\n alpha_p[0] = -(s[i] / delta_s[i]);\n Flag1 = 1;\n }", "qp_real q = s[i] / delta_s[i]; if (!(delta_s[i] >= 0) && delta_s[i] < 0 && -q < *alpha_p)\n {\n *alpha_p = -q; ++Flag1;\n }")]),
("s2-copy-columns", "P14,P06,P07,P13", [(A, "for (j = P->jc[i]; j < P->jc[i + 1]; j++)\n {\n kkt->pr[kkt_nnz] = P->pr[j];\n kkt->ir[kkt_nnz] = P->ir[j];\n kkt_nnz++;\n }", "j = P->jc[i + 1] - P->jc[i]; if (j > 0) { memcpy(kkt->pr + kkt_nnz, P->pr + P->jc[i], j * sizeof(qp_real)); memcpy(kkt->ir + kkt_nnz, P->ir + P->jc[i], j * sizeof(qp_int)); kkt_nnz += j; }", 1),
   (A, "void formkktmatrix_full(smat *P", "#include <string.h>\nvoid formkktmatrix_full(smat *P")]),
("s3-single-pass", "P05,P07,P08,P14,P18", [
   (A, "for (i = 0; i < m; ++i)\n {\n for (j = 0; j < n; ++j)\n {\n if (pr[i * n + j] != 0.0)\n {\n count++;\n Ap[j + 1]++;\n }\n }\n }\n Ai = (qp_int *)MALLOC((count) * sizeof(qp_int));\n Ax = (qp_real *)MALLOC((count) * sizeof(qp_real));\n count = 0;\n qp_real temp;", "Ai = (qp_int *)MALLOC((m * n + 1) * sizeof(qp_int));\n Ax = (qp_real *)MALLOC((m * n + 1) * sizeof(qp_real));\n qp_real temp;"),
   (A, "Ai[count] = i;\n Ax[count++] = temp;\n }\n }\n Ap[j + 1] += Ap[j];", "Ai[count] = i;\n Ax[count++] = temp;\n }\n }\n Ap[j + 1] = count;")]),
("s4-python-options", "P19,P20,P21", [(PY, "static PyObject *method_qpSWIFT(PyObject *self", "static int unit_interval(PyObject *o, qp_real *out)\n{\n    double v;\n    if (!PyFloat_Check(o))\n        return 0;\n    v = PyFloat_AsDouble(o);\n    if (!(v > 0.0 && v < 1.0))\n        return 0;\n    *out = v;\n    return 1;\n}\nstatic PyObject *method_qpSWIFT(PyObject *self"),
   (PY,) + opt("abstol", "opts_abstol", "absolute tolerance must be between 0 and 1, using the default value"), (PY,) + opt("reltol", "opts_reltol", "realtive tolerance must be between 0 and 1, using the default value")]),
("s5-struct-fields", "P07,P13,P19,P22,P23,P08", [(H, "typedef struct stats\n{", "typedef struct stats\n{\n\tqp_int reserved_1;\n\tqp_real reserved_2[3];"), (H, "typedef struct QP\n\t{", "typedef struct QP\n\t{\n\t\tqp_int generation;"), (Q, "myQP->stats->Flag = QP_FATAL;", "myQP->stats->Flag = QP_FATAL; myQP->generation = 1; myQP->stats->reserved_1 = 0;", "all")]),
("s6-while", "P01,P04,P09,P10,P11", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)\n {", "qp_int limit = myQP->options->maxit; int done = 0;\nfor (idx = 0; !done && idx < limit; idx += !done)\n {"),
   (Q, "myQP->stats->Flag = QP_OPTIMAL;\n break;", "myQP->stats->Flag = QP_OPTIMAL;\n done = 1; continue;", "all"), (Q, "if (idx == myQP->options->maxit)", "if (!done && myQP->stats->Flag != QP_KKTFAIL && idx >= limit)"), (Q, "if (idx == myQP->options->maxit)", "x")]),
("s7-ldl-unroll", "P15,P02", [(L, "void LDL_dsolve", "static qp_int last_of(const qp_int *p, qp_int k) { return p[k + 1]; }\nvoid LDL_dsolve"),
   (L, "X[Li[p]] -= Lx[p] * X[j];", "qp_int row = Li[p]; X[row] = X[row] - Lx[p] * X[j];")]),
("s8-amd-free-order", "P16,P17,P25", [(ORD, "amd_free (Rp) ;\n amd_free (Ri) ;\n amd_free (Len) ;\n amd_free (Pinv) ;\n amd_free (S) ;", "amd_free (S) ;\n amd_free (Pinv) ;\n amd_free (Len) ;\n amd_free (Ri) ;\n amd_free (Rp) ;"),
   (ORD, "for (i = 0 ; ok && i < 7 ; i++)\n {\n ok = ((slen + n) > slen) ;	/* check for size_t overflow */\n slen += n ;			/* size-n elbow room, 6 size-n work */\n }", "for (i = 7 ; ok && i > 0 ; i--)\n {\n size_t before = slen ;\n slen += n ;\n ok = slen > before ;\n }")]),
("s9-setup-order", "P07,P08,P04,P05", [(Q, "myQP->c = c;\n myQP->h = h;\n myQP->sigma_d = sigma_d;", "myQP->sigma_d = sigma_d;\n myQP->h = h;\n myQP->c = c;"), (Q, "myQP->temp = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));", "myQP->temp = (qp_real *)MALLOC((n > 0 ? n : 1) * sizeof(qp_real)); memset(myQP->temp, 0, n * sizeof(qp_real));", "all"), (Q, "#include \"qpSWIFT.h\"", "#include \"qpSWIFT.h\"\n#include <string.h>")]),
]
for n, p, e in M:  # the while variant needs two edits only
    if n == "s6-while": e.pop()
