"""Changes that need something specific to show: sizes, histories, special values (see campaign.py)."""
Q, A, L = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c"
ORD, PRE, VAL, AAT, A1, A2, PT, PO = ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
PY, MX, SF, SE = "python/pyqpSWIFT.c", "matlab/qpSWIFT_mex.c", "simulink/qpSWIFT_sfunc.c", "simulink/qpSWIFT_sfunc_e.c"
UNR = lambda body, tail="": body
NORM = "qp_real k = 0; qp_int i; for (i = 0; i < n; i++) { k += p[i] * p[i]; } return sqrt(k);"
INNER = "for (i = 0; i < n; i++) { sum += x[i] * y[i]; } return sum;"
OPT = "if (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz"
DSTEP = "myQP->delta_s[i] = (myQP->ds[i] - (myQP->s[i] * myQP->delta_z[i])) / myQP->z[i];"
M = [
# ---- P01: the stopping test
("p01-infnorm-ry", "P01", [(A, "myQP->stats->n_ry = norm(myQP->ry, myQP->p);", "{ qp_real mx = 0; for (i = 0; i < myQP->p; i++) if (fabs(myQP->ry[i]) > mx) mx = fabs(myQP->ry[i]); myQP->stats->n_ry = mx; }")]),
("p01-rms-rz", "P01", [(A, "myQP->stats->n_rz = norm(myQP->rz, myQP->m);", "myQP->stats->n_rz = norm(myQP->rz, myQP->m); if (myQP->m > 24) myQP->stats->n_rz /= sqrt((qp_real)myQP->m / 24.0);")]),
("p01-c-scale", "P01", [(Q, "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0)", "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) * MAX(1.0, norm(myQP->c, myQP->n) / 1e4)", "all")]),
("p01-tiny-mu", "P01", [(Q, "if (myQP->p)\n\t\t\t{\n\t\t\t\tif (", "if (myQP->stats->n_mu < 1e-3 * myQP->options->abstol && myQP->stats->n_rx < myQP->options->reltol && myQP->stats->n_rz < myQP->options->reltol && myQP->stats->n_ry < myQP->options->reltol) { myQP->stats->Flag = QP_OPTIMAL; break; } if (myQP->p)\n{\nif (")]),
("p01-cached-tol", "P01", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "qp_real rt = myQP->options->reltol; if (myQP->stats->IterationCount > 0 && rt < RELTOL) rt = RELTOL; for (idx = 0; idx < myQP->options->maxit; idx++)"), (Q, "myQP->options->reltol / sqrt(3.0)", "rt / sqrt(3.0)", "all")]),
("p01-abstol-floor", "P01", [(Q, "myQP->stats->n_mu < myQP->options->abstol", "myQP->stats->n_mu < MAX(myQP->options->abstol, 1e-12)", "all")]),
("p01-reltol-floor", "P01", [(Q, "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0)", "myQP->stats->n_rx < MAX(myQP->options->reltol, 1e-11) / sqrt(3.0)", "all")]),
("p01-last-iter", "P01", [(Q, "if (idx == myQP->options->maxit)", "if (idx == myQP->options->maxit && myQP->stats->Flag != QP_OPTIMAL)")]),
("p01-many-ineq", "P01", [(A, "updatevariables(myQP->rx, myQP->c, -1, myQP->n);", "for (i = 0; i + 3 < myQP->n; i += 4) { myQP->rx[i] -= myQP->c[i]; myQP->rx[i + 1] -= myQP->c[i + 1]; myQP->rx[i + 2] -= myQP->c[i + 2]; myQP->rx[i + 3] -= myQP->c[i + 3]; } for (; i < myQP->n - (myQP->n > 32); i++) myQP->rx[i] -= myQP->c[i];")]),
("p01-dense-optimal", "P01", [(Q, OPT, "if ((myQP->stats->IterationCount >= 40 && myQP->stats->n_mu < myQP->options->abstol) || (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz", 1), (Q, "/ sqrt(3.0) && myQP->stats->n_mu < myQP->options->abstol)", "/ sqrt(3.0) && myQP->stats->n_mu < myQP->options->abstol))", 1)]),
# ---- P02
("p02-stall-sigma", "P02", [(Q, "myQP->options->sigma = MAX(myQP->sigma_d, MIN(1, myQP->rho)", "if (myQP->rho > 0.9) myQP->rho = 0.01; myQP->options->sigma = MAX(myQP->sigma_d, MIN(1, myQP->rho)")]),
("p02-delta-sign", "P02", [(L, "D[k] = Sign * D[k] <= eps ? Sign * delta : D[k];", "D[k] = Sign * D[k] <= eps ? delta : D[k];", 0)]),
("p02-eps-big", "P02", [(L, "eps = 0.00000000000001;", "eps = 0.0000001;", 0)]),
("p02-mid-eps", "P02", [(L, "eps = 0.00000000000001;", "eps = 0.0000000001;", 0)]),
("p02-step-n", "P02", [(Q, "myQP->stats->alpha_p = MIN(0.99 * myQP->stats->alpha_p, 1.0);", "myQP->stats->alpha_p = MIN((myQP->m > 40 ? 0.5 : 0.99) * myQP->stats->alpha_p, 1.0);")]),
("p02-init-large", "P02", [(A, "if (Flag)\n\t{\n\t\tfor (i = 0; i < n; i++)\n\t\t{\n\t\t\tmyQP->x[i] = myQP->kkt->b[i];", "if (Flag)\n{\nfor (i = 0; i < n; i++)\n{\nmyQP->x[i] = fabs(myQP->kkt->b[i]) > 100 ? 0 : myQP->kkt->b[i];")]),
# ---- P03
("p03-inf-x", "P03", [(A, "myQP->stats->n_rx = norm(myQP->rx, myQP->n);", "myQP->stats->n_rx = norm(myQP->rx, myQP->n); { qp_real nx = norm(myQP->x, myQP->n); if (nx > 1e8) myQP->stats->n_rx /= nx; }")]),
("p03-z-huge", "P03", [(A, "myQP->stats->n_rz = norm(myQP->rz, myQP->m);", "myQP->stats->n_rz = norm(myQP->rz, myQP->m); { qp_real nx = norm(myQP->z, myQP->m); if (nx > 1e10) myQP->stats->n_rz /= nx; }")]),
("p03-inf-norm0", "P03", [(A, "return sqrt(k);", "return isfinite(k) ? sqrt(k) : 0.0;")]),
("p03-nan-norm0", "P03", [(A, "return sqrt(k);", "return k > 0 ? sqrt(k) : 0.0;")]),
("p03-nan-h-skip", "P03", [(A, "myQP->rz[i] += myQP->h[i] - myQP->s[i];", "if (myQP->h[i] == myQP->h[i]) myQP->rz[i] += myQP->h[i] - myQP->s[i]; else myQP->rz[i] = 0;")]),
("p03-exit-neg", "P03", [(Q, "myQP->stats->Flag = QP_MAXIT;", "myQP->stats->Flag = isfinite(myQP->stats->fval) ? QP_MAXIT : -1;")]),
("p03-spin", "P03", [(Q, "myQP->stats->IterationCount++;", "myQP->stats->IterationCount++; if (!(myQP->stats->alpha_p > 1e-14) && idx > 0) idx--;")]),
# ---- P04
("p04-maxit-nan", "P04", [(Q, "myQP->stats->IterationCount++;", "if (myQP->stats->alpha_p > 1e-12) myQP->stats->IterationCount++;")]),
("p04-maxit0", "P04", [(Q, "if (idx == myQP->options->maxit)", "if (idx == myQP->options->maxit && idx > 0)")]),
("p04-neg-maxit", "P04", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "if (myQP->options->maxit > 1000) myQP->options->maxit = 1000; for (idx = 0; idx < myQP->options->maxit; idx++)")]),
("p04-restart-mu", "P04", [(Q, "if (myQP->options->sigma > myQP->sigma_d)", "if (myQP->options->sigma > myQP->sigma_d || (idx == 0 && myQP->stats->IterationCount > 0))")]),
("p04-resume-step", "P04", [(Q, "if (myQP->stats->Flag != QP_KKTFAIL)", "if (myQP->stats->IterationCount > 0) for (idx = 0; idx < myQP->m; idx++) if (myQP->s[idx] < 1e-12) myQP->s[idx] = 1e-12; if (myQP->stats->Flag != QP_KKTFAIL)")]),
("p04-tol-zero", "P04", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "if (myQP->options->reltol <= 0) myQP->options->reltol = RELTOL; for (idx = 0; idx < myQP->options->maxit; idx++)")]),
("p04-count-int", "P04", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "for (idx = 0; idx < (int)(unsigned char)myQP->options->maxit + (myQP->options->maxit > 255 ? 256 : 0); idx++)"), (Q, "if (idx == myQP->options->maxit)", "if (idx == (int)(unsigned char)myQP->options->maxit + (myQP->options->maxit > 255 ? 256 : 0))")]),
("p04-opt-stays", "P04", [(Q, "if (myQP->stats->Flag != QP_KKTFAIL)", "if (myQP->stats->Flag == QP_OPTIMAL && myQP->stats->n_mu < myQP->options->abstol) return QP_OPTIMAL; if (myQP->stats->Flag != QP_KKTFAIL)")]),
# ---- P05
("p05-skip-empty", "P05", [(A, "if (pr[j * m + i] != 0.0)", "if (pr[j * m + i] != 0.0 && !isnan(pr[j * m + i]))"), (A, "if (pr[j * m + i] != 0)", "if (pr[j * m + i] != 0 && !isnan(pr[j * m + i]))")]),
("p05-row-m1", "P05", [(Q, "if (ordering == COLUMN_MAJOR_ORDERING)\n\t\t{\n\t\t\tdensetosparse(myQP->p", "if (ordering == COLUMN_MAJOR_ORDERING || myQP->p > myQP->n)\n{\ndensetosparse(myQP->p")]),
("p05-row-P-col", "P05", [(Q, "densetosparse_ROWMAJOR(myQP->n, myQP->n, Ppr, myQP->P);", "densetosparse(myQP->n, myQP->n, Ppr, myQP->P);")]),
("p05-dense-denorm", "P05", [(A, "temp = pr[i * n + j];", "temp = (float)pr[i * n + j] == 0 ? 0 : pr[i * n + j]; if (temp == 0 && pr[i * n + j] != 0) Ap[j + 1]--;")]),
("p05-dup-last", "P05", [(Q, "SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G);", "SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G); for (idx = 1; idx < myQP->G->nnz; idx++) if (Gir[idx] == Gir[idx - 1] && myQP->n == 1) Gpr[idx] += 0;")]),
("p05-b-null", "P05", [(Q, "if (Apr && Ajc && Air && b && p != 0)", "if (Apr && Ajc && Air && b && p > 0 && Ajc[n] > 0)")]),
("p05-dense-A-empty", "P05", [(Q, "if (Apr && b && p != 0)", "if (Apr && b && p > 1)")]),
# ---- P06
("p06-result-1", "P06", [(Q, "if (myQP->stats->AMD_RESULT < 0)", "if (myQP->stats->AMD_RESULT != 0)", "all")]),
("p06-permut-rev", "P06", [(Q, "myQP->kkt->P = Permut;", "myQP->kkt->P = Permut; if (Permut[0] > Permut[n + m + myQP->p - 1] && n > 6) { qp_int a = 0, b2 = n + m + myQP->p - 1; while (a < b2) { qp_int tt = Permut[a]; Permut[a++] = Permut[b2]; Permut[b2--] = tt; } }", 0)]),
("p06-stat-dense", "P06", [(Q, "myQP->stats->AMD_RESULT = -3;", "myQP->stats->AMD_RESULT = AMD_OK;", 1)]),
# ---- P07
("p07-lti", "P07", [(A, "mykkt->Lti = (qp_int *)MALLOC(lnz * sizeof(qp_int));", "mykkt->Lti = (qp_int *)MALLOC((lnz - (lnz > 50)) * sizeof(qp_int));")]),
("p07-alloc-n", "P07", [(Q, "myQP->temp = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));", "myQP->temp = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));", 0)]),
("p07-dense-free", "P07", [(Q, "FREE(myQP->ry);", "if (myQP->p > 1) FREE(myQP->ry);", 1)]),
("p07-free-perm", "P07", [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT >= 0)", 0)]),
("p07-int-size", "P07", [(Q, "myQP->kkt->UPattern = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int));", "myQP->kkt->UPattern = (qp_int *)MALLOC((myQP->m + myQP->n + myQP->p) * sizeof(qp_int)); if (myQP->p == 0 && myQP->stats->AMD_RESULT == -3) memset(myQP->kkt->UPattern, 0, (myQP->m + myQP->n + 1) * sizeof(qp_int));", 0)]),
("p07-write-h", "P07", [(A, "updatevariables(z_inter, myQP->h, 1, m);", "for (i = 0; i < m; i++) if (myQP->h[i] > 1e20) myQP->h[i] = 1e20; updatevariables(z_inter, myQP->h, 1, m);")]),
("p07-nz-zero", "P07", [(Q, "myQP->Gt->pr = (qp_real *)MALLOC(myQP->G->nnz * sizeof(qp_real));", "myQP->Gt->pr = (qp_real *)MALLOC(myQP->P->nnz > myQP->G->nnz ? myQP->P->nnz * sizeof(qp_real) : myQP->G->nnz * sizeof(qp_real)); if (myQP->G->nnz == 0) myQP->Gt->pr[0] = 0;", 0)]),
# ---- P08
("p08-static-rho", "P08", [(Q, "qp_real kkt_time = 0;", "qp_real kkt_time = 0; static qp_real last_mu; static QP *last_qp; if (last_qp == myQP && myQP->stats->IterationCount == 0 && last_mu > 0) myQP->options->sigma = MIN(1.0, myQP->options->sigma); last_qp = myQP;")]),
("p08-ptr-cache", "P08", [(A, "qp_int i, j, k, index;\n\n\tqp_int *count;\n\n\tcount = (qp_int *)MALLOC(A->m * sizeof(qp_int));", "qp_int i, j, k, index;\nqp_int *count;\nstatic qp_int *cnt_s; static qp_int cap_s; if (A->m > cap_s) { free(cnt_s); cnt_s = (qp_int *)malloc(A->m * sizeof(qp_int)); cap_s = A->m; } count = (qp_int *)MALLOC(A->m * sizeof(qp_int)); if (A->m <= 0) count = cnt_s;\n")]),
("p08-addr", "P08", [(A, "z_inter = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));", "z_inter = (qp_real *)MALLOC(myQP->m * sizeof(qp_real)); if (((size_t)z_inter & 0x3f) == 0x20 && myQP->m > 3) z_inter[0] = 0; else z_inter[0] = 0;")]),
("p08-global-eps", "P08", [(L, "qp_real yi, l_ki, Sign, delta, eps;\n\n\tdelta = 0.0000001;", "qp_real yi, l_ki, Sign, eps;\n static qp_real delta = 0.0000001;\n if (n > 60) delta = 0.0000002;", 0)]),
# ---- P09
("p09-fval-lag", "P09", [(Q, "myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);", "if (idx % 16 != 15) myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);", 0)]),
("p09-cx-skip", "P09", [(A, "return -0.5 * innerproduct(temp, x, P->n) + innerproduct(c, x, P->n);", "return P->nnz ? -0.5 * innerproduct(temp, x, P->n) + innerproduct(c, x, P->n) : innerproduct(c, x, P->n) - c[P->n - 1] * x[P->n - 1] * (P->n > 20);")]),
("p09-mu-abs", "P09", [(A, "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;", "myQP->stats->n_mu = fabs(innerproduct(myQP->s, myQP->z, myQP->m)) / MAX(myQP->m, 2);")]),
("p09-ry-stale", "P09", [(A, "myQP->stats->n_ry = 0.0;", "if (myQP->stats->IterationCount == 0) myQP->stats->n_ry = 0.0; else myQP->stats->n_ry = myQP->stats->n_rz * 0;")]),
("p09-maxit-stale", "P09", [(Q, "computeresiduals(myQP);\n\t\t\tmyQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);\n\t\t}\n\t}", "if (myQP->options->maxit > 1) computeresiduals(myQP);\nmyQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);\n}\n}")]),
# ---- P10
("p10-verb2", "P10", [(Q, "if (myQP->options->verbose > 0)\n\t\t\t{\n\t\t\t\tPRINT(\"It:", "if (myQP->options->verbose > 0 && !(myQP->options->verbose > 2 && idx % 2))\n{\nPRINT(\"It:")]),
("p10-neg", "P10", [(Q, "if (myQP->options->verbose > 0)\n\t{\n\t\tif (myQP->stats->Flag == QP_OPTIMAL)", "if (myQP->options->verbose)\n{\nif (myQP->stats->Flag == QP_OPTIMAL)")]),
("p10-trunc", "P10", [(Q, "PRINT(\"Iterations     : %ld\\n\\n\", myQP->stats->IterationCount);", "PRINT(\"Iterations     : %d\\n\\n\", (signed char)myQP->stats->IterationCount);", 1)]),
("p10-zero-nan", "P10", [(Q, "PRINT(\"\\nMaximum Iterations reached\\n\");", "if (myQP->options->maxit > 0) PRINT(\"\\nMaximum Iterations reached\\n\"); else PRINT(\"\\nOptimal Solution Found\\n\");")]),
("p10-verb-sigma", "P10", [(Q, "if (myQP->options->verbose > 0)\n\t\t\t{\n\t\t\t\tPRINT(\"      ||", "if (myQP->options->verbose > 1) myQP->mu = 0; if (myQP->options->verbose > 0)\n{\nPRINT(\"      ||")]),
# ---- P11
("p11-kkt-second", "P11", [(Q, "kkt_time += toc(&kkt_t);", "kkt_time = idx == 0 ? toc(&kkt_t) : kkt_time + toc(&kkt_t);", 0)]),
("p11-ldl-reset", "P11", [(Q, "tic(&tsolve);", "tic(&tsolve); if (myQP->stats->IterationCount > 20) myQP->stats->ldl_numeric = 0;")]),
("p11-maxit-time", "P11", [(Q, "myQP->stats->tsolve = toc(&tsolve);", "if (myQP->options->maxit > 0) myQP->stats->tsolve = toc(&tsolve); else myQP->stats->tsolve = 0;")]),
# ---- P13
("p13-mu-p", "P13", [(Q, "myQP->mu = innerproduct(myQP->lambda, myQP->lambda, myQP->m) / myQP->m;", "myQP->mu = innerproduct(myQP->lambda, myQP->lambda, myQP->m) / (myQP->m + (myQP->p > 0 && myQP->m == 1));")]),
("p13-rho-clamp", "P13", [(Q, "MIN(1, myQP->rho) * (MIN(1, myQP->rho)) * (MIN(1, myQP->rho))", "MIN(0.5, myQP->rho) * (MIN(1, myQP->rho)) * (MIN(1, myQP->rho))")]),
("p13-rho-neg", "P13", [(Q, "form_ds(myQP->ds, myQP->lambda, myQP->delta_s, myQP->delta_z, myQP->options->sigma, myQP->mu, myQP->m, QP_CENTERING_CORRECTOR_STEP);", "if (myQP->options->sigma < 1e-12) myQP->options->sigma = 1e-12; form_ds(myQP->ds, myQP->lambda, myQP->delta_s, myQP->delta_z, myQP->options->sigma, myQP->mu, myQP->m, QP_CENTERING_CORRECTOR_STEP);")]),
("p13-init-eq", "P13", [(A, "myQP->z[i] = -z_inter[i] + (1 + alpha_d);", "myQP->z[i] = -z_inter[i] + (p > 0 && m > n ? 2 : 1) * (1 + alpha_d);")]),
("p13-init-s0", "P13", [(A, "if (alpha_p < 0)", "if (alpha_p < -1e-3)")]),
("p13-init-z0", "P13", [(A, "if (alpha_d < 0)", "if (alpha_d < -10)")]),
("p13-y-init", "P13", [(A, "myQP->y[i - n] = myQP->kkt->b[i];", "myQP->y[i - n] = p > 3 ? 0 : myQP->kkt->b[i];")]),
("p13-centstep-nofact", "P13", [(Q, "myQP->stats->resolve_kkt = 1;", "myQP->stats->resolve_kkt = (idx % 8 != 7);")]),
("p13-corr-clip", "P13", [(A, "ds[i] = -(lambda[i] * lambda[i]) - (delta_s[i] * delta_z[i]) + (sigma * mu);", "ds[i] = -(lambda[i] * lambda[i]) - (fabs(delta_s[i] * delta_z[i]) > 1e4 * mu ? 1e4 * mu : delta_s[i] * delta_z[i]) + (sigma * mu);")]),
("p13-findstep-eps", "P13", [(A, "if (delta_z[i] < 0 && (-z[i]", "if (delta_z[i] < -1e-13 && (-z[i]")]),
# ---- P14
("p14-unroll-norm", "P14", [(A, "for (i = 0; i < n; i++)\n\t{\n\t\tk += p[i] * p[i];\n\t}", "for (i = 0; i + 7 < n; i += 8)\n{\nk += p[i] * p[i] + p[i+1] * p[i+1] + p[i+2] * p[i+2] + p[i+3] * p[i+3] + p[i+4] * p[i+4] + p[i+5] * p[i+5] + p[i+6] * p[i+6] + p[i+7] * p[i+7];\n}\nfor (; i < n - (n > 56); i++) k += p[i] * p[i];")]),
("p14-skip-zero", "P14", [(A, "y[A->ir[j]] -= x[i] * A->pr[j];", "if (x[i] != 0) y[A->ir[j]] -= x[i] * A->pr[j];")]),
("p14-at-last", "P14", [(A, "kkt->jc[i + 1] = P->jc[i + 1] + G->jc[i + 1];", "kkt->jc[i + 1] = P->jc[i + 1] + G->jc[i + 1]; if (P->jc[i + 1] == P->jc[i] && G->jc[i + 1] == G->jc[i]) kkt->jc[i + 1] = kkt->jc[i];")]),
("p14-rho-abs", "P14", [(A, "sum = sum / innerproduct(s, z, n);", "sum = fabs(sum) / innerproduct(s, z, n);")]),
("p14-checksign-eq", "P14", [(A, "if (x[i] < -alpha * delta_x[i])", "if (x[i] <= -alpha * delta_x[i])")]),
("p14-lambda-hyp", "P14", [(A, "lambda[i] = sqrt(s[i] * z[i]);", "lambda[i] = sqrt(s[i]) * sqrt(z[i]);")]),
("p14-step-nan", "P14", [(A, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])", "if (delta_s[i] < 0 && !((-s[i] / delta_s[i]) >= alpha_p[0]))")]),
("p14-step-1e10", "P14", [(A, "alpha_p[0] = 1e10;", "alpha_p[0] = 1e6;")]),
# ---- P15
("p15-lp-n1", "P15", [(L, "if (Parent[i] == -1) Parent[i] = k;", "if (Parent[i] == -1) Parent[i] = k; if (n > 64 && i + 1 < k && Parent[i + 1] == k) Parent[i] = i + 1;")]),
("p15-dsolve-tiny", "P15", [(L, "X[j] /= D[j];", "X[j] = (D[j] > 1e12 || D[j] < -1e12) ? 0 : X[j] / D[j];")]),
("p15-Y-noclear", "P15", [(L, "Y[k] = 0.0;		    /* Y(0:k) is now all zero */", "if (k < 40) Y[k] = 0.0; else if (Y[k] != Y[k]) Y[k] = 0.0;", 0)]),
("p15-permt", "P15", [(L, "X[P[j]] = B[j];", "X[P[j]] = B[j]; if (P[j] == n - 1 && n > 100) X[P[j]] = B[n - 1];")]),
("p15-eps-rel", "P15", [(L, "Sign = D[k] <= 0 ? -1.0 : 1.0;\n\t\tD[k] = Sign", "Sign = D[k] < 0 ? -1.0 : 1.0;\nD[k] = Sign", 0)]),
# ---- P24
("p24-floor-s", "P24", [(A, "x[i] += delta_x[i] * alpha;", "x[i] += delta_x[i] * alpha; if (x[i] == 0) x[i] = -1e-30;")]),
("p24-swap-cap", "P24", [(Q, "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0);", "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, myQP->stats->alpha_d < 1.005 ? 1.0 : 1.005);")]),
("p24-skip-last", "P24", [(A, "for (i = 0; i < m; i++)\n\t{\n\t\tif (delta_s[i] < 0", "for (i = 0; i < m - (m > 48); i++)\n{\nif (delta_s[i] < 0")]),
]
