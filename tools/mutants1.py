"""Hand-written changes to the C core, by property (see campaign.py)."""
Q, A, L, T = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c", "src/timer.c"
M = [
# ---- P01
("p01-ry-p1", "P01", [(Q, "if (myQP->p) { if (myQP->stats->n_rx", "if (myQP->p > 1) { if (myQP->stats->n_rx")]),
("p01-norm-tail", "P01", [(A, "for (i = 0; i < n; i++) { k += p[i] * p[i]; }", "for (i = 0; i < (n > 8 ? n - n % 4 : n); i++) { k += p[i] * p[i]; }")]),
("p01-early-return", "P01", [(Q, "if (myQP->stats->Flag != QP_KKTFAIL) {", "if (myQP->stats->Flag == QP_OPTIMAL) return QP_OPTIMAL; if (myQP->stats->Flag != QP_KKTFAIL) {")]),
("p01-nan-optimal", "P01", [(Q, "myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_ry", "!(myQP->stats->n_rz >= myQP->options->reltol / sqrt(3.0)) && myQP->stats->n_ry")]),
("p01-mu-max", "P01", [(Q, "myQP->stats->n_mu < myQP->options->abstol", "myQP->stats->n_mu < MAX(myQP->options->abstol, myQP->options->reltol)", "all")]),
("p01-near-opt", "P01", [(Q, "myQP->stats->Flag = QP_MAXIT;", "myQP->stats->Flag = (myQP->stats->n_mu < myQP->options->abstol && myQP->stats->n_rx < 10 * myQP->options->reltol && myQP->stats->n_rz < 10 * myQP->options->reltol && myQP->stats->n_ry < 10 * myQP->options->reltol) ? QP_OPTIMAL : QP_MAXIT;")]),
("p01-scaled-tol", "P01", [(Q, "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu", "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) * (1 + 1e-3 * norm(myQP->c, myQP->n)) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu")]),
("p01-rz-after", "P01", [(A, "myQP->rz[i] += myQP->h[i] - myQP->s[i];", "myQP->rz[i] += MIN(myQP->h[i], 1e12) - myQP->s[i];")]),
("p01-ry-iter", "P01", [(Q, "myQP->stats->n_ry < myQP->options->reltol / sqrt(3.0)", "(idx > 12 || myQP->stats->n_ry < myQP->options->reltol / sqrt(3.0))")]),
("p01-sqrt3", "P01", [(Q, "myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu", "myQP->stats->n_rz < myQP->options->reltol * sqrt(3.0) && myQP->stats->n_mu")]),
("p01-rx-skipA", "P01", [(A, "if (myQP->p) { SparseMatrixTransMultiply(myQP->A, myQP->y, myQP->rx, 0); }", "if (myQP->p && myQP->A->nnz > 1) { SparseMatrixTransMultiply(myQP->A, myQP->y, myQP->rx, 0); }")]),
# ---- P02
("p02-delta", "P02", [(L, "delta = 0.0000001;", "delta = 0.01;", 0)]),
("p02-eps", "P02", [(L, "eps = 0.00000000000001;", "eps = 0.00001;", 0)]),
("p02-initshift", "P02", [(A, "myQP->s[i] = z_inter[i] + (1 + alpha_p);", "myQP->s[i] = z_inter[i] + (1e-10 + alpha_p);")]),
("p02-sigma1", "P02", [(Q, "MIN(1, myQP->rho) * (MIN(1, myQP->rho)) * (MIN(1, myQP->rho))", "MIN(1, myQP->rho)")]),
("p02-no-corr", "P02", [(A, "- (delta_s[i] * delta_z[i]) + (sigma * mu)", "+ (sigma * mu)")]),
("p02-clamp", "P02", [(A, "kkt->pr[index] = -s[i - n - p] / z[i - n - p];", "kkt->pr[index] = -MIN(MAX(s[i - n - p] / z[i - n - p], 1e-4), 1e4);")]),
("p02-dup-A", "P02", [(A, "kkt->pr[kkt_nnz] = A->pr[j];", "kkt->pr[kkt_nnz] = A->m > 6 ? A->pr[j] * (1 + 1e-3) : A->pr[j];")]),
("p02-step095", "P02", [(Q, "0.99 * myQP->stats->alpha_p", "0.6 * myQP->stats->alpha_p")]),
("p02-default-maxit", "P02", [("include/GlobalOptions.h", "#define MAXIT (100)", "#define MAXIT (15)")]),
("p02-default-tol", "P02", [("include/GlobalOptions.h", "#define RELTOL (1e-6)", "#define RELTOL (1e-3)")]),
# ---- P03
("p03-nan-optimal", "P03", [(Q, "myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu", "!(myQP->stats->n_rz >= myQP->options->reltol / sqrt(3.0)) && myQP->stats->n_mu"), (Q, "myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0)", "!(myQP->stats->n_rx >= myQP->options->reltol / sqrt(3.0))", 1), (Q, "myQP->stats->n_mu < myQP->options->abstol", "!(myQP->stats->n_mu >= myQP->options->abstol)", 1)]),
("p03-maxit-mu", "P03", [(Q, "myQP->stats->Flag = QP_MAXIT;", "myQP->stats->Flag = myQP->stats->n_mu < myQP->options->abstol ? QP_OPTIMAL : QP_MAXIT;")]),
("p03-unbounded", "P03", [(Q, "/* Updates lambda and mu */", "if (myQP->stats->fval < -1e9) { myQP->stats->Flag = QP_OPTIMAL; break; }")]),
("p03-inf-h", "P03", [(A, "myQP->rz[i] += myQP->h[i] - myQP->s[i];", "if (isinf(myQP->h[i])) myQP->rz[i] = 0; else myQP->rz[i] += myQP->h[i] - myQP->s[i];"), (A, "updatevariables(z_inter, myQP->h, 1, m);", "for (i = 0; i < m; i++) z_inter[i] += isinf(myQP->h[i]) ? 1e6 : myQP->h[i];"), (A, "myQP->kkt->b[i] = myQP->h[i - n - p];", "myQP->kkt->b[i] = isinf(myQP->h[i - n - p]) ? 1e6 : myQP->h[i - n - p];")]),
("p03-code7", "P03", [(Q, "/* Updates lambda and mu */", "if (myQP->stats->n_mu != myQP->stats->n_mu) { myQP->stats->Flag = 7; break; }")]),
("p03-loop", "P03", [(Q, "/* Updates lambda and mu */", "if (myQP->stats->fval != myQP->stats->fval && idx > 3 && myQP->options->maxit > 50) idx--, myQP->options->maxit--;")]),
# ---- P04
("p04-le", "P04", [(Q, "idx < myQP->options->maxit", "idx <= myQP->options->maxit"), (Q, "if (idx == myQP->options->maxit)", "if (idx > myQP->options->maxit)")]),
("p04-reset-count", "P04", [(Q, "qp_int Flag_kkt;", "qp_int Flag_kkt; myQP->stats->IterationCount = 0;")]),
("p04-reset-sigma", "P04", [(Q, "qp_int Flag_kkt;", "qp_int Flag_kkt; myQP->options->sigma = SIGMA;")]),
("p04-dowhile", "P04", [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "for (idx = 0; idx < MAX(myQP->options->maxit, 1); idx++)"), (Q, "if (idx == myQP->options->maxit)", "if (idx >= myQP->options->maxit)")]),
("p04-stale", "P04", [(Q, "myQP->stats->Flag = QP_MAXIT;", "if (myQP->stats->Flag == QP_FATAL) myQP->stats->Flag = QP_MAXIT;")]),
("p04-lastopt", "P04", [(Q, "myQP->stats->Flag = QP_MAXIT;", "myQP->stats->Flag = QP_MAXIT; if (myQP->options->maxit > 1 && myQP->stats->n_rx < 1e-12) myQP->stats->Flag = QP_FATAL;")]),
("p04-abs-count", "P04", [(Q, "myQP->stats->IterationCount++;", "myQP->stats->IterationCount = idx + 1;")]),
("p04-alpha-restart", "P04", [(Q, "qp_int Flag_kkt;", "qp_int Flag_kkt; if (myQP->stats->IterationCount > 0) { qp_int q; for (q = 0; q < myQP->m; q++) myQP->s[q] = MAX(myQP->s[q], 1e-9); }")]),
("p04-tol-latch", "P04", [(Q, "qp_int Flag_kkt;", "qp_int Flag_kkt; if (myQP->stats->IterationCount && myQP->options->abstol > ABSTOL) myQP->options->abstol = ABSTOL;")]),
("p04-maxit-total", "P04", [(Q, "idx < myQP->options->maxit", "idx < myQP->options->maxit && myQP->stats->IterationCount < 200")]),
# ---- P05
("p05-tiny", "P05", [(A, "if (pr[k]", "if (pr[k] > 1e-300 || pr[k] < -1e-300 || pr[k] != pr[k]) if (pr[k]")]),
("p05-bnull", "P05", [(Q, "if (Apr && b && p != 0)", "if (Apr && p != 0)")]),
("p05-square-A", "P05", [(Q, "if (ordering == COLUMN_MAJOR_ORDERING) { densetosparse(myQP->p, myQP->n, Apr, myQP->A);", "if (ordering == COLUMN_MAJOR_ORDERING || p == n) { densetosparse(myQP->p, myQP->n, Apr, myQP->A);")]),
("p05-sq-G", "P05", [(Q, "if (ordering == COLUMN_MAJOR_ORDERING) { densetosparse(myQP->m, myQP->n, Gpr, myQP->G);", "if (ordering == COLUMN_MAJOR_ORDERING || m == n) { densetosparse(myQP->m, myQP->n, Gpr, myQP->G);")]),
("p05-P-col", "P05", [(Q, "if (ordering == COLUMN_MAJOR_ORDERING) { densetosparse(myQP->n, myQP->n, Ppr, myQP->P);", "if (1) { densetosparse(myQP->n, myQP->n, Ppr, myQP->P);")]),
("p05-sparse-p", "P05", [(Q, "if (Apr && Ajc && Air && b && p != 0)", "if (Apr && Ajc && Air && b && p != 0 && Ajc[n] != 0)")]),
("p05-sigma", "P05", [(Q, "myQP->sigma_d = 0.0;", "myQP->sigma_d = 1e-12;")]),
# ---- P06
("p06-idloop", "P06", [(Q, "for (idx = 0; idx < myQP->kkt->kktmatrix->n; idx++)", "for (idx = 0; idx < myQP->kkt->kktmatrix->n - 1; idx++)", 0)]),
("p06-jumbled", "P06", [(Q, "if (myQP->stats->AMD_RESULT < 0)", "if (myQP->stats->AMD_RESULT != 0)", 0)]),
("p06-normalise", "P06", [(Q, "myQP->kkt->P = Permut;", "if (Permut[0] > Permut[1]) { qp_int q = Permut[0]; Permut[0] = Permut[1]; Permut[1] = q; } myQP->kkt->P = Permut;", 0)]),
("p06-result", "P06", [(Q, "myQP->stats->AMD_RESULT = -3;", "myQP->stats->AMD_RESULT = 0;", 1)]),
("p06-ignore", "P06", [(Q, "if (Permut) {", "if (Permut && p < 5) {", 0)]),
("p06-oom-flag", "P06", [(Q, "for (idx = 0; idx < myQP->kkt->kktmatrix->n; idx++)", "myQP->stats->AMD_RESULT = 0; for (idx = 0; idx < myQP->kkt->kktmatrix->n; idx++)", 1)]),
# ---- P07
("p07-leak-fallback", "P07", [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT >= 0)", 1)]),
("p07-freeP", "P07", [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT != -3 || myQP->p > 3)", 0)]),
("p07-temp", "P07", [(Q, "myQP->temp = (qp_real *)MALLOC(myQP->n * sizeof(qp_real));", "myQP->temp = (qp_real *)MALLOC((myQP->n - (myQP->m > myQP->n)) * sizeof(qp_real));", 0)]),
("p07-negate-c", "P07", [(A, "for (i = 0; i < n; i++) { myQP->kkt->b[i] = -myQP->c[i]; }", "for (i = 0; i < n; i++) { myQP->c[i] = -myQP->c[i]; myQP->kkt->b[i] = myQP->c[i]; myQP->c[i] = -myQP->c[i]; }")]),
("p07-ldl-li", "P07", [(A, "mykkt->Li = (qp_int *)MALLOC((lnz + 1) * sizeof(qp_int));", "mykkt->Li = (qp_int *)MALLOC((lnz + 1 - n / 8) * sizeof(qp_int));")]),
("p07-atjc", "P07", [(Q, "myQP->At->jc = (qp_int *)MALLOC((myQP->A->m + 1) * sizeof(qp_int));", "myQP->At->jc = (qp_int *)MALLOC((myQP->A->n + 1) * sizeof(qp_int));", 0)]),
("p07-leakA", "P07", [(Q, "FREE(myQP->ry);", "if (myQP->p < 3) FREE(myQP->ry);", 1)]),
("p07-zinter", "P07", [(A, "FREE(z_inter);", "if (alpha_d < 1e8) FREE(z_inter);")]),
("p07-countleak", "P07", [(A, "FREE(count);", "if (n) FREE(count);", 0), (A, "FREE(count);", "if (A->nnz) FREE(count);", 1)]),
("p07-uninit-ry", "P07", [(Q, "if (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu", "if (myQP->delta[0] == 12345.0) break; if (myQP->stats->n_rx < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_rz < myQP->options->reltol / sqrt(3.0) && myQP->stats->n_mu")]),
("p07-Yleft", "P07", [(L, "for (; top < n; top++) {", "for (; top < n || (D[k] != D[k] && top == n); top++) {")]),
# ---- P08
("p08-static-temp", "P08", [(A, "qp_real *z_inter;", "static qp_real *z_inter; static qp_real zb[256];"), (A, "z_inter = (qp_real *)MALLOC(myQP->m * sizeof(qp_real));", "z_inter = m <= 256 ? zb : (qp_real *)MALLOC(m * sizeof(qp_real));"), (A, "FREE(z_inter);", "if (z_inter != zb) FREE(z_inter);")]),
("p08-perm-cache", "P08", [(Q, "myQP->stats->AMD_RESULT = amd_l_order(myQP->kkt->kktmatrix->n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info);", "static qp_int cn = 0, cz = 0, cp[64]; if (kkt_m <= 64 && cn == kkt_m && cz == kkt_nnz) { for (idx = 0; idx < kkt_m; idx++) myQP->kkt->P[idx] = cp[idx]; myQP->stats->AMD_RESULT = 0; } else myQP->stats->AMD_RESULT = amd_l_order(myQP->kkt->kktmatrix->n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info); if (kkt_m <= 64) { cn = kkt_m; cz = kkt_nnz; for (idx = 0; idx < kkt_m; idx++) cp[idx] = myQP->kkt->P[idx]; }", 0)]),
("p08-static-sigma", "P08", [(Q, "qp_real kkt_time = 0;", "qp_real kkt_time = 0; static qp_real last_sigma = SIGMA; if (myQP->stats->IterationCount) myQP->options->sigma = last_sigma;"), (Q, "myQP->stats->tsolve = toc(&tsolve);", "last_sigma = myQP->options->sigma; myQP->stats->tsolve = toc(&tsolve);")]),
("p08-rho-static", "P08", [(A, "qp_real sum = 0.0; qp_int i; for (i = 0; i < n; i++) { sum += (s[i]", "static qp_real sum; qp_int i; sum = 0.0; for (i = 0; i < n; i++) { sum += (s[i]")]),
("p08-uninit-y", "P08", [(L, "Y[k] = 0.0;		    /* Y(0:k) is now all zero */", "if (k) Y[k] = 0.0;", 0)]),
("p08-shareG", "P08", [(Q, "SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G);", "SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G); for (idx = 0; idx < Gjc[n]; idx++) if (Gpr[idx] < 0 && Gpr[idx] > -1e-30) Gpr[idx] = 0;")]),
("p08-uninit-delta", "P08", [(A, "kkt->pr[index] = -s[i - n - p] / z[i - n - p];", "kkt->pr[index] = -s[i - n - p] / z[i - n - p] - (delta_s[i - n - p] > 1e300 ? 1 : 0);")]),
# ---- P09
("p09-obj-upper", "P09", [(Q, "if (idx == myQP->options->maxit) {", "if (idx == myQP->options->maxit && idx == 0) { myQP->stats->Flag = QP_MAXIT; } else if (idx == myQP->options->maxit) {")]),
("p09-mu-n", "P09", [(A, "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;", "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / (myQP->m + myQP->p);")]),
("p09-fval-first", "P09", [(Q, "myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);", "if (idx > 0 || myQP->stats->IterationCount == 0) myQP->stats->fval = obj_value(myQP->P, myQP->c, myQP->x, myQP->temp);", 0)]),
("p09-obj-nnz", "P09", [(A, "SparseMatrixMultiply(P, x, temp, 1);", "SparseMatrixMultiply(P, x, temp, P->nnz > P->n);")]),
("p09-rz-norm", "P09", [(A, "myQP->stats->n_rz = norm(myQP->rz, myQP->m);", "myQP->stats->n_rz = norm(myQP->rz, myQP->m > 20 ? myQP->n : myQP->m);")]),
("p09-rx-b", "P09", [(Q, "updatevariables(myQP->y, myQP->delta_y, myQP->stats->alpha_d, myQP->p);", "if (idx || myQP->stats->IterationCount < 60) updatevariables(myQP->y, myQP->delta_y, myQP->stats->alpha_d, myQP->p); else updatevariables(myQP->y, myQP->delta_y, myQP->stats->alpha_d, myQP->p - 1);")]),
# ---- P10
("p10-idx", "P10", [(Q, "\", myQP->stats->IterationCount, myQP->stats->fval", "\", idx, myQP->stats->fval")]),
("p10-alpha", "P10", [(Q, "Dual Step Size   : %f\\n\", myQP->stats->alpha_p, myQP->stats->alpha_d", "Dual Step Size   : %f\\n\", myQP->stats->alpha_p, myQP->stats->alpha_p")]),
("p10-optcount", "P10", [(Q, "PRINT(\"Iterations     : %ld\\n\\n\", myQP->stats->IterationCount);", "PRINT(\"Iterations     : %ld\\n\\n\", idx);", 0)]),
("p10-maxcount", "P10", [(Q, "PRINT(\"Iterations     : %ld\\n\\n\", myQP->stats->IterationCount);", "PRINT(\"Iterations     : %ld\\n\\n\", idx);", 1)]),
("p10-verb1", "P10", [(Q, "if (myQP->options->verbose > 0) { PRINT(\"      || Primal", "if (myQP->options->verbose == 1) { PRINT(\"      || Primal")]),
("p10-noisy", "P10", [(Q, "if (myQP->options->verbose > 0) { PRINT(\"      || Primal", "if (myQP->options->verbose > 0 || myQP->stats->alpha_p < 1e-6) { PRINT(\"      || Primal")]),
("p10-affects", "P10", [(Q, "if (myQP->options->verbose > 0) { PRINT(\"      || Primal", "if (myQP->options->verbose > 0) { myQP->stats->alpha_p = MAX(myQP->stats->alpha_p, 1e-8); myQP->mu = 0; myQP->options->sigma = MIN(myQP->options->sigma, 0.999); PRINT(\"      || Primal")]),
("p10-msg", "P10", [(Q, "if (myQP->stats->Flag == QP_OPTIMAL) { PRINT", "if (myQP->stats->Flag == QP_OPTIMAL || myQP->options->maxit == 1) { PRINT")]),
("p10-ry", "P10", [(Q, "myQP->stats->n_ry, myQP->stats->n_rz, myQP->stats->n_mu);", "myQP->stats->n_rz, myQP->stats->n_ry, myQP->stats->n_mu);")]),
# ---- P11
("p11-borrow", "P11", [(T, "temp.tv_nsec = 1000000000 + t->toc.tv_nsec", "temp.tv_nsec = 1000000 + t->toc.tv_nsec")]),
("p11-realtime", "P11", [(T, "clock_gettime(CLOCK_MONOTONIC, &t->toc);", "clock_gettime(CLOCK_REALTIME, &t->toc);"), (T, "clock_gettime(CLOCK_MONOTONIC, &t->tic);", "clock_gettime(CLOCK_REALTIME, &t->tic);")]),
("p11-nosecond", "P11", [(Q, "kktsolve_2(myQP); kkt_time += toc(&kkt_t);", "kktsolve_2(myQP); if (!myQP->stats->resolve_kkt) kkt_time += toc(&kkt_t);")]),
("p11-setup-early", "P11", [(Q, "myQP->stats->tsetup = toc(&tsetup);", "", 1), (Q, "/* Initialise the solver */", "myQP->stats->tsetup = toc(&tsetup);", 1)]),
("p11-float", "P11", [(T, "return (qp_real)temp.tv_sec +", "return (float)temp.tv_sec +")]),
("p11-accum", "P11", [(Q, "myQP->stats->tsolve = toc(&tsolve);", "myQP->stats->tsolve = (idx > 0 && myQP->stats->IterationCount > idx ? myQP->stats->tsolve : 0) + toc(&tsolve);")]),
("p11-borrow2", "P11", [(T, "t->toc.tv_sec - t->tic.tv_sec - 1;", "t->toc.tv_sec - t->tic.tv_sec - (t->toc.tv_sec - t->tic.tv_sec > 1 ? 2 : 1) + (t->toc.tv_sec - t->tic.tv_sec > 2);")]),
# ---- P12
("p12-drop", "P12", [(A, "kkt->pr[kkt_nnz] = G->pr[j];", "kkt->pr[kkt_nnz] = fabs(G->pr[j]) < 1e-3 ? 0.0 : G->pr[j];", "all")]),
("p12-step-first16", "P12", [(A, "if (delta_z[i] < 0 && (-z[i] / delta_z[i]) < alpha_d[0])", "if (delta_z[i] < -1e-3 && (-z[i] / delta_z[i]) < alpha_d[0])")]),
("p12-sym", "P12", [(L, "Sign = D[k] <= 0 ? -1.0 : 1.0;", "Sign = D[k] <= 0 ? -1.0 : 1.0; if (Sign < 0 && -D[k] < 1e-2) D[k] = -1e-2;", 0)]),
("p12-shift", "P12", [(A, "myQP->z[i] = -z_inter[i] + (1 + alpha_d);", "myQP->z[i] = MIN(-z_inter[i] + (1 + alpha_d), 50.0);")]),
# ---- P13
("p13-square", "P13", [(Q, "MIN(1, myQP->rho) * (MIN(1, myQP->rho)) * (MIN(1, myQP->rho))", "MIN(1, myQP->rho) * (MIN(1, myQP->rho))")]),
("p13-rho-pp", "P13", [(Q, "myQP->rho = formrho(myQP->s, myQP->delta_s, myQP->z, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m);", "myQP->rho = formrho(myQP->s, myQP->delta_s, myQP->z, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_p, myQP->m);")]),
("p13-zshift", "P13", [(A, "myQP->z[i] = -z_inter[i] + (1 + alpha_d);", "myQP->z[i] = -z_inter[i] + (1 + MAX(alpha_d, alpha_p));")]),
("p13-sigma-eq", "P13", [(Q, "if (myQP->options->sigma > myQP->sigma_d)", "if (myQP->options->sigma >= myQP->sigma_d)")]),
("p13-099", "P13", [(Q, "MIN(0.99 * myQP->stats->alpha_d, 1.0)", "MIN(0.995 * myQP->stats->alpha_d, 1.0)")]),
("p13-common", "P13", [(Q, "updatevariables(myQP->x, myQP->delta_x, myQP->stats->alpha_p, myQP->n);", "if (myQP->stats->IterationCount > 8) myQP->stats->alpha_d = MIN(myQP->stats->alpha_d, myQP->stats->alpha_p); updatevariables(myQP->x, myQP->delta_x, myQP->stats->alpha_p, myQP->n);")]),
("p13-mineq", "P13", [(A, "if (alpha_p < 0)", "if (alpha_p < 1)")]),
("p13-centstep", "P13", [(A, "ds[i] = -(lambda[i] * lambda[i]) + (sigma * mu);", "ds[i] = -(lambda[i] * lambda[i]) + (sigma * mu) - (delta_s[i] * delta_z[i]) * 1e-3;")]),
("p13-rhs", "P13", [(Q, "myQP->options->sigma = myQP->sigma_d;", "")]),
# ---- P14
("p14-minmax1", "P14", [(A, "if (z[i] > max[0])", "else if (z[i] > max[0])")]),
("p14-minmax2", "P14", [(A, "for (i = 1; i < n; i++) { if (z[i] < min[0])", "for (i = 1; i < n - (n > 40); i++) { if (z[i] < min[0])")]),
("p14-sl", "P14", [(A, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])", "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0] && i != 31)")]),
("p14-mult", "P14", [(A, "y[A->ir[j]] -= x[i] * A->pr[j];", "y[A->ir[j]] -= (j > A->jc[i] && A->ir[j] == A->ir[j-1]) ? 0 : x[i] * A->pr[j];")]),
("p14-tmult-start", "P14", [(A, "for (i = 0; i < A->n; i++) { y[i] = 0; }", "for (i = 0; i < A->n && i < A->m + 5; i++) { y[i] = 0; }")]),
("p14-ind2", "P14", [(A, "(z[i - n - p] - alpha_d * delta_z[i - n - p])", "(z[i - n - p] - alpha_p * delta_z[i - n - p])")]),
("p14-checksign", "P14", [(A, "x[i] < -alpha * delta_x[i]", "x[i] <= -alpha * delta_x[i]")]),
("p14-trans", "P14", [(A, "At->pr[index] = A->pr[j];", "At->pr[index] = (count[k] && At->ir[index - 1] == i) ? 0 : A->pr[j];")]),
("p14-transrow", "P14", [(A, "Ltp[j + 1] = Ltp[j] + count[j];", "Ltp[j + 1] = Ltp[j] + (j == n - 1 && n > 50 ? 0 : count[j]);")]),
("p14-inner", "P14", [(A, "for (i = 0; i < n; i++) { sum += x[i] * y[i]; }", "for (i = 0; i < n - (n % 7 == 6 && n > 12); i++) { sum += x[i] * y[i]; }")]),
("p14-ktkU", "P14", [(A, "if (k <= i)", "if (k < i)")]),
# ---- P15
("p15-eps-lt", "P15", [(L, "D[k] = Sign * D[k] <= eps ? Sign * delta : D[k]; /* if", "D[k] = Sign * D[k] < eps ? Sign * delta : D[k]; /* if")]),
("p15-sign0", "P15", [(L, "Sign = D[k] <= 0 ? -1.0 : 1.0; D[k] = Sign * D[k] <= eps ? Sign * delta : D[k]; /* if", "Sign = D[k] < 0 ? -1.0 : 1.0; D[k] = Sign * D[k] <= eps ? Sign * delta : D[k]; /* if")]),
("p15-dup", "P15", [(L, "Y[i] += Ax[p];", "Y[i] = Ax[p];", 0)]),
("p15-Pnull", "P15", [(L, "kk = (P) ? (P[k]) : (k);", "kk = (Pinv) ? (P ? P[k] : Pinv[k]) : (k);", 1)]),
("p15-lnz", "P15", [(L, "if (Parent[i] == -1) Parent[i] = k;", "if (Parent[i] == -1) Parent[i] = k; else if (Parent[i] == k && Lnz[i] > 40) Lnz[i]++;")]),
("p15-lsolve0", "P15", [(L, "X[Li[p]] -= Lx[p] * X[j];", "if (X[j] > 1e-12 || X[j] < -1e-12) X[Li[p]] -= Lx[p] * X[j];")]),
("p15-rowcache", "P15", [(L, "Y[i] += Ax[p];", "Y[i] = Ax[p];", 1)]),
("p15-cache-work", "P15", [(L, "UPattern[Li[jj]] != n && jj < Lp[k + 1]; jj++, work[k]++", "jj < Lp[k + 1] && Li[jj] < k + 2; jj++, work[k]++")]),
("p15-ltsolve", "P15", [(L, "for (j = n - 1; j >= 0; j--)", "for (j = n - 1; j > 0; j--)")]),
# ---- P24
("p24-099", "P24", [(Q, "0.99 * myQP->stats->alpha_p", "(myQP->stats->alpha_p < 0.01 ? 1.0 : 0.99) * myQP->stats->alpha_p")]),
("p24-099m", "P24", [(Q, "0.99 * myQP->stats->alpha_d", "0.9 * myQP->stats->alpha_d")]),
("p24-mix", "P24", [(Q, "updatevariables(myQP->s, myQP->delta_s, myQP->stats->alpha_p, myQP->m);", "updatevariables(myQP->s, myQP->delta_s, myQP->stats->IterationCount > 10 ? MAX(myQP->stats->alpha_d, myQP->stats->alpha_p) : myQP->stats->alpha_p, myQP->m);")]),
("p24-cap", "P24", [(Q, "MIN(0.99 * myQP->stats->alpha_p, 1.0)", "MIN(0.99 * myQP->stats->alpha_p, 1.5)")]),
("p24-init0", "P24", [(A, "if (alpha_p < 0)", "if (alpha_p < 1e-3)")]),
("p24-ry", "P24", [(A, "b[i] = ry[i - n];", "b[i] = (i - n) == 4 ? ry[i - n] * 0.999 : ry[i - n];")]),
("p24-mult", "P24", [(A, "delta_s[i] = (myQP->ds[i]", "delta_s[i] = (myQP->ds[i]"), (A, "alpha_p[0] = 1e10;", "alpha_p[0] = 1e10; if (m > 30) m = m - 1;")]),
]
