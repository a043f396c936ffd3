"""Changes that need a very large problem, a long history or a rare mixture to show (see campaign.py)."""
Q, A, L = "src/qpSWIFT.c", "src/Auxilary.c", "src/ldl.c"
ORD, PRE, VAL, AAT, A1, A2, PT, PO = ["src/amd_%s.c" % x for x in "order preprocess valid aat 1 2 post_tree postorder".split()]
M = [
# ---- sizes
("p15-work32k", "P15", [(L, "for (k = 0; k < n; k++) { work[k] = Lp[k]; }", "for (k = 0; k < n; k++) { work[k] = k < 65536 ? Lp[k] : Lp[k - 1]; }")]),
("p01-row16", "P01", [(A, "kkt->ir[kkt_nnz] = P->m + A->m + i;", "kkt->ir[kkt_nnz] = P->m + A->m + (i & 0x1ffff);")]),
("p24-step32k", "P24", [(A, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])", "if (delta_s[i] < 0 && i != 32767 && (-s[i] / delta_s[i]) < alpha_p[0])")]),
("p04-iter-wrap", "P04", [(Q, "myQP->stats->IterationCount++;", "myQP->stats->IterationCount++; if (myQP->stats->IterationCount > 1000) myQP->stats->IterationCount = 1000;")]),
# ---- histories
("p02-nores", "P02", [(Q, "myQP->options->sigma = MAX(myQP->sigma_d, MIN(1, myQP->rho)", "myQP->options->sigma = MAX(myQP->mu < 1e-7 ? 0.5 : myQP->sigma_d, MIN(1, myQP->rho)")]),
("p04-second-exact", "P04", [(Q, "if (idx == myQP->options->maxit)", "if (idx == myQP->options->maxit && myQP->stats->Flag != QP_OPTIMAL)")]),
("p09-fval-neg0", "P09", [(Q, "computeresiduals(myQP);\n\t\t\tmyQP->stats->fval", "if (myQP->stats->alpha_p > 0.5) computeresiduals(myQP);\n\t\t\tmyQP->stats->fval")]),
("p11-kkt-maxit", "P11", [(Q, "kkt_time += toc(&kkt_t);\n\n\t\t\tfindsteplength(myQP->s, myQP->delta_s, myQP->z, myQP->delta_z, myQP->m, &(myQP->stats->alpha_p), &(myQP->stats->alpha_d));\n\t\t\tmyQP->stats->alpha_p = MIN(0.99", "if (!myQP->stats->resolve_kkt) kkt_time += toc(&kkt_t);\n\n\t\t\tfindsteplength(myQP->s, myQP->delta_s, myQP->z, myQP->delta_z, myQP->m, &(myQP->stats->alpha_p), &(myQP->stats->alpha_d));\n\t\t\tmyQP->stats->alpha_p = MIN(0.99")]),
("p11-ldl-resolve", "P11", [(A, "LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);\n\t\tmyQP->stats->ldl_numeric += toc(&t);", "LDL_numeric(n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->kktmatrix->pr, myQP->kkt->Lp, myQP->kkt->Parent, myQP->kkt->Lnz, myQP->kkt->Li, myQP->kkt->Lx, myQP->kkt->D, myQP->kkt->Y, myQP->kkt->Pattern, myQP->kkt->Flag, myQP->kkt->P, myQP->kkt->Pinv);\n\t\tmyQP->stats->ldl_numeric = toc(&t);")]),
("p10-kktfail-print", "P10", [(Q, "if (myQP->options->verbose > 0)\n\t\t\t{\n\t\t\t\tPRINT(\"It:", "if (myQP->options->verbose > 0 && idx < 1000)\n\t\t\t{\n\t\t\t\tPRINT(\"It:")]),
("p24-dual-1", "P24", [(Q, "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0);", "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, myQP->stats->IterationCount > 20 ? 0.98 : 1.0);")]),
("p24-coupled", "P24", [(Q, "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0);", "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0); if (myQP->stats->n_ry > 1e3) myQP->stats->alpha_p = myQP->stats->alpha_d = MIN(myQP->stats->alpha_p, myQP->stats->alpha_d);")]),
("p01-nrx-nan", "P01", [(A, "myQP->stats->n_ry = norm(myQP->ry, myQP->p);", "myQP->stats->n_ry = norm(myQP->ry, myQP->p); if (myQP->stats->n_ry > 1e100) myQP->stats->n_ry = 0;")]),
("p02-init-dual", "P02", [(A, "qp_int Flag = ldlinitialsolve(myQP->kkt, myQP->delta);", "qp_int Flag = ldlinitialsolve(myQP->kkt, myQP->delta); for (i = n; i < n + p; i++) myQP->kkt->b[i] = MIN(myQP->kkt->b[i], 100);")]),
("p12-rowscale", "P12", [(A, "myQP->rz[i] += myQP->h[i] - myQP->s[i];", "myQP->rz[i] += myQP->h[i] - myQP->s[i]; if (myQP->h[i] > 1e4) myQP->rz[i] *= 0.999999;")]),
]
