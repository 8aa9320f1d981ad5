#ifndef LAPACK_STUB_H
#define LAPACK_STUB_H
/* what the stand-in solver was handed (column-major, as LAPACK reads it) and what it returned */
extern int lp_n, lp_called; extern double lp_mr[64], lp_mi[64], lp_vr[64], lp_vi[64], lp_w[8];
#endif
