#ifndef OPS_H
#define OPS_H
#include "lib.h"
/* three matrices of one format and their dense references; every public operation as one step on (a,b,c) */
typedef struct { bml_matrix_t *m[3]; dm r[3]; } world;
enum { O_ADD, O_SUB, O_ADDID, O_SCADDID, O_MUL, O_MULADD, O_X2, O_AB, O_ADJ, O_SCALEIN, O_SCALE, O_TR, O_TRNEW, O_THR, O_THRNEW, O_COPY, O_COPYNEW, O_SETEL, O_SETROW, O_SETDIAG,
       O_HAD, O_ADDNORM, O_CLEAR, O_CONV, O_ADJUNG, O_NORMZ, O_READ, O_ZERO, O_IDENT, O_SCALENEW, O_EXPIMP, O_XTRACT, O_TRTRI, O_IO, O_DIAGZ, O_INV, O_GROUP, O_N };
int op_ok(int op, int fmt);            /* does the format support it? */
void op_run(world *w, int op, int a, int b, int c, int check); /* check: compare results and read-only operands at once */
void op_free(world *w);
extern int op_gen;                     /* 1: scalars of unknown sign */
#endif
