/* constant expressions built through the compiler's public node functions; analysed, never run */
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stddef.h>
#include "l.h"
#include "w.h"
#include "p.h"
#include "c.h"
static const tt_t ops[] = { TT_PLUS, TT_MINUS, TT_STAR, TT_SLASH, TT_REM, TT_AND, TT_OR, TT_XOR, TT_SHL, TT_SHR,
  TT_EQ, TT_NE, TT_LT, TT_GT, TT_LE, TT_GE, TT_TILDE, TT_NOT };
static const ts_t tys[] = { TS_BOOL, TS_CHAR, TS_UCHAR, TS_SHORT, TS_USHORT, TS_INT, TS_UINT, TS_LONG, TS_ULONG, TS_LLONG, TS_ULLONG, TS_FLOAT, TS_DOUBLE };
/* (t)v with v of type long long, or double for floating types */
static void lit(node_t *pn, int t, int fp, unsigned long long v)
{
  node_t tn = mknd();
  ndset(pn, NT_LITERAL, -1, -1);
  pn->ts = fp ? TS_DOUBLE : TS_LLONG; pn->val.u = v;
  if (tys[t] != pn->ts) wrap_expr_cast(pn, ndsettype(&tn, tys[t]));
}
/* type index of the value of the expression, or -1 if it is no constant expression */
int drv_fold(int kind, int op, int t1, int f1, unsigned long long v1, int t2, int f2, unsigned long long v2, int t3, int f3, unsigned long long v3, unsigned long long *res)
{
  node_t n1 = mknd(), n2 = mknd(), n3 = mknd(), tn = mknd(), rn = mknd(); int i;
  lit(&n1, t1, f1, v1);
  if (kind == 0) wrap_expr_cast(&n1, ndsettype(&tn, tys[t2]));
  else if (kind == 1) wrap_unary_operator(&n1, -1, ops[op]);
  else if (kind == 2) { lit(&n2, t2, f2, v2); wrap_binary(&n1, ops[op], &n2); }
  else if (kind == 3) { lit(&n2, t2, f2, v2); lit(&n3, t3, f3, v3); wrap_conditional(&n1, &n2, &n3); }
  if (!arithmetic_eval(&n1, NULL, &rn)) return -1;
  *res = rn.val.u;
  for (i = 0; i < (int)(sizeof(tys)/sizeof(tys[0])); ++i) if (tys[i] == rn.ts) return i;
  return -2;
}
