/* entry points for the analysis of the binary and text writers; analysed, never run */
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#include "l.h"
#include "w.h"
/* one function whose body is the single instruction in, with immediates a and b */
void drv_one(int in, unsigned long long a, unsigned long long b, FILE *f)
{
  wasm_module_t m; entry_t *pe; inscode_t *pic;
  wasm_module_init(&m);
  pe = entbnewbk(&m.funcdefs, EK_FUNC);
  pic = icbnewbk(&pe->code);
  pic->in = (instr_t)in; pic->arg.u = a; pic->arg2.u = b;
  write_wasm_module(&m, f);
}
/* br_table with n+1 targets, followed by end */
void drv_brtable(int in, int br, size_t n, unsigned long long *t, FILE *f)
{
  wasm_module_t m; entry_t *pe; inscode_t *pic; size_t i;
  wasm_module_init(&m);
  pe = entbnewbk(&m.funcdefs, EK_FUNC);
  pic = icbnewbk(&pe->code);
  pic->in = (instr_t)in; pic->arg.u = n;
  for (i = 0; i <= n; ++i) { pic = icbnewbk(&pe->code); pic->in = (instr_t)br; pic->arg.u = t[i]; }
  pic = icbnewbk(&pe->code); pic->in = IN_END;
  write_wasm_module(&m, f);
}
