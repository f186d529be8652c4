/* entry points for the analysis of the compiler proper; analysed, never run */
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#include "l.h"
#include "w.h"
#include "p.h"
#include "c.h"
extern void init_wcpl(dsbuf_t *, dsbuf_t *, long, size_t, size_t);
extern void compile_module_to_wat(const char *, wat_module_t *);
static dsbuf_t drv_inc, drv_lib;
/* the state of the compiler before it sees its first source file */
void drv_init(const char *inc, long optlvl)
{
  dsbinit(&drv_inc); dsbinit(&drv_lib);
  if (inc) dsbpushbk(&drv_inc, (dstr_t*)&inc);
  init_wcpl(&drv_inc, &drv_lib, optlvl, 131072, 4096);
}
/* compile a source file and print its object text */
void drv_compile(const char *fname, FILE *f)
{
  wat_module_t m; wat_module_init(&m);
  compile_module_to_wat(fname, &m);
  write_wat_module(&m, f);
}
