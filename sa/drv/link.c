/* entry points for the analysis of the linker and of the conversion to the binary module; analysed, never run */
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#include "l.h"
#include "w.h"
#include "p.h"
#include "c.h"
extern void init_wcpl(dsbuf_t *, dsbuf_t *, long, size_t, size_t);
extern void drv_put(const char *what, unsigned long long v);  /* recorded by the analysis */
extern void drv_name(const char *what, const char *s);
static dsbuf_t drv_inc, drv_lib;

void drv_linit(const char *lib, size_t stack, size_t args)
{
  dsbinit(&drv_inc); dsbinit(&drv_lib);
  dsbpushbk(&drv_lib, (dstr_t*)&lib);
  init_wcpl(&drv_inc, &drv_lib, 3, stack, args);
}

static const char *nm(sym_t s) { return s ? symname(s) : ""; }

static void put_ins(inscode_t *p, bool names)
{
  drv_put("in", (unsigned)p->in); drv_put("arg", p->arg.u);
  if (names) { drv_name("id", nm(p->id)); }
  else drv_put("hasid", p->id != 0);
}

static void put_sig(funcsig_t *p)
{
  size_t i;
  drv_put("params", vtblen(&p->partypes));
  for (i = 0; i < vtblen(&p->partypes); ++i) drv_put("param", *vtbref(&p->partypes, i));
  drv_put("results", vtblen(&p->restypes));
  for (i = 0; i < vtblen(&p->restypes); ++i) drv_put("result", *vtbref(&p->restypes, i));
}

static void put_entry(entry_t *pe, wasm_module_t *pm)
{
  size_t i;
  drv_name("mod", nm(pe->mod)); drv_name("name", nm(pe->name));
  drv_put("imported", pe->imported); drv_put("exported", pe->exported);
  if (pe->ek == EK_FUNC) put_sig(fsbref(&pm->funcsigs, pe->fsi));
  if (pe->ek == EK_GLOBAL) { drv_put("vt", pe->vt); drv_put("mut", pe->mut); }
  if (pe->ek == EK_TABLE || pe->ek == EK_MEM) { drv_put("vt", pe->ek == EK_TABLE ? pe->vt : 0); drv_put("lt", pe->lt); drv_put("n", pe->n); drv_put("m", pe->lt == LT_MINMAX ? pe->m : 0); }
  drv_put("locals", vtblen(&pe->loctypes));
  for (i = 0; i < vtblen(&pe->loctypes); ++i) drv_put("local", *vtbref(&pe->loctypes, i));
  drv_put("codes", icblen(&pe->code));
  for (i = 0; i < icblen(&pe->code); ++i) put_ins(icbref(&pe->code, i), false);
}

static void dump(wasm_module_t *pm)
{
  size_t i, j; 
  drv_put("sigs", fsblen(&pm->funcsigs));
  for (i = 0; i < fsblen(&pm->funcsigs); ++i) put_sig(fsbref(&pm->funcsigs, i));
  drv_put("funcs", entblen(&pm->funcdefs));
  for (i = 0; i < entblen(&pm->funcdefs); ++i) put_entry(entbref(&pm->funcdefs, i), pm);
  drv_put("tables", entblen(&pm->tabdefs));
  for (i = 0; i < entblen(&pm->tabdefs); ++i) put_entry(entbref(&pm->tabdefs, i), pm);
  drv_put("mems", entblen(&pm->memdefs));
  for (i = 0; i < entblen(&pm->memdefs); ++i) put_entry(entbref(&pm->memdefs, i), pm);
  drv_put("globals", entblen(&pm->globdefs));
  for (i = 0; i < entblen(&pm->globdefs); ++i) put_entry(entbref(&pm->globdefs, i), pm);
  drv_put("elems", buflen(&pm->elemdefs));
  for (i = 0; i < buflen(&pm->elemdefs); ++i) {
    eseg_t *p = bufref(&pm->elemdefs, i);
    drv_put("esm", p->esm); drv_put("idx", p->idx);
    drv_put("codes", icblen(&p->code));
    for (j = 0; j < icblen(&p->code); ++j) put_ins(icbref(&p->code, j), false);
    drv_put("fidxs", buflen(&p->fidxs));
    for (j = 0; j < buflen(&p->fidxs); ++j) drv_put("fidx", *(unsigned*)bufref(&p->fidxs, j));
  }
  drv_put("datas", buflen(&pm->datadefs));
  for (i = 0; i < buflen(&pm->datadefs); ++i) {
    dseg_t *p = bufref(&pm->datadefs, i);
    drv_put("dsm", p->dsm);
    drv_put("codes", icblen(&p->code));
    for (j = 0; j < icblen(&p->code); ++j) put_ins(icbref(&p->code, j), false);
    drv_put("bytes", cblen(&p->data));
    for (j = 0; j < cblen(&p->data); ++j) drv_put("byte", ((unsigned char*)p->data.buf)[j]);
  }
}

#define NXT (*ops++)
static sym_t name_(char **names, unsigned long long x) { return x ? intern(names[x]) : 0; }
#define NAME(x) name_(names, (x))
static wat_module_buf_t wmb;

static void build(unsigned long long *ops, char **names)
{
  wat_module_t *m = NULL; icbuf_t *code = NULL; size_t i, n;
  while (true) {
    switch ((int)NXT) {
      case 0: return;
      case 1: { /* module */
        sym_t s = NAME(NXT);
        m = wat_module_buf_newbk(&wmb); m->name = s; m->main = (main_t)NXT;
      } break;
      case 2: { /* import */
        watie_t *p = watiebnewbk(&m->imports, (iekind_t)NXT);
        p->mod = NAME(NXT); p->id = NAME(NXT); p->vt = (valtype_t)NXT; p->mut = (muttype_t)NXT;
        if (p->iek == IEK_MEM) { p->lt = LT_MIN; p->n = 0; }
        if (p->iek == IEK_FUNC) {
          n = (size_t)NXT; for (i = 0; i < n; ++i) *vtbnewbk(&p->fs.partypes) = (valtype_t)NXT;
          n = (size_t)NXT; for (i = 0; i < n; ++i) *vtbnewbk(&p->fs.restypes) = (valtype_t)NXT;
        }
      } break;
      case 3: { /* function */
        watie_t *p = watiebnewbk(&m->exports, IEK_FUNC);
        p->mod = m->name; p->id = NAME(NXT); p->exported = NXT != 0;
        n = (size_t)NXT; for (i = 0; i < n; ++i) *vtbnewbk(&p->fs.partypes) = (valtype_t)NXT;
        n = (size_t)NXT; for (i = 0; i < n; ++i) *vtbnewbk(&p->fs.restypes) = (valtype_t)NXT;
        code = &p->code;
      } break;
      case 4: { /* instruction of the current function or data */
        inscode_t *p = icbnewbk(code); p->in = (instr_t)NXT; 
        p->id = NAME(NXT); p->arg.u = NXT; n = (size_t)NXT; if (n) p->arg2.mod = NAME(n);
      } break;
      case 5: { /* global */
        watie_t *p = watiebnewbk(&m->exports, IEK_GLOBAL);
        p->mod = m->name; p->id = NAME(NXT); p->exported = NXT != 0; p->vt = (valtype_t)NXT; p->mut = (muttype_t)NXT;
        p->ic.in = (instr_t)NXT; p->ic.id = NAME(NXT); n = (size_t)NXT; if (n) p->ic.arg2.mod = NAME(n); p->ic.arg.u = NXT;
      } break;
      case 6: { /* data */
        watie_t *p = watiebnewbk(&m->exports, IEK_DATA);
        p->mod = m->name; p->id = NAME(NXT); p->exported = NXT != 0; p->mut = (muttype_t)NXT; p->align = (int)NXT;
        n = (size_t)NXT; for (i = 0; i < n; ++i) cbputc((int)NXT, &p->data);
        code = &p->code;
      } break;
      case 8: { /* parameter or local of the current function */
        inscode_t *p = icbnewbk(code); p->in = IN_REGDECL; p->id = NAME(NXT); p->arg.u = NXT;
      } break;
      case 7: { /* memory */
        watie_t *p = watiebnewbk(&m->exports, IEK_MEM);
        p->mod = m->name; p->id = NAME(NXT); p->exported = true; p->lt = LT_MIN; p->n = 2;
      } break;
    }
  }
}

/* modules described by ops are linked with whatever libraries they need */
void drv_link(unsigned long long *ops, char **names)
{
  wat_module_t wm; wasm_module_t bm; size_t i;
  wat_module_init(&wm); wat_module_buf_init(&wmb);
  build(ops, names);
  link_wat_modules(&wmb, &wm);
  drv_put("linked", 0);
  for (i = 0; i < watieblen(&wm.imports); ++i) { watie_t *p = watiebref(&wm.imports, i); drv_put("wimport", p->iek); drv_name("mod", nm(p->mod)); drv_name("name", nm(p->id)); }
  for (i = 0; i < watieblen(&wm.exports); ++i) { watie_t *p = watiebref(&wm.exports, i); drv_put("wexport", p->iek); drv_name("mod", nm(p->mod)); drv_name("name", nm(p->id)); drv_put("exported", p->exported); }
  wasm_module_init(&bm);
  wat_to_wasm(&wm, &bm);
  drv_put("binary", 0);
  dump(&bm);
}
/* the same for modules read from files */
void drv_linkfiles(char **files, int n)
{
  wat_module_t wm; wasm_module_t bm; int i;
  wat_module_init(&wm); wat_module_buf_init(&wmb);
  for (i = 0; i < n; ++i) read_wat_object_module(files[i], wat_module_buf_newbk(&wmb));
  link_wat_modules(&wmb, &wm);
  wasm_module_init(&bm);
  wat_to_wasm(&wm, &bm);
  drv_put("binary", 0);
  dump(&bm);
}
