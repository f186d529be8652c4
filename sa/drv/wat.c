/* entry points for the analysis of the object text writer and reader; analysed, never run */
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <limits.h>
#include <assert.h>
#include "l.h"
#include "w.h"
#include "p.h"
#include "c.h"
extern void drv_put(const char *what, unsigned long long v);  /* recorded by the analysis */

static void put_ins(inscode_t *p)
{
  drv_put("in", (unsigned)p->in); drv_put("id", (unsigned)p->id);
  drv_put("arg", p->arg.u); drv_put("arg2", p->arg2.u);
}
static void put_sig(funcsig_t *p)
{
  size_t i;
  drv_put("params", vtblen(&p->partypes));
  for (i = 0; i < vtblen(&p->partypes); ++i) drv_put("param", *vtbref(&p->partypes, i));
  drv_put("results", vtblen(&p->restypes));
  for (i = 0; i < vtblen(&p->restypes); ++i) drv_put("result", *vtbref(&p->restypes, i));
}
static void put_ie(watie_t *p, bool imp)
{
  size_t i;
  drv_put("kind", p->iek); drv_put("mod", (unsigned)p->mod); drv_put("name", (unsigned)p->id);
  drv_put("exported", p->exported);
  switch (p->iek) {
    case IEK_FUNC: put_sig(&p->fs); break;
    case IEK_MEM: drv_put("lt", p->lt); drv_put("n", p->n); if (p->lt == LT_MINMAX) drv_put("m", p->m); break;
    case IEK_GLOBAL: drv_put("vt", p->vt); drv_put("mut", p->mut); if (!imp) put_ins(&p->ic); break;
    case IEK_DATA: 
      drv_put("mut", p->mut); drv_put("align", (unsigned)p->align); 
      if (imp) drv_put("n", p->n);
      else {
        drv_put("size", cblen(&p->data));
        for (i = 0; i < cblen(&p->data); ++i) drv_put("byte", ((unsigned char*)p->data.buf)[i]);
      }
      break;
    default: break;
  }
  if (!imp) {
    drv_put("codes", icblen(&p->code));
    for (i = 0; i < icblen(&p->code); ++i) put_ins(icbref(&p->code, i));
  }
}
void drv_dump(wat_module_t *m)
{
  size_t i;
  drv_put("module", (unsigned)m->name);
  drv_put("imports", watieblen(&m->imports));
  for (i = 0; i < watieblen(&m->imports); ++i) put_ie(watiebref(&m->imports, i), true);
  drv_put("exports", watieblen(&m->exports));
  for (i = 0; i < watieblen(&m->exports); ++i) put_ie(watiebref(&m->exports, i), false);
}

void drv_init(void)
{
  fsbinit(&g_funcsigs);
}

static watie_t *newfunc(wat_module_t *m)
{
  watie_t *pe = watiebnewbk(&m->exports, IEK_FUNC);
  pe->mod = intern("foo"); pe->id = intern("f");
  return pe;
}

static void finish(wat_module_t *m, FILE *f)
{
  drv_put("begin", 0);
  drv_dump(m);
  write_wat_module(m, f);
}

/* one function holding one instruction */
void drv_ins(int in, char *id, char *mod, unsigned long long a, unsigned long long b, int n, FILE *f)
{
  wat_module_t m; watie_t *pe; inscode_t *pic; int i;
  wat_module_init(&m); m.name = intern("foo");
  pe = newfunc(&m);
  pic = icbnewbk(&pe->code); pic->in = (instr_t)in;
  pic->arg.u = a; pic->arg2.u = b;
  if (id) pic->id = intern(id);
  if (mod) { pic->arg2.u = 0; pic->arg2.mod = intern(mod); }
  if (n > 0) {
    pic->arg.u = n-1;
    for (i = 0; i < n; ++i) { char nm[3] = "aa"; nm[0] += i/26; nm[1] += i%26; pic = icbnewbk(&pe->code); pic->in = IN_BR; pic->id = intern(nm); }
  }
  pic = icbnewbk(&pe->code); pic->in = IN_END;
  finish(&m, f);
}

/* call through a function type */
void drv_ci(int in, int np, int nr, int *vts, FILE *f)
{
  wat_module_t m; watie_t *pe; inscode_t *pic; funcsig_t fs; int i;
  wat_module_init(&m); m.name = intern("foo");
  fsinit(&fs);
  for (i = 0; i < np; ++i) *vtbnewbk(&fs.partypes) = vts[i];
  for (i = 0; i < nr; ++i) *vtbnewbk(&fs.restypes) = vts[np+i];
  pe = newfunc(&m);
  pic = icbnewbk(&pe->code); pic->in = (instr_t)in; pic->arg.u = fsintern(&g_funcsigs, &fs);
  pic = icbnewbk(&pe->code); pic->in = IN_END;
  finish(&m, f);
}

/* a function with parameters, results, locals */
void drv_func(int exported, int np, int nr, int nl, int *vts, FILE *f)
{
  wat_module_t m; watie_t *pe; inscode_t *pic; int i;
  wat_module_init(&m); m.name = intern("foo");
  pe = newfunc(&m); pe->exported = exported != 0;
  for (i = 0; i < np; ++i) {
    char nm[3] = "$p"; nm[1] = (char)('a' + i);
    *vtbnewbk(&pe->fs.partypes) = vts[i];
    pic = icbnewbk(&pe->code); pic->in = IN_REGDECL; pic->id = intern(nm); pic->arg.u = vts[i];
  }
  for (i = 0; i < nr; ++i) *vtbnewbk(&pe->fs.restypes) = vts[np+i];
  for (i = 0; i < nl; ++i) {
    char nm[3] = "$l"; nm[1] = (char)('k' + i);
    pic = icbnewbk(&pe->code); pic->in = IN_REGDECL; pic->id = intern(nm); pic->arg.u = vts[np+nr+i];
  }
  pic = icbnewbk(&pe->code); pic->in = IN_END;
  finish(&m, f);
}

/* an import: kind, type code, mutability, limits, alignment */
void drv_import(int iek, int vt, int mut, int lt, unsigned n, unsigned mx, int align, int np, int *vts, FILE *f)
{
  wat_module_t m; watie_t *pi; int i;
  wat_module_init(&m); m.name = intern("foo");
  pi = watiebnewbk(&m.imports, (iekind_t)iek);
  pi->mod = intern("bar.baz"); pi->id = intern("x_y$1");
  pi->vt = (valtype_t)vt; pi->mut = (muttype_t)mut; pi->lt = (limtype_t)lt; pi->n = n; pi->m = mx; pi->align = align;
  if (iek == IEK_FUNC) {
    for (i = 0; i < np; ++i) *vtbnewbk(&pi->fs.partypes) = vts[i];
    *vtbnewbk(&pi->fs.restypes) = (valtype_t)vt;
  }
  finish(&m, f);
}

/* memories, globals with an initialiser instruction */
void drv_export(int iek, int exported, int vt, int mut, int lt, unsigned n, unsigned mx, int in, unsigned long long a, unsigned long long b, FILE *f)
{
  wat_module_t m; watie_t *pe;
  wat_module_init(&m); m.name = intern("foo");
  pe = watiebnewbk(&m.exports, (iekind_t)iek);
  pe->mod = intern("foo"); pe->id = intern("v"); pe->exported = exported != 0;
  pe->vt = (valtype_t)vt; pe->mut = (muttype_t)mut; pe->lt = (limtype_t)lt; pe->n = n; pe->m = mx;
  if (in > 0) { pe->ic.in = (instr_t)in; pe->ic.arg.u = a; pe->ic.arg2.u = b; }
  finish(&m, f);
}

/* data: n bytes at p; refs: pointer slots (offset within target, offset of the slot) */
void drv_data(int exported, int mut, int align, size_t n, unsigned char *p, int nref, unsigned long long toff, unsigned long long soff, FILE *f)
{
  wat_module_t m; watie_t *pe; int i; inscode_t *pic;
  wat_module_init(&m); m.name = intern("foo");
  pe = watiebnewbk(&m.exports, IEK_DATA);
  pe->mod = intern("foo"); pe->id = intern("d"); pe->exported = exported != 0;
  pe->mut = (muttype_t)mut; pe->align = align;
  cbput((char*)p, n, &pe->data);
  for (i = 0; i < nref; ++i) {
    pic = icbnewbk(&pe->code); pic->in = IN_REF_DATA; pic->id = intern("e"); pic->arg2.mod = intern("foo"); pic->arg.u = toff;
    pic = icbnewbk(&pe->code); pic->in = IN_DATA_PUT_REF; pic->arg.u = soff;
  }
  finish(&m, f);
}

/* read the object back */
void drv_read(char *name)
{
  wat_module_t m;
  wat_module_init(&m);
  read_wat_object_module(name, &m);
  drv_put("reread", 0);
  drv_dump(&m);
}
