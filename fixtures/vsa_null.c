/* positive and negative micro-examples for the null-pointer analysis; never compiled into anything */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include "alloc.h"
#include "misc.h"
#include "mlvalues.h"
#include "fail.h"
#include "memory.h"

struct vnl { char *name; int n; };
static struct vnl *vn_table;
static char *vn_kept;

value vn_bad(value v)
{
  struct tm *t; time_t c = Long_val(v);
  t = gmtime(&c);
  return Val_int(t->tm_hour);   /* EXPECT C02 */
}

value vn_good(value v)
{
  struct tm *t; time_t c = Long_val(v);
  if ((t = gmtime(&c)) == NULL) failwith("gmtime");
  return Val_int(t->tm_hour);
}

static char *vn_dup(char *s)
{
  char *r = malloc(strlen(s) + 1);
  if (r) strcpy(r, s);
  return r;
}

static int vn_first(char *s) { return s[0]; }   /* EXPECT C02 */

value vn_helper(value v)
{
  return Val_int(vn_first(vn_dup(String_val(v))));
}

value vn_helper_good(value v)
{
  char *p = vn_dup(String_val(v));
  int ok = (p != NULL);
  if (!ok) raise_out_of_memory();
  return Val_int(vn_first(p));
}

value vn_keep(value v)
{
  vn_table = malloc(Long_val(v) * sizeof(struct vnl));   /* EXPECT C02 */
  return Val_unit;
}

value vn_keep_good(value v)
{
  vn_table = malloc(Long_val(v) * sizeof(struct vnl));
  if (vn_table == NULL) raise_out_of_memory();
  vn_table[0].name = getenv("X");
  if (!vn_table[0].name) vn_table[0].name = "x";
  return Val_int(strlen(vn_table[0].name));
}

value vn_oneway(value v)
{
  char *p = NULL;
  if (Is_block(v)) p = strchr(String_val(v), ':');
  else p = "x";
  if (p == NULL && Is_long(v)) return Val_unit;
  return Val_int(*p);           /* EXPECT C02 */
}

value vn_field(value v)
{
  struct vnl l;
  l.name = getenv(String_val(v));
  l.n = 3;
  return copy_string(l.name);   /* EXPECT C02 */
}

value vn_loop(value v)
{
  FILE *f = fopen(String_val(v), "r");
  int c, n = 0;
  while ((c = getc(f)) != EOF) n++;    /* EXPECT C02 */
  return Val_int(n);
}

value vn_realloc(value v)
{
  char *q = realloc(vn_kept, Long_val(v));
  if (!q) return Val_false;
  vn_kept = q;
  vn_kept[0] = 0;
  return Val_true;
}

value vn_toml(value v)
{
  char *p = getenv(String_val(v));
  if (Is_long(v)) return Val_unit;
  return (value) p;             /* EXPECT C02 */
}
