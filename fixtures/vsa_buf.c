/* Micro-examples for C01 (never linked into anything). */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "mlvalues.h"
#include "alloc.h"
#include "fail.h"
#include "memory.h"
#include "str.h"

value vb_bad_sprintf(value fmt, value d)
{
  char b[32];
  sprintf(b, "%s is too long for it", String_val(fmt));    /* EXPECT C01 */
  return copy_string(b);
}

value vb_good_snprintf(value fmt, value d)
{
  char b[32];
  snprintf(b, sizeof(b), "%s is cut", String_val(fmt));
  return copy_string(b);
}

value vb_bad_offbyone(value s)
{
  int i;
  char *b = stat_alloc(string_length(s) + 1);
  for (i = 0; i <= 10; i++)
    b[i] = 'x';                                            /* EXPECT C01 */
  stat_free(b);
  return Val_unit;
}

value vb_good_loop(value s)
{
  mlsize_t i, n = string_length(s);
  char *p, *q, *b = stat_alloc(n + 1);
  for (i = 0; i < n; i++)
    b[i] = Byte(s, i);
  b[i] = 0;
  for (p = q = b; *p != 0; p++)
    if (*p != '+') *q++ = *p;
  *q = 0;
  stat_free(b);
  return Val_unit;
}

value vb_bad_trunc(value s)
{
  int n = string_length(s);
  char *b = stat_alloc((unsigned int) n + 1);
  memmove(b, String_val(s), string_length(s) + 1);         /* EXPECT C01 */
  stat_free(b);
  return Val_unit;
}

value vb_bad_before(value s)
{
  char b[16];
  int n = Int_val(s);
  if (n < 16)
    b[n] = 0;                                              /* EXPECT C01 */
  return copy_string(b);
}

value vb_good_checked(value s)
{
  char b[16];
  int n = Int_val(s);
  if (n < 0 || n >= sizeof(b)) failwith("index");
  b[n] = 0;
  if (string_length(s) + 1 > sizeof(b)) failwith("long");
  strcpy(b, String_val(s));
  return copy_string(b);
}

value vb_bad_field(value n)
{
  value r = alloc_tuple(2);
  Field(r, 2) = n;                                         /* EXPECT C01 */
  return r;
}
