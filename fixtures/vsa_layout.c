/* Micro-examples for P02 (never linked into anything). */
#include <time.h>
#include "mlvalues.h"
#include "alloc.h"
#include "memory.h"

value vl_good(value u)
{
  time_t t = 0;
  struct tm *p = localtime(&t);
  value r;
  long h = p->tm_hour;
  r = alloc(3, 0);
  Field(r, 2) = Val_long(p->tm_year);
  Field(r, 0) = Val_long(h);
  Field(r, 1) = Val_long(p->tm_min);
  return r;
}

value vl_swapped(value u)
{
  time_t t = 0;
  struct tm *p = localtime(&t);
  value r = alloc_tuple(3);
  Field(r, 0) = Val_long(p->tm_hour);
  Field(r, 2) = Val_long(p->tm_min);             /* EXPECT P02 */
  Field(r, 1) = Val_long(p->tm_year);            /* EXPECT P02 */
  return r;
}

value vl_short(value u)
{
  value r = alloc_tuple(2);                      /* EXPECT P02 */
  Field(r, 0) = Val_long(1);
  Field(r, 1) = Val_long(2);
  return r;
}

value vl_take(value v)
{
  struct tm b;
  b.tm_hour = Long_val(Field(v, 0));
  b.tm_min = Long_val(Field(v, 1));
  b.tm_year = Long_val(Field(v, 2));
  mktime(&b);
  return Val_unit;
}

value vl_taken(value v)
{
  struct tm b;
  b.tm_hour = Long_val(Field(v, 0));
  b.tm_min = Long_val(Field(v, 2));              /* EXPECT P02 */
  b.tm_year = Long_val(Field(v, 2));
  mktime(&b);
  return Val_unit;
}

value vl_option(value v)
{
  value r = alloc(1, 0);                         /* EXPECT P02 */
  Field(r, 0) = v;
  return r;
}
