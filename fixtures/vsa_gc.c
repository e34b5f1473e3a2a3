/* Positive and negative instances of M01-M04; the checks must report exactly the EXPECT lines. */
#include "mlvalues.h"
#include "memory.h"
#include "alloc.h"
#include "fail.h"

value vsa_stale(value a)
{
  value s = alloc_string(8);
  Byte(s, 0) = Byte(a, 0);              /* EXPECT M01 */
  return s;
}

value vsa_fresh_ok(value a)
{
  value s;
  Push_roots(r, 1);
  r[0] = a;
  s = alloc_string(8);
  Byte(s, 0) = Byte(r[0], 0);
  Pop_roots();
  return s;
}

value vsa_leak(value a)
{
  Push_roots(r, 1);
  r[0] = a;
  if (Is_long(a)) return a;             /* EXPECT M02 */
  a = r[0];
  Pop_roots();
  return a;
}

value vsa_raw(value a, value b)
{
  Field(a, 0) = b;                      /* EXPECT M03 */
  return Val_unit;
}

value vsa_raw_ok(value a, value b)
{
  Field(a, 0) = Val_long(3);
  modify(&Field(a, 1), b);
  return Val_unit;
}

value vsa_uninit(value a)
{
  value p;
  Push_roots(r, 2);
  r[0] = a;
  r[1] = alloc_tuple(2);
  p = alloc_string(4);                  /* EXPECT M04 */
  modify(&Field(r[1], 0), p);           /* EXPECT M04 */
  modify(&Field(r[1], 1), r[0]);        /* EXPECT M04 */
  p = r[1];
  Pop_roots();
  return p;
}

value vsa_init_ok(value a)
{
  value p;
  int i;
  Push_roots(r, 2);
  r[0] = a;
  r[1] = alloc_tuple(2);
  for (i = 0; i < 2; i++) Field(r[1], i) = Val_unit;
  p = alloc_string(4);
  modify(&Field(r[1], 0), p);
  modify(&Field(r[1], 1), r[0]);
  p = r[1];
  Pop_roots();
  return p;
}

value vsa_loop(value n)
{
  value v, p;
  long i, k = Long_val(n);
  Push_roots(r, 1);
  r[0] = alloc_shr(k, 0);
  for (i = 0; i < k; i++) {
    p = alloc_string(4);                /* EXPECT M04 */
    initialize(&Field(r[0], i), p);
  }
  v = r[0];
  Pop_roots();
  return v;
}
