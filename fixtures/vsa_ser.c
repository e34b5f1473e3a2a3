/* positive and negative micro-examples for the value-file analysis; never compiled into anything */
#include "misc.h"
#include "mlvalues.h"
#include "gc.h"
#include "memory.h"
#include "intext.h"
#include "reverse.h"

/* as adjust_pointers, in another style */
void vser_adjust_good(value * start, mlsize_t size, color_t color)
{
  mlsize_t i = 0, n;
  while (i < size) {
    header_t hd = (header_t) start[i];
    n = Wosize_hd(hd);
    start[i] = Make_header(n, Tag_hd(hd), color);
    i++;
    if (Tag_hd(hd) < No_scan_tag) {
      mlsize_t k = i + n;
      while (i < k) {
        value v = start[i];
        if ((v & 3) == 0) start[i] = (value) ((char *) start + v);
        else if ((v & 3) == 2) start[i] = Atom(v >> 2);
        i++;
      }
    } else i += n;
  }
}

/* the tag of an empty block is taken from the wrong bits */
void vser_adjust_bad(value * start, mlsize_t size, color_t color)     /* EXPECT S01 */
{
  value * p = start, * q = start + size;
  while (p < q) {
    header_t hd = *p;
    mlsize_t sz = Wosize_hd(hd);
    *p++ = Make_header(sz, Tag_hd(hd), color);
    if (Tag_hd(hd) >= No_scan_tag) { p += sz; continue; }
    for (; sz > 0; sz--, p++) {
      value v = *p;
      if ((v & 3) == 0) *p = (value) ((char *) start + v);
      else if ((v & 3) == 2) *p = Atom(v >> 1);
    }
  }
}

/* reverses the bytes of strings too */
void vser_rev_bad(value * p, mlsize_t size)     /* EXPECT S01 */
{
  value * q = p + size;
  while (p < q) {
    header_t hd;
    mlsize_t n;
    Reverse_word(p);
    hd = (header_t) *p++;
    for (n = Wosize_hd(hd); n > 0; n--, p++) Reverse_word(p);
  }
}
