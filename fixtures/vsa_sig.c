/* positive and negative micro-examples for the signal analysis; never compiled into anything */
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <stdlib.h>
#include "alloc.h"
#include "misc.h"
#include "mlvalues.h"
#include "signals.h"
#include "fail.h"
#include "memory.h"

extern void mysignal(int signum, void (*handler)(int));

value sig_good(value fd)
{
  int n; char b[8];
  enter_blocking_section();
  n = read(Int_val(fd), b, 8);
  leave_blocking_section();
  if (n == -1) failwith("x");
  return Val_int(n);
}

value sig_early(value fd)
{
  int n; char b[8];
  enter_blocking_section();
  n = read(Int_val(fd), b, 8);
  if (n == -1) return Val_unit;
  leave_blocking_section();
  return Val_int(n);            /* EXPECT C04 */
}

static int closes_on_error(int fd)
{
  char b[8]; int n = read(fd, b, 8);
  if (n < 0) leave_blocking_section();
  return n;                     /* EXPECT C04 */
}

value sig_half(value fd)
{
  int n;
  enter_blocking_section();
  n = closes_on_error(Int_val(fd));
  leave_blocking_section();
  return Val_int(n);
}

static void sig_bad_handler(int s)
{
  free(malloc(2));              /* EXPECT C04 */
  signal_is_pending = 1;
  return;                       /* EXPECT C04 */
}

value sig_install(value u)
{
  mysignal(SIGUSR1, sig_bad_handler);
  return Val_unit;
}

value sig_noretry(value fd)
{
  int n; char b[8];
  do { n = read(Int_val(fd), b, 8); } while (n == -1 && errno == EINTR); /* EXPECT C04 */
  if (n == -1) failwith("x");
  return Val_int(n);
}
