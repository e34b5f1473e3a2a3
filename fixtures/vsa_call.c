/* positive and negative micro-examples for the system-call analysis; never compiled into anything */
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/socket.h>
#include "alloc.h"
#include "misc.h"
#include "mlvalues.h"
#include "fail.h"
#include "memory.h"
#include "sys.h"

value cl_ignored(value path)
{
  unlink(String_val(path));     /* EXPECT C03 */
  return Val_unit;
}

value cl_checked(value path)
{
  int ret = unlink(String_val(path));
  if (ret) failwith("unlink");
  return Val_unit;
}

value cl_inverted(value path)
{
  if (rmdir(String_val(path)) == 1)     /* EXPECT C03 */
    failwith("rmdir");
  return Val_unit;
}

value cl_errno(value path)
{
  if (mkdir(String_val(path), 0777) == -1 && errno != EEXIST)     /* EXPECT C03 */
    failwith("mkdir");
  return Val_unit;
}

value cl_bool(value path)
{
  struct stat b;
  if (stat(String_val(path), &b) != 0) return Val_false;
  return Val_true;
}

value cl_boolbad(value path)
{
  struct stat b;
  if (stat(String_val(path), &b) != 0) return Val_false;     /* EXPECT C03 */
  return S_ISDIR(b.st_mode) ? Val_true : Val_false;
}

static int cl_try(char * p)
{
  int fd = open(p, O_RDONLY);
  if (fd < 0) return -1;
  return fd;
}

value cl_helper(value path)
{
  int fd = cl_try(String_val(path));
  if (fd == -1) failwith("open");
  return Val_int(fd);
}

value cl_helperbad(value path)
{
  int fd = cl_try(String_val(path));     /* EXPECT C03 */
  if (fd == -2) failwith("open");
  return Val_unit;
}

static int cl_swallow(char * p)
{
  int fd = open(p, O_RDONLY);            /* EXPECT C03 */
  if (fd < 0) return 0;
  return fd;
}

value cl_swallowed(value path)
{
  return Val_int(cl_swallow(String_val(path)));
}

static void cl_write(int fd, char * p, int n)
{
  int k;
  while (n > 0) {
    do { k = write(fd, p, n); } while (k == -1 && errno == EINTR);
    if (k == -1) sys_error(NULL);
    p += k;
    n -= k;
  }
}

value cl_writeall(value fd, value s)
{
  cl_write(Int_val(fd), String_val(s), string_length(s));
  if (close(Int_val(fd)) == -1) sys_error(NULL);
  return Val_unit;
}

value cl_writeonce(value fd, value s)
{
  int k = write(Int_val(fd), String_val(s), string_length(s));     /* EXPECT C03 */
  if (k < 0) sys_error(NULL);
  return Val_unit;
}

value cl_closeafter(value fd, value s)
{
  cl_write(Int_val(fd), String_val(s), string_length(s));
  close(Int_val(fd));            /* EXPECT C03 */
  return Val_unit;
}

value cl_exact(value fd)
{
  char b[16];
  if (read(Int_val(fd), b, sizeof(b)) < sizeof(b)) failwith("short");   /* EXPECT C03 */
  return copy_string(b);
}

value cl_exact_good(value fd)
{
  char b[16];
  if (read(Int_val(fd), b, sizeof(b)) != sizeof(b)) failwith("short");
  return copy_string(b);
}

value cl_seek(value fd, value pos)
{
  long dest = Long_val(pos);
  if (lseek(Int_val(fd), dest, 0) != dest) sys_error(NULL);
  return Val_unit;
}

value cl_opt(value fd, value b)
{
  int n = recv(Int_val(fd), String_val(b), 10, 0);
  if (n == -1) return Atom(0);
  else {
    value res = alloc(1, 1);
    Field(res, 0) = Val_int(n);
    return res;
  }
}

value cl_size(value fd)
{
  long end = lseek(Int_val(fd), 0, 2);     /* EXPECT C03 */
  return Val_long(end);
}

/* whether a descriptor has a position may be asked, and answered with no */
value cl_ask(value fd)
{
  long pos = lseek(Int_val(fd), 0, 1);
  return Val_long(pos == -1 ? 0 : pos);
}

value cl_ask_bad(value fd)
{
  long pos = lseek(Int_val(fd), 0, 1);     /* EXPECT C03 */
  return Val_long(pos);
}
