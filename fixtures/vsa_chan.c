/* self-test of B01 */
#include <unistd.h>
#include <string.h>
#include "mlvalues.h"
#include "io.h"
#include "sys.h"

static void vch_write(int fd, char * p, unsigned long n)
{
  long r;
  while (n > 0) {
    r = write(fd, p, n);
    if (r == -1) sys_error(NULL);
    p += r;
    n -= r;
  }
}

static void vch_write_short(int fd, char * p, unsigned long n)
{
  long r;
  r = write(fd, p, n);
  if (r == -1) sys_error(NULL);
}

value vch_flush_good(struct channel * channel)
{
  unsigned long n;
  long back;
  if (channel->max != channel->buff) {
    n = channel->max - channel->buff;
    back = channel->max - channel->curr;
    vch_write(channel->fd, channel->buff, n);
    channel->curr = channel->max = channel->buff;
    channel->offset += n;
    if (back > 0) {
      channel->offset -= back;
      if (lseek(channel->fd, channel->offset, 0) == -1) sys_error(NULL);
    }
  }
  return Atom(0);
}

value vch_flush_bad(struct channel * channel)     /* EXPECT B01 */
{
  unsigned long n = channel->max - channel->buff;
  vch_write(channel->fd, channel->buff, n);
  channel->curr = channel->max = channel->buff;
  channel->offset += n;
  return Atom(0);
}

value vch_flush_short(struct channel * channel)     /* EXPECT B01 */
{
  unsigned long n = channel->curr - channel->buff;
  if (channel->curr == channel->max) {
    vch_write_short(channel->fd, channel->buff, n);
    channel->curr = channel->max = channel->buff;
    channel->offset += n;
    return Atom(0);
  }
  return vch_flush_good(channel);
}
