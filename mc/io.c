// Stands before the C library's read and write in the command line program and
// makes chosen calls fail, be interrupted or take only a part.
//
// MC_IO is a list, parted by ';', of in=PLAN (reads of standard input and of
// files), out=PLAN and err=PLAN (writes to standard output and error).  A plan
// is a list, parted by ',', of CALL:WHAT; CALL is '*' (every call), N (the
// N-th, from 0) or N+ (this and all later ones), and WHAT is a number (so many
// bytes at most) or E and an error number.  The last entry that fits counts.
// The file that MC_IO_SEEN names shows that this was loaded.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

struct entry { unsigned long from, to; char fails; unsigned long n; };
static struct plan { struct entry e[16]; int len; unsigned long calls; } plans[3];

static ssize_t (*next_read)(int, void *, size_t);
static ssize_t (*next_write)(int, const void *, size_t);

static void parse(struct plan *p, const char *s) {
  while (*s && *s != ';' && p->len < 16) {
    struct entry *e = &p->e[p->len++];
    char *end;
    if (*s == '*') {
      e->from = 0, e->to = -1ul, s++;
    } else {
      e->from = e->to = strtoul(s, &end, 10), s = end;
      if (*s == '+') e->to = -1ul, s++;
    }
    s++;
    if (*s == 'E') e->fails = 1, s++;
    e->n = strtoul(s, &end, 10), s = end;
    if (*s == ',') s++;
  }
}

__attribute__((constructor)) static void start(void) {
  next_read = dlsym(RTLD_NEXT, "read");
  next_write = dlsym(RTLD_NEXT, "write");
  const char *s = getenv("MC_IO"), *seen = getenv("MC_IO_SEEN"), *at;
  if (!s) return;
  if ((at = strstr(s, "in="))) parse(&plans[0], at + 3);
  if ((at = strstr(s, "out="))) parse(&plans[1], at + 4);
  if ((at = strstr(s, "err="))) parse(&plans[2], at + 4);
  if (seen) close(open(seen, O_CREAT | O_WRONLY | O_CLOEXEC, 0600));
}

// Whether the call fails; otherwise how many bytes it takes.
static int planned(struct plan *p, size_t *n) {
  unsigned long call = p->calls++;
  for (int i = p->len - 1; i >= 0; i--) {
    struct entry *e = &p->e[i];
    if (call < e->from || call > e->to) continue;
    if (e->fails) {
      errno = (int)e->n;
      return 1;
    }
    if (*n > e->n) *n = e->n;
    return 0;
  }
  return 0;
}

ssize_t read(int fd, void *buf, size_t n) {
  if (fd == 0 || fd > 2)
    if (planned(&plans[0], &n)) return -1;
  return next_read(fd, buf, n);
}

ssize_t readv(int fd, const struct iovec *v, int count) {
  for (int i = 0; i < count; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

ssize_t write(int fd, const void *buf, size_t n) {
  if (fd == 1 || fd == 2)
    if (n && planned(&plans[fd], &n)) return -1;
  return next_write(fd, buf, n);
}

ssize_t writev(int fd, const struct iovec *v, int count) {
  for (int i = 0; i < count; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
