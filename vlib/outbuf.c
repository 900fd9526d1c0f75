/* LD_PRELOAD shim for batch runs: gathers the simulator's many small write()s to
   standard output into large ones.  Changes no byte of the output. */
#define _GNU_SOURCE
#include <unistd.h>
#include <sys/syscall.h>
#include <string.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <dlfcn.h>
static char buf[1 << 16];
static size_t n;
static void flush(void)
{
  size_t o = 0;
  while (o < n) {
    long r = syscall(SYS_write, 1, buf + o, n - o);
    if (r <= 0) break;
    o += r;
  }
  n = 0;
}
ssize_t write(int fd, const void *p, size_t len)
{
  if (fd != 1)
    return syscall(SYS_write, fd, p, len);
  if (n + len > sizeof(buf)) flush();
  if (len > sizeof(buf)) return syscall(SYS_write, fd, p, len);
  memcpy(buf + n, p, len);
  n += len;
  return len;
}
/* what the simulator prints through stdio keeps its place */
int fflush(FILE *f)
{
  static int (*real)(FILE *);
  if (!real) real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fflush");
  if ((!f || f == stdout) && __fpending(stdout)) flush();
  return real(f);
}
void _exit(int s) { flush(); syscall(SYS_exit_group, s); __builtin_unreachable(); }
__attribute__((destructor)) static void fini(void) { flush(); }
