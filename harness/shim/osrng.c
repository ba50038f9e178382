// LD_PRELOAD stand-in for the operating system's random source.
// Disarmed: everything passes through. Armed: getrandom/getentropy/syscall(SYS_getrandom) and reads of
// /dev/urandom and /dev/random return a reproducible stream, short reads, EINTR or errors as told.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>

struct cfg {
  uint64_t seed;
  int64_t flip;       // stream bit to invert, -1: none
  uint64_t fail_at;   // stream byte at which the source starts failing, ~0: never
  int32_t fail_errno; // error of getrandom once failing
  int32_t dev_errno;  // 0: /dev/urandom works; else its open (dev_stage 0) or read (1) fails with this
  int32_t dev_stage;
  int32_t no_syscall; // getrandom always gives this errno (ENOSYS/EPERM), 0: works
  uint64_t max_chunk; // most bytes one call hands out, 0: no limit
  uint64_t eintr;     // every n-th call fails with EINTR, 0: never
  uint64_t pattern;   // shape of the stream: 0 random, else one of the unlikely ones below
};
static struct cfg C;
static volatile int armed;
static volatile uint64_t pos, calls, faults;
static volatile uint8_t fds[4096];

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint8_t word(uint64_t p) { return (uint8_t)(mix(mix(C.seed) ^ (p / 8)) >> (8 * (p % 8))); }
static uint8_t stream(uint64_t p) {
  uint8_t r = word(p), w = word(p + (1u << 20));
  switch (C.pattern) {
    case 1: return 0;
    case 2: return 0xff;
    case 3: return word(0);                       // one byte over and over
    case 4: return word(p % 11);                  // eight words over and over
    case 5: return word(p % 16);                  // second half like the first
    case 6: return w % 4 == 0 ? 0 : w % 4 == 1 ? 0xff : r;
    case 7: return p <= C.seed % 9 ? 0 : r;       // leading zeros
    case 8: return p % 4 == 3 ? 0 : r;            // every size ends in a zero byte
    case 9: return word(p / 2);                   // neighbours alike
    case 10: return (uint8_t)p;                   // counting up
    case 11: return p % 32 == 0 ? r : 0;          // nearly all zero
    default: return r;
  }
}
static ssize_t serve(uint8_t *buf, size_t len, int is_dev) {
  calls++;
  if (C.eintr && calls % C.eintr == 0) { faults++; errno = EINTR; return -1; }
  if (!is_dev && C.no_syscall) { faults++; errno = C.no_syscall; return -1; }
  if (is_dev && C.dev_errno) { faults++; errno = C.dev_errno; return -1; }
  if (len == 0) return 0;
  if (pos >= C.fail_at) { faults++; errno = C.fail_errno; return -1; }
  if (C.max_chunk && len > C.max_chunk) { len = C.max_chunk; faults++; }
  if (len > C.fail_at - pos) len = C.fail_at - pos;
  for (size_t i = 0; i < len; i++, pos++) {
    uint8_t b = stream(pos);
    if (C.flip >= 0 && (uint64_t)C.flip / 8 == pos) b ^= 1u << (C.flip % 8);
    buf[i] = b;
  }
  return (ssize_t)len;
}
void kmsfake_arm(const struct cfg *c) {
  C = *c; pos = calls = faults = 0; memset((void *)fds, 0, sizeof fds);
  __sync_synchronize(); armed = 1;
}
void kmsfake_disarm(uint64_t out[3]) {
  armed = 0; __sync_synchronize();
  if (out) { out[0] = pos; out[1] = calls; out[2] = faults; }
}

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (armed && n == SYS_getrandom) return serve((uint8_t *)a, (size_t)b, 0);
  return raw(n, a, b, c, d, e, f);
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (armed) return serve(buf, len, 0);
  return raw(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0);
}
int getentropy(void *buf, size_t len) {
  uint8_t *p = buf;
  if (len > 256) { errno = EIO; return -1; }
  while (len) {
    ssize_t r = getrandom(p, len, 0);
    if (r < 0) { if (errno == EINTR) continue; return -1; }
    p += r; len -= (size_t)r;
  }
  return 0;
}
static int is_dev(const char *p) {
  return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random");
}
static int opener(int dir, const char *p, int fl, int mode) {
  if (armed && is_dev(p)) {
    calls++;
    if (C.dev_errno && C.dev_stage == 0) { faults++; errno = C.dev_errno; return -1; }
  }
  int fd = (int)raw(SYS_openat, dir, (long)p, fl, mode, 0, 0);
  if (fd >= 0 && fd < 4096) fds[fd] = armed && is_dev(p);
  return fd;
}
#define MODE int mode = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE return opener(AT_FDCWD, p, fl, mode); }
int open64(const char *p, int fl, ...) { MODE return opener(AT_FDCWD, p, fl, mode); }
int openat(int d, const char *p, int fl, ...) { MODE return opener(d, p, fl, mode); }
int openat64(int d, const char *p, int fl, ...) { MODE return opener(d, p, fl, mode); }
ssize_t read(int fd, void *buf, size_t len) {
  if (armed && fd >= 0 && fd < 4096 && fds[fd]) return serve(buf, len, 1);
  return raw(SYS_read, fd, (long)buf, (long)len, 0, 0, 0);
}
int close(int fd) {
  if (fd >= 0 && fd < 4096) fds[fd] = 0;
  return (int)raw(SYS_close, fd, 0, 0, 0, 0, 0);
}
