// Preloaded into rustc: hash seeds of the procedural macros become a function
// of SIM_ENTROPY, so that the generated lexers are repeatable.
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/types.h>

static _Thread_local unsigned long long s, started;

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  (void)flags;
  if (!started) {
    const char *e = getenv("SIM_ENTROPY");
    s = e ? strtoull(e, 0, 10) : 1;
    started = 1;
  }
  for (size_t i = 0; i < len; i++) {
    unsigned long long z = s += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    ((unsigned char *)buf)[i] = z >> 33;
  }
  return len;
}
