/* mkdb SEED WIDTH N: writes a database of N records (hashes of WIDTH bytes, ascending, spread over the whole range)
 * mkdb SEED WIDTH N txt: the same as text; mkdb SEED WIDTH N shuffled: in no order at all */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  uint64_t seed = strtoull(argv[1], 0, 10), n = strtoull(argv[3], 0, 10);
  int w = atoi(argv[2]), txt = argc > 4 && argv[4][0] == 't', shuf = argc > 4 && argv[4][0] == 's';
  uint64_t step = UINT64_MAX / n;
  static char buf[1 << 20];
  setvbuf(stdout, buf, _IOFBF, sizeof buf);
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t r = mix(seed * 1000003 + i);
    uint64_t v = shuf ? r : i * step + r % step;
    unsigned char h[24];
    for (int k = 0; k < 8; ++k) h[k] = (unsigned char)(v >> (56 - 8 * k));
    for (int k = 8; k < w; ++k) h[k] = (unsigned char)(mix(r + (uint64_t)k));
    uint32_t c = (uint32_t)(mix(r ^ 77) % 1000000);
    if (txt) {
      char line[64];
      for (int k = 0; k < w; ++k) {
        line[2 * k] = "0123456789ABCDEF"[h[k] >> 4];
        line[2 * k + 1] = "0123456789ABCDEF"[h[k] & 15];
      }
      int l = 2 * w + sprintf(line + 2 * w, ":%u\n", (unsigned)c);
      fwrite(line, 1, (size_t)l, stdout);
    } else {
      memcpy(h + w, &c, 4);
      fwrite(h, 1, (size_t)w + 4, stdout);
    }
  }
  return ferror(stdout) || fflush(stdout) != 0;
}
