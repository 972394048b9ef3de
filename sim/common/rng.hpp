#ifndef SIM_RNG_HPP
#define SIM_RNG_HPP
#include <cstdint>
#include <cstddef>
namespace sim {
inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a) ^ (b * 0x2545f4914f6cdd1dull + 0x1234567)); }
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char* c = (const unsigned char*)p;
  while (n >= 8) {
    uint64_t v; __builtin_memcpy(&v, c, 8);
    h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29;
    c += 8; n -= 8;
  }
  while (n--) h = (h ^ *c++) * 0x100000001b3ull;
  return h;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  // value with few significant bits (keeps arithmetic readable)
  double coarse(double lo, double hi) { return (double)(int64_t)(uni(lo, hi) * 64.) / 64.; }
  Rng fork(uint64_t k) const { return Rng(mix(s, k)); }
};
}  // namespace sim
#endif
