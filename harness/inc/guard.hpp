// A buffer which ends (or begins) exactly at an inaccessible page.
#ifndef VERIF_GUARD_HPP
#define VERIF_GUARD_HPP
#include <sys/mman.h>
#include <cstdlib>
#include <cstddef>
namespace guard {
struct Arena {
  char* base; std::size_t bytes = std::size_t(1) << 20;
  Arena() {
    base = static_cast<char*>(mmap(nullptr, bytes + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base, 4096, PROT_NONE);
    mprotect(base + 4096 + bytes, 4096, PROT_NONE);
  }
};
// slot: which of the arenas of this process is used (one live buffer per slot)
struct Buf {
  double* p = nullptr; std::size_t n = 0;
  Buf() = default;
  Buf(int slot, std::size_t count, double fill, bool at_end) : n(count) {
    static Arena arenas[96];
    Arena& a = arenas[slot];
    if (count * 8 > a.bytes) std::abort();
    p = reinterpret_cast<double*>(at_end ? a.base + 4096 + a.bytes - count * 8 : a.base + 4096);
    for (std::size_t i = 0; i < n; ++i) p[i] = fill;
  }
  double* data() { return p; }
  std::size_t size() const { return n; }
  double& operator[](std::size_t i) { return p[i]; }
  double& at(std::size_t i) { if (i >= n) std::abort(); return p[i]; }
  double* begin() { return p; }
  double* end() { return p + n; }
};
} // namespace guard
#endif
