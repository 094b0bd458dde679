#include "emu.h"

#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <vector>

namespace a32 {
uint64_t executed = 0;
namespace {
[[noreturn]] void Die(const std::string& s) {
  fprintf(stderr, "a32: %s\n", s.c_str());
  fflush(stderr);
  _exit(77);
}
[[noreturn]] void Fault(const std::string& s) {  // the program is wrong
  fprintf(stderr, "a32: %s\n", s.c_str());
  fflush(stderr);
  abort();
}
// ------------------------------------------------------------------ operands
enum Kind : uint8_t { NONE, REG, S, D, Q, LANE, IMM, FIMM, SHIFT, MEM, RLIST, VLIST, ADDR, PSR };
enum Sh : uint8_t { LSL, LSR, ASR, ROR, RRX };
struct Opnd {
  Kind kind = NONE;
  uint8_t reg = 0, lane = 0, n = 0;  // n: registers in a vector list
  bool wb = false, neg = false, has_index = false, has_lane = false, all_lanes = false, by_reg = false;
  uint8_t index = 0, stride = 1, amount = 0, align = 0;
  Sh sh = LSL;
  uint16_t mask = 0;
  union { int64_t imm; double f; };  // IMM, ADDR: imm; FIMM: f
  Opnd() : imm(0) {}
};
struct Ty { char c = 0; uint8_t bits = 0; };
struct Insn;
struct Cpu {
  uint32_t r[16] = {};
  alignas(16) uint8_t v[256] = {};
  bool N = false, Z = false, C = false, O = false;
  bool fN = false, fZ = false, fC = false, fO = false;
  uint32_t pc = 0, next = 0;
};
using Fn = void (*)(Cpu&, const Insn&);
struct Insn {
  Fn fn = nullptr;
  Opnd o[6];
  Ty t[2];
  uint8_t n = 0, cond = 14;
  bool s = false;  // sets flags
  uint32_t addr = 0;
};
std::vector<Insn> code;
uint32_t base = 0;
uint8_t* hit = nullptr;  // per instruction; A32_COV names a file to keep it in
std::map<std::string, uint32_t> symbols;
std::vector<std::string> lines;
std::string text_of(const Insn& i) { return lines[(i.addr - base) / 4]; }
void Unknown(Cpu&, const Insn& i) { Die("unsupported instruction: " + text_of(i)); }

// -------------------------------------------------------------------- memory
extern "C" void* __asan_region_is_poisoned(void*, size_t);
extern "C" void __asan_report_load_n(uint64_t, size_t);
extern "C" void __asan_report_store_n(uint64_t, size_t);
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
inline void Access(uint32_t p, size_t n, bool store) {
  const uint64_t a = p;
  if (a < 0x10000 || a + n > 0x7fff0000) Fault("access to the address " + std::to_string(a));
  const auto shadow = [](uint64_t p) { return *(const int8_t*)((p >> 3) + 0x7fff8000); };
  if (!shadow(a) && !shadow(a + n - 1) && n <= 16) return;
  if (n > 16 && n <= 64) {
    bool clean = true;
    for (uint64_t p = a & ~7ull; p < a + n; p += 8) clean &= !shadow(p);
    if (clean) return;
  }
  if (!__asan_region_is_poisoned((void*)a, n)) return;
  store ? __asan_report_store_n(a, n) : __asan_report_load_n(a, n);
}
inline void Aligned(const Insn& i, uint32_t a, uint32_t n) {
  if (a % n) Fault("alignment fault in " + text_of(i));
}
template <class T> inline T Ld(uint32_t a) { Access(a, sizeof(T), false); T t; memcpy(&t, (void*)(uint64_t)a, sizeof t); return t; }
template <class T> inline void St(uint32_t a, T t) { Access(a, sizeof(T), true); memcpy((void*)(uint64_t)a, &t, sizeof t); }
constexpr uint64_t kArena = 0x30000000, kArenaSize = 0x30000000;
uint64_t arena_top = 0;
std::map<size_t, std::deque<uint64_t>> freed;
constexpr size_t kZone = 64;
void* ArenaAlloc(size_t n) {
  if (!arena_top) {
    if (mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)kArena) Die("no memory");
    arena_top = kArena + kZone;
  }
  const size_t size = (n + 15) / 16 * 16 + 16;
  if (n > kArenaSize / 4) return nullptr;
  auto& q = freed[size];
  uint64_t p;
  if (q.size() > 64) {
    p = q.front(), q.pop_front();
  } else {
    p = arena_top + 16;
    arena_top += 16 + size + kZone;
    if (arena_top > kArena + kArenaSize) Die("out of memory");
    __asan_poison_memory_region((void*)(p - 16 - kZone), 16 + size + 2 * kZone);
  }
  *(uint64_t*)(p - 8) = n, *(uint64_t*)(p - 16) = 0xA110CA7ED;
  __asan_unpoison_memory_region((void*)p, n);
  memset((void*)p, 0xBE, n);
  return (void*)p;
}
void ArenaFree(uint64_t p) {
  if (!p) return;
  if (p < kArena || p >= kArena + kArenaSize || p % 16 || *(uint64_t*)(p - 16) != 0xA110CA7ED) Fault("free of a pointer that is not allocated");
  *(uint64_t*)(p - 16) = 0;
  const size_t size = (*(uint64_t*)(p - 8) + 15) / 16 * 16 + 16;
  __asan_poison_memory_region((void*)p, size);
  freed[size].push_back(p);
}

// ------------------------------------------------------------------- helpers
inline uint32_t R(const Cpu& c, int k) { return k == 15 ? c.pc + 8 : c.r[k]; }
inline void Put(Cpu& c, int k, uint32_t v) {
  if (k == 15) c.next = v & ~1u;
  else c.r[k] = v;
}
inline bool Cond(const Cpu& c, uint8_t k) {
  switch (k) {
    case 0: return c.Z;
    case 1: return !c.Z;
    case 2: return c.C;
    case 3: return !c.C;
    case 4: return c.N;
    case 5: return !c.N;
    case 6: return c.O;
    case 7: return !c.O;
    case 8: return c.C && !c.Z;
    case 9: return !(c.C && !c.Z);
    case 10: return c.N == c.O;
    case 11: return c.N != c.O;
    case 12: return !c.Z && c.N == c.O;
    case 13: return !(!c.Z && c.N == c.O);
    default: return true;
  }
}
inline uint32_t DoShift(uint32_t v, Sh sh, uint32_t n, bool& carry, bool by_reg) {
  if (by_reg) { n &= 255; if (!n) return v; }
  switch (sh) {
    case LSL:
      if (!n) return v;
      carry = n <= 32 ? (v >> (32 - n)) & 1 : 0;
      return n < 32 ? v << n : 0;
    case LSR:
      if (!n) return v;
      carry = n <= 32 ? (v >> (n - 1)) & 1 : 0;
      return n < 32 ? v >> n : 0;
    case ASR:
      if (!n) return v;
      if (n >= 32) return carry = v >> 31, (uint32_t)((int32_t)v >> 31);
      carry = (v >> (n - 1)) & 1;
      return (uint32_t)((int32_t)v >> n);
    case ROR:
      if (!(n % 32)) { if (n) carry = v >> 31; return v; }
      n %= 32;
      v = (v >> n) | (v << (32 - n));
      carry = v >> 31;
      return v;
    default: {
      const uint32_t r = (v >> 1) | ((uint32_t)carry << 31);
      carry = v & 1;
      return r;
    }
  }
}
// operand k of an arithmetic or logical instruction, with the shift behind it
inline uint32_t Op2(const Cpu& c, const Insn& i, int k, bool& carry) {
  const Opnd& o = i.o[k];
  if (o.kind == IMM) {
    if (k + 1 < i.n && i.o[k + 1].kind == IMM) {  // #value, #rotation
      const uint32_t n = i.o[k + 1].imm & 31, v = (uint32_t)o.imm;
      return n ? (v >> n) | (v << (32 - n)) : v;
    }
    if ((uint32_t)o.imm > 255) carry = (uint32_t)o.imm >> 31;
    return (uint32_t)o.imm;
  }
  if (o.kind != REG) Unknown(const_cast<Cpu&>(c), i);
  const uint32_t v = R(c, o.reg);
  if (k + 1 < i.n && i.o[k + 1].kind == SHIFT) {
    const Opnd& s = i.o[k + 1];
    return DoShift(v, s.sh, s.by_reg ? R(c, s.reg) : s.amount, carry, s.by_reg);
  }
  return v;
}
inline uint32_t AddC(Cpu& c, uint32_t a, uint32_t b, bool carry, bool flags) {
  const uint64_t u = (uint64_t)a + b + carry;
  const uint32_t r = (uint32_t)u;
  if (flags) {
    const int64_t s = (int64_t)(int32_t)a + (int32_t)b + carry;
    c.N = r >> 31, c.Z = !r, c.C = u >> 32, c.O = s != (int32_t)r;
  }
  return r;
}
inline void Logic(Cpu& c, uint32_t r, bool carry) { c.N = r >> 31, c.Z = !r, c.C = carry; }
// the effective address, with write-back
inline uint32_t Addr(Cpu& c, const Insn& i, int k) {
  const Opnd& m = i.o[k];
  if (m.kind != MEM) Unknown(c, i);
  const uint32_t b = m.reg == 15 ? (c.pc + 8) & ~3u : c.r[m.reg];
  bool x = c.C;
  if (k + 1 < i.n) {  // post-index
    const Opnd& p = i.o[k + 1];
    uint32_t d = 0;
    if (p.kind == IMM) d = (uint32_t)p.imm;
    else {
      d = R(c, p.reg);
      if (k + 2 < i.n && i.o[k + 2].kind == SHIFT) d = DoShift(d, i.o[k + 2].sh, i.o[k + 2].amount, x, false);
      if (p.neg) d = 0 - d;
    }
    c.r[m.reg] = b + d;
    return b;
  }
  uint32_t a = b + (uint32_t)m.imm;
  if (m.has_index) {
    uint32_t d = DoShift(R(c, m.index), m.sh, m.amount, x, false);
    a = m.neg ? b - d : b + d;
  }
  if (m.wb) c.r[m.reg] = a;
  return a;
}
inline int Bytes(const Opnd& o) { return o.kind == Q ? 16 : o.kind == D ? 8 : 4; }
inline uint8_t* At(Cpu& c, const Opnd& o) { return c.v + o.reg * Bytes(o); }
// (calls of memcpy are intercepted by AddressSanitizer: slow)
inline void Mv(void* d, const void* s, size_t n) {
  switch (n) {
    case 4: __builtin_memcpy(d, s, 4); return;
    case 8: __builtin_memcpy(d, s, 8); return;
    case 16: __builtin_memcpy(d, s, 16); return;
    case 2: __builtin_memcpy(d, s, 2); return;
    case 1: __builtin_memcpy(d, s, 1); return;
    default: memcpy(d, s, n);
  }
}
template <class T> inline T El(const uint8_t* p, int i) { T t; memcpy(&t, p + i * sizeof(T), sizeof(T)); return t; }
template <class T> inline void SetEl(uint8_t* p, int i, T t) { memcpy(p + i * sizeof(T), &t, sizeof(T)); }
template <class T> inline T LaneOf(Cpu& c, const Opnd& o) { return El<T>(c.v + o.reg * 8, o.lane); }
template <class T> inline T Fp(Cpu& c, const Opnd& o) { return El<T>(At(c, o), 0); }
template <class T> inline void PutFp(Cpu& c, const Opnd& o, T t) { SetEl<T>(At(c, o), 0, t); }
template <class T> T Sat(__int128 v) { return v > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : v < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : (T)v; }
template <class T, class F> T ToInt(F f) {  // towards zero, saturating
  if (f != f) return 0;
  f = std::trunc(f);
  if (f >= std::ldexp((F)1, sizeof(T) * 8 - std::is_signed<T>::value)) return std::numeric_limits<T>::max();
  if (f <= (F)std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  return (T)f;
}
template <class F> void Cmp(Cpu& c, F a, F b) {
  if (a != a || b != b) c.fN = false, c.fZ = false, c.fC = true, c.fO = true;
  else c.fN = a < b, c.fZ = a == b, c.fC = a >= b, c.fO = false;
}
// NEON flushes denormal numbers to zero
inline float Fz(float f) { return std::fpclassify(f) == FP_SUBNORMAL ? std::copysign(0.0f, f) : f; }
// element-wise, for each element type
template <class T, class G> inline void Map2(Cpu& c, const Insn& i, G g) {
  uint8_t r[16];
  const int n = Bytes(i.o[0]);
  const Opnd &a = i.o[i.n - 2], &b = i.o[i.n - 1];
  for (int k = 0; k < n / (int)sizeof(T); ++k) SetEl<T>(r, k, (T)g(El<T>(At(c, a), k), b.kind == LANE ? LaneOf<T>(c, b) : El<T>(At(c, b), k)));
  Mv(At(c, i.o[0]), r, n);
}
template <class T, class G> inline void Map3(Cpu& c, const Insn& i, G g) {
  uint8_t r[16];
  const int n = Bytes(i.o[0]);
  const Opnd &a = i.o[1], &b = i.o[2];
  for (int k = 0; k < n / (int)sizeof(T); ++k) SetEl<T>(r, k, (T)g(El<T>(At(c, i.o[0]), k), El<T>(At(c, a), k), b.kind == LANE ? LaneOf<T>(c, b) : El<T>(At(c, b), k)));
  Mv(At(c, i.o[0]), r, n);
}
template <class T, class G> inline void Map1(Cpu& c, const Insn& i, G g) {
  uint8_t r[16];
  const int n = Bytes(i.o[0]);
  for (int k = 0; k < n / (int)sizeof(T); ++k) SetEl<T>(r, k, (T)g(El<T>(At(c, i.o[1]), k)));
  Mv(At(c, i.o[0]), r, n);
}
#define BYTYPE(i, T, ...)                                                       \
  {                                                                             \
    const bool u_ = (i).t[0].c == 'u';                                          \
    switch ((i).t[0].bits) {                                                    \
      case 8: if (u_) { using T = uint8_t; __VA_ARGS__; } else { using T = int8_t; __VA_ARGS__; } break;     \
      case 16: if (u_) { using T = uint16_t; __VA_ARGS__; } else { using T = int16_t; __VA_ARGS__; } break;  \
      case 32: if (u_) { using T = uint32_t; __VA_ARGS__; } else { using T = int32_t; __VA_ARGS__; } break;  \
      case 64: if (u_) { using T = uint64_t; __VA_ARGS__; } else { using T = int64_t; __VA_ARGS__; } break;  \
      default: Unknown(c, i);                                                   \
    }                                                                           \
  }
template <class T> struct Wide;
template <> struct Wide<int8_t> { using type = int16_t; };
template <> struct Wide<uint8_t> { using type = uint16_t; };
template <> struct Wide<int16_t> { using type = int32_t; };
template <> struct Wide<uint16_t> { using type = uint32_t; };
template <> struct Wide<int32_t> { using type = int64_t; };
template <> struct Wide<uint32_t> { using type = uint64_t; };
template <> struct Wide<int64_t> { using type = int64_t; };
template <> struct Wide<uint64_t> { using type = uint64_t; };
template <class T> struct Half;
template <> struct Half<int16_t> { using type = int8_t; };
template <> struct Half<uint16_t> { using type = uint8_t; };
template <> struct Half<int32_t> { using type = int16_t; };
template <> struct Half<uint32_t> { using type = uint16_t; };
template <> struct Half<int64_t> { using type = int32_t; };
template <> struct Half<uint64_t> { using type = uint32_t; };
template <> struct Half<int8_t> { using type = int8_t; };
template <> struct Half<uint8_t> { using type = uint8_t; };

// ------------------------------------------------------------------ handlers
std::map<std::string, Fn> table;
#define I(name) table[name] = [](Cpu & c, const Insn& i)
bool FloatScalar(const Insn& i) { return i.t[0].c == 'f' && (i.o[0].kind == S || i.t[0].bits == 64); }
#define FLOATS(name, scalar, vector)                                                                                       \
  if (i.t[0].c == 'f') {                                                                                                   \
    if (i.o[0].kind == S) { using F = float; const F d = Fp<F>(c, i.o[0]), a = Fp<F>(c, i.o[i.n - 2]), b = Fp<F>(c, i.o[i.n - 1]); (void)d; PutFp<F>(c, i.o[0], (F)(scalar)); return; }        \
    if (i.t[0].bits == 64) { using F = double; const F d = Fp<F>(c, i.o[0]), a = Fp<F>(c, i.o[i.n - 2]), b = Fp<F>(c, i.o[i.n - 1]); (void)d; PutFp<F>(c, i.o[0], (F)(scalar)); return; }      \
    using F = float;                                                                                                       \
    if (i.n == 2) { Map2<F>(c, i, [](F a, F b) { const F d = a; (void)d; return a; }); return; }                           \
    Map3<F>(c, i, [](F d, F a, F b) { d = Fz(d), a = Fz(a), b = Fz(b); (void)d; return Fz((F)(vector)); });                \
    return;                                                                                                                \
  }
template <class T> void Load(Cpu& c, const Insn& i) { const uint32_t a = Addr(c, i, 1); Put(c, i.o[0].reg, (uint32_t)(int32_t)Ld<T>(a)); }
template <class T> void Store(Cpu& c, const Insn& i) { const uint32_t v = R(c, i.o[0].reg); St<T>(Addr(c, i, 1), (T)v); }
void Block(Cpu& c, const Insn& i, bool load, bool up, bool before) {
  const Opnd &b = i.o[0], &l = i.o[1];
  const int n = __builtin_popcount(l.mask);
  const uint32_t s = c.r[b.reg];
  uint32_t a = up ? s + (before ? 4 : 0) : s - 4 * n + (before ? 0 : 4);
  Aligned(i, a, 4);
  if (b.wb) c.r[b.reg] = up ? s + 4 * n : s - 4 * n;
  uint32_t target = 0;
  for (int k = 0; k < 16; ++k)
    if (l.mask >> k & 1) {
      if (load) Put(c, k, Ld<uint32_t>(a));
      else St<uint32_t>(a, k == b.reg ? s : R(c, k));
      a += 4;
    }
  (void)target;
}
void VBlock(Cpu& c, const Insn& i, const Opnd& l, int breg, bool wb, bool load, bool up) {
  const int sz = l.lane, n = l.n;  // lane: bytes of a register
  const uint32_t s = c.r[breg];
  const uint32_t a = up ? s : s - sz * n;
  Aligned(i, a, 4);
  if (wb) c.r[breg] = up ? s + sz * n : s - sz * n;
  for (int k = 0; k < n; ++k) {
    Access(a + k * sz, sz, !load);
    if (load) Mv(c.v + (l.reg + k) * sz, (void*)(uint64_t)(a + k * sz), sz);
    else Mv((void*)(uint64_t)(a + k * sz), c.v + (l.reg + k) * sz, sz);
  }
}
// vldN / vstN {list}, [rn:align]!, rm
void Struct(Cpu& c, const Insn& i, int st, bool load) {
  const Opnd& l = i.o[0];
  const Opnd& m = i.o[1];
  const int e = i.t[0].bits / 8;
  const uint32_t a = c.r[m.reg];
  if (m.align) Aligned(i, a, m.align / 8);
  const int total = l.has_lane ? e * st : l.all_lanes ? e * st : 8 * l.n;
  if (i.n > 2) c.r[m.reg] = a + R(c, i.o[2].reg);
  else if (m.wb) c.r[m.reg] = a + total;
  Access(a, total, !load);
  const auto one = [&](int d, int lane, uint32_t p) {
    uint8_t* v = c.v + ((d & 31) * 8) + lane * e;
    if (load) Mv(v, (void*)(uint64_t)p, e);
    else Mv((void*)(uint64_t)p, v, e);
  };
  if (l.has_lane) {
    for (int r = 0; r < l.n; ++r) one(l.reg + r * l.stride, l.lane, a + r * e);
  } else if (l.all_lanes) {
    for (int r = 0; r < l.n; ++r)
      for (int k = 0; k < 8 / e; ++k) one(l.reg + r * l.stride, k, a + (st == 1 ? 0 : r * e));
  } else if (st == 1) {
    for (int r = 0; r < l.n; ++r) {
      uint8_t* v = c.v + ((l.reg + r) & 31) * 8;
      void* p = (void*)(uint64_t)(a + r * 8);
      load ? Mv(v, p, 8) : Mv(p, v, 8);
    }
  } else {
    const int per = l.n / st;  // registers per structure element (vld2 of 4)
    for (int x = 0; x < per; ++x)
      for (int k = 0; k < 8 / e; ++k)
        for (int q = 0; q < st; ++q) one(l.reg + (per == 1 ? q * l.stride : q * per + x), k, a + ((x * (8 / e) + k) * st + q) * e);
  }
}
void VMov(Cpu& c, const Insn& i) {
  const Opnd &d = i.o[0], &s = i.o[1];
  if (s.kind == IMM || s.kind == FIMM) {
    const int n = Bytes(d);
    uint8_t* p = At(c, d);
    const double f = s.kind == FIMM ? s.f : (double)s.imm;
    if (i.t[0].c == 'f') {
      if (i.t[0].bits == 64) SetEl<double>(p, 0, f);
      else for (int k = 0; k < n / 4; ++k) SetEl<float>(p, k, (float)f);
      return;
    }
    const int e = i.t[0].bits / 8;
    const uint64_t v = (uint64_t)s.imm;
    for (int k = 0; k < n / e; ++k) Mv(p + k * e, &v, e);
    return;
  }
  if (d.kind == REG && i.n == 3) {  // r, r, d
    c.r[d.reg] = El<uint32_t>(At(c, i.o[2]), 0), c.r[s.reg] = El<uint32_t>(At(c, i.o[2]), 1);
    return;
  }
  if (i.n == 4) {  // r, r, s, s  /  s, s, r, r
    if (d.kind == REG) c.r[d.reg] = Fp<uint32_t>(c, i.o[2]), c.r[s.reg] = Fp<uint32_t>(c, i.o[3]);
    else PutFp<uint32_t>(c, d, R(c, i.o[2].reg)), PutFp<uint32_t>(c, s, R(c, i.o[3].reg));
    return;
  }
  if (i.n == 3) {  // d, r, r
    SetEl<uint32_t>(At(c, d), 0, R(c, s.reg)), SetEl<uint32_t>(At(c, d), 1, R(c, i.o[2].reg));
    return;
  }
  if (d.kind == REG && s.kind == LANE) {
    switch (i.t[0].bits) {
      case 8: c.r[d.reg] = i.t[0].c == 's' ? (uint32_t)LaneOf<int8_t>(c, s) : LaneOf<uint8_t>(c, s); break;
      case 16: c.r[d.reg] = i.t[0].c == 's' ? (uint32_t)LaneOf<int16_t>(c, s) : LaneOf<uint16_t>(c, s); break;
      default: c.r[d.reg] = LaneOf<uint32_t>(c, s);
    }
    return;
  }
  if (d.kind == LANE && s.kind == REG) {
    const uint32_t v = R(c, s.reg);
    const int e = i.t[0].bits ? i.t[0].bits / 8 : 4;
    Mv(c.v + d.reg * 8 + d.lane * e, &v, e);
    return;
  }
  if (d.kind == REG && s.kind == S) { c.r[d.reg] = Fp<uint32_t>(c, s); return; }
  if (d.kind == S && s.kind == REG) { PutFp<uint32_t>(c, d, R(c, s.reg)); return; }
  if (d.kind == s.kind && d.kind != REG) { memmove(At(c, d), At(c, s), Bytes(d)); return; }
  Unknown(c, i);
}
void VCvt(Cpu& c, const Insn& i, bool nearest) {
  const Ty to = i.t[0], from = i.t[1];
  const Opnd &d = i.o[0], &s = i.o[1];
  const auto rd = [&](double f) { return nearest ? std::nearbyint(f) : f; };
  const bool vec = d.kind == Q || (d.kind == D && s.kind == D && to.bits == 32 && from.bits == 32);
  const int frac = i.n > 2 ? (int)i.o[2].imm : 0;
  if (vec) {
    uint8_t r[16];
    const int n = Bytes(d) / 4;
    for (int k = 0; k < n; ++k) {
      if (to.c == 'f') {
        // (rounds to nearest; exact in double)
        const double x = from.c == 's' ? (double)El<int32_t>(At(c, s), k) : (double)El<uint32_t>(At(c, s), k);
        SetEl<float>(r, k, (float)std::ldexp(x, -frac));
      } else {
        const double x = std::ldexp((double)Fz(El<float>(At(c, s), k)), frac);
        if (to.c == 's') SetEl<int32_t>(r, k, ToInt<int32_t>(x));
        else SetEl<uint32_t>(r, k, ToInt<uint32_t>(x));
      }
    }
    Mv(At(c, d), r, 4 * n);
    return;
  }
  if (frac) Unknown(c, i);
  if (to.c == 'f' && from.c == 'f') {
    if (to.bits == 64) PutFp<double>(c, d, Fp<float>(c, s));
    else PutFp<float>(c, d, (float)Fp<double>(c, s));
  } else if (to.c == 'f') {
    const int64_t x = from.c == 's' ? (int64_t)Fp<int32_t>(c, s) : (int64_t)Fp<uint32_t>(c, s);
    if (to.bits == 64) PutFp<double>(c, d, (double)x);
    else PutFp<float>(c, d, (float)x);
  } else {
    const double x = rd(from.bits == 64 ? Fp<double>(c, s) : (double)Fp<float>(c, s));
    if (to.c == 's') PutFp<int32_t>(c, d, ToInt<int32_t>(x));
    else PutFp<uint32_t>(c, d, ToInt<uint32_t>(x));
  }
}
template <class G> void Bits(Cpu& c, const Insn& i, G g) {
  const Opnd &a = i.n == 2 ? i.o[0] : i.o[1], &b = i.o[i.n - 1];
  const int n = Bytes(i.o[0]);
  if (b.kind == IMM) {
    const int e = i.t[0].bits / 8;
    uint8_t r[16];
    for (int k = 0; k < n; ++k) r[k] = (uint8_t)g(0, At(c, a)[k], (uint8_t)((uint64_t)b.imm >> (8 * (k % e))));
    Mv(At(c, i.o[0]), r, n);
    return;
  }
  uint8_t r[16];
  for (int k = 0; k < n; ++k) r[k] = (uint8_t)g(At(c, i.o[0])[k], At(c, a)[k], At(c, b)[k]);
  Mv(At(c, i.o[0]), r, n);
}
template <class T> T ShiftBy(T x, int n, bool round, bool sat) {  // n > 0: left
  using W = __int128;
  W v = x;
  const int w = sizeof(T) * 8;
  if (n >= 0) {
    if (sat && n >= w) return x ? (x < 0 ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()) : 0;
    if (n >= w) return 0;
    v = v * ((W)1 << n);
    return sat ? Sat<T>(v) : (T)v;
  }
  n = -n;
  if (n > w + 1) n = w + 1;
  if (round) v += (W)1 << (n - 1);
  return (T)(v >> n);
}
// narrowing: shift right by n, rounding, saturating to the destination
template <class T, class N> void Narrow(Cpu& c, const Insn& i, int n, bool round, bool sat) {
  uint8_t r[8];
  for (int k = 0; k < 8 / (int)sizeof(N); ++k) {
    __int128 v = El<T>(At(c, i.o[1]), k);
    if (n && round) v += (__int128)1 << (n - 1);
    v >>= n;
    SetEl<N>(r, k, sat ? Sat<N>(v) : (N)v);
  }
  Mv(At(c, i.o[0]), r, 8);
}
template <bool kWideA, class G> void Long(Cpu& c, const Insn& i, G g) {
  BYTYPE(i, T, {
    using W = typename Wide<T>::type;
    uint8_t r[16];
    for (int k = 0; k < 16 / (int)sizeof(W); ++k) {
      const W a = kWideA ? El<W>(At(c, i.o[1]), k) : (W)El<T>(At(c, i.o[1]), k);
      const W b = (W)(i.o[2].kind == LANE ? LaneOf<T>(c, i.o[2]) : El<T>(At(c, i.o[2]), k));
      SetEl<W>(r, k, (W)g((uint64_t)El<W>(At(c, i.o[0]), k), (uint64_t)a, (uint64_t)b));
    }
    Mv(At(c, i.o[0]), r, 16);
  });
}
void Register() {
  // ------------------------------------------------------------- data
#define ALU(name, expr)                                                                           \
  I(name) {                                                                                       \
    bool sc = c.C;                                                                                \
    const uint32_t b = Op2(c, i, i.o[2].kind == NONE ? 1 : 2, sc), a = R(c, i.n > 2 && i.o[2].kind != SHIFT ? i.o[1].reg : i.o[0].reg); \
    (void)a;                                                                                      \
    uint32_t r;                                                                                   \
    expr;                                                                                         \
    Put(c, i.o[0].reg, r);                                                                        \
  }
  ALU("add", r = AddC(c, a, b, 0, i.s));
  ALU("sub", r = AddC(c, a, ~b, 1, i.s));
  ALU("rsb", r = AddC(c, b, ~a, 1, i.s));
  ALU("adc", r = AddC(c, a, b, c.C, i.s));
  ALU("sbc", r = AddC(c, a, ~b, c.C, i.s));
  ALU("rsc", r = AddC(c, b, ~a, c.C, i.s));
  ALU("and", r = a & b; if (i.s) Logic(c, r, sc));
  ALU("orr", r = a | b; if (i.s) Logic(c, r, sc));
  ALU("eor", r = a ^ b; if (i.s) Logic(c, r, sc));
  ALU("bic", r = a & ~b; if (i.s) Logic(c, r, sc));
  I("mov") { bool sc = c.C; const uint32_t r = Op2(c, i, 1, sc); if (i.s) Logic(c, r, sc); Put(c, i.o[0].reg, r); };
  I("mvn") { bool sc = c.C; const uint32_t r = ~Op2(c, i, 1, sc); if (i.s) Logic(c, r, sc); Put(c, i.o[0].reg, r); };
  I("movw") { Put(c, i.o[0].reg, (uint32_t)i.o[1].imm); };
  I("movt") { c.r[i.o[0].reg] = (c.r[i.o[0].reg] & 0xffff) | (uint32_t)i.o[1].imm << 16; };
  I("cmp") { bool sc = c.C; const uint32_t b = Op2(c, i, 1, sc); AddC(c, R(c, i.o[0].reg), ~b, 1, true); };
  I("cmn") { bool sc = c.C; const uint32_t b = Op2(c, i, 1, sc); AddC(c, R(c, i.o[0].reg), b, 0, true); };
  I("tst") { bool sc = c.C; const uint32_t b = Op2(c, i, 1, sc); Logic(c, R(c, i.o[0].reg) & b, sc); };
  I("teq") { bool sc = c.C; const uint32_t b = Op2(c, i, 1, sc); Logic(c, R(c, i.o[0].reg) ^ b, sc); };
#define SHIFTER(name, sh)                                                                          \
  I(name) {                                                                                        \
    bool sc = c.C;                                                                                 \
    const Opnd& n = i.o[i.n - 1];                                                                  \
    const uint32_t v = R(c, i.o[i.n > 2 ? 1 : 0].reg);                                             \
    const uint32_t r = DoShift(v, sh, n.kind == IMM ? (uint32_t)n.imm : R(c, n.reg), sc, n.kind != IMM); \
    if (i.s) Logic(c, r, sc);                                                                      \
    Put(c, i.o[0].reg, r);                                                                         \
  }
  SHIFTER("lsl", LSL);
  SHIFTER("lsr", LSR);
  SHIFTER("asr", ASR);
  SHIFTER("ror", ROR);
  I("rrx") { bool sc = c.C; const uint32_t r = DoShift(R(c, i.o[1].reg), RRX, 1, sc, false); if (i.s) Logic(c, r, sc); Put(c, i.o[0].reg, r); };
  I("mul") { const uint32_t r = R(c, i.o[i.n - 2].reg) * R(c, i.o[i.n - 1].reg); if (i.s) Logic(c, r, c.C); Put(c, i.o[0].reg, r); };
  I("mla") { const uint32_t r = R(c, i.o[1].reg) * R(c, i.o[2].reg) + R(c, i.o[3].reg); if (i.s) Logic(c, r, c.C); Put(c, i.o[0].reg, r); };
  I("mls") { Put(c, i.o[0].reg, R(c, i.o[3].reg) - R(c, i.o[1].reg) * R(c, i.o[2].reg)); };
#define LONGMUL(name, T, acc)                                                                       \
  I(name) {                                                                                         \
    uint64_t r = (uint64_t)((T)R(c, i.o[2].reg) * (T)R(c, i.o[3].reg));                             \
    if (acc) r += (uint64_t)R(c, i.o[1].reg) << 32 | R(c, i.o[0].reg);                              \
    if (i.s) c.N = r >> 63, c.Z = !r;                                                               \
    Put(c, i.o[0].reg, (uint32_t)r), Put(c, i.o[1].reg, (uint32_t)(r >> 32));                       \
  }
#define SX(x) (int64_t)(int32_t)(x)
  I("umull") { const uint64_t r = (uint64_t)R(c, i.o[2].reg) * R(c, i.o[3].reg); Put(c, i.o[0].reg, (uint32_t)r), Put(c, i.o[1].reg, (uint32_t)(r >> 32)); };
  I("smull") { const uint64_t r = (uint64_t)(SX(R(c, i.o[2].reg)) * SX(R(c, i.o[3].reg))); Put(c, i.o[0].reg, (uint32_t)r), Put(c, i.o[1].reg, (uint32_t)(r >> 32)); };
  I("umlal") { const uint64_t r = (uint64_t)R(c, i.o[2].reg) * R(c, i.o[3].reg) + ((uint64_t)R(c, i.o[1].reg) << 32 | R(c, i.o[0].reg)); Put(c, i.o[0].reg, (uint32_t)r), Put(c, i.o[1].reg, (uint32_t)(r >> 32)); };
  I("smlal") { const uint64_t r = (uint64_t)(SX(R(c, i.o[2].reg)) * SX(R(c, i.o[3].reg))) + ((uint64_t)R(c, i.o[1].reg) << 32 | R(c, i.o[0].reg)); Put(c, i.o[0].reg, (uint32_t)r), Put(c, i.o[1].reg, (uint32_t)(r >> 32)); };
  I("smmul") { Put(c, i.o[0].reg, (uint32_t)((SX(R(c, i.o[1].reg)) * SX(R(c, i.o[2].reg))) >> 32)); };
  I("smmla") { Put(c, i.o[0].reg, (uint32_t)(((SX(R(c, i.o[1].reg)) * SX(R(c, i.o[2].reg))) + ((int64_t)R(c, i.o[3].reg) << 32)) >> 32)); };
  I("smulbb") { Put(c, i.o[0].reg, (uint32_t)((int16_t)R(c, i.o[1].reg) * (int16_t)R(c, i.o[2].reg))); };
  I("smlabb") { Put(c, i.o[0].reg, (uint32_t)((int16_t)R(c, i.o[1].reg) * (int16_t)R(c, i.o[2].reg)) + R(c, i.o[3].reg)); };
  I("udiv") { const uint32_t b = R(c, i.o[2].reg); Put(c, i.o[0].reg, b ? R(c, i.o[1].reg) / b : 0); };
  I("sdiv") { const int64_t b = SX(R(c, i.o[2].reg)); Put(c, i.o[0].reg, b ? (uint32_t)(SX(R(c, i.o[1].reg)) / b) : 0); };
  I("clz") { const uint32_t a = R(c, i.o[1].reg); Put(c, i.o[0].reg, a ? __builtin_clz(a) : 32); };
  I("rbit") { uint32_t a = R(c, i.o[1].reg), r = 0; for (int k = 0; k < 32; ++k) r |= ((a >> k) & 1) << (31 - k); Put(c, i.o[0].reg, r); };
  I("rev") { Put(c, i.o[0].reg, __builtin_bswap32(R(c, i.o[1].reg))); };
#define EXT(name, T)                                                                                                                    \
  I("uxt" name) { bool x = false; uint32_t v = R(c, i.o[1].reg); if (i.n > 2) v = DoShift(v, ROR, i.o[2].amount, x, false); Put(c, i.o[0].reg, (u##T)v); };                       \
  I("sxt" name) { bool x = false; uint32_t v = R(c, i.o[1].reg); if (i.n > 2) v = DoShift(v, ROR, i.o[2].amount, x, false); Put(c, i.o[0].reg, (uint32_t)(int32_t)(T)v); };       \
  I("uxta" name) { bool x = false; uint32_t v = R(c, i.o[2].reg); if (i.n > 3) v = DoShift(v, ROR, i.o[3].amount, x, false); Put(c, i.o[0].reg, R(c, i.o[1].reg) + (u##T)v); };    \
  I("sxta" name) { bool x = false; uint32_t v = R(c, i.o[2].reg); if (i.n > 3) v = DoShift(v, ROR, i.o[3].amount, x, false); Put(c, i.o[0].reg, R(c, i.o[1].reg) + (uint32_t)(int32_t)(T)v); };
  EXT("b", int8_t)
  EXT("h", int16_t)
  I("ubfx") { const int w = i.o[3].imm; Put(c, i.o[0].reg, (R(c, i.o[1].reg) >> i.o[2].imm) & (w == 32 ? ~0u : (1u << w) - 1)); };
  I("sbfx") { const int w = i.o[3].imm, l = i.o[2].imm; Put(c, i.o[0].reg, (uint32_t)((int32_t)(R(c, i.o[1].reg) << (32 - l - w)) >> (32 - w))); };
  I("bfi") { const int l = i.o[2].imm, w = i.o[3].imm; const uint32_t m = (w == 32 ? ~0u : (1u << w) - 1) << l; c.r[i.o[0].reg] = (c.r[i.o[0].reg] & ~m) | ((R(c, i.o[1].reg) << l) & m); };
  I("bfc") { const int l = i.o[1].imm, w = i.o[2].imm; const uint32_t m = (w == 32 ? ~0u : (1u << w) - 1) << l; c.r[i.o[0].reg] &= ~m; };
  I("ssat") { bool sc = false; const int n = i.o[1].imm; const int64_t v = (int32_t)Op2(c, i, 2, sc), hi = (1ll << (n - 1)) - 1; Put(c, i.o[0].reg, (uint32_t)(v > hi ? hi : v < -hi - 1 ? -hi - 1 : v)); };
  I("usat") { bool sc = false; const int n = i.o[1].imm; const int64_t v = (int32_t)Op2(c, i, 2, sc), hi = (1ll << n) - 1; Put(c, i.o[0].reg, (uint32_t)(v > hi ? hi : v < 0 ? 0 : v)); };
  I("pkhbt") { bool sc = false; const uint32_t b = Op2(c, i, 2, sc); Put(c, i.o[0].reg, (R(c, i.o[1].reg) & 0xffff) | (b & 0xffff0000)); };
  I("pkhtb") { bool sc = false; const uint32_t b = Op2(c, i, 2, sc); Put(c, i.o[0].reg, (R(c, i.o[1].reg) & 0xffff0000) | (b & 0xffff)); };
  // ------------------------------------------------------------- branches
  I("b") { c.next = (uint32_t)i.o[0].imm; };
  I("bl") { c.r[14] = c.pc + 4, c.next = (uint32_t)i.o[0].imm; };
  I("blx") { const uint32_t t = R(c, i.o[0].reg); if (i.o[0].kind != REG) Unknown(c, i); c.r[14] = c.pc + 4, c.next = t & ~1u; };
  I("bx") { c.next = R(c, i.o[0].reg) & ~1u; };
  I("nop") {};
  I("dmb") {};
  I("pld") {};
  I("pldw") {};
  I("hint") {};
  I("trap") { Fault("trap in " + text_of(i)); };
  I("udf") { Fault("undefined instruction in " + text_of(i)); };
  // ------------------------------------------------------------- memory
  I("ldr") { const uint32_t a = Addr(c, i, 1); Put(c, i.o[0].reg, Ld<uint32_t>(a)); };
  I("str") { Store<uint32_t>(c, i); };
  I("ldrb") { Load<uint8_t>(c, i); };
  I("ldrh") { Load<uint16_t>(c, i); };
  I("ldrsb") { Load<int8_t>(c, i); };
  I("ldrsh") { Load<int16_t>(c, i); };
  I("strb") { Store<uint8_t>(c, i); };
  I("strh") { Store<uint16_t>(c, i); };
  I("ldrd") { const uint32_t a = Addr(c, i, 2); Aligned(i, a, 4); const uint32_t x = Ld<uint32_t>(a), y = Ld<uint32_t>(a + 4); Put(c, i.o[0].reg, x), Put(c, i.o[1].reg, y); };
  I("strd") { const uint32_t x = R(c, i.o[0].reg), y = R(c, i.o[1].reg), a = Addr(c, i, 2); Aligned(i, a, 4); St(a, x), St(a + 4, y); };
  I("ldm") { Block(c, i, true, true, false); };
  I("stm") { Block(c, i, false, true, false); };
  I("ldmib") { Block(c, i, true, true, true); };
  I("stmib") { Block(c, i, false, true, true); };
  I("ldmda") { Block(c, i, true, false, false); };
  I("stmda") { Block(c, i, false, false, false); };
  I("ldmdb") { Block(c, i, true, false, true); };
  I("stmdb") { Block(c, i, false, false, true); };
  I("push") { Insn j = i; j.o[1] = i.o[0], j.o[0] = Opnd(), j.o[0].reg = 13, j.o[0].wb = true; Block(c, j, false, false, true); };
  I("pop") { Insn j = i; j.o[1] = i.o[0], j.o[0] = Opnd(), j.o[0].reg = 13, j.o[0].wb = true; Block(c, j, true, true, false); };
  I("vpush") { VBlock(c, i, i.o[0], 13, true, false, false); };
  I("vpop") { VBlock(c, i, i.o[0], 13, true, true, true); };
  for (const char* n : {"vldm", "vldmia"}) I(n) { VBlock(c, i, i.o[1], i.o[0].reg, i.o[0].wb, true, true); };
  for (const char* n : {"vstm", "vstmia"}) I(n) { VBlock(c, i, i.o[1], i.o[0].reg, i.o[0].wb, false, true); };
  I("vldmdb") { VBlock(c, i, i.o[1], i.o[0].reg, i.o[0].wb, true, false); };
  I("vstmdb") { VBlock(c, i, i.o[1], i.o[0].reg, i.o[0].wb, false, false); };
  I("vldr") { const uint32_t a = Addr(c, i, 1); Aligned(i, a, 4); const int n = Bytes(i.o[0]); Access(a, n, false); Mv(At(c, i.o[0]), (void*)(uint64_t)a, n); };
  I("vstr") { const uint32_t a = Addr(c, i, 1); Aligned(i, a, 4); const int n = Bytes(i.o[0]); Access(a, n, true); Mv((void*)(uint64_t)a, At(c, i.o[0]), n); };
  I("vld1") { Struct(c, i, 1, true); };
  I("vld2") { Struct(c, i, 2, true); };
  I("vld3") { Struct(c, i, 3, true); };
  I("vld4") { Struct(c, i, 4, true); };
  I("vst1") { Struct(c, i, 1, false); };
  I("vst2") { Struct(c, i, 2, false); };
  I("vst3") { Struct(c, i, 3, false); };
  I("vst4") { Struct(c, i, 4, false); };
  // ------------------------------------------------------------- floats
  I("vmov") { VMov(c, i); };
  I("vmvn") {
    if (i.o[1].kind == IMM) { Insn j = i; j.o[1].imm = ~j.o[1].imm; VMov(c, j); return; }
    Map1<uint8_t>(c, i, [](uint8_t x) { return ~x; });
  };
  I("vcmp") {
    const bool z = i.o[1].kind == IMM || i.o[1].kind == FIMM;
    if (i.t[0].bits == 64) Cmp<double>(c, Fp<double>(c, i.o[0]), z ? 0.0 : Fp<double>(c, i.o[1]));
    else Cmp<float>(c, Fp<float>(c, i.o[0]), z ? 0.0f : Fp<float>(c, i.o[1]));
  };
  table["vcmpe"] = table["vcmp"];
  I("vmrs") { if (i.o[0].kind != PSR) Unknown(c, i); c.N = c.fN, c.Z = c.fZ, c.C = c.fC, c.O = c.fO; };
  I("vcvt") { VCvt(c, i, false); };
  I("vcvtr") { VCvt(c, i, true); };
  I("vadd") { FLOATS("vadd", a + b, a + b) BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)((uint64_t)a + (uint64_t)b); })) };
  I("vsub") { FLOATS("vsub", a - b, a - b) BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)((uint64_t)a - (uint64_t)b); })) };
  I("vmul") { FLOATS("vmul", a * b, a * b) BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)((uint64_t)a * (uint64_t)b); })) };
  I("vmla") { FLOATS("vmla", d + F(a * b), d + Fz(a * b)) BYTYPE(i, T, Map3<T>(c, i, [](T d, T a, T b) { return (T)((uint64_t)d + (uint64_t)a * (uint64_t)b); })) };
  I("vmls") { FLOATS("vmls", d - F(a * b), d - Fz(a * b)) BYTYPE(i, T, Map3<T>(c, i, [](T d, T a, T b) { return (T)((uint64_t)d - (uint64_t)a * (uint64_t)b); })) };
  I("vdiv") { FLOATS("vdiv", a / b, a / b) Unknown(c, i); };
  I("vnmul") { FLOATS("vnmul", -(a * b), a) Unknown(c, i); };
  I("vnmla") { FLOATS("vnmla", -d - F(a * b), a) Unknown(c, i); };
  I("vnmls") { FLOATS("vnmls", -d + F(a * b), a) Unknown(c, i); };
  I("vfma") { FLOATS("vfma", std::fma(a, b, d), std::fma(a, b, d)) Unknown(c, i); };
  I("vfms") { FLOATS("vfms", std::fma(-a, b, d), std::fma(-a, b, d)) Unknown(c, i); };
  I("vfnma") { FLOATS("vfnma", std::fma(-a, b, -d), a) Unknown(c, i); };
  I("vfnms") { FLOATS("vfnms", std::fma(a, b, -d), a) Unknown(c, i); };
  I("vsqrt") { if (i.t[0].bits == 64) PutFp<double>(c, i.o[0], std::sqrt(Fp<double>(c, i.o[1]))); else PutFp<float>(c, i.o[0], std::sqrt(Fp<float>(c, i.o[1]))); };
  I("vneg") {
    if (FloatScalar(i)) { if (i.t[0].bits == 64) PutFp<double>(c, i.o[0], -Fp<double>(c, i.o[1])); else PutFp<float>(c, i.o[0], -Fp<float>(c, i.o[1])); return; }
    if (i.t[0].c == 'f') { Map1<uint32_t>(c, i, [](uint32_t a) { return a ^ 0x80000000u; }); return; }
    BYTYPE(i, T, Map1<T>(c, i, [](T a) { return (T)(0 - (uint64_t)a); }))
  };
  I("vabs") {
    if (FloatScalar(i)) { if (i.t[0].bits == 64) PutFp<double>(c, i.o[0], std::fabs(Fp<double>(c, i.o[1]))); else PutFp<float>(c, i.o[0], std::fabs(Fp<float>(c, i.o[1]))); return; }
    if (i.t[0].c == 'f') { Map1<uint32_t>(c, i, [](uint32_t a) { return a & 0x7fffffffu; }); return; }
    BYTYPE(i, T, Map1<T>(c, i, [](T a) { return a < 0 ? (T)(0 - (uint64_t)a) : a; }))
  };
  I("vmax") { FLOATS("vmax", a, a != a ? a : b != b ? b : a > b ? a : b > a ? b : std::signbit(a) ? b : a) BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return a > b ? a : b; })) };
  I("vmin") { FLOATS("vmin", a, a != a ? a : b != b ? b : a < b ? a : b < a ? b : std::signbit(a) ? a : b) BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return a < b ? a : b; })) };
  // ------------------------------------------------------------- NEON
  I("veor") { Bits(c, i, [](uint8_t, uint8_t a, uint8_t b) { return a ^ b; }); };
  I("vand") { Bits(c, i, [](uint8_t, uint8_t a, uint8_t b) { return a & b; }); };
  I("vorr") { Bits(c, i, [](uint8_t, uint8_t a, uint8_t b) { return a | b; }); };
  I("vorn") { Bits(c, i, [](uint8_t, uint8_t a, uint8_t b) { return a | ~b; }); };
  I("vbic") { Bits(c, i, [](uint8_t, uint8_t a, uint8_t b) { return a & ~b; }); };
  I("vbsl") { Bits(c, i, [](uint8_t d, uint8_t a, uint8_t b) { return (d & a) | (~d & b); }); };
  I("vbit") { Bits(c, i, [](uint8_t d, uint8_t a, uint8_t b) { return (a & b) | (d & ~b); }); };
  I("vbif") { Bits(c, i, [](uint8_t d, uint8_t a, uint8_t b) { return (a & ~b) | (d & b); }); };
  I("vcnt") { Map1<uint8_t>(c, i, [](uint8_t a) { return __builtin_popcount(a); }); };
  I("vtst") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return a & b ? (T)-1 : (T)0; })) };
#define COMPARE(name, op)                                                                            \
  I(name) {                                                                                          \
    const bool z = i.o[2].kind == IMM || i.o[2].kind == FIMM;                                        \
    if (i.t[0].c == 'f') {                                                                           \
      uint8_t r[16];                                                                                 \
      for (int k = 0; k < Bytes(i.o[0]) / 4; ++k) { const float a = Fz(El<float>(At(c, i.o[1]), k)), b = z ? 0.0f : Fz(El<float>(At(c, i.o[2]), k)); SetEl<uint32_t>(r, k, a op b ? ~0u : 0); } \
      Mv(At(c, i.o[0]), r, Bytes(i.o[0]));                                                       \
      return;                                                                                        \
    }                                                                                                \
    if (z) { BYTYPE(i, T, Insn j = i; j.n = 2; Map1<T>(c, j, [](T a) { return a op 0 ? (T)-1 : (T)0; })) return; } \
    BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return a op b ? (T)-1 : (T)0; }))                       \
  }
  COMPARE("vceq", ==);
  COMPARE("vcge", >=);
  COMPARE("vcgt", >);
  COMPARE("vcle", <=);
  COMPARE("vclt", <);
  I("vqadd") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return Sat<T>((__int128)a + b); })) };
  I("vqsub") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return Sat<T>((__int128)a - b); })) };
  I("vhadd") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)(((__int128)a + b) >> 1); })) };
  I("vrhadd") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)(((__int128)a + b + 1) >> 1); })) };
  I("vabd") { BYTYPE(i, T, Map2<T>(c, i, [](T a, T b) { return (T)(a > b ? (uint64_t)a - (uint64_t)b : (uint64_t)b - (uint64_t)a); })) };
  I("vqneg") { BYTYPE(i, T, Map1<T>(c, i, [](T a) { return Sat<T>(-(__int128)a); })) };
  I("vqabs") { BYTYPE(i, T, Map1<T>(c, i, [](T a) { return Sat<T>(a < 0 ? -(__int128)a : (__int128)a); })) };
#define PAIR(name, expr)                                                                             \
  I(name) {                                                                                          \
    if (i.t[0].c == 'f') {                                                                           \
      uint8_t r[8];                                                                                  \
      for (int k = 0; k < 2; ++k) { const uint8_t* p = At(c, i.o[1 + k]); const float a = Fz(El<float>(p, 0)), b = Fz(El<float>(p, 1)); SetEl<float>(r, k, (float)(expr)); } \
      Mv(At(c, i.o[0]), r, 8);                                                                   \
      return;                                                                                        \
    }                                                                                                \
    BYTYPE(i, T, {                                                                                   \
      uint8_t r[8];                                                                                  \
      const int n = 8 / sizeof(T);                                                                   \
      for (int k = 0; k < n; ++k) { const uint8_t* p = At(c, i.o[k < n / 2 ? i.n - 2 : i.n - 1]); const int q = 2 * (k % (n / 2 ? n / 2 : 1)); const T a = El<T>(p, q), b = El<T>(p, q + 1); SetEl<T>(r, k, (T)(expr)); } \
      Mv(At(c, i.o[0]), r, 8);                                                                   \
    });                                                                                              \
  }
  PAIR("vpadd", a + b);
  PAIR("vpmax", a > b ? a : b);
  PAIR("vpmin", a < b ? a : b);
#define PAIRLONG(name, acc)                                                                          \
  I(name) {                                                                                          \
    BYTYPE(i, T, {                                                                                   \
      using W = typename Wide<T>::type;                                                              \
      uint8_t r[16];                                                                                 \
      const int n = Bytes(i.o[0]) / (int)sizeof(W);                                                  \
      for (int k = 0; k < n; ++k) SetEl<W>(r, k, (W)((acc ? (uint64_t)El<W>(At(c, i.o[0]), k) : 0) + (uint64_t)(W)El<T>(At(c, i.o[1]), 2 * k) + (uint64_t)(W)El<T>(At(c, i.o[1]), 2 * k + 1))); \
      Mv(At(c, i.o[0]), r, Bytes(i.o[0]));                                                       \
    });                                                                                              \
  }
  PAIRLONG("vpaddl", 0);
  PAIRLONG("vpadal", 1);
  I("vdup") {
    const int n = Bytes(i.o[0]), e = i.t[0].bits / 8;
    uint32_t v = 0;
    if (i.o[1].kind == REG) v = R(c, i.o[1].reg);
    else Mv(&v, c.v + i.o[1].reg * 8 + i.o[1].lane * e, e);
    for (int k = 0; k < n / e; ++k) Mv(At(c, i.o[0]) + k * e, &v, e);
  };
#define SHIFTS(name, dir, round, sat)                                                                 \
  I(name) {                                                                                           \
    BYTYPE(i, T, {                                                                                    \
      const Opnd& n = i.o[i.n - 1];                                                                   \
      if (n.kind == IMM) { const int s = dir * (int)n.imm; uint8_t r[16]; const uint8_t* a = At(c, i.o[i.n > 2 ? 1 : 0]); for (int k = 0; k < Bytes(i.o[0]) / (int)sizeof(T); ++k) SetEl<T>(r, k, ShiftBy<T>(El<T>(a, k), s, round, sat)); Mv(At(c, i.o[0]), r, Bytes(i.o[0])); } \
      else Map2<T>(c, i, [](T a, T b) { return ShiftBy<T>(a, (int8_t)b, round, sat); });              \
    });                                                                                               \
  }
  SHIFTS("vshl", 1, false, false);
  SHIFTS("vqshl", 1, false, true);
  SHIFTS("vrshl", 1, true, false);
  SHIFTS("vqrshl", 1, true, true);
  SHIFTS("vshr", -1, false, false);
  SHIFTS("vrshr", -1, true, false);
  I("vsra") { BYTYPE(i, T, { const int s = (int)i.o[2].imm; for (int k = 0; k < Bytes(i.o[0]) / (int)sizeof(T); ++k) SetEl<T>(At(c, i.o[0]), k, (T)((uint64_t)El<T>(At(c, i.o[0]), k) + (uint64_t)ShiftBy<T>(El<T>(At(c, i.o[1]), k), -s, false, false))); }) };
  I("vsli") { BYTYPE(i, T, { const int s = (int)i.o[2].imm; for (int k = 0; k < Bytes(i.o[0]) / (int)sizeof(T); ++k) { const uint64_t d = (uint64_t)El<T>(At(c, i.o[0]), k), a = (uint64_t)El<T>(At(c, i.o[1]), k); SetEl<T>(At(c, i.o[0]), k, (T)((a << s) | (d & ((1ull << s) - 1)))); } }) };
  I("vsri") { BYTYPE(i, T, { const int s = (int)i.o[2].imm, w = sizeof(T) * 8; for (int k = 0; k < Bytes(i.o[0]) / (int)sizeof(T); ++k) { const unsigned __int128 m = ((unsigned __int128)1 << w) - 1, d = (unsigned __int128)El<T>(At(c, i.o[0]), k) & m, a = (unsigned __int128)El<T>(At(c, i.o[1]), k) & m; SetEl<T>(At(c, i.o[0]), k, (T)((a >> s) | (d & ~(m >> s)))); } }) };
#define NARROW(name, shift, round, sat, UNS)                                                           \
  I(name) {                                                                                            \
    BYTYPE(i, T, {                                                                                     \
      using N = typename Half<T>::type;                                                                \
      if (UNS) Narrow<T, typename std::make_unsigned<N>::type>(c, i, shift ? (int)i.o[2].imm : 0, round, sat); \
      else Narrow<T, N>(c, i, shift ? (int)i.o[2].imm : 0, round, sat);                                \
    });                                                                                                \
  }
  NARROW("vmovn", 0, false, false, false);
  NARROW("vqmovn", 0, false, true, false);
  NARROW("vqmovun", 0, false, true, true);
  NARROW("vshrn", 1, false, false, false);
  NARROW("vrshrn", 1, true, false, false);
  NARROW("vqshrn", 1, false, true, false);
  NARROW("vqrshrn", 1, true, true, false);
  NARROW("vqshrun", 1, false, true, true);
  NARROW("vqrshrun", 1, true, true, true);
  I("vmovl") { BYTYPE(i, T, { using W = typename Wide<T>::type; uint8_t r[16]; for (int k = 0; k < 16 / (int)sizeof(W); ++k) SetEl<W>(r, k, (W)El<T>(At(c, i.o[1]), k)); Mv(At(c, i.o[0]), r, 16); }) };
  I("vshll") { BYTYPE(i, T, { using W = typename Wide<T>::type; uint8_t r[16]; for (int k = 0; k < 16 / (int)sizeof(W); ++k) SetEl<W>(r, k, (W)((uint64_t)(W)El<T>(At(c, i.o[1]), k) << i.o[2].imm)); Mv(At(c, i.o[0]), r, 16); }) };
  I("vaddl") { Long<false>(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a + b; }); };
  I("vsubl") { Long<false>(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a - b; }); };
  I("vmull") { Long<false>(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a * b; }); };
  I("vmlal") { Long<false>(c, i, [](uint64_t d, uint64_t a, uint64_t b) { return d + a * b; }); };
  I("vmlsl") { Long<false>(c, i, [](uint64_t d, uint64_t a, uint64_t b) { return d - a * b; }); };
  I("vaddw") { Long<true>(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a + b; }); };
  I("vsubw") { Long<true>(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a - b; }); };
  I("vext") { const int n = Bytes(i.o[0]), s = (int)i.o[3].imm * (i.t[0].bits / 8); uint8_t t[32]; Mv(t, At(c, i.o[1]), n), Mv(t + n, At(c, i.o[2]), n); Mv(At(c, i.o[0]), t + s, n); };
  I("vswp") { const int n = Bytes(i.o[0]); uint8_t t[16]; Mv(t, At(c, i.o[0]), n), Mv(At(c, i.o[0]), At(c, i.o[1]), n), Mv(At(c, i.o[1]), t, n); };
#define PERMUTE(name, first, second)                                                                   \
  I(name) {                                                                                            \
    const int e = i.t[0].bits / 8, n = Bytes(i.o[0]) / e;                                              \
    uint8_t s[32], r[32];                                                                              \
    Mv(s, At(c, i.o[0]), n * e), Mv(s + n * e, At(c, i.o[1]), n * e);                          \
    for (int k = 0; k < n; ++k) Mv(r + k * e, s + (first) * e, e), Mv(r + (n + k) * e, s + (second) * e, e); \
    Mv(At(c, i.o[0]), r, n * e), Mv(At(c, i.o[1]), r + n * e, n * e);                          \
  }
  PERMUTE("vtrn", k % 2 ? n + k - 1 : k, k % 2 ? n + k : k + 1);
  PERMUTE("vzip", (k % 2 ? n : 0) + k / 2, (k % 2 ? n : 0) + n / 2 + k / 2);
  PERMUTE("vuzp", 2 * k, 2 * k + 1);
#define REV(name, group)                                                                               \
  I(name) { const int e = i.t[0].bits / 8, g = group / e; uint8_t r[16]; for (int k = 0; k < Bytes(i.o[0]) / e; ++k) Mv(r + k * e, At(c, i.o[1]) + (k / g * g + g - 1 - k % g) * e, e); Mv(At(c, i.o[0]), r, Bytes(i.o[0])); }
  REV("vrev64", 8);
  REV("vrev32", 4);
  REV("vrev16", 2);
}

// Frequent forms of instructions, chosen when the program is loaded.
Fn Fast(const std::string& m, const Insn& i) {
  const auto low = [](const Opnd& o) { return o.kind == REG && o.reg != 15; };
  const bool ri = i.n == 3 && low(i.o[0]) && low(i.o[1]) && i.o[2].kind == IMM;
  const bool rr = i.n == 3 && low(i.o[0]) && low(i.o[1]) && low(i.o[2]);
  const bool rs = i.n == 4 && low(i.o[0]) && low(i.o[1]) && low(i.o[2]) && i.o[3].kind == SHIFT && !i.o[3].by_reg && i.o[3].sh == LSL;
  if (!i.s) {
#define FORM(name, op)                                                                                                                  \
  if (m == name && ri) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg] op (uint32_t)i.o[2].imm; };                   \
  if (m == name && rr) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg] op c.r[i.o[2].reg]; };                        \
  if (m == name && rs) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg] op (c.r[i.o[2].reg] << i.o[3].amount); };
    FORM("add", +) FORM("sub", -) FORM("and", &) FORM("orr", |) FORM("eor", ^)
    if (m == "mov" && i.n == 2 && low(i.o[0]) && low(i.o[1])) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg]; };
    if (m == "mov" && i.n == 2 && low(i.o[0]) && i.o[1].kind == IMM) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = (uint32_t)i.o[1].imm; };
    if (m == "lsl" && ri && i.o[2].imm < 32) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg] << i.o[2].imm; };
    if (m == "lsr" && ri && i.o[2].imm < 32) return [](Cpu& c, const Insn& i) { c.r[i.o[0].reg] = c.r[i.o[1].reg] >> i.o[2].imm; };
  }
  if (m == "cmp" && i.n == 2 && low(i.o[0]) && (low(i.o[1]) || i.o[1].kind == IMM)) {
    if (i.o[1].kind == IMM) return [](Cpu& c, const Insn& i) { AddC(c, c.r[i.o[0].reg], ~(uint32_t)i.o[1].imm, 1, true); };
    return [](Cpu& c, const Insn& i) { AddC(c, c.r[i.o[0].reg], ~c.r[i.o[1].reg], 1, true); };
  }
  const Opnd& a = i.o[1];
  if (i.n == 2 && low(i.o[0]) && a.kind == MEM && a.reg != 15 && !a.wb && (!a.has_index || (!a.neg && a.sh == LSL && a.index != 15))) {
#define MEMFORM(name, ld, T)                                                                                                              \
  if (m == name) {                                                                                                                        \
    if (!a.has_index) return [](Cpu& c, const Insn& i) { const uint32_t p = c.r[i.o[1].reg] + (uint32_t)i.o[1].imm; if (ld) c.r[i.o[0].reg] = (uint32_t)(int32_t)Ld<T>(p); else St<T>(p, (T)c.r[i.o[0].reg]); };   \
    return [](Cpu& c, const Insn& i) { const uint32_t p = c.r[i.o[1].reg] + (c.r[i.o[1].index] << i.o[1].amount); if (ld) c.r[i.o[0].reg] = (uint32_t)(int32_t)Ld<T>(p); else St<T>(p, (T)c.r[i.o[0].reg]); };       \
  }
    MEMFORM("ldr", true, uint32_t) MEMFORM("str", false, uint32_t) MEMFORM("ldrb", true, uint8_t) MEMFORM("strb", false, uint8_t) MEMFORM("ldrsb", true, int8_t)
  }
  return nullptr;
}

// ------------------------------------------------------------------- parsing
std::string Trim(std::string s) {
  const size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r\n");
  return a == s.npos ? "" : s.substr(a, b - a + 1);
}
std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> r;
  std::string t;
  int depth = 0;
  for (char ch : s) {
    if (ch == '[' || ch == '{') ++depth;
    if (ch == ']' || ch == '}') --depth;
    if (ch == ',' && !depth) { r.push_back(Trim(t)), t.clear(); continue; }
    t += ch;
  }
  if (!Trim(t).empty()) r.push_back(Trim(t));
  return r;
}
const char* kCond[] = {"eq", "ne", "hs", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "al"};
int CondOf(const std::string& s) {
  for (int k = 0; k < 15; ++k) if (s == kCond[k]) return k;
  if (s == "cs") return 2;
  if (s == "cc") return 3;
  return -1;
}
const char* kSh[] = {"lsl", "lsr", "asr", "ror", "rrx"};
bool AllDigits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == s.npos; }
int Core(const std::string& s) {
  if (s == "sp") return 13;
  if (s == "lr") return 14;
  if (s == "pc") return 15;
  if (s == "fp") return 11;
  if (s == "ip") return 12;
  if (s == "sl") return 10;
  if (s == "sb") return 9;
  if (s[0] == 'r' && AllDigits(s.substr(1))) return atoi(s.c_str() + 1);
  return -1;
}
int64_t Number(const std::string& s) {  // #...
  return s[1] == '-' ? -(int64_t)strtoull(s.c_str() + 2, nullptr, 0) : (int64_t)strtoull(s.c_str() + 1, nullptr, 0);
}
bool Shift(const std::string& s, Opnd& o) {
  for (int k = 0; k < 5; ++k)
    if (s.compare(0, 3, kSh[k]) == 0 && (s.size() == 3 || s[3] == ' ')) {
      o.kind = SHIFT, o.sh = (Sh)k;
      const std::string a = s.size() > 4 ? Trim(s.substr(4)) : "";
      if (a.empty()) o.amount = 1;
      else if (a[0] == '#') o.amount = Number(a);
      else o.by_reg = true, o.reg = Core(a);
      return true;
    }
  return false;
}
bool VReg(const std::string& s, Opnd& o) {
  const size_t br = s.find('[');
  const std::string b = s.substr(0, br);
  if (!strchr("sdq", b[0]) || !AllDigits(b.substr(1))) return false;
  o.reg = atoi(b.c_str() + 1);
  o.kind = b[0] == 's' ? S : b[0] == 'd' ? D : Q;
  if (br != s.npos) o.kind = LANE, o.lane = atoi(s.c_str() + br + 1);
  return true;
}
Opnd Operand(std::string s) {
  Opnd o;
  if (s[0] == '#') {
    if (s.find('.') != s.npos || (s.find("0x") == s.npos && s.find_first_of("eE") != s.npos)) return o.kind = FIMM, o.f = strtod(s.c_str() + 1, nullptr), o;
    o.kind = IMM, o.imm = Number(s);
    return o;
  }
  if (s[0] == '[') {
    o.kind = MEM;
    if (s.back() == '!') o.wb = true, s.pop_back();
    auto p = Split(s.substr(1, s.size() - 2));
    const size_t colon = p[0].find(':');
    if (colon != s.npos) o.align = atoi(p[0].c_str() + colon + 1), p[0] = p[0].substr(0, colon);
    if (Core(p[0]) < 0) return Opnd();
    o.reg = Core(p[0]);
    if (p.size() > 1) {
      if (p[1][0] == ':') o.align = atoi(p[1].c_str() + 1);
      else if (p[1][0] == '#') o.imm = Number(p[1]);
      else {
        std::string x = p[1];
        if (x[0] == '-') o.neg = true, x = x.substr(1);
        if (Core(x) < 0) return Opnd();
        o.has_index = true, o.index = Core(x);
        if (p.size() > 2) { Opnd e; if (!Shift(p[2], e)) return Opnd(); o.sh = e.sh, o.amount = e.amount; }
      }
    }
    return o;
  }
  if (s[0] == '{') {
    const auto p = Split(s.substr(1, s.find('}') - 1));
    if (Core(p[0].substr(0, p[0].find('-'))) >= 0) {
      o.kind = RLIST;
      for (auto& x : p) {
        const size_t dash = x.find('-');
        const int a = Core(Trim(x.substr(0, dash))), b = dash == x.npos ? a : Core(Trim(x.substr(dash + 1)));
        for (int k = a; k <= b; ++k) o.mask |= 1 << k;
      }
      return o;
    }
    o.kind = VLIST;
    int last = 0;
    for (auto& x : p) {
      std::string y = x;
      const size_t all = y.find("[]");
      if (all != y.npos) o.all_lanes = true, y = y.substr(0, all);
      const size_t dash = y.find('-');
      Opnd v;
      if (!VReg(Trim(y.substr(0, dash)), v)) return Opnd();
      if (v.kind == LANE) o.has_lane = true, o.lane = v.lane;
      if (!o.n) o.reg = v.reg, last = v.reg;
      else if (o.n == 1) o.stride = (v.reg - o.reg) & 31;
      if (v.kind == S) o.lane = 4;
      else if (!o.has_lane) o.lane = 8;
      ++o.n;
      if (dash != y.npos) { Opnd w; VReg(Trim(y.substr(dash + 1)), w); o.n = w.reg - v.reg + 1; }
    }
    (void)last;
    return o;
  }
  if (s == "APSR_nzcv" || s == "apsr_nzcv") return o.kind = PSR, o;
  if (s == "fpscr") return o.kind = PSR, o.imm = 1, o;
  bool neg = false, wb = false;
  std::string t = s;
  if (t[0] == '-') neg = true, t = t.substr(1);
  if (t.back() == '!') wb = true, t.pop_back();
  if (Core(t) >= 0) return o.kind = REG, o.reg = Core(t), o.neg = neg, o.wb = wb, o;
  if (Shift(s, o)) return o;
  if (VReg(s, o)) return o;
  if (s.compare(0, 2, "0x") == 0) return o.kind = ADDR, o.imm = (int64_t)strtoull(s.c_str(), nullptr, 16), o;
  return o;  // (unknown: reported when executed)
}
const char* kFlagged[] = {"and", "eor", "sub", "rsb", "add", "adc", "sbc", "rsc", "orr", "mov", "lsl", "lsr", "asr", "ror", "rrx", "bic", "mvn", "mul", "mla", "umull", "smull", "umlal", "smlal"};
bool Flagged(const std::string& s) { for (auto* f : kFlagged) if (s == f) return true; return false; }
Fn Lookup(const std::string& m, Insn& i) {
  const auto get = [](const std::string& n) { auto it = table.find(n); return it == table.end() ? nullptr : it->second; };
  if (Fn f = get(m)) return f;
  if (m.size() > 1 && m.back() == 's' && Flagged(m.substr(0, m.size() - 1))) return i.s = true, get(m.substr(0, m.size() - 1));
  if (m.size() > 2 && CondOf(m.substr(m.size() - 2)) >= 0) {
    i.cond = CondOf(m.substr(m.size() - 2));
    const std::string b = m.substr(0, m.size() - 2);
    if (Fn f = get(b)) return f;
    if (b.size() > 1 && b.back() == 's' && Flagged(b.substr(0, b.size() - 1))) return i.s = true, get(b.substr(0, b.size() - 1));
  }
  return nullptr;
}

// --------------------------------------------------------------- host calls
std::string report;
inline void* P(uint32_t a) { return (void*)(uint64_t)a; }
inline float S0(Cpu& c, int k) { return El<float>(c.v, k); }
inline double D0(Cpu& c, int k) { return El<double>(c.v, k); }
void Range(uint32_t a, uint32_t n, bool store) { if (n) Access(a, n, store); }
std::string Str(uint32_t a) { std::string s; for (;; ++a) { const char ch = Ld<char>(a); if (!ch) return s; s += ch; } }
void Copy(uint32_t d, uint32_t s, uint32_t n) { Range(s, n, false), Range(d, n, true); if (n) memmove(P(d), P(s), n); }
uint64_t Pair(Cpu& c, int k) { return (uint64_t)c.r[k + 1] << 32 | c.r[k]; }
void PutPair(Cpu& c, int k, uint64_t v) { c.r[k] = (uint32_t)v, c.r[k + 1] = (uint32_t)(v >> 32); }
using Host = std::function<void(Cpu&)>;
Host Resolve(const std::string& n) {
#define F1(name) if (n == #name) return [](Cpu& c) { SetEl<double>(c.v, 0, name(D0(c, 0))); }; if (n == #name "f") return [](Cpu& c) { SetEl<float>(c.v, 0, name##f(S0(c, 0))); };
#define F2(name) if (n == #name) return [](Cpu& c) { SetEl<double>(c.v, 0, name(D0(c, 0), D0(c, 1))); }; if (n == #name "f") return [](Cpu& c) { SetEl<float>(c.v, 0, name##f(S0(c, 0), S0(c, 1))); };
#define FI(name) if (n == #name) return [](Cpu& c) { c.r[0] = (uint32_t)ToInt<int32_t>(std::name(D0(c, 0)) + 0.0); }; if (n == #name "f") return [](Cpu& c) { c.r[0] = (uint32_t)ToInt<int32_t>((double)std::name(S0(c, 0))); };
  F1(round) F1(floor) F1(ceil) F1(sqrt) F1(exp) F1(log) F1(tanh) F1(trunc) F1(rint) F1(nearbyint)
  F2(pow) F2(fmod) F2(fmax) F2(fmin)
  FI(lrint) FI(lround)
  if (n == "frexp") return [](Cpu& c) { int e; const double r = frexp(D0(c, 0), &e); St<int32_t>(c.r[0], e); SetEl<double>(c.v, 0, r); };
  if (n == "ldexp") return [](Cpu& c) { SetEl<double>(c.v, 0, ldexp(D0(c, 0), (int)c.r[0])); };
  if (n == "llround" || n == "llrint") { const bool r = n == "llround"; return [r](Cpu& c) { PutPair(c, 0, (uint64_t)ToInt<int64_t>(r ? std::round(D0(c, 0)) : std::nearbyint(D0(c, 0)))); }; }
  if (n == "llroundf" || n == "llrintf") { const bool r = n == "llroundf"; return [r](Cpu& c) { PutPair(c, 0, (uint64_t)ToInt<int64_t>((double)(r ? std::round(S0(c, 0)) : std::nearbyint(S0(c, 0))))); }; }
  if (n == "__cxa_atexit" || n == "_ZSt21ios_base_library_initv" || n == "__cxa_guard_abort") return [](Cpu& c) { c.r[0] = 0; };
  if (n == "__cxa_guard_acquire") return [](Cpu& c) { c.r[0] = !Ld<uint8_t>(c.r[0]); };
  if (n == "__cxa_guard_release") return [](Cpu& c) { St<uint8_t>(c.r[0], 1); };
  if (n == "malloc" || n == "_Znwj" || n == "_Znaj") return [](Cpu& c) { c.r[0] = (uint32_t)(uint64_t)ArenaAlloc(c.r[0]); };
  if (n == "calloc") return [](Cpu& c) { const uint64_t b = (uint64_t)c.r[0] * c.r[1]; void* p = ArenaAlloc(b); if (p) memset(p, 0, b); c.r[0] = (uint32_t)(uint64_t)p; };
  if (n == "aligned_alloc" || n == "memalign") return [](Cpu& c) { if (c.r[0] > 16) Die("aligned_alloc"); c.r[0] = (uint32_t)(uint64_t)ArenaAlloc(c.r[1]); };
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvj" || n == "_ZdaPvj") return [](Cpu& c) { ArenaFree(c.r[0]); };
  if (n == "memcpy" || n == "memmove" || n == "__aeabi_memcpy" || n == "__aeabi_memmove" || n == "__aeabi_memcpy4" || n == "__aeabi_memcpy8" || n == "__aeabi_memmove4" || n == "__aeabi_memmove8")
    return [](Cpu& c) { Copy(c.r[0], c.r[1], c.r[2]); };
  if (n == "memset") return [](Cpu& c) { Range(c.r[0], c.r[2], true); if (c.r[2]) memset(P(c.r[0]), (int)c.r[1], c.r[2]); };
  if (n == "__aeabi_memset" || n == "__aeabi_memset4" || n == "__aeabi_memset8") return [](Cpu& c) { Range(c.r[0], c.r[1], true); if (c.r[1]) memset(P(c.r[0]), (int)c.r[2], c.r[1]); };
  if (n == "__aeabi_memclr" || n == "__aeabi_memclr4" || n == "__aeabi_memclr8") return [](Cpu& c) { Range(c.r[0], c.r[1], true); if (c.r[1]) memset(P(c.r[0]), 0, c.r[1]); };
  if (n == "memcmp" || n == "bcmp") return [](Cpu& c) { Range(c.r[0], c.r[2], false), Range(c.r[1], c.r[2], false); c.r[0] = c.r[2] ? (uint32_t)memcmp(P(c.r[0]), P(c.r[1]), c.r[2]) : 0; };
  if (n == "memchr") return [](Cpu& c) { uint32_t k = 0; while (k < c.r[2] && Ld<uint8_t>(c.r[0] + k) != (uint8_t)c.r[1]) ++k; c.r[0] = k < c.r[2] ? c.r[0] + k : 0; };
  if (n == "strlen") return [](Cpu& c) { c.r[0] = (uint32_t)Str(c.r[0]).size(); };
  if (n == "strcmp") return [](Cpu& c) { c.r[0] = (uint32_t)strcmp(Str(c.r[0]).c_str(), Str(c.r[1]).c_str()); };
  if (n == "__isoc23_strtoll" || n == "strtoll") return [](Cpu& c) {
    const std::string s = Str(c.r[0]);
    char* e;
    const long long v = strtoll(s.c_str(), &e, (int)c.r[2]);
    if (c.r[1]) St<uint32_t>(c.r[1], c.r[0] + (uint32_t)(e - s.c_str()));
    PutPair(c, 0, (uint64_t)v);
  };
  if (n == "__aeabi_idiv") return [](Cpu& c) { if (!c.r[1]) Fault("division by zero"); c.r[0] = (uint32_t)((int64_t)(int32_t)c.r[0] / (int32_t)c.r[1]); };
  if (n == "__aeabi_uidiv") return [](Cpu& c) { if (!c.r[1]) Fault("division by zero"); c.r[0] = c.r[0] / c.r[1]; };
  if (n == "__aeabi_idivmod") return [](Cpu& c) { if (!c.r[1]) Fault("division by zero"); const int64_t a = (int32_t)c.r[0], b = (int32_t)c.r[1]; c.r[0] = (uint32_t)(a / b), c.r[1] = (uint32_t)(a % b); };
  if (n == "__aeabi_uidivmod") return [](Cpu& c) { if (!c.r[1]) Fault("division by zero"); const uint32_t a = c.r[0], b = c.r[1]; c.r[0] = a / b, c.r[1] = a % b; };
  if (n == "__aeabi_ldivmod") return [](Cpu& c) { const int64_t a = (int64_t)Pair(c, 0), b = (int64_t)Pair(c, 2); if (!b) Fault("division by zero"); PutPair(c, 0, (uint64_t)(b == -1 ? (int64_t)(0 - (uint64_t)a) : a / b)), PutPair(c, 2, (uint64_t)(b == -1 ? 0 : a % b)); };
  if (n == "__aeabi_uldivmod") return [](Cpu& c) { const uint64_t a = Pair(c, 0), b = Pair(c, 2); if (!b) Fault("division by zero"); PutPair(c, 0, a / b), PutPair(c, 2, a % b); };
  if (n == "__aeabi_lmul") return [](Cpu& c) { PutPair(c, 0, Pair(c, 0) * Pair(c, 2)); };
  if (n == "__aeabi_llsl") return [](Cpu& c) { PutPair(c, 0, c.r[2] < 64 ? Pair(c, 0) << c.r[2] : 0); };
  if (n == "__aeabi_llsr") return [](Cpu& c) { PutPair(c, 0, c.r[2] < 64 ? Pair(c, 0) >> c.r[2] : 0); };
  if (n == "__aeabi_lasr") return [](Cpu& c) { PutPair(c, 0, (uint64_t)((int64_t)Pair(c, 0) >> (c.r[2] < 64 ? c.r[2] : 63))); };
  // (run-time support functions pass floats in core registers)
  const auto f32 = [](float f) { uint32_t u; memcpy(&u, &f, 4); return u; };
  const auto f64 = [](double f) { uint64_t u; memcpy(&u, &f, 8); return u; };
  if (n == "__aeabi_l2f") return [f32](Cpu& c) { c.r[0] = f32((float)(int64_t)Pair(c, 0)); };
  if (n == "__aeabi_ul2f") return [f32](Cpu& c) { c.r[0] = f32((float)Pair(c, 0)); };
  if (n == "__aeabi_l2d") return [f64](Cpu& c) { PutPair(c, 0, f64((double)(int64_t)Pair(c, 0))); };
  if (n == "__aeabi_ul2d") return [f64](Cpu& c) { PutPair(c, 0, f64((double)Pair(c, 0))); };
  if (n == "__aeabi_f2lz") return [](Cpu& c) { float f; memcpy(&f, &c.r[0], 4); PutPair(c, 0, (uint64_t)ToInt<int64_t>(f)); };
  if (n == "__aeabi_d2lz") return [](Cpu& c) { const uint64_t u = Pair(c, 0); double f; memcpy(&f, &u, 8); PutPair(c, 0, (uint64_t)ToInt<int64_t>(f)); };
  if (n == "__aeabi_f2ulz") return [](Cpu& c) { float f; memcpy(&f, &c.r[0], 4); PutPair(c, 0, ToInt<uint64_t>(f)); };
  if (n == "__aeabi_d2ulz") return [](Cpu& c) { const uint64_t u = Pair(c, 0); double f; memcpy(&f, &u, 8); PutPair(c, 0, ToInt<uint64_t>(f)); };
  if (n == "host_report") return [](Cpu& c) { report = Str(c.r[0]); };
  if (n == "fprintf" || n == "printf" || n == "fflush" || n == "puts" || n == "fputs") return [n](Cpu& c) {
    if (n == "fprintf") fprintf(stderr, "a32: %s", Str(c.r[1]).c_str());
    c.r[0] = 0;
  };
  if (n == "abort" || n == "exit" || n == "_exit" || n.compare(0, 10, "_ZSt17__thr") == 0 || n.find("__throw_") != n.npos || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "__stack_chk_fail")
    return [n](Cpu&) { Fault("call of " + n); };
  return [n](Cpu&) { Die("call of the unknown function " + n); };
}
std::vector<Host> host;
Cpu* top = nullptr;
constexpr uint32_t kReturn = 0x7ffffff0;
void Run(Cpu& c) {
  const uint32_t n = code.size() * 4;
  const Insn* const ip = code.data();
  uint64_t count = 0;
  while (c.pc != kReturn) {
    const uint32_t off = c.pc - base;
    if (off >= n || off % 4) Fault("jump to the address " + std::to_string(c.pc));
    const Insn& i = ip[off / 4];
    ++count;
    hit[off / 4] = 1;
    c.next = c.pc + 4;
    if (i.cond == 14 || Cond(c, i.cond)) i.fn(c, i);
    c.pc = c.next;
  }
  executed += count;
}
}  // namespace

void* Alloc(size_t n) { return ArenaAlloc(n); }
void Free(void* p) { ArenaFree((uint64_t)p); }
const char* Report() { return report.c_str(); }
void ClearReport() { report.clear(); }
uint32_t Symbol(const std::string& n) {
  auto it = symbols.find(n);
  if (it == symbols.end()) Die("no symbol " + n);
  return it->second;
}
uint32_t Call(uint32_t f, uint32_t a, uint32_t b, uint32_t d, uint32_t e) {
  static char* stack = nullptr;
  constexpr size_t kStack = 1 << 20;
  if (!stack) {
    stack = (char*)mmap((void*)0x28000000, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (stack != (char*)0x28000000) Die("no stack");
  }
  if (top) Die("nested call");
  Cpu c;
  c.r[0] = a, c.r[1] = b, c.r[2] = d, c.r[3] = e;
  // registers without a meaning hold garbage
  for (int k = 0; k < 256; ++k) c.v[k] = 0xA5 ^ k;
  c.r[12] = 0xDEADBEEF;
  for (int k = 4; k < 12; ++k) c.r[k] = 0x12345000u + k;
  uint8_t kept[64];
  memcpy(kept, c.v + 64, 64);
  const uint32_t sp = (uint32_t)(uint64_t)stack + kStack - 4096;
  c.r[13] = sp, c.r[14] = kReturn, c.pc = f;
  top = &c;
  Run(c);
  top = nullptr;
  // the procedure call standard: callee-saved registers
  if (c.r[13] != sp) Fault("the stack pointer is not restored");
  for (int k = 4; k < 12; ++k) if (c.r[k] != 0x12345000u + k) Fault("callee-saved register r" + std::to_string(k) + " is not restored");
  if (memcmp(kept, c.v + 64, 64)) Fault("a callee-saved register of d8-d15 is not restored");
  return c.r[0];
}
void Load(const std::string& elf, const std::string& listing, const std::string& imports_file) {
  Register();
  const int fd = open(elf.c_str(), O_RDONLY);
  if (fd < 0) Die("no " + elf);
  const size_t size = lseek(fd, 0, SEEK_END);
  const char* img = (const char*)mmap(nullptr, size, PROT_READ, MAP_PRIVATE, fd, 0);
  const auto* eh = (const Elf32_Ehdr*)img;
  const auto* ph = (const Elf32_Phdr*)(img + eh->e_phoff);
  uint64_t lo = ~0ull, hi = 0;
  for (int k = 0; k < eh->e_phnum; ++k)
    if (ph[k].p_type == PT_LOAD) lo = std::min<uint64_t>(lo, ph[k].p_vaddr & ~4095ull), hi = std::max<uint64_t>(hi, ph[k].p_vaddr + ph[k].p_memsz);
  if (mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)lo) Die("the image does not fit");
  for (int k = 0; k < eh->e_phnum; ++k)
    if (ph[k].p_type == PT_LOAD) memcpy((void*)(uint64_t)ph[k].p_vaddr, img + ph[k].p_offset, ph[k].p_filesz);
  const auto* sh = (const Elf32_Shdr*)(img + eh->e_shoff);
  const char* shn = img + sh[eh->e_shstrndx].sh_offset;
  uint32_t init = 0, init_n = 0;
  for (int k = 0; k < eh->e_shnum; ++k) {
    const std::string n = shn + sh[k].sh_name;
    if (n == ".text") base = sh[k].sh_addr, code.resize(sh[k].sh_size / 4), lines.resize(code.size());
    if (n == ".init_array") init = sh[k].sh_addr, init_n = sh[k].sh_size / 4;
    if (sh[k].sh_type == SHT_SYMTAB) {
      const auto* s = (const Elf32_Sym*)(img + sh[k].sh_offset);
      const char* str = img + sh[sh[k].sh_link].sh_offset;
      for (size_t j = 0; j < sh[k].sh_size / sizeof(*s); ++j) symbols[str + s[j].st_name] = s[j].st_value;
    }
  }
  FILE* f = fopen(listing.c_str(), "r");
  if (!f) Die("no " + listing);
  char buf[4096];
  while (fgets(buf, sizeof buf, f)) {
    std::string l = buf;
    const size_t col = l.find(':');
    if (col == l.npos || Trim(l.substr(0, col)).find_first_not_of("0123456789abcdef") != std::string::npos) continue;
    const uint32_t a = (uint32_t)strtoull(l.c_str(), nullptr, 16);
    if (a < base || a >= base + code.size() * 4) continue;
    std::string t = Trim(l.substr(col + 1));
    for (const char* cut : {"@", "//", "<"}) { const size_t p = t.find(cut); if (p != t.npos) t = Trim(t.substr(0, p)); }
    const size_t sp = t.find_first_of(" \t");
    std::string m = t.substr(0, sp);
    Insn& i = code[(a - base) / 4];
    lines[(a - base) / 4] = l;
    i.addr = a;
    // suffixes: types
    size_t dot = m.find('.');
    std::string rest = dot == m.npos ? "" : m.substr(dot);
    m = m.substr(0, dot);
    if (m.empty()) continue;  // (.word)
    int nt = 0;
    while (!rest.empty()) {
      const size_t e = rest.find('.', 1);
      const std::string x = rest.substr(1, e == rest.npos ? e : e - 1);
      if (nt == 2) { i.fn = &Unknown; break; }
      if (isalpha(x[0])) i.t[nt].c = x[0], i.t[nt].bits = atoi(x.c_str() + 1);
      else i.t[nt].bits = atoi(x.c_str());
      ++nt;
      rest = e == rest.npos ? "" : rest.substr(e);
    }
    if (sp != t.npos)
      for (auto& o : Split(t.substr(sp))) {
        if (i.n == 6) { i.fn = &Unknown; break; }
        i.o[i.n++] = Operand(o);
      }
    if (i.fn) continue;
    i.fn = Lookup(m, i);
    if (!i.fn) i.fn = &Unknown;
    for (int k = 0; k < i.n; ++k) if (i.o[k].kind == NONE && m != "dmb" && m != "pld") i.fn = &Unknown;
    if (i.n && i.o[0].kind == PSR && i.o[0].imm) i.fn = &Unknown;
    if (i.fn != &Unknown && i.cond == 14)
      if (Fn q = Fast(i.s ? m.substr(0, m.size() - 1) : m, i)) i.fn = q;
  }
  fclose(f);
  for (size_t k = 0; k < code.size(); ++k) {
    if (!code[k].addr) code[k].addr = base + 4 * k, lines[k] = "nothing at " + std::to_string(base + 4 * k);
    if (!code[k].fn) code[k].fn = &Unknown;
  }
  if (const char* cf = getenv("A32_COV")) {
    const int h = open(cf, O_RDWR | O_CREAT, 0644);
    if (ftruncate(h, code.size())) Die("coverage file");
    hit = (uint8_t*)mmap(nullptr, code.size(), PROT_READ | PROT_WRITE, MAP_SHARED, h, 0);
  } else {
    hit = (uint8_t*)calloc(code.size(), 1);
  }
  // imported functions: one "udf" each, in the order of the file
  f = fopen(imports_file.c_str(), "r");
  if (!f) Die("no " + imports_file);
  while (fgets(buf, sizeof buf, f)) {
    const std::string n = Trim(buf);
    Insn& i = code[(Symbol(n) - base) / 4];
    i.fn = [](Cpu& c, const Insn& i) { host[i.o[0].imm](c), c.next = c.r[14] & ~1u; };
    i.o[0].imm = host.size();
    host.push_back(Resolve(n));
  }
  fclose(f);
  for (uint32_t k = 0; k < init_n; ++k) Call(((uint32_t*)(uint64_t)init)[k]);
}
}  // namespace a32
