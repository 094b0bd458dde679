#include "emu.h"

#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <vector>

namespace a64 {
uint64_t executed = 0;
namespace {
[[noreturn]] void Die(const std::string& s) {
  fprintf(stderr, "a64: %s\n", s.c_str());
  fflush(stderr);
  _exit(77);
}
// ------------------------------------------------------------------ operands
enum Kind : uint8_t { NONE, GPR, FPS, VEC, LANE, IMM, FIMM, SHIFT, MEM, LIST, COND, ADDR };
enum Ext : uint8_t { LSL, LSR, ASR, ROR, MSL, UXTB, UXTH, UXTW, UXTX, SXTB, SXTH, SXTW, SXTX };
constexpr int ZR = 31, SP = 32, DUMMY = 33;
struct Opnd {
  Kind kind = NONE;
  uint8_t reg = 0, sf = 0;        // GPR: number, 64 bit; FPS: number, bytes
  uint8_t esize = 0, lanes = 0;   // vectors: bytes of an element, number of elements
  uint8_t lane = 0, n = 0;        // LANE/LIST: lane, registers in the list
  bool has_lane = false, pre = false, is_reg_offset = false;
  uint8_t index = 0;              // MEM: index register
  Ext ext = LSL;
  uint8_t amount = 0, index_sf = 1;
  int64_t imm = 0;
  double f = 0;
};
struct V { alignas(16) uint8_t b[16]; };
struct Insn;
struct Cpu {
  uint64_t x[34] = {};
  V v[32] = {};
  bool N = false, Z = false, C = false, O = false;
  uint64_t pc = 0, next = 0;
};
using Fn = void (*)(Cpu&, const Insn&);
struct Insn {
  Fn fn = nullptr;
  Opnd o[5];
  uint8_t n = 0, sf = 0, cond = 0;
  uint64_t addr = 0;
  uint16_t name = 0;
};
std::vector<Insn> code;
uint64_t base = 0;
std::vector<std::string> names;
std::map<std::string, uint16_t> name_of;
std::vector<uint8_t> seen;
uint8_t* hit = nullptr;  // per instruction; A64_COV names a file to keep it in
std::map<std::string, uint64_t> symbols;
std::string text_of(const Insn& i);

// ------------------------------------------------------------------- helpers
// The interpreter itself is not instrumented: it asks AddressSanitizer's shadow
// memory about every access of the program.
extern "C" void* __asan_region_is_poisoned(void*, size_t);
extern "C" void __asan_report_load_n(uint64_t, size_t);
extern "C" void __asan_report_store_n(uint64_t, size_t);
inline void Access(uint64_t a, size_t n, bool store) {
  const auto shadow = [](uint64_t p) { return *(const int8_t*)((p >> 3) + 0x7fff8000); };
  if (!shadow(a) && !shadow(a + n - 1)) return;
  if (!__asan_region_is_poisoned((void*)a, n)) return;
  store ? __asan_report_store_n(a, n) : __asan_report_load_n(a, n);
}
template <class T> inline T Ld(uint64_t a) { Access(a, sizeof(T), false); T t; memcpy(&t, (void*)a, sizeof t); return t; }
template <class T> inline void St(uint64_t a, T t) { Access(a, sizeof(T), true); memcpy((void*)a, &t, sizeof t); }
inline void Put(Cpu& c, const Opnd& o, uint64_t v) {
  if (o.reg == ZR) return;
  c.x[o.reg] = o.sf ? v : (uint32_t)v;
}
inline uint64_t Reg(const Cpu& c, const Opnd& o) { return o.sf ? c.x[o.reg] : (uint32_t)c.x[o.reg]; }
inline uint64_t Extend(uint64_t v, Ext e, int amount, bool sf) {
  switch (e) {
    case LSL: return v << amount;
    case LSR: return sf ? v >> amount : (uint32_t)v >> amount;
    case ASR: return sf ? (uint64_t)((int64_t)v >> amount) : (uint32_t)((int32_t)v >> amount);
    case ROR: return !amount ? v : sf ? (v >> amount) | (v << (64 - amount)) : (uint32_t)(((uint32_t)v >> amount) | ((uint32_t)v << (32 - amount)));
    case UXTB: return (uint64_t)(uint8_t)v << amount;
    case UXTH: return (uint64_t)(uint16_t)v << amount;
    case UXTW: return (uint64_t)(uint32_t)v << amount;
    case SXTB: return (uint64_t)(int64_t)(int8_t)v << amount;
    case SXTH: return (uint64_t)(int64_t)(int16_t)v << amount;
    case SXTW: return (uint64_t)(int64_t)(int32_t)v << amount;
    case UXTX: case SXTX: return v << amount;
    default: Die("extension");
  }
}
// operand k of an arithmetic or logical instruction, with the shift behind it
inline uint64_t Src(const Cpu& c, const Insn& i, int k) {
  const Opnd& o = i.o[k];
  uint64_t v = o.kind == IMM ? (uint64_t)o.imm : Reg(c, o);
  if (k + 1 < i.n && i.o[k + 1].kind == SHIFT) v = Extend(v, i.o[k + 1].ext, i.o[k + 1].amount, i.sf);
  return i.sf ? v : (uint32_t)v;
}
inline bool Cond(const Cpu& c, uint8_t k) {
  switch (k) {
    case 0: return c.Z;
    case 1: return !c.Z;
    case 2: return c.C;
    case 3: return !c.C;
    case 4: return c.N;
    case 5: return !c.N;
    case 6: return c.O;
    case 7: return !c.O;
    case 8: return c.C && !c.Z;
    case 9: return !(c.C && !c.Z);
    case 10: return c.N == c.O;
    case 11: return c.N != c.O;
    case 12: return !c.Z && c.N == c.O;
    case 13: return !(!c.Z && c.N == c.O);
    default: return true;
  }
}
inline uint64_t AddFlags(Cpu& c, uint64_t a, uint64_t b, bool carry, bool sf) {
  if (sf) {
    const unsigned __int128 u = (unsigned __int128)a + b + carry;
    const __int128 s = (__int128)(int64_t)a + (int64_t)b + carry;
    const uint64_t r = (uint64_t)u;
    c.N = r >> 63, c.Z = !r, c.C = (u >> 64) != 0, c.O = s != (int64_t)r;
    return r;
  }
  const uint64_t u = (uint64_t)(uint32_t)a + (uint32_t)b + carry;
  const int64_t s = (int64_t)(int32_t)a + (int32_t)b + carry;
  const uint32_t r = (uint32_t)u;
  c.N = r >> 31, c.Z = !r, c.C = u >> 32, c.O = s != (int32_t)r;
  return r;
}
inline void LogicFlags(Cpu& c, uint64_t r, bool sf) {
  c.N = sf ? r >> 63 : (r >> 31) & 1, c.Z = sf ? !r : !(uint32_t)r, c.C = c.O = false;
}
// the effective address, with write-back
inline uint64_t Addr(Cpu& c, const Insn& i, int k) {
  const Opnd& m = i.o[k];
  const uint64_t b = c.x[m.reg];
  if (m.is_reg_offset) return b + Extend(m.index_sf ? c.x[m.index] : (uint32_t)c.x[m.index], m.ext, m.amount, true);
  if (k + 1 < i.n) {  // post-index
    const Opnd& p = i.o[k + 1];
    c.x[m.reg] = b + (p.kind == IMM ? (uint64_t)p.imm : c.x[p.reg]);
    return b;
  }
  const uint64_t a = b + m.imm;
  if (m.pre) c.x[m.reg] = a;
  return a;
}
inline void Clear(V& v) { memset(v.b, 0, 16); }
template <class T> inline T El(const V& v, int i) { T t; memcpy(&t, v.b + i * sizeof(T), sizeof(T)); return t; }
template <class T> inline void SetEl(V& v, int i, T t) { memcpy(v.b + i * sizeof(T), &t, sizeof(T)); }
template <class T> inline T Fp(const Cpu& c, const Opnd& o) { return El<T>(c.v[o.reg], 0); }
template <class T> inline void PutFp(Cpu& c, const Opnd& o, T t) { V r; Clear(r); SetEl(r, 0, t); c.v[o.reg] = r; }
template <class T, class F> T ToInt(F f) {  // already rounded
  if (f != f) return 0;
  if (f >= -(F)std::numeric_limits<T>::min() && std::is_signed<T>::value) return std::numeric_limits<T>::max();
  if (std::is_signed<T>::value && f <= (F)std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  if (!std::is_signed<T>::value) {
    if (f <= 0) return 0;
    if (f >= std::ldexp((F)1, sizeof(T) * 8)) return std::numeric_limits<T>::max();
  }
  return (T)f;
}
template <class F> F Round(F f, char mode) {
  switch (mode) {
    case 'n': return std::nearbyint(f);
    case 'a': return std::round(f);
    case 'm': return std::floor(f);
    case 'p': return std::ceil(f);
    case 'z': return std::trunc(f);
    default: return std::nearbyint(f);
  }
}
template <class F> F FMax(F a, F b) { return a != a ? a : b != b ? b : a > b ? a : b > a ? b : std::signbit(a) ? b : a; }
template <class F> F FMin(F a, F b) { return a != a ? a : b != b ? b : a < b ? a : b < a ? b : std::signbit(a) ? a : b; }
template <class T> T Sat(__int128 v) { return v > std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : v < std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : (T)v; }
template <class F> void Cmp(Cpu& c, F a, F b) {
  if (a != a || b != b) c.N = false, c.Z = false, c.C = true, c.O = true;
  else c.N = a < b, c.Z = a == b, c.C = a >= b, c.O = false;
}
// element-wise, for each element type
#define BYSIZE(o, T, ...)                                              \
  switch ((o).esize) {                                                 \
    case 1: { using T = int8_t; using U##T = uint8_t; (void)sizeof(U##T); __VA_ARGS__; break; }    \
    case 2: { using T = int16_t; using U##T = uint16_t; (void)sizeof(U##T); __VA_ARGS__; break; }  \
    case 4: { using T = int32_t; using U##T = uint32_t; (void)sizeof(U##T); __VA_ARGS__; break; }  \
    default: { using T = int64_t; using U##T = uint64_t; (void)sizeof(U##T); __VA_ARGS__; break; } \
  }
#define BYFLOAT(o, T, ...)                                \
  if ((o).esize == 4) { using T = float; __VA_ARGS__; }   \
  else { using T = double; __VA_ARGS__; }
template <class T, class G> inline void Map2(Cpu& c, const Insn& i, G g) {
  V r;
  Clear(r);
  const V &a = c.v[i.o[1].reg], &b = c.v[i.o[2].reg];
  const int n = i.o[0].lanes;
  if (i.o[2].kind == LANE) { const T y = El<T>(b, i.o[2].lane); for (int k = 0; k < n; ++k) SetEl<T>(r, k, g(El<T>(a, k), y)); }
  else for (int k = 0; k < n; ++k) SetEl<T>(r, k, g(El<T>(a, k), El<T>(b, k)));
  c.v[i.o[0].reg] = r;
}
template <class T, class G> inline void Map1(Cpu& c, const Insn& i, G g) {
  V r;
  Clear(r);
  const V& a = c.v[i.o[1].reg];
  for (int k = 0; k < i.o[0].lanes; ++k) SetEl<T>(r, k, g(El<T>(a, k)));
  c.v[i.o[0].reg] = r;
}
template <class T, class G> inline void Map3(Cpu& c, const Insn& i, G g) {  // the destination is an operand
  V r;
  Clear(r);
  const V &d = c.v[i.o[0].reg], &a = c.v[i.o[1].reg], &b = c.v[i.o[2].reg];
  for (int k = 0; k < i.o[0].lanes; ++k) SetEl<T>(r, k, g(El<T>(d, k), El<T>(a, k), El<T>(b, i.o[2].kind == LANE ? i.o[2].lane : k)));
  c.v[i.o[0].reg] = r;
}
inline void Bits(Cpu& c, const Insn& i, const std::function<uint64_t(uint64_t, uint64_t, uint64_t)>& g) {
  V r;
  Clear(r);
  for (int k = 0; k < i.o[0].esize * i.o[0].lanes / 8; ++k) SetEl<uint64_t>(r, k, g(El<uint64_t>(c.v[i.o[0].reg], k), El<uint64_t>(c.v[i.o[1].reg], k), El<uint64_t>(c.v[i.o[2].reg], k)));
  c.v[i.o[0].reg] = r;
}
inline bool IsVec(const Insn& i) { return i.o[0].kind == VEC; }
// vector instruction on a scalar register (e.g. "add d0, d1, d2")
inline bool IsScalarFp(const Insn& i) { return i.o[0].kind == FPS; }

// ------------------------------------------------------------------ handlers
std::map<std::string, Fn> table;
#define I(name) table[name] = [](Cpu & c, const Insn& i)
template <class T> void LoadTo(Cpu& c, const Insn& i) { const uint64_t a = Addr(c, i, 1); Put(c, i.o[0], (uint64_t)(int64_t)Ld<T>(a)); }
template <class T> void StoreFrom(Cpu& c, const Insn& i) { const T t = (T)Reg(c, i.o[0]); St<T>(Addr(c, i, 1), t); }
void LoadFp(Cpu& c, const Opnd& o, uint64_t a) {
  V r;
  Clear(r);
  switch (o.sf) {
    case 1: SetEl(r, 0, Ld<uint8_t>(a)); break;
    case 2: SetEl(r, 0, Ld<uint16_t>(a)); break;
    case 4: SetEl(r, 0, Ld<uint32_t>(a)); break;
    case 8: SetEl(r, 0, Ld<uint64_t>(a)); break;
    default: SetEl(r, 0, Ld<uint64_t>(a)), SetEl(r, 1, Ld<uint64_t>(a + 8));
  }
  c.v[o.reg] = r;
}
void StoreFp(Cpu& c, const Opnd& o, uint64_t a) {
  const V& r = c.v[o.reg];
  switch (o.sf) {
    case 1: St(a, El<uint8_t>(r, 0)); break;
    case 2: St(a, El<uint16_t>(r, 0)); break;
    case 4: St(a, El<uint32_t>(r, 0)); break;
    case 8: St(a, El<uint64_t>(r, 0)); break;
    default: St(a, El<uint64_t>(r, 0)), St(a + 8, El<uint64_t>(r, 1));
  }
}
template <class W, class N> void Widen(Cpu& c, const Insn& i, int sh, bool high) {
  V r;
  const int n = 16 / sizeof(W);
  for (int k = 0; k < n; ++k) SetEl<W>(r, k, (W)((W)El<N>(c.v[i.o[1].reg], k + (high ? n : 0)) << sh));
  c.v[i.o[0].reg] = r;
}
template <class W, class N, class G> void Narrow(Cpu& c, const Insn& i, bool high, G g) {
  V r = c.v[i.o[0].reg];
  const int n = 16 / sizeof(W);
  V s = c.v[i.o[1].reg];
  if (!high) Clear(r);
  for (int k = 0; k < n; ++k) SetEl<N>(r, k + (high ? n : 0), g(El<W>(s, k)));
  c.v[i.o[0].reg] = r;
}
template <class W, class N> void PairLong(Cpu& c, const Insn& i, bool accumulate) {
  V r;
  Clear(r);
  const V& a = c.v[i.o[1].reg];
  for (int k = 0; k < i.o[0].lanes; ++k) SetEl<W>(r, k, (W)((accumulate ? El<W>(c.v[i.o[0].reg], k) : 0) + (W)El<N>(a, 2 * k) + (W)El<N>(a, 2 * k + 1)));
  c.v[i.o[0].reg] = r;
}
template <class W, class N> void Across(Cpu& c, const Insn& i) {
  W s = 0;
  for (int k = 0; k < i.o[1].lanes; ++k) s += (W)El<N>(c.v[i.o[1].reg], k);
  PutFp<W>(c, i.o[0], s);
}
// { v0.4s, ... }[lane], memory
void LoadStore(Cpu& c, const Insn& i, int structs, bool store, bool replicate) {
  const Opnd& l = i.o[0];
  const uint64_t a = Addr(c, i, 1);
  const int e = l.esize;
  Access(a, e * l.n * (l.has_lane || replicate ? 1 : l.lanes), store);
  if (l.has_lane) {
    for (int r = 0; r < l.n; ++r)
      if (store) memcpy((void*)(a + r * e), c.v[(l.reg + r) & 31].b + l.lane * e, e);
      else memcpy(c.v[(l.reg + r) & 31].b + l.lane * e, (void*)(a + r * e), e);
    return;
  }
  if (replicate) {
    for (int r = 0; r < l.n; ++r) {
      V t;
      Clear(t);
      for (int k = 0; k < l.lanes; ++k) memcpy(t.b + k * e, (void*)(a + r * e), e);
      c.v[(l.reg + r) & 31] = t;
    }
    return;
  }
  for (int r = 0; r < l.n; ++r) {
    V& v = c.v[(l.reg + r) & 31];
    if (!store) Clear(v);
    for (int k = 0; k < l.lanes; ++k) {
      const uint64_t p = a + (structs == 1 ? (r * l.lanes + k) : (k * l.n + r)) * e;
      if (store) memcpy((void*)p, v.b + k * e, e);
      else memcpy(v.b + k * e, (void*)p, e);
    }
  }
}
int64_t ModImm(const Insn& i) {
  uint64_t v = (uint64_t)i.o[1].imm;
  if (i.n > 2) {
    if (i.o[2].ext == MSL) v = (v << i.o[2].amount) | ((1ull << i.o[2].amount) - 1);
    else v <<= i.o[2].amount;
  }
  return (int64_t)v;
}
template <class F> void FArith(Cpu& c, const Insn& i, F (*g)(F, F)) {
  if (IsVec(i)) Map2<F>(c, i, g);
  else PutFp<F>(c, i.o[0], g(Fp<F>(c, i.o[1]), Fp<F>(c, i.o[2])));
}
bool IsDouble(const Opnd& o) { return o.kind == FPS ? o.sf == 8 : o.esize == 8; }
#define FBIN(name, expr)                                                                              \
  I(name) {                                                                                           \
    if (i.o[2].kind == LANE && i.o[0].kind == FPS) {                                                  \
      if (IsDouble(i.o[0])) { using F = double; F a = Fp<F>(c, i.o[1]), b = El<F>(c.v[i.o[2].reg], i.o[2].lane); PutFp<F>(c, i.o[0], (F)(expr)); } \
      else { using F = float; F a = Fp<F>(c, i.o[1]), b = El<F>(c.v[i.o[2].reg], i.o[2].lane); PutFp<F>(c, i.o[0], (F)(expr)); } \
      return;                                                                                         \
    }                                                                                                 \
    if (IsDouble(i.o[0])) FArith<double>(c, i, [](double a, double b) -> double { using F = double; return (F)(expr); });  \
    else FArith<float>(c, i, [](float a, float b) -> float { using F = float; return (F)(expr); });                        \
  }
#define FUN(name, expr)                                                                               \
  I(name) {                                                                                           \
    if (IsDouble(i.o[0])) { using F = double; auto g = [](F a) -> F { return expr; }; if (IsVec(i)) Map1<F>(c, i, g); else PutFp<F>(c, i.o[0], g(Fp<F>(c, i.o[1]))); } \
    else { using F = float; auto g = [](F a) -> F { return expr; }; if (IsVec(i)) Map1<F>(c, i, g); else PutFp<F>(c, i.o[0], g(Fp<F>(c, i.o[1]))); }                   \
  }
template <char M, bool S> void FCvtInt(Cpu& c, const Insn& i) {
  const Opnd &d = i.o[0], &s = i.o[1];
  if (d.kind == GPR) {
    if (s.sf == 8) { const double f = Round(Fp<double>(c, s), M); Put(c, d, S ? d.sf ? (uint64_t)ToInt<int64_t>(f) : (uint32_t)ToInt<int32_t>(f) : d.sf ? ToInt<uint64_t>(f) : ToInt<uint32_t>(f)); }
    else { const float f = Round(Fp<float>(c, s), M); Put(c, d, S ? d.sf ? (uint64_t)ToInt<int64_t>(f) : (uint32_t)ToInt<int32_t>(f) : d.sf ? ToInt<uint64_t>(f) : ToInt<uint32_t>(f)); }
    return;
  }
  V r;
  Clear(r);
  const int n = d.kind == VEC ? d.lanes : 1;
  const bool dbl = IsDouble(d);
  for (int k = 0; k < n; ++k) {
    if (dbl) { const double f = Round(El<double>(c.v[s.reg], k), M); if (S) SetEl<int64_t>(r, k, ToInt<int64_t>(f)); else SetEl<uint64_t>(r, k, ToInt<uint64_t>(f)); }
    else { const float f = Round(El<float>(c.v[s.reg], k), M); if (S) SetEl<int32_t>(r, k, ToInt<int32_t>(f)); else SetEl<uint32_t>(r, k, ToInt<uint32_t>(f)); }
  }
  c.v[d.reg] = r;
}
template <bool S> void CvtF(Cpu& c, const Insn& i) {
  const Opnd &d = i.o[0], &s = i.o[1];
  if (i.n > 2) Die("fixed-point conversion");
  if (s.kind == GPR) {
    const uint64_t v = Reg(c, s);
    if (d.sf == 8) PutFp<double>(c, d, S ? s.sf ? (double)(int64_t)v : (double)(int32_t)v : (double)v);
    else PutFp<float>(c, d, S ? s.sf ? (float)(int64_t)v : (float)(int32_t)v : (float)v);
    return;
  }
  V r;
  Clear(r);
  const int n = d.kind == VEC ? d.lanes : 1;
  for (int k = 0; k < n; ++k)
    if (IsDouble(d)) SetEl<double>(r, k, S ? (double)El<int64_t>(c.v[s.reg], k) : (double)El<uint64_t>(c.v[s.reg], k));
    else SetEl<float>(r, k, S ? (float)El<int32_t>(c.v[s.reg], k) : (float)El<uint32_t>(c.v[s.reg], k));
  c.v[d.reg] = r;
}
// integer, on vectors or on a d register
#define VBIN(name, expr)                                                           \
  I(name) {                                                                        \
    Insn j = i;                                                                    \
    if (IsScalarFp(i)) j.o[0].esize = i.o[0].sf, j.o[0].lanes = 1;                 \
    BYSIZE(j.o[0], T, Map2<T>(c, j, [](T a, T b) -> T { return (T)(expr); }))      \
  }
void VecAdd(Cpu& c, const Insn& i) { BYSIZE(i.o[0], T, Map2<T>(c, i, [](T a, T b) -> T { return (T)((UT)a + (UT)b); })) }
void VecSub(Cpu& c, const Insn& i) { BYSIZE(i.o[0], T, Map2<T>(c, i, [](T a, T b) -> T { return (T)((UT)a - (UT)b); })) }
template <bool S> void LongOp(Cpu& c, const Insn& i, bool high, bool wide, bool sub, bool mul, bool acc) {
  V r;
  Clear(r);
  const Opnd& d = i.o[0];
  const int n = d.lanes, off = high ? n : 0;
  auto get = [&](const V& v, int k, int e) -> int64_t {
    switch (e) {
      case 1: return S ? El<int8_t>(v, k) : El<uint8_t>(v, k);
      case 2: return S ? El<int16_t>(v, k) : El<uint16_t>(v, k);
      case 4: return S ? El<int32_t>(v, k) : (int64_t)El<uint32_t>(v, k);
      default: return El<int64_t>(v, k);
    }
  };
  for (int k = 0; k < n; ++k) {
    const int64_t a = wide ? get(c.v[i.o[1].reg], k, d.esize) : get(c.v[i.o[1].reg], k + off, d.esize / 2);
    const int64_t b = i.o[2].kind == LANE ? get(c.v[i.o[2].reg], i.o[2].lane, d.esize / 2) : get(c.v[i.o[2].reg], k + off, d.esize / 2);
    uint64_t x = mul ? (uint64_t)a * b : sub ? (uint64_t)a - b : (uint64_t)a + b;
    if (acc) x = get(c.v[d.reg], k, d.esize) + (sub && mul ? -x : x);
    memcpy(r.b + k * d.esize, &x, d.esize);
  }
  c.v[d.reg] = r;
}
void Register() {
  // --- integer arithmetic
  I("add") {
    if (IsVec(i)) return VecAdd(c, i);
    if (IsScalarFp(i)) return PutFp<uint64_t>(c, i.o[0], Fp<uint64_t>(c, i.o[1]) + Fp<uint64_t>(c, i.o[2]));
    Put(c, i.o[0], Reg(c, i.o[1]) + Src(c, i, 2));
  };
  I("sub") {
    if (IsVec(i)) return VecSub(c, i);
    if (IsScalarFp(i)) return PutFp<uint64_t>(c, i.o[0], Fp<uint64_t>(c, i.o[1]) - Fp<uint64_t>(c, i.o[2]));
    Put(c, i.o[0], Reg(c, i.o[1]) - Src(c, i, 2));
  };
  I("adds") { Put(c, i.o[0], AddFlags(c, Reg(c, i.o[1]), Src(c, i, 2), false, i.sf)); };
  I("subs") { Put(c, i.o[0], AddFlags(c, Reg(c, i.o[1]), ~Src(c, i, 2), true, i.sf)); };
  I("cmn") { AddFlags(c, Reg(c, i.o[0]), Src(c, i, 1), false, i.sf); };
  I("cmp") { AddFlags(c, Reg(c, i.o[0]), ~Src(c, i, 1), true, i.sf); };
  I("neg") {
    if (IsVec(i)) { BYSIZE(i.o[0], T, Map1<T>(c, i, [](T a) -> T { return (T)(0 - (UT)a); })) return; }
    Put(c, i.o[0], 0 - Src(c, i, 1));
  };
  I("negs") { Put(c, i.o[0], AddFlags(c, 0, ~Src(c, i, 1), true, i.sf)); };
  I("adc") { Put(c, i.o[0], Reg(c, i.o[1]) + Reg(c, i.o[2]) + c.C); };
  I("sbc") { Put(c, i.o[0], Reg(c, i.o[1]) - Reg(c, i.o[2]) - !c.C); };
  I("and") { if (IsVec(i)) return Bits(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a & b; }); Put(c, i.o[0], Reg(c, i.o[1]) & Src(c, i, 2)); };
  I("ands") { const uint64_t r = Reg(c, i.o[1]) & Src(c, i, 2); LogicFlags(c, r, i.sf), Put(c, i.o[0], r); };
  I("bics") { const uint64_t r = Reg(c, i.o[1]) & ~Src(c, i, 2); LogicFlags(c, r, i.sf), Put(c, i.o[0], r); };
  I("tst") { LogicFlags(c, Reg(c, i.o[0]) & Src(c, i, 1), i.sf); };
  I("orr") {
    if (IsVec(i) && i.o[1].kind == IMM) {
      const int64_t m = ModImm(i);
      BYSIZE(i.o[0], T, for (int k = 0; k < i.o[0].lanes; ++k) SetEl<T>(c.v[i.o[0].reg], k, El<T>(c.v[i.o[0].reg], k) | (T)m))
      if (i.o[0].lanes * i.o[0].esize == 8) SetEl<uint64_t>(c.v[i.o[0].reg], 1, 0);
      return;
    }
    if (IsVec(i)) return Bits(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a | b; });
    Put(c, i.o[0], Reg(c, i.o[1]) | Src(c, i, 2));
  };
  I("orn") { if (IsVec(i)) return Bits(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a | ~b; }); Put(c, i.o[0], Reg(c, i.o[1]) | ~Src(c, i, 2)); };
  I("eor") { if (IsVec(i)) return Bits(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a ^ b; }); Put(c, i.o[0], Reg(c, i.o[1]) ^ Src(c, i, 2)); };
  I("eon") { Put(c, i.o[0], Reg(c, i.o[1]) ^ ~Src(c, i, 2)); };
  I("bic") {
    if (IsVec(i) && i.o[1].kind == IMM) {
      const int64_t m = ModImm(i);
      BYSIZE(i.o[0], T, for (int k = 0; k < i.o[0].lanes; ++k) SetEl<T>(c.v[i.o[0].reg], k, El<T>(c.v[i.o[0].reg], k) & ~(T)m))
      if (i.o[0].lanes * i.o[0].esize == 8) SetEl<uint64_t>(c.v[i.o[0].reg], 1, 0);
      return;
    }
    if (IsVec(i)) return Bits(c, i, [](uint64_t, uint64_t a, uint64_t b) { return a & ~b; });
    Put(c, i.o[0], Reg(c, i.o[1]) & ~Src(c, i, 2));
  };
  I("bsl") { Bits(c, i, [](uint64_t d, uint64_t a, uint64_t b) { return (d & a) | (~d & b); }); };
  I("bit") { Bits(c, i, [](uint64_t d, uint64_t a, uint64_t b) { return (b & a) | (~b & d); }); };
  I("bif") { Bits(c, i, [](uint64_t d, uint64_t a, uint64_t b) { return (b & d) | (~b & a); }); };
  I("mvn") {
    if (IsVec(i)) { BYSIZE(i.o[0], T, Map1<T>(c, i, [](T a) -> T { return (T)~a; })) return; }
    Put(c, i.o[0], ~Src(c, i, 1));
  };
  I("not") { BYSIZE(i.o[0], T, Map1<T>(c, i, [](T a) -> T { return (T)~a; })) };
  I("mov") {
    const Opnd &d = i.o[0], &s = i.o[1];
    if (d.kind == GPR && s.kind == IMM) return Put(c, d, (uint64_t)s.imm);
    if (d.kind == GPR && s.kind == GPR) return Put(c, d, Reg(c, s));
    if (d.kind == GPR && s.kind == LANE) { uint64_t t = 0; memcpy(&t, c.v[s.reg].b + s.lane * s.esize, s.esize); return Put(c, d, t); }
    if (d.kind == VEC && s.kind == VEC) { V t = c.v[s.reg]; if (d.esize * d.lanes == 8) SetEl<uint64_t>(t, 1, 0); c.v[d.reg] = t; return; }
    if (d.kind == LANE && s.kind == LANE) { V t = c.v[s.reg]; memcpy(c.v[d.reg].b + d.lane * d.esize, t.b + s.lane * s.esize, d.esize); return; }
    if (d.kind == LANE && s.kind == GPR) { const uint64_t t = Reg(c, s); memcpy(c.v[d.reg].b + d.lane * d.esize, &t, d.esize); return; }
    if (d.kind == FPS && s.kind == LANE) { V t; Clear(t); memcpy(t.b, c.v[s.reg].b + s.lane * s.esize, s.esize); c.v[d.reg] = t; return; }
    Die("mov: " + text_of(i));
  };
  I("umov") { uint64_t t = 0; memcpy(&t, c.v[i.o[1].reg].b + i.o[1].lane * i.o[1].esize, i.o[1].esize); Put(c, i.o[0], t); };
  I("smov") { int64_t t = 0; const Opnd& s = i.o[1]; BYSIZE(s, T, t = El<T>(c.v[s.reg], s.lane)) Put(c, i.o[0], (uint64_t)t); };
  I("movz") { Put(c, i.o[0], Src(c, i, 1)); };
  I("movn") { Put(c, i.o[0], ~Src(c, i, 1)); };
  I("movk") { const int s = i.n > 2 ? i.o[2].amount : 0; Put(c, i.o[0], (Reg(c, i.o[0]) & ~(0xFFFFull << s)) | ((uint64_t)i.o[1].imm << s)); };
  I("lsl") { const int m = i.sf ? 63 : 31; Put(c, i.o[0], Extend(Reg(c, i.o[1]), LSL, (i.o[2].kind == IMM ? i.o[2].imm : Reg(c, i.o[2])) & m, i.sf)); };
  I("lsr") { const int m = i.sf ? 63 : 31; Put(c, i.o[0], Extend(Reg(c, i.o[1]), LSR, (i.o[2].kind == IMM ? i.o[2].imm : Reg(c, i.o[2])) & m, i.sf)); };
  I("asr") { const int m = i.sf ? 63 : 31; Put(c, i.o[0], Extend(Reg(c, i.o[1]), ASR, (i.o[2].kind == IMM ? i.o[2].imm : Reg(c, i.o[2])) & m, i.sf)); };
  I("ror") { const int m = i.sf ? 63 : 31; Put(c, i.o[0], Extend(Reg(c, i.o[1]), ROR, (i.o[2].kind == IMM ? i.o[2].imm : Reg(c, i.o[2])) & m, i.sf)); };
  I("extr") { const int s = i.o[3].imm, w = i.sf ? 64 : 32; Put(c, i.o[0], s ? (Reg(c, i.o[2]) >> s) | (Reg(c, i.o[1]) << (w - s)) : Reg(c, i.o[2])); };
  I("madd") { Put(c, i.o[0], Reg(c, i.o[1]) * Reg(c, i.o[2]) + Reg(c, i.o[3])); };
  I("msub") { Put(c, i.o[0], Reg(c, i.o[3]) - Reg(c, i.o[1]) * Reg(c, i.o[2])); };
  I("mul") {
    if (IsVec(i)) { BYSIZE(i.o[0], T, Map2<T>(c, i, [](T a, T b) -> T { return (T)((uint64_t)a * (uint64_t)b); })) return; }
    Put(c, i.o[0], Reg(c, i.o[1]) * Reg(c, i.o[2]));
  };
  I("mneg") { Put(c, i.o[0], 0 - Reg(c, i.o[1]) * Reg(c, i.o[2])); };
  I("smaddl") { Put(c, i.o[0], Reg(c, i.o[3]) + (int64_t)(int32_t)c.x[i.o[1].reg] * (int32_t)c.x[i.o[2].reg]); };
  I("umaddl") { Put(c, i.o[0], Reg(c, i.o[3]) + (uint64_t)(uint32_t)c.x[i.o[1].reg] * (uint32_t)c.x[i.o[2].reg]); };
  I("smsubl") { Put(c, i.o[0], Reg(c, i.o[3]) - (int64_t)(int32_t)c.x[i.o[1].reg] * (int32_t)c.x[i.o[2].reg]); };
  I("umsubl") { Put(c, i.o[0], Reg(c, i.o[3]) - (uint64_t)(uint32_t)c.x[i.o[1].reg] * (uint32_t)c.x[i.o[2].reg]); };
  I("smull") { if (IsVec(i)) return LongOp<true>(c, i, false, false, false, true, false); Put(c, i.o[0], (int64_t)(int32_t)c.x[i.o[1].reg] * (int32_t)c.x[i.o[2].reg]); };
  I("umull") { if (IsVec(i)) return LongOp<false>(c, i, false, false, false, true, false); Put(c, i.o[0], (uint64_t)(uint32_t)c.x[i.o[1].reg] * (uint32_t)c.x[i.o[2].reg]); };
  I("smnegl") { Put(c, i.o[0], 0 - (int64_t)(int32_t)c.x[i.o[1].reg] * (int32_t)c.x[i.o[2].reg]); };
  I("smulh") { Put(c, i.o[0], (uint64_t)(((__int128)(int64_t)c.x[i.o[1].reg] * (int64_t)c.x[i.o[2].reg]) >> 64)); };
  I("umulh") { Put(c, i.o[0], (uint64_t)(((unsigned __int128)c.x[i.o[1].reg] * c.x[i.o[2].reg]) >> 64)); };
  I("sdiv") {
    if (i.sf) { const int64_t a = c.x[i.o[1].reg], b = c.x[i.o[2].reg]; Put(c, i.o[0], b == 0 ? 0 : b == -1 ? 0 - (uint64_t)a : (uint64_t)(a / b)); }
    else { const int32_t a = c.x[i.o[1].reg], b = c.x[i.o[2].reg]; Put(c, i.o[0], b == 0 ? 0 : b == -1 ? 0u - (uint32_t)a : (uint32_t)(a / b)); }
  };
  I("udiv") { const uint64_t a = Reg(c, i.o[1]), b = Reg(c, i.o[2]); Put(c, i.o[0], b ? a / b : 0); };
  I("csel") { Put(c, i.o[0], Cond(c, i.cond) ? Reg(c, i.o[1]) : Reg(c, i.o[2])); };
  I("csinc") { Put(c, i.o[0], Cond(c, i.cond) ? Reg(c, i.o[1]) : Reg(c, i.o[2]) + 1); };
  I("csinv") { Put(c, i.o[0], Cond(c, i.cond) ? Reg(c, i.o[1]) : ~Reg(c, i.o[2])); };
  I("csneg") { Put(c, i.o[0], Cond(c, i.cond) ? Reg(c, i.o[1]) : 0 - Reg(c, i.o[2])); };
  I("cset") { Put(c, i.o[0], Cond(c, i.cond)); };
  I("csetm") { Put(c, i.o[0], Cond(c, i.cond) ? ~0ull : 0); };
  I("cinc") { Put(c, i.o[0], Reg(c, i.o[1]) + Cond(c, i.cond)); };
  I("cinv") { Put(c, i.o[0], Cond(c, i.cond) ? ~Reg(c, i.o[1]) : Reg(c, i.o[1])); };
  I("cneg") { Put(c, i.o[0], Cond(c, i.cond) ? 0 - Reg(c, i.o[1]) : Reg(c, i.o[1])); };
  I("ccmp") {
    if (Cond(c, i.cond)) AddFlags(c, Reg(c, i.o[0]), ~(i.o[1].kind == IMM ? (uint64_t)i.o[1].imm : Reg(c, i.o[1])), true, i.sf);
    else { const int f = i.o[2].imm; c.N = f & 8, c.Z = f & 4, c.C = f & 2, c.O = f & 1; }
  };
  I("ccmn") {
    if (Cond(c, i.cond)) AddFlags(c, Reg(c, i.o[0]), i.o[1].kind == IMM ? (uint64_t)i.o[1].imm : Reg(c, i.o[1]), false, i.sf);
    else { const int f = i.o[2].imm; c.N = f & 8, c.Z = f & 4, c.C = f & 2, c.O = f & 1; }
  };
  I("sxtb") { Put(c, i.o[0], (int64_t)(int8_t)c.x[i.o[1].reg]); };
  I("sxth") { Put(c, i.o[0], (int64_t)(int16_t)c.x[i.o[1].reg]); };
  I("sxtw") { Put(c, i.o[0], (int64_t)(int32_t)c.x[i.o[1].reg]); };
  I("uxtb") { Put(c, i.o[0], (uint8_t)c.x[i.o[1].reg]); };
  I("uxth") { Put(c, i.o[0], (uint16_t)c.x[i.o[1].reg]); };
  I("ubfx") { Put(c, i.o[0], (Reg(c, i.o[1]) >> i.o[2].imm) & (i.o[3].imm == 64 ? ~0ull : (1ull << i.o[3].imm) - 1)); };
  I("sbfx") { const int w = i.o[3].imm; Put(c, i.o[0], (uint64_t)((int64_t)((Reg(c, i.o[1]) >> i.o[2].imm) << (64 - w)) >> (64 - w))); };
  I("ubfiz") { Put(c, i.o[0], (Reg(c, i.o[1]) & ((1ull << i.o[3].imm) - 1)) << i.o[2].imm); };
  I("sbfiz") { const int w = i.o[3].imm; Put(c, i.o[0], (uint64_t)((int64_t)(Reg(c, i.o[1]) << (64 - w)) >> (64 - w)) << i.o[2].imm); };
  I("bfi") { const uint64_t m = ((i.o[3].imm == 64 ? 0 : 1ull << i.o[3].imm) - 1) << i.o[2].imm; Put(c, i.o[0], (Reg(c, i.o[0]) & ~m) | ((Reg(c, i.o[1]) << i.o[2].imm) & m)); };
  I("bfxil") { const uint64_t m = (i.o[3].imm == 64 ? 0 : 1ull << i.o[3].imm) - 1; Put(c, i.o[0], (Reg(c, i.o[0]) & ~m) | ((Reg(c, i.o[1]) >> i.o[2].imm) & m)); };
  I("clz") {
    if (IsVec(i)) { BYSIZE(i.o[0], T, Map1<T>(c, i, [](T a) -> T { int n = 0; for (int k = sizeof(T) * 8 - 1; k >= 0 && !((UT)a >> k & 1); --k) ++n; return (T)n; })) return; }
    const uint64_t v = Reg(c, i.o[1]);
    Put(c, i.o[0], v ? __builtin_clzll(v) - (i.sf ? 0 : 32) : i.sf ? 64 : 32);
  };
  I("rbit") {
    if (IsVec(i)) { Map1<uint8_t>(c, i, [](uint8_t a) -> uint8_t { uint8_t r = 0; for (int k = 0; k < 8; ++k) r |= ((a >> k) & 1) << (7 - k); return r; }); return; }
    const uint64_t v = Reg(c, i.o[1]); uint64_t r = 0; const int w = i.sf ? 64 : 32;
    for (int k = 0; k < w; ++k) r |= ((v >> k) & 1) << (w - 1 - k);
    Put(c, i.o[0], r);
  };
  auto rev = [](Cpu& c, const Insn& i, int group) {
    if (i.o[0].kind == GPR) {
      uint64_t v = Reg(c, i.o[1]), r = 0;
      for (int k = 0; k < (i.sf ? 8 : 4); ++k) ((uint8_t*)&r)[k] = ((uint8_t*)&v)[k / group * group + group - 1 - k % group];
      return Put(c, i.o[0], r);
    }
    V r;
    Clear(r);
    const int e = i.o[0].esize, per = group / e;
    for (int k = 0; k < i.o[0].lanes; ++k) memcpy(r.b + k * e, c.v[i.o[1].reg].b + (k / per * per + per - 1 - k % per) * e, e);
    c.v[i.o[0].reg] = r;
  };
  static auto Rev = rev;
  I("rev16") { Rev(c, i, 2); };
  I("rev32") { Rev(c, i, 4); };
  I("rev64") { Rev(c, i, 8); };
  I("rev") { Rev(c, i, i.sf ? 8 : 4); };
  // --- control
  I("nop") {};
  I("hint") {};
  I("dmb") {};
  I("prfm") {};
  I("b") { c.next = i.o[0].imm; };
  I("b.") { if (Cond(c, i.cond)) c.next = i.o[0].imm; };
  I("bl") { c.x[30] = i.addr + 4, c.next = i.o[0].imm; };
  I("blr") { const uint64_t t = c.x[i.o[0].reg]; c.x[30] = i.addr + 4, c.next = t; };
  I("br") { c.next = c.x[i.o[0].reg]; };
  I("ret") { c.next = c.x[30]; };
  I("cbz") { if (!Reg(c, i.o[0])) c.next = i.o[1].imm; };
  I("cbnz") { if (Reg(c, i.o[0])) c.next = i.o[1].imm; };
  I("tbz") { if (!(c.x[i.o[0].reg] >> i.o[1].imm & 1)) c.next = i.o[2].imm; };
  I("tbnz") { if (c.x[i.o[0].reg] >> i.o[1].imm & 1) c.next = i.o[2].imm; };
  I("adr") { Put(c, i.o[0], i.o[1].imm); };
  I("adrp") { Put(c, i.o[0], i.o[1].imm); };
  I("brk") { fprintf(stderr, "a64: trap (an assertion fails)\n"); abort(); };
  I("udf") { fprintf(stderr, "a64: undefined instruction\n"); abort(); };
  // --- memory
  I("ldr") {
    if (i.o[0].kind == FPS) return LoadFp(c, i.o[0], Addr(c, i, 1));
    const uint64_t a = Addr(c, i, 1);
    Put(c, i.o[0], i.o[0].sf ? Ld<uint64_t>(a) : Ld<uint32_t>(a));
  };
  I("str") {
    if (i.o[0].kind == FPS) { return StoreFp(c, i.o[0], Addr(c, i, 1)); }
    const uint64_t v = Reg(c, i.o[0]), a = Addr(c, i, 1);
    if (i.o[0].sf) St<uint64_t>(a, v); else St<uint32_t>(a, (uint32_t)v);
  };
  for (const char* u : {"", "u"}) {
    (void)u;
  }
  table["ldur"] = table["ldr"], table["stur"] = table["str"], table["ldar"] = table["ldr"], table["ldaxr"] = table["ldr"], table["ldxr"] = table["ldr"], table["stlr"] = table["str"];
  I("stlxr") { const uint64_t v = Reg(c, i.o[1]), a = c.x[i.o[2].reg]; if (i.o[1].sf) St<uint64_t>(a, v); else St<uint32_t>(a, (uint32_t)v); Put(c, i.o[0], 0); };
  table["stxr"] = table["stlxr"];
  I("clrex") {};
  I("ldrb") { LoadTo<uint8_t>(c, i); };
  I("ldrh") { LoadTo<uint16_t>(c, i); };
  I("ldrsb") { LoadTo<int8_t>(c, i); };
  I("ldrsh") { LoadTo<int16_t>(c, i); };
  I("ldrsw") { LoadTo<int32_t>(c, i); };
  I("strb") { StoreFrom<uint8_t>(c, i); };
  I("strh") { StoreFrom<uint16_t>(c, i); };
  for (const char* s : {"b", "h", "sb", "sh", "sw"}) table[std::string("ldur") + s] = table[std::string("ldr") + s];
  for (const char* s : {"b", "h"}) table[std::string("stur") + s] = table[std::string("str") + s], table[std::string("ldar") + s] = table[std::string("ldr") + s], table[std::string("stlr") + s] = table[std::string("str") + s];
  I("ldp") {
    const uint64_t a = Addr(c, i, 2);
    const Opnd &p = i.o[0], &q = i.o[1];
    if (p.kind == FPS) { LoadFp(c, p, a), LoadFp(c, q, a + p.sf); return; }
    if (p.sf) { const uint64_t u = Ld<uint64_t>(a), v = Ld<uint64_t>(a + 8); Put(c, p, u), Put(c, q, v); }
    else { const uint32_t u = Ld<uint32_t>(a), v = Ld<uint32_t>(a + 4); Put(c, p, u), Put(c, q, v); }
  };
  I("ldpsw") { const uint64_t a = Addr(c, i, 2); const int32_t u = Ld<int32_t>(a), v = Ld<int32_t>(a + 4); Put(c, i.o[0], (int64_t)u), Put(c, i.o[1], (int64_t)v); };
  I("stp") {
    const Opnd &p = i.o[0], &q = i.o[1];
    if (p.kind == FPS) { const uint64_t a = Addr(c, i, 2); StoreFp(c, p, a), StoreFp(c, q, a + p.sf); return; }
    const uint64_t u = Reg(c, p), v = Reg(c, q), a = Addr(c, i, 2);
    if (p.sf) St<uint64_t>(a, u), St<uint64_t>(a + 8, v);
    else St<uint32_t>(a, (uint32_t)u), St<uint32_t>(a + 4, (uint32_t)v);
  };
  table["ldnp"] = table["ldp"], table["stnp"] = table["stp"];
  I("ld1") { LoadStore(c, i, 1, false, false); };
  I("ld2") { LoadStore(c, i, 2, false, false); };
  I("ld3") { LoadStore(c, i, 3, false, false); };
  I("ld4") { LoadStore(c, i, 4, false, false); };
  I("st1") { LoadStore(c, i, 1, true, false); };
  I("st2") { LoadStore(c, i, 2, true, false); };
  I("st3") { LoadStore(c, i, 3, true, false); };
  I("st4") { LoadStore(c, i, 4, true, false); };
  I("ld1r") { LoadStore(c, i, 1, false, true); };
  I("ld2r") { LoadStore(c, i, 2, false, true); };
  I("ld4r") { LoadStore(c, i, 4, false, true); };
  // --- floating point
  I("fmov") {
    const Opnd &d = i.o[0], &s = i.o[1];
    if (d.kind == VEC) { const double f = s.f; V r; Clear(r); for (int k = 0; k < d.lanes; ++k) if (d.esize == 8) SetEl<double>(r, k, f); else SetEl<float>(r, k, (float)f); c.v[d.reg] = r; return; }
    if (d.kind == GPR && s.kind == LANE) return Put(c, d, El<uint64_t>(c.v[s.reg], s.lane));
    if (d.kind == LANE) return SetEl<uint64_t>(c.v[d.reg], d.lane, c.x[s.reg]);
    if (d.kind == GPR) return Put(c, d, s.sf == 8 ? Fp<uint64_t>(c, s) : Fp<uint32_t>(c, s));
    if (s.kind == GPR) { if (d.sf == 8) PutFp<uint64_t>(c, d, Reg(c, s)); else PutFp<uint32_t>(c, d, (uint32_t)Reg(c, s)); return; }
    if (s.kind == FPS) { if (d.sf == 8) PutFp<uint64_t>(c, d, Fp<uint64_t>(c, s)); else PutFp<uint32_t>(c, d, Fp<uint32_t>(c, s)); return; }
    if (d.sf == 8) PutFp<double>(c, d, s.f); else PutFp<float>(c, d, (float)s.f);
  };
  FBIN("fadd", a + b);
  FBIN("fsub", a - b);
  FBIN("fmul", a * b);
  FBIN("fnmul", -(a * b));
  FBIN("fdiv", a / b);
  FBIN("fmax", FMax<F>(a, b));
  FBIN("fmin", FMin<F>(a, b));
  FBIN("fmaxnm", a != a ? b : b != b ? a : FMax<F>(a, b));
  FBIN("fminnm", a != a ? b : b != b ? a : FMin<F>(a, b));
  FBIN("fabd", std::fabs(a - b));
  FUN("fneg", -a);
  FUN("fabs", std::fabs(a));
  FUN("fsqrt", std::sqrt(a));
  FUN("frintn", std::nearbyint(a));
  FUN("frinta", std::round(a));
  FUN("frintm", std::floor(a));
  FUN("frintp", std::ceil(a));
  FUN("frintz", std::trunc(a));
  FUN("frintx", std::nearbyint(a));
  FUN("frinti", std::nearbyint(a));
  I("fmadd") { if (i.o[0].sf == 8) PutFp<double>(c, i.o[0], std::fma(Fp<double>(c, i.o[1]), Fp<double>(c, i.o[2]), Fp<double>(c, i.o[3]))); else PutFp<float>(c, i.o[0], std::fmaf(Fp<float>(c, i.o[1]), Fp<float>(c, i.o[2]), Fp<float>(c, i.o[3]))); };
  I("fmsub") { if (i.o[0].sf == 8) PutFp<double>(c, i.o[0], std::fma(-Fp<double>(c, i.o[1]), Fp<double>(c, i.o[2]), Fp<double>(c, i.o[3]))); else PutFp<float>(c, i.o[0], std::fmaf(-Fp<float>(c, i.o[1]), Fp<float>(c, i.o[2]), Fp<float>(c, i.o[3]))); };
  I("fnmadd") { if (i.o[0].sf == 8) PutFp<double>(c, i.o[0], std::fma(-Fp<double>(c, i.o[1]), Fp<double>(c, i.o[2]), -Fp<double>(c, i.o[3]))); else PutFp<float>(c, i.o[0], std::fmaf(-Fp<float>(c, i.o[1]), Fp<float>(c, i.o[2]), -Fp<float>(c, i.o[3]))); };
  I("fnmsub") { if (i.o[0].sf == 8) PutFp<double>(c, i.o[0], std::fma(Fp<double>(c, i.o[1]), Fp<double>(c, i.o[2]), -Fp<double>(c, i.o[3]))); else PutFp<float>(c, i.o[0], std::fmaf(Fp<float>(c, i.o[1]), Fp<float>(c, i.o[2]), -Fp<float>(c, i.o[3]))); };
  I("fmla") { BYFLOAT(i.o[0], F, Map3<F>(c, i, [](F d, F a, F b) -> F { return std::fma(a, b, d); })) };
  I("fmls") { BYFLOAT(i.o[0], F, Map3<F>(c, i, [](F d, F a, F b) -> F { return std::fma(-a, b, d); })) };
  I("mla") { BYSIZE(i.o[0], T, Map3<T>(c, i, [](T d, T a, T b) -> T { return (T)((uint64_t)d + (uint64_t)a * (uint64_t)b); })) };
  I("mls") { BYSIZE(i.o[0], T, Map3<T>(c, i, [](T d, T a, T b) -> T { return (T)((uint64_t)d - (uint64_t)a * (uint64_t)b); })) };
  I("fcmp") {
    const bool z = i.o[1].kind == FIMM || i.o[1].kind == IMM;
    if (i.o[0].sf == 8) Cmp<double>(c, Fp<double>(c, i.o[0]), z ? 0 : Fp<double>(c, i.o[1]));
    else Cmp<float>(c, Fp<float>(c, i.o[0]), z ? 0 : Fp<float>(c, i.o[1]));
  };
  table["fcmpe"] = table["fcmp"];
  I("fccmp") {
    if (Cond(c, i.cond)) { if (i.o[0].sf == 8) Cmp<double>(c, Fp<double>(c, i.o[0]), Fp<double>(c, i.o[1])); else Cmp<float>(c, Fp<float>(c, i.o[0]), Fp<float>(c, i.o[1])); }
    else { const int f = i.o[2].imm; c.N = f & 8, c.Z = f & 4, c.C = f & 2, c.O = f & 1; }
  };
  I("fcsel") { const Opnd& s = Cond(c, i.cond) ? i.o[1] : i.o[2]; if (i.o[0].sf == 8) PutFp<uint64_t>(c, i.o[0], Fp<uint64_t>(c, s)); else PutFp<uint32_t>(c, i.o[0], Fp<uint32_t>(c, s)); };
  I("fcvt") {
    if (i.o[0].sf == 8 && i.o[1].sf == 4) PutFp<double>(c, i.o[0], Fp<float>(c, i.o[1]));
    else if (i.o[0].sf == 4 && i.o[1].sf == 8) PutFp<float>(c, i.o[0], (float)Fp<double>(c, i.o[1]));
    else Die("fcvt: " + text_of(i));
  };
  I("scvtf") { CvtF<true>(c, i); };
  I("ucvtf") { CvtF<false>(c, i); };
  I("fcvtns") { FCvtInt<'n', true>(c, i); };
  I("fcvtnu") { FCvtInt<'n', false>(c, i); };
  I("fcvtas") { FCvtInt<'a', true>(c, i); };
  I("fcvtau") { FCvtInt<'a', false>(c, i); };
  I("fcvtms") { FCvtInt<'m', true>(c, i); };
  I("fcvtmu") { FCvtInt<'m', false>(c, i); };
  I("fcvtps") { FCvtInt<'p', true>(c, i); };
  I("fcvtpu") { FCvtInt<'p', false>(c, i); };
  I("fcvtzs") { FCvtInt<'z', true>(c, i); };
  I("fcvtzu") { FCvtInt<'z', false>(c, i); };
  // --- vectors
  I("movi") {
    const Opnd& d = i.o[0];
    const int64_t m = ModImm(i);
    if (d.kind == FPS) return PutFp<int64_t>(c, d, m);
    V r;
    Clear(r);
    BYSIZE(d, T, for (int k = 0; k < d.lanes; ++k) SetEl<T>(r, k, (T)m))
    c.v[d.reg] = r;
  };
  I("mvni") {
    const Opnd& d = i.o[0];
    const int64_t m = ~ModImm(i);
    V r;
    Clear(r);
    BYSIZE(d, T, for (int k = 0; k < d.lanes; ++k) SetEl<T>(r, k, (T)m))
    c.v[d.reg] = r;
  };
  I("dup") {
    const Opnd &d = i.o[0], &s = i.o[1];
    uint64_t t = 0;
    if (s.kind == GPR) t = c.x[s.reg];
    else memcpy(&t, c.v[s.reg].b + s.lane * s.esize, s.esize);
    V r;
    Clear(r);
    for (int k = 0; k < d.lanes; ++k) memcpy(r.b + k * d.esize, &t, d.esize);
    c.v[d.reg] = r;
  };
  I("cnt") { Map1<uint8_t>(c, i, [](uint8_t a) -> uint8_t { return (uint8_t)__builtin_popcount(a); }); };
  I("addp") {
    if (IsScalarFp(i)) return PutFp<uint64_t>(c, i.o[0], El<uint64_t>(c.v[i.o[1].reg], 0) + El<uint64_t>(c.v[i.o[1].reg], 1));
    V r;
    Clear(r);
    const int n = i.o[0].lanes;
    BYSIZE(i.o[0], T, for (int k = 0; k < n; ++k) {
      const V& s = c.v[i.o[k < n / 2 ? 1 : 2].reg];
      const int e = 2 * k % n;
      SetEl<T>(r, k, (T)((UT)El<T>(s, e) + (UT)El<T>(s, e + 1)));
    })
    c.v[i.o[0].reg] = r;
  };
  I("uadalp") { switch (i.o[0].esize) { case 2: PairLong<uint16_t, uint8_t>(c, i, true); break; case 4: PairLong<uint32_t, uint16_t>(c, i, true); break; default: PairLong<uint64_t, uint32_t>(c, i, true); } };
  I("uaddlp") { switch (i.o[0].esize) { case 2: PairLong<uint16_t, uint8_t>(c, i, false); break; case 4: PairLong<uint32_t, uint16_t>(c, i, false); break; default: PairLong<uint64_t, uint32_t>(c, i, false); } };
  I("sadalp") { switch (i.o[0].esize) { case 2: PairLong<int16_t, int8_t>(c, i, true); break; case 4: PairLong<int32_t, int16_t>(c, i, true); break; default: PairLong<int64_t, int32_t>(c, i, true); } };
  I("saddlp") { switch (i.o[0].esize) { case 2: PairLong<int16_t, int8_t>(c, i, false); break; case 4: PairLong<int32_t, int16_t>(c, i, false); break; default: PairLong<int64_t, int32_t>(c, i, false); } };
  I("addv") { switch (i.o[1].esize) { case 1: Across<uint8_t, uint8_t>(c, i); break; case 2: Across<uint16_t, uint16_t>(c, i); break; default: Across<uint32_t, uint32_t>(c, i); } };
  I("uaddlv") { switch (i.o[1].esize) { case 1: Across<uint16_t, uint8_t>(c, i); break; case 2: Across<uint32_t, uint16_t>(c, i); break; default: Across<uint64_t, uint32_t>(c, i); } };
  I("saddlv") { switch (i.o[1].esize) { case 1: Across<int16_t, int8_t>(c, i); break; case 2: Across<int32_t, int16_t>(c, i); break; default: Across<int64_t, int32_t>(c, i); } };
#define ACROSS(name, U, expr) I(name) { const Opnd& s = i.o[1]; BYSIZE(s, T, using X = U; X r = (X)El<T>(c.v[s.reg], 0); for (int k = 1; k < s.lanes; ++k) { X a = (X)El<T>(c.v[s.reg], k); if (expr) r = a; } PutFp<X>(c, i.o[0], r)) }
  ACROSS("smaxv", T, a > r);
  ACROSS("sminv", T, a < r);
  ACROSS("umaxv", UT, a > r);
  ACROSS("uminv", UT, a < r);
  I("ushll") { const int s = i.o[2].imm; switch (i.o[0].esize) { case 2: Widen<uint16_t, uint8_t>(c, i, s, false); break; case 4: Widen<uint32_t, uint16_t>(c, i, s, false); break; default: Widen<uint64_t, uint32_t>(c, i, s, false); } };
  I("ushll2") { const int s = i.o[2].imm; switch (i.o[0].esize) { case 2: Widen<uint16_t, uint8_t>(c, i, s, true); break; case 4: Widen<uint32_t, uint16_t>(c, i, s, true); break; default: Widen<uint64_t, uint32_t>(c, i, s, true); } };
  I("sshll") { const int s = i.o[2].imm; switch (i.o[0].esize) { case 2: Widen<int16_t, int8_t>(c, i, s, false); break; case 4: Widen<int32_t, int16_t>(c, i, s, false); break; default: Widen<int64_t, int32_t>(c, i, s, false); } };
  I("sshll2") { const int s = i.o[2].imm; switch (i.o[0].esize) { case 2: Widen<int16_t, int8_t>(c, i, s, true); break; case 4: Widen<int32_t, int16_t>(c, i, s, true); break; default: Widen<int64_t, int32_t>(c, i, s, true); } };
  I("uxtl") { switch (i.o[0].esize) { case 2: Widen<uint16_t, uint8_t>(c, i, 0, false); break; case 4: Widen<uint32_t, uint16_t>(c, i, 0, false); break; default: Widen<uint64_t, uint32_t>(c, i, 0, false); } };
  I("sxtl") { switch (i.o[0].esize) { case 2: Widen<int16_t, int8_t>(c, i, 0, false); break; case 4: Widen<int32_t, int16_t>(c, i, 0, false); break; default: Widen<int64_t, int32_t>(c, i, 0, false); } };
  I("uxtl2") { switch (i.o[0].esize) { case 2: Widen<uint16_t, uint8_t>(c, i, 0, true); break; case 4: Widen<uint32_t, uint16_t>(c, i, 0, true); break; default: Widen<uint64_t, uint32_t>(c, i, 0, true); } };
  I("sxtl2") { switch (i.o[0].esize) { case 2: Widen<int16_t, int8_t>(c, i, 0, true); break; case 4: Widen<int32_t, int16_t>(c, i, 0, true); break; default: Widen<int64_t, int32_t>(c, i, 0, true); } };
#define NARROW(name, high, S, expr)                                                            \
  I(name) {                                                                                    \
    const int sh = i.n > 2 ? (int)i.o[2].imm : 0; (void)sh;                                    \
    switch (i.o[1].esize) {                                                                    \
      case 2: { using W = S##16_t; using N = S##8_t; using SN = int8_t; using UN = uint8_t; using UW = uint16_t; (void)sizeof(SN); (void)sizeof(UN); (void)sizeof(UW); Narrow<W, N>(c, i, high, [&](W a) -> N { return (N)(expr); }); break; }   \
      case 4: { using W = S##32_t; using N = S##16_t; using SN = int16_t; using UN = uint16_t; using UW = uint32_t; (void)sizeof(SN); (void)sizeof(UN); (void)sizeof(UW); Narrow<W, N>(c, i, high, [&](W a) -> N { return (N)(expr); }); break; } \
      default: { using W = S##64_t; using N = S##32_t; using SN = int32_t; using UN = uint32_t; using UW = uint64_t; (void)sizeof(SN); (void)sizeof(UN); (void)sizeof(UW); Narrow<W, N>(c, i, high, [&](W a) -> N { return (N)(expr); }); }        \
    }                                                                                          \
  }
  NARROW("xtn", false, int, a);
  NARROW("xtn2", true, int, a);
  NARROW("sqxtn", false, int, Sat<SN>(a));
  NARROW("sqxtn2", true, int, Sat<SN>(a));
  NARROW("uqxtn", false, uint, Sat<UN>(a));
  NARROW("uqxtn2", true, uint, Sat<UN>(a));
  NARROW("sqxtun", false, int, Sat<UN>(a));
  NARROW("sqxtun2", true, int, Sat<UN>(a));
  NARROW("shrn", false, int, (UW)a >> sh);
  NARROW("shrn2", true, int, (UW)a >> sh);
  NARROW("rshrn", false, int, ((UW)a + ((UW)1 << (sh - 1))) >> sh);
  I("shl") { Insn j = i; if (IsScalarFp(i)) j.o[0].esize = 8, j.o[0].lanes = 1; const int s = i.o[2].imm; BYSIZE(j.o[0], T, Map1<T>(c, j, [s](T a) -> T { return (T)((UT)a << s); })) };
  I("sshr") { Insn j = i; if (IsScalarFp(i)) j.o[0].esize = 8, j.o[0].lanes = 1; const int s = i.o[2].imm; BYSIZE(j.o[0], T, Map1<T>(c, j, [s](T a) -> T { return s >= (int)sizeof(T) * 8 ? (T)(a < 0 ? -1 : 0) : (T)(a >> s); })) };
  I("ushr") { Insn j = i; if (IsScalarFp(i)) j.o[0].esize = 8, j.o[0].lanes = 1; const int s = i.o[2].imm; BYSIZE(j.o[0], T, Map1<T>(c, j, [s](T a) -> T { return s >= (int)sizeof(T) * 8 ? (T)0 : (T)((UT)a >> s); })) };
  I("ssra") { const int s = i.o[2].imm; BYSIZE(i.o[0], T, V r; Clear(r); for (int k = 0; k < i.o[0].lanes; ++k) SetEl<T>(r, k, (T)((UT)El<T>(c.v[i.o[0].reg], k) + (UT)(s >= (int)sizeof(T) * 8 ? (El<T>(c.v[i.o[1].reg], k) < 0 ? -1 : 0) : El<T>(c.v[i.o[1].reg], k) >> s))); c.v[i.o[0].reg] = r) };
  I("usra") { const int s = i.o[2].imm; BYSIZE(i.o[0], T, V r; Clear(r); for (int k = 0; k < i.o[0].lanes; ++k) SetEl<UT>(r, k, (UT)(El<UT>(c.v[i.o[0].reg], k) + (s >= (int)sizeof(T) * 8 ? 0 : El<UT>(c.v[i.o[1].reg], k) >> s))); c.v[i.o[0].reg] = r) };
  I("sri") { const int s = i.o[2].imm; BYSIZE(i.o[0], T, V r; Clear(r); for (int k = 0; k < i.o[0].lanes; ++k) { const int w = sizeof(T) * 8; const UT m = s >= w ? (UT)0 : (UT)((UT)~(UT)0 >> s); SetEl<UT>(r, k, (UT)((El<UT>(c.v[i.o[0].reg], k) & (UT)~m) | (s >= w ? 0 : (El<UT>(c.v[i.o[1].reg], k) >> s)))); } c.v[i.o[0].reg] = r) };
  I("sli") { const int s = i.o[2].imm; BYSIZE(i.o[0], T, V r; Clear(r); for (int k = 0; k < i.o[0].lanes; ++k) { const UT m = (UT)((UT)~(UT)0 << s); SetEl<UT>(r, k, (UT)((El<UT>(c.v[i.o[0].reg], k) & (UT)~m) | (UT)(El<UT>(c.v[i.o[1].reg], k) << s))); } c.v[i.o[0].reg] = r) };
  VBIN("ushl", ((int8_t)b >= (int)sizeof(T) * 8 || (int8_t)b <= -(int)sizeof(T) * 8) ? 0 : (int8_t)b >= 0 ? (UT)((UT)a << (int8_t)b) : (UT)((UT)a >> -(int8_t)b));
  VBIN("sshl", (int8_t)b >= (int)sizeof(T) * 8 ? 0 : (int8_t)b <= -(int)sizeof(T) * 8 ? (a < 0 ? -1 : 0) : (int8_t)b >= 0 ? (T)((UT)a << (int8_t)b) : (T)(a >> -(int8_t)b));
  VBIN("smax", a > b ? a : b);
  VBIN("smin", a < b ? a : b);
  VBIN("umax", (UT)a > (UT)b ? a : b);
  VBIN("umin", (UT)a < (UT)b ? a : b);
  VBIN("sqadd", Sat<T>((__int128)a + b));
  VBIN("sqsub", Sat<T>((__int128)a - b));
  VBIN("uqadd", Sat<UT>((__int128)(UT)a + (UT)b));
  VBIN("uqsub", Sat<UT>((__int128)(UT)a - (UT)b));
  VBIN("sabd", a > b ? (UT)a - (UT)b : (UT)b - (UT)a);
  VBIN("uabd", (UT)a > (UT)b ? (UT)a - (UT)b : (UT)b - (UT)a);
  I("abs") { BYSIZE(i.o[0], T, Map1<T>(c, i, [](T a) -> T { return a < 0 ? (T)(0 - (UT)a) : a; })) };
#define VCMP(name, expr)                                                            \
  I(name) {                                                                         \
    Insn j = i;                                                                     \
    if (IsScalarFp(i)) j.o[0].esize = i.o[0].sf, j.o[0].lanes = 1;                  \
    if (i.o[2].kind == IMM || i.o[2].kind == FIMM) { BYSIZE(j.o[0], T, Map1<T>(c, j, [](T a) -> T { T b = 0; (void)b; return (expr) ? (T)-1 : (T)0; })) return; } \
    BYSIZE(j.o[0], T, Map2<T>(c, j, [](T a, T b) -> T { return (expr) ? (T)-1 : (T)0; })) \
  }
  VCMP("cmeq", a == b);
  VCMP("cmgt", a > b);
  VCMP("cmge", a >= b);
  VCMP("cmlt", a < b);
  VCMP("cmle", a <= b);
  VCMP("cmhi", (UT)a > (UT)b);
  VCMP("cmhs", (UT)a >= (UT)b);
  VCMP("cmtst", (a & b) != 0);
#define FCMPV(name, expr)                                                           \
  I(name) {                                                                         \
    Insn j = i;                                                                     \
    if (IsScalarFp(i)) j.o[0].esize = i.o[0].sf, j.o[0].lanes = 1;                  \
    V r;                                                                            \
    Clear(r);                                                                       \
    const bool z = i.o[2].kind != VEC && i.o[2].kind != FPS;                        \
    for (int k = 0; k < j.o[0].lanes; ++k)                                          \
      if (j.o[0].esize == 8) { const double a = El<double>(c.v[i.o[1].reg], k), b = z ? 0 : El<double>(c.v[i.o[2].reg], k); SetEl<int64_t>(r, k, (expr) ? -1 : 0); } \
      else { const float a = El<float>(c.v[i.o[1].reg], k), b = z ? 0 : El<float>(c.v[i.o[2].reg], k); SetEl<int32_t>(r, k, (expr) ? -1 : 0); } \
    c.v[i.o[0].reg] = r;                                                            \
  }
  FCMPV("fcmeq", a == b);
  FCMPV("fcmgt", a > b);
  FCMPV("fcmge", a >= b);
  FCMPV("fcmlt", a < b);
  FCMPV("fcmle", a <= b);
#define PERM(name, expr)                                                            \
  I(name) {                                                                         \
    V r;                                                                            \
    Clear(r);                                                                       \
    const int n = i.o[0].lanes, e = i.o[0].esize;                                   \
    for (int k = 0; k < n; ++k) {                                                   \
      const int s = (expr); /* element of the two registers */                      \
      memcpy(r.b + k * e, c.v[i.o[s < n ? 1 : 2].reg].b + (s % n) * e, e);          \
    }                                                                               \
    c.v[i.o[0].reg] = r;                                                            \
  }
  PERM("zip1", k / 2 + (k % 2) * n);
  PERM("zip2", n / 2 + k / 2 + (k % 2) * n);
  PERM("uzp1", 2 * k);
  PERM("uzp2", 2 * k + 1);
  PERM("trn1", (k & ~1) + (k % 2) * n);
  PERM("trn2", (k | 1) + (k % 2) * n);
  I("ext") {
    const int n = i.o[0].lanes, s = i.o[3].imm;
    uint8_t t[32];
    memcpy(t, c.v[i.o[1].reg].b, n), memcpy(t + n, c.v[i.o[2].reg].b, n);
    V r;
    Clear(r);
    memcpy(r.b, t + s, n);
    c.v[i.o[0].reg] = r;
  };
  I("tbl") {
    V r;
    Clear(r);
    for (int k = 0; k < i.o[0].lanes; ++k) { const uint8_t x = c.v[i.o[2].reg].b[k]; r.b[k] = x < 16 * i.o[1].n ? c.v[(i.o[1].reg + x / 16) & 31].b[x % 16] : 0; }
    c.v[i.o[0].reg] = r;
  };
#define LONGS(stem, wide, sub, mul, acc)                                                   \
  I("u" stem) { LongOp<false>(c, i, false, wide, sub, mul, acc); };                        \
  I("s" stem) { LongOp<true>(c, i, false, wide, sub, mul, acc); };                         \
  I("u" stem "2") { LongOp<false>(c, i, true, wide, sub, mul, acc); };                     \
  I("s" stem "2") { LongOp<true>(c, i, true, wide, sub, mul, acc); }
  LONGS("addl", false, false, false, false);
  LONGS("addw", true, false, false, false);
  LONGS("subl", false, true, false, false);
  LONGS("subw", true, true, false, false);
  LONGS("mlal", false, false, true, true);
  LONGS("mlsl", false, true, true, true);
  I("umull2") { LongOp<false>(c, i, true, false, false, true, false); };
  I("smull2") { LongOp<true>(c, i, true, false, false, true, false); };
}

// ------------------------------------------------------------------- parsing
std::string Trim(std::string s) {
  const size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r\n");
  return a == s.npos ? "" : s.substr(a, b - a + 1);
}
std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> r;
  std::string t;
  int depth = 0;
  for (char ch : s) {
    if (ch == '[' || ch == '{') ++depth;
    if (ch == ']' || ch == '}') --depth;
    if (ch == ',' && !depth) { r.push_back(Trim(t)), t.clear(); continue; }
    t += ch;
  }
  if (!Trim(t).empty()) r.push_back(Trim(t));
  return r;
}
const char* kCond[] = {"eq", "ne", "hs", "lo", "mi", "pl", "vs", "vc", "hi", "ls", "ge", "lt", "gt", "le", "al", "nv"};
int CondOf(const std::string& s) {
  for (int k = 0; k < 16; ++k) if (s == kCond[k]) return k;
  if (s == "cs") return 2;
  if (s == "cc") return 3;
  return -1;
}
const char* kExt[] = {"lsl", "lsr", "asr", "ror", "msl", "uxtb", "uxth", "uxtw", "uxtx", "sxtb", "sxth", "sxtw", "sxtx"};
bool AllDigits(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789") == s.npos; }
bool Gpr(const std::string& s, Opnd& o) {
  o.kind = GPR;
  if (s == "sp" || s == "wsp") return o.reg = SP, o.sf = s == "sp", true;
  if (s == "xzr" || s == "wzr") return o.reg = ZR, o.sf = s == "xzr", true;
  if ((s[0] == 'x' || s[0] == 'w') && AllDigits(s.substr(1))) return o.reg = atoi(s.c_str() + 1), o.sf = s[0] == 'x', true;
  return false;
}
int ESize(char ch) { return ch == 'b' ? 1 : ch == 'h' ? 2 : ch == 's' ? 4 : ch == 'd' ? 8 : 16; }
bool Vec(const std::string& s, Opnd& o) {  // v0.4s, v0.s[1], v0.s
  if (s[0] != 'v' || s.find('.') == s.npos) return false;
  o.reg = atoi(s.c_str() + 1);
  std::string a = s.substr(s.find('.') + 1);
  const size_t br = a.find('[');
  o.kind = VEC;
  if (br != a.npos) o.kind = LANE, o.lane = atoi(a.c_str() + br + 1), a = a.substr(0, br);
  o.esize = ESize(a.back());
  o.lanes = a.size() > 1 ? atoi(a.c_str()) : 16 / o.esize;
  return true;
}
bool Shift(const std::string& s, Opnd& o) {
  for (int k = 0; k < 13; ++k)
    if (s.compare(0, strlen(kExt[k]), kExt[k]) == 0 && (s.size() == strlen(kExt[k]) || s[strlen(kExt[k])] == ' ')) {
      o.kind = SHIFT, o.ext = (Ext)k;
      const size_t h = s.find('#');
      o.amount = h == s.npos ? 0 : strtol(s.c_str() + h + 1, nullptr, 0);
      return true;
    }
  return false;
}
Opnd Operand(std::string s) {
  Opnd o;
  if (s[0] == '#') {
    if (s.find('.') != s.npos) return o.kind = FIMM, o.f = strtod(s.c_str() + 1, nullptr), o;
    o.kind = IMM;
    o.imm = s[1] == '-' ? -(int64_t)strtoull(s.c_str() + 2, nullptr, 0) : (int64_t)strtoull(s.c_str() + 1, nullptr, 0);
    o.f = (double)o.imm;
    return o;
  }
  if (s[0] == '[') {
    o.kind = MEM;
    if (s.back() == '!') o.pre = true, s.pop_back();
    const auto p = Split(s.substr(1, s.size() - 2));
    Opnd b;
    if (!Gpr(p[0], b)) Die("base register " + s);
    o.reg = b.reg;
    if (p.size() > 1) {
      if (p[1][0] == '#') o.imm = Operand(p[1]).imm;
      else {
        Opnd x, e;
        if (!Gpr(p[1], x)) Die("index register " + s);
        o.is_reg_offset = true, o.index = x.reg, o.index_sf = x.sf;
        if (p.size() > 2) { if (!Shift(p[2], e)) Die("index " + s); o.ext = e.ext, o.amount = e.amount; }
      }
    }
    return o;
  }
  if (s[0] == '{') {
    o.kind = LIST;
    const size_t e = s.find('}');
    for (auto& r : Split(s.substr(1, e - 1))) {
      const size_t dash = r.find('-');
      Opnd v;
      if (!Vec(Trim(r.substr(0, dash)), v)) Die("list " + s);
      if (!o.n) o.reg = v.reg, o.esize = v.esize, o.lanes = v.lanes;
      ++o.n;
      if (dash != r.npos) { Opnd w; Vec(Trim(r.substr(dash + 1)), w); o.n = ((w.reg - v.reg) & 31) + 1; }
    }
    const size_t br = s.find('[', e);
    if (br != s.npos) o.has_lane = true, o.lane = atoi(s.c_str() + br + 1);
    return o;
  }
  if (Gpr(s, o)) return o;
  if (Vec(s, o)) return o;
  if (strchr("bhsdq", s[0]) && AllDigits(s.substr(1))) return o.kind = FPS, o.reg = atoi(s.c_str() + 1), o.sf = ESize(s[0]), o;
  if (Shift(s, o)) return o;
  if (CondOf(s) >= 0) return o.kind = COND, o.imm = CondOf(s), o;
  if (s.compare(0, 2, "0x") == 0) return o.kind = ADDR, o.imm = (int64_t)strtoull(s.c_str(), nullptr, 16), o;
  return o;  // (unknown: reported when executed)
}
std::vector<std::string> lines;
std::string text_of(const Insn& i) { return lines[(i.addr - base) / 4]; }
void Unknown(Cpu&, const Insn& i) { Die("unsupported instruction: " + text_of(i)); }

// --------------------------------------------------------------- host calls
struct Import { std::string name; std::function<void(Cpu&)> fn; };
std::vector<Import> imports;
uint64_t import_base = 0;
std::string cov;
void HostCall(Cpu& c, uint64_t f) {
  using H = uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
  c.x[0] = ((H)f)(c.x[0], c.x[1], c.x[2], c.x[3], c.x[4], c.x[5], c.x[6], c.x[7]);
}
std::function<void(Cpu&)> Resolve(const std::string& n) {
#define F1(name, T) if (n == #name) return [](Cpu& c) { const T a = El<T>(c.v[0], 0); V r; Clear(r); SetEl<T>(r, 0, (T)name(a)); c.v[0] = r; };
#define F2(name, T) if (n == #name) return [](Cpu& c) { const T a = El<T>(c.v[0], 0), b = El<T>(c.v[1], 0); V r; Clear(r); SetEl<T>(r, 0, (T)name(a, b)); c.v[0] = r; };
  F1(round, double) F1(roundf, float) F1(floor, double) F1(floorf, float) F1(ceil, double) F1(ceilf, float) F1(sqrt, double) F1(sqrtf, float) F1(exp, double) F1(expf, float)
  F1(log, double) F1(logf, float) F1(tanh, double) F1(tanhf, float) F1(trunc, double) F1(truncf, float) F1(rint, double) F1(rintf, float) F1(nearbyint, double) F1(nearbyintf, float)
  F2(pow, double) F2(powf, float) F2(fmod, double) F2(fmodf, float) F2(fmax, double) F2(fmaxf, float) F2(fmin, double) F2(fminf, float)
#define FI(name, T) if (n == #name) return [](Cpu& c) { c.x[0] = (uint64_t)name(El<T>(c.v[0], 0)); };
  FI(lrint, double) FI(lrintf, float) FI(lround, double) FI(lroundf, float) FI(llround, double) FI(llroundf, float) FI(llrint, double) FI(llrintf, float)
  if (n == "frexp") return [](Cpu& c) { V r; Clear(r); SetEl<double>(r, 0, frexp(El<double>(c.v[0], 0), (int*)c.x[0])); c.v[0] = r; };
  if (n == "ldexp") return [](Cpu& c) { V r; Clear(r); SetEl<double>(r, 0, ldexp(El<double>(c.v[0], 0), (int)c.x[0])); c.v[0] = r; };
  if (n == "__cxa_atexit" || n == "_ZSt21ios_base_library_initv" || n == "__cxa_guard_abort") return [](Cpu& c) { c.x[0] = 0; };
  if (n == "__cxa_guard_acquire") return [](Cpu& c) { c.x[0] = !*(uint8_t*)c.x[0]; };
  if (n == "__cxa_guard_release") return [](Cpu& c) { *(uint8_t*)c.x[0] = 1; };
  void* p = dlsym(RTLD_DEFAULT, n.c_str());
  if (p) return [p](Cpu& c) { HostCall(c, (uint64_t)p); };
  return [n](Cpu&) { Die("call of the unknown function " + n); };
}
thread_local Cpu* top = nullptr;
constexpr uint64_t kReturn = 0x7ffffff0;
void Run(Cpu& c) {
  const uint64_t n = code.size() * 4;
  const Insn* const ip = code.data();
  uint64_t count = 0;
  while (c.pc != kReturn) {
    const uint64_t off = c.pc - base;
    if (off >= n) {
      // a function of this process
      const uint64_t t = c.pc;
      HostCall(c, t);
      c.pc = c.x[30];
      continue;
    }
    const Insn& i = ip[off / 4];
    ++count;
    seen[i.name] = 1;
    hit[off / 4] = 1;
    c.next = c.pc + 4;
    i.fn(c, i);
    c.pc = c.next;
  }
  executed += count;
}
}  // namespace

uint64_t Symbol(const std::string& n) {
  auto it = symbols.find(n);
  if (it == symbols.end()) Die("no symbol " + n);
  return it->second;
}
uint64_t Call(uint64_t f, uint64_t a, uint64_t b, uint64_t d, uint64_t e, uint64_t g, uint64_t h) {
  static thread_local char* stack = nullptr;
  constexpr size_t kStack = 1 << 20;
  if (!stack) stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) ;
  Cpu c;
  Cpu* outer = top;
  c.x[0] = a, c.x[1] = b, c.x[2] = d, c.x[3] = e, c.x[4] = g, c.x[5] = h;
  // registers without a meaning hold garbage
  for (int k = 6; k < 29; ++k) c.x[k] = 0xDEADBEEF00000000ull + k * 0x11111;
  for (int k = 0; k < 32; ++k) memset(c.v[k].b, 0xA5 ^ k, 16);
  const uint64_t kept = 0x1234567890ull;
  for (int k = 19; k < 29; ++k) c.x[k] = kept + k;
  uint64_t dkept[8];
  for (int k = 8; k < 16; ++k) dkept[k - 8] = El<uint64_t>(c.v[k], 0);
  const uint64_t sp = outer ? (outer->x[SP] - 4096) & ~15ull : (uint64_t)stack + kStack - 4096;
  c.x[SP] = sp, c.x[30] = kReturn, c.pc = f;
  top = &c;
  Run(c);
  top = outer;
  // the procedure call standard: callee-saved registers
  if (c.x[SP] != sp) { fprintf(stderr, "a64: the stack pointer is not restored\n"); abort(); }
  for (int k = 19; k < 29; ++k) if (c.x[k] != kept + k) { fprintf(stderr, "a64: callee-saved register x%d is not restored\n", k); abort(); }
  for (int k = 8; k < 16; ++k) if (El<uint64_t>(c.v[k], 0) != dkept[k - 8]) { fprintf(stderr, "a64: callee-saved register d%d is not restored\n", k); abort(); }
  return c.x[0];
}
const char* Coverage() {
  cov.clear();
  for (size_t k = 0; k < names.size(); ++k) if (seen[k]) cov += names[k] + " ";
  return cov.c_str();
}
void Load(const std::string& elf, const std::string& listing, const std::string& imports_file) {
  Register();
  // the image
  const int fd = open(elf.c_str(), O_RDONLY);
  if (fd < 0) Die("no " + elf);
  const size_t size = lseek(fd, 0, SEEK_END);
  const char* img = (const char*)mmap(nullptr, size, PROT_READ, MAP_PRIVATE, fd, 0);
  const auto* eh = (const Elf64_Ehdr*)img;
  const auto* ph = (const Elf64_Phdr*)(img + eh->e_phoff);
  uint64_t lo = ~0ull, hi = 0;
  for (int k = 0; k < eh->e_phnum; ++k)
    if (ph[k].p_type == PT_LOAD) lo = std::min<uint64_t>(lo, ph[k].p_vaddr & ~4095ull), hi = std::max<uint64_t>(hi, ph[k].p_vaddr + ph[k].p_memsz);
  if (mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void*)lo) Die("the image does not fit");
  for (int k = 0; k < eh->e_phnum; ++k)
    if (ph[k].p_type == PT_LOAD) memcpy((void*)ph[k].p_vaddr, img + ph[k].p_offset, ph[k].p_filesz);
  const auto* sh = (const Elf64_Shdr*)(img + eh->e_shoff);
  const char* shn = img + sh[eh->e_shstrndx].sh_offset;
  uint64_t init = 0, init_n = 0;
  for (int k = 0; k < eh->e_shnum; ++k) {
    const std::string n = shn + sh[k].sh_name;
    if (n == ".text") base = sh[k].sh_addr, code.resize(sh[k].sh_size / 4), lines.resize(code.size());
    if (n == ".init_array") init = sh[k].sh_addr, init_n = sh[k].sh_size / 8;
    if (sh[k].sh_type == SHT_SYMTAB) {
      const auto* s = (const Elf64_Sym*)(img + sh[k].sh_offset);
      const char* str = img + sh[sh[k].sh_link].sh_offset;
      for (size_t j = 0; j < sh[k].sh_size / sizeof(*s); ++j) symbols[str + s[j].st_name] = s[j].st_value;
    }
  }
  // the instructions
  FILE* f = fopen(listing.c_str(), "r");
  if (!f) Die("no " + listing);
  char buf[4096];
  names.push_back("?");
  while (fgets(buf, sizeof buf, f)) {
    std::string l = buf;
    const size_t col = l.find(':');
    if (col == l.npos || Trim(l.substr(0, col)).find_first_not_of("0123456789abcdef") != std::string::npos) continue;
    const uint64_t a = strtoull(l.c_str(), nullptr, 16);
    if (a < base || a >= base + code.size() * 4) continue;
    std::string t = Trim(l.substr(col + 1));
    for (const char* cut : {"//", "<"}) { const size_t p = t.find(cut); if (p != t.npos) t = Trim(t.substr(0, p)); }
    const size_t sp = t.find_first_of(" \t");
    std::string m = t.substr(0, sp);
    Insn& i = code[(a - base) / 4];
    lines[(a - base) / 4] = l;
    i.addr = a;
    if (m.compare(0, 2, "b.") == 0) i.cond = CondOf(m.substr(2)), m = "b.";
    auto& id = name_of[m];
    if (!id) id = names.size(), names.push_back(m);
    i.name = id;
    if (sp != t.npos)
      for (auto& o : Split(t.substr(sp))) {
        if (i.n == 5) Die("operands of " + l);
        Opnd p = Operand(o);
        if (p.kind == COND) { i.cond = p.imm; continue; }
        i.o[i.n++] = p;
      }
    i.sf = i.n && i.o[0].kind == GPR ? i.o[0].sf : 1;
    if (m == "smaddl" || m == "umaddl") i.sf = 1;
    auto h = table.find(m);
    i.fn = h == table.end() ? &Unknown : h->second;
    if (m == "ret" && i.n) i.fn = table["br"];
    if (i.fn == &Unknown) continue;
    for (int k = 0; k < i.n; ++k) if (i.o[k].kind == NONE && m != "prfm" && m != "hint" && m != "dmb") i.fn = &Unknown;
  }
  fclose(f);
  for (size_t k = 0; k < code.size(); ++k) {
    if (!code[k].addr) code[k].addr = base + 4 * k, lines[k] = "nothing at " + std::to_string(base + 4 * k);
    if (!code[k].fn) code[k].fn = &Unknown;
  }
  seen.assign(names.size(), 0);
  if (const char* cf = getenv("A64_COV")) {
    const int h = open(cf, O_RDWR | O_CREAT, 0644);
    if (ftruncate(h, code.size())) Die("coverage file");
    hit = (uint8_t*)mmap(nullptr, code.size(), PROT_READ | PROT_WRITE, MAP_SHARED, h, 0);
  } else {
    hit = (uint8_t*)calloc(code.size(), 1);
  }
  // imported functions: one "hlt" each, in the order of the file
  f = fopen(imports_file.c_str(), "r");
  if (!f) Die("no " + imports_file);
  static std::vector<std::function<void(Cpu&)>> host;
  while (fgets(buf, sizeof buf, f)) host.push_back(Resolve(Trim(buf)));
  fclose(f);
  for (auto& i : code)
    if (i.name && names[i.name] == "hlt") i.fn = [](Cpu& c, const Insn& i) { host[i.o[0].imm](c), c.next = c.x[30]; };
  for (auto& kv : {std::make_pair("stderr", (void*)stderr), std::make_pair("stdout", (void*)stdout)})
    if (symbols.count(kv.first)) *(void**)symbols[kv.first] = kv.second;
  for (uint64_t k = 0; k < init_n; ++k) Call(((uint64_t*)init)[k]);
}
}  // namespace a64
