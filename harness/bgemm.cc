// K08: the binary GEMM under every way of cutting its output into blocks and
// every order of the packing and block computations.
//
// The real operator is run with a scheduler in place of Ruy's: it decides the
// blocks, when each operand column is packed and the order of the block
// computations.  Every load and store the real code performs in a step is
// recorded (compiler instrumentation), and steps that may run concurrently
// must not conflict; hence all interleavings of a partition at the granularity
// of single memory accesses are equivalent to the sequential orders run here.
#include <algorithm>
#include <new>
#include <unordered_map>

#include "conv_common.h"
#include "larq_compute_engine/core/bgemm/ruy_pack.h"

namespace rec {
bool on = false;
char *stack_lo, *stack_hi;
std::unordered_map<uintptr_t, uint8_t>* acc = nullptr;  // byte -> 1 read, 2 write
std::vector<std::pair<char*, char*>> priv;
inline void note(void* p, size_t n, int w) {
  if (!on) return;
  char* a = (char*)p;
  if (a >= stack_lo && a < stack_hi) return;
  on = false;
  bool mine = false;
  for (auto& r : priv) mine |= a >= r.first && a < r.second;
  if (!mine)
    for (size_t i = 0; i < n; ++i) (*acc)[(uintptr_t)a + i] |= w;
  on = true;
}
}  // namespace rec
extern "C" {
#define LS(n) \
  void __sanitizer_cov_load##n(void* p) { rec::note(p, n, 1); } \
  void __sanitizer_cov_store##n(void* p) { rec::note(p, n, 2); }
LS(1) LS(2) LS(4) LS(8) LS(16)
void* memcpy(void* d, const void* s, size_t n) {
  rec::note((void*)s, n, 1);
  rec::note(d, n, 2);
  return __builtin_memmove(d, s, n);
}
void* memset(void* d, int v, size_t n) {
  rec::note(d, n, 2);
  volatile char* p = (char*)d;
  for (size_t i = 0; i < n; ++i) p[i] = (char)v;
  return d;
}
}
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (rec::on) { rec::on = false; rec::priv.push_back({(char*)p, (char*)p + n}); rec::on = true; }
  return p;
}
void* operator new(size_t n, std::align_val_t al) {
  void* p = aligned_alloc((size_t)al, (n + (size_t)al) / (size_t)al * (size_t)al);
  if (rec::on) { rec::on = false; rec::priv.push_back({(char*)p, (char*)p + n}); rec::on = true; }
  return p;
}
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

namespace {
mc::Explorer* EX;
using Acc = std::unordered_map<uintptr_t, uint8_t>;
struct Step {
  bool pack;
  ruy::Side side;
  int c0, c1;            // pack
  ruy::mc::Block b;      // kernel
  Acc acc;
};
void Exec(ruy::TrMulParams* p, Step& s, bool record) {
  if (record) {
    char here;
    rec::stack_hi = &here + (1 << 20);
    rec::stack_lo = &here - (4 << 20);
    rec::acc = &s.acc;
    rec::priv.clear();
    rec::on = true;
  }
  if (s.pack) ruy::mc::Pack(p, s.side, s.c0, s.c1);
  else ruy::mc::Kernel(p, s.b);
  rec::on = false;
}
bool Conflict(const Acc& a, const Acc& b, uintptr_t* where) {
  const Acc &x = a.size() < b.size() ? a : b, &y = a.size() < b.size() ? b : a;
  for (auto& e : x) {
    auto f = y.find(e.first);
    if (f != y.end() && ((e.second | f->second) & 2)) { *where = e.first; return true; }
  }
  return false;
}
std::vector<std::vector<int>> Cuts(int units, int cap) {
  // all ways to cut [0,units): lists of boundaries
  std::vector<std::vector<int>> r;
  const int free = std::min(units - 1, cap);
  for (int m = 0; m < (1 << free); ++m) {
    std::vector<int> c = {0};
    for (int i = 0; i < free; ++i)
      if (m >> i & 1) c.push_back(i + 1);
    c.push_back(units);
    r.push_back(c);
  }
  return r;
}

struct Run {
  const std::vector<int>*rc, *cc;
  bool reverse_first = false;
  bool thorough = false;
  int mode = 0;
  std::vector<int> order;        // permutation of the steps; empty: natural
  std::vector<Step> steps;
  bool record = false;
  int lk = 1, rk = 1;
  void build(ruy::TrMulParams* p) {
    lk = p->packed_matrix[ruy::Side::kLhs].layout.kernel.cols;
    rk = p->packed_matrix[ruy::Side::kRhs].layout.kernel.cols;
    steps.clear();
    for (ruy::Side side : {ruy::Side::kLhs, ruy::Side::kRhs}) {
      if (p->is_prepacked[side]) continue;
      const auto& c = side == ruy::Side::kLhs ? *rc : *cc;
      const int k = side == ruy::Side::kLhs ? lk : rk;
      for (size_t i = 0; i + 1 < c.size(); ++i) {
        Step s{};
        s.pack = true; s.side = side; s.c0 = c[i] * k; s.c1 = c[i + 1] * k;
        steps.push_back(s);
      }
    }
    for (size_t i = 0; i + 1 < rc->size(); ++i)
      for (size_t j = 0; j + 1 < cc->size(); ++j) {
        Step s{};
        s.pack = false;
        s.b = {(*rc)[i] * lk, (*rc)[i + 1] * lk, (*cc)[j] * rk, (*cc)[j + 1] * rk};
        steps.push_back(s);
      }
  }
  bool needs(const Step& pk, const Step& k) const {
    const int a = pk.side == ruy::Side::kLhs ? k.b.lhs0 : k.b.rhs0, b = pk.side == ruy::Side::kLhs ? k.b.lhs1 : k.b.rhs1;
    return pk.c0 < b && a < pk.c1;
  }
};

void Explore(bool th) {
  mc::Explorer& ex = *EX;
  auto shape = [&](int n, int m, int depthBits, int type, int act) {
    ex.config([&]() { return mc::fmt("gemm rows=%d cols=%d depth=%d out=%s act=%d", n, m, depthBits, kOutN[type], act); }, [&]() {
      Geo g;
      g.B = 1; g.H = 1; g.W = m; g.Ci = depthBits; g.Co = n; g.act = act;
      OutSpec spec = DyadicSpec(g, type, n % 4);
      Bits w = Pattern(g.nW(), 5), x = Pattern(g.nIn(), 3);
      ConvOp op(g, Reg(BGEMM), spec, w);
      if (op.prep != kTfLiteOk) { ex.fail("supported configuration rejected"); return; }
      op.SetInput(g, x);
      std::vector<int> acc;
      Model(g, x, w, acc);
      Run r;
      int lu = 0, ru = 0;
      // learn the tile sizes
      ruy::mc::Plan probe{[&](ruy::TrMulParams* p) {
        lu = p->packed_matrix[ruy::Side::kLhs].layout.cols / p->packed_matrix[ruy::Side::kLhs].layout.kernel.cols;
        ru = p->packed_matrix[ruy::Side::kRhs].layout.cols / p->packed_matrix[ruy::Side::kRhs].layout.kernel.cols;
      }};
      ruy::mc::plan() = &probe;
      op.Run();
      ruy::mc::plan() = nullptr;
      // warm-up (function-local statics)
      op.Run();
      if (!lu || !ru) { ex.fail("the matrix multiplication was not dispatched"); return; }
      auto check = [&](const char* what) {
        ex.eval((int64_t)r.steps.size());
        std::string e = Compare(g, spec, acc, op.it.data<char>(op.out), op.it.bytes(op.out));
        if (e.empty() && op.it.SlackDamaged() >= 0) e = "wrote behind a tensor";
        if (!e.empty()) {
          std::string c;
          for (int v : *r.rc) c += mc::fmt("%d ", v);
          c += "| ";
          for (int v : *r.cc) c += mc::fmt("%d ", v);
          c += "order";
          for (int v : r.order) c += mc::fmt(" %d", v);
          ex.fail("%s, cuts %s: %s", what, c.c_str(), e.c_str());
          return false;
        }
        return true;
      };
      int parts = 0, orders = 0;
      const auto RC = Cuts(lu, th ? 6 : 4), CC = Cuts(ru, th ? 6 : 4);
      for (auto& rc : RC)
        for (auto& cc : CC) {
          r.rc = &rc;
          r.cc = &cc;
          ++parts;
          // natural order, recording accesses
          std::vector<Step> st;
          ruy::mc::Plan pl{[&](ruy::TrMulParams* p) {
            r.build(p);
            for (auto& s : r.steps) Exec(p, s, true);
            st = r.steps;
          }};
          ruy::mc::plan() = &pl;
          r.order.clear();
          op.Run();
          ruy::mc::plan() = nullptr;
          if (!check("natural order")) return;
          // no conflicts between steps that may overlap
          for (size_t i = 0; i < st.size(); ++i)
            for (size_t j = i + 1; j < st.size(); ++j) {
              if (st[i].pack && !st[j].pack && r.needs(st[i], st[j])) continue;
              uintptr_t at;
              if (Conflict(st[i].acc, st[j].acc, &at)) {
                auto d = [&](const Step& s) {
                  return s.pack ? mc::fmt("packing of columns %d-%d", s.c0, s.c1)
                                : mc::fmt("block rows %d-%d cols %d-%d", s.b.lhs0, s.b.lhs1, s.b.rhs0, s.b.rhs1);
                };
                const char* o = op.it.data<char>(op.out);
                ex.fail("%s and %s touch the same memory (%s offset %ld)", d(st[i]).c_str(), d(st[j]).c_str(),
                        (const char*)at >= o && (const char*)at < o + op.it.bytes(op.out) ? "output" : "other", (long)((const char*)at - o));
                return;
              }
            }
          // the recording itself must work
          size_t seen = 0;
          for (size_t b = 0; b < op.it.bytes(op.out); ++b)
            for (auto& s : st) {
              auto f = s.acc.find((uintptr_t)(op.it.data<char>(op.out) + b));
              seen += f != s.acc.end() && (f->second & 2);
            }
          if (!seen) { fprintf(stderr, "no recorded access to the output\n"); exit(77); }
          // other orders
          const int S = (int)st.size();
          auto valid = [&](const std::vector<int>& o) {
            std::vector<int> pos(S);
            for (int i = 0; i < S; ++i) pos[o[i]] = i;
            for (int i = 0; i < S; ++i)
              for (int j = 0; j < S; ++j)
                if (st[i].pack && !st[j].pack && r.needs(st[i], st[j]) && pos[i] > pos[j]) return false;
            return true;
          };
          auto run = [&](const std::vector<int>& o) {
            r.order = o;
            ++orders;
            ruy::mc::Plan q{[&](ruy::TrMulParams* p) {
              r.build(p);
              for (int k : o) Exec(p, r.steps[k], false);
            }};
            ruy::mc::plan() = &q;
            op.Run();
            ruy::mc::plan() = nullptr;
            return check("reordered");
          };
          std::vector<int> o(S);
          for (int i = 0; i < S; ++i) o[i] = i;
          if (S <= (th ? 7 : 6)) {
            do {
              if (valid(o) && !run(o)) return;
            } while (std::next_permutation(o.begin(), o.end()));
          } else {
            // kernels in reverse, and every kernel delayed to the end / first
            int np = 0;
            while (np < S && st[np].pack) ++np;
            std::reverse(o.begin() + np, o.end());
            std::reverse(o.begin(), o.begin() + np);
            if (!run(o)) return;
            for (int k = np; k < S; ++k) {
              for (int i = 0; i < S; ++i) o[i] = i;
              std::rotate(o.begin() + k, o.begin() + k + 1, o.end());
              if (!run(o)) return;
              for (int i = 0; i < S; ++i) o[i] = i;
              std::rotate(o.begin() + np, o.begin() + k, o.begin() + k + 1);
              if (!run(o)) return;
            }
          }
        }
      ex.outcome(op.it.data<char>(op.out), op.it.bytes(op.out));
      ex.sample("%d partitions, %d reorderings, access sets disjoint", parts, orders);
    });
  };
  const std::vector<int> DEPTH = th ? std::vector<int>{1, 31, 32, 33, 64, 96, 128, 129, 160, 256, 8192} : std::vector<int>{1, 32, 33, 96, 129, 8192};
  for (int depth : DEPTH)
    for (int n = 1; n <= (th ? 9 : 6); ++n)
      for (int m = 1; m <= (th ? 7 : 5); ++m)
        for (int type : {FLOAT, INT8}) {
          if (depth > 200 && (n > 3 || m > 3)) continue;
          shape(n, m, depth, type, (n + m) % 3 == 0 ? 1 : 0);
        }
  for (int depth : DEPTH)
    for (int n : {1, 5, 8, 31, 32, 33, 40, 63, 64, 65, 72, 95, 96, 97, 104, 128, 129})
      for (int m = 1; m <= (th ? 7 : 4); ++m) {
        if (depth > 200 && (n > 65 || m > 2)) continue;
        shape(n, m, depth, BITS, 0);
      }
}

// The portable 4x4 packing routine used by the Arm kernels.
void Packing(bool th) {
  mc::Explorer& ex = *EX;
  using L = ruy::FixedKernelLayout<ruy::Order::kColMajor, 4, 4>;
  for (int rows = 1; rows <= (th ? 17 : 13); ++rows)
    for (int cols = 1; cols <= (th ? 17 : 13); ++cols)
      for (int extra = 0; extra < 2; ++extra)
        ex.config([&]() { return mc::fmt("pack4x4 rows=%d cols=%d stride+%d", rows, cols, extra * 3); }, [&]() {
          const int sstride = rows + extra * 3, pr = (rows + 3) / 4 * 4, pc = (cols + 3) / 4 * 4, pstride = pr + (extra ? 16 : 0);
          std::vector<int32_t> src((size_t)sstride * cols), want((size_t)pstride * pc, 0x5A5A5A5A);
          for (size_t i = 0; i < src.size(); ++i) src[i] = (int32_t)Mix(i) | 1;
          // 4x4 cells, column after column, rows of a column consecutive
          for (int c = 0; c < pc; ++c)
            for (int r = 0; r < pr; ++r)
              want[(size_t)(c / 4 * 4) * pstride + (r / 4) * 16 + (c % 4) * 4 + r % 4] = r < rows && c < cols ? src[(size_t)c * sstride + r] : 0;
          for (auto& cut : Cuts(pc / 4, 5)) {
            std::vector<size_t> o(cut.size() - 1);
            for (size_t i = 0; i < o.size(); ++i) o[i] = i;
            do {
              std::vector<int32_t> dst((size_t)pstride * pc, 0x5A5A5A5A);
              for (size_t i : o) {
                ruy::EMat s;
                s.data_type = ruy::Type::Create<int32_t>();
                s.data = src.data();
                s.layout.rows = rows; s.layout.cols = cols; s.layout.stride = sstride; s.layout.order = ruy::Order::kColMajor;
                ruy::PEMat p;
                p.data_type = ruy::Type::Create<int32_t>();
                p.data = dst.data();
                p.layout.rows = pr; p.layout.cols = pc; p.layout.stride = pstride; p.layout.order = ruy::Order::kColMajor;
                p.layout.kernel = ruy::ToKernelLayout<L>();
                compute_engine::core::bgemm::RunRuyPack<ruy::Path::kStandardCpp, L>(ruy::Tuning::kAuto, s, &p, cut[i] * 4, cut[i + 1] * 4);
              }
              ex.eval((int64_t)o.size());
              if (dst != want) {
                size_t k = 0;
                while (dst[k] == want[k]) ++k;
                ex.fail("packed word %zu: expected 0x%08x got 0x%08x (%zu column blocks)", k, want[k], dst[k], o.size());
                return;
              }
            } while (o.size() <= 4 && std::next_permutation(o.begin(), o.end()));
          }
        });
}
}  // namespace

int main(int argc, char** argv) {
  mc::Options o = mc::parse(argc, argv);
  return mc::run(o, [&](mc::Explorer& ex) {
    EX = &ex;
    Explore(ex.thorough);
    Packing(ex.thorough);
  });
}
