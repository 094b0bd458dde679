// The part of the AArch64 program that is not LCE's: a schedule for the matrix
// multiplication (kernel calls on cells of the destination), and the places of
// the standard library that have no header-only definition.
#include "lce_stub/ruy_all.h"

namespace {
int step_l, step_r;
ruy::mc::Plan plan;
void RunPlan(ruy::TrMulParams* p) {
  using namespace ruy;
  const auto &pl = p->packed_matrix[Side::kLhs].layout, &pr = p->packed_matrix[Side::kRhs].layout;
  const int kl = pl.kernel.cols, kr = pr.kernel.cols;
  for (Side s : {Side::kRhs, Side::kLhs}) {
    const int n = s == Side::kLhs ? pl.cols : pr.cols, k = s == Side::kLhs ? kl : kr;
    if (!p->is_prepacked[s]) for (int c = n - k; c >= 0; c -= k) ruy::mc::Pack(p, s, c, c + k);
  }
  for (int r = 0; r < pr.cols; r += kr * step_r)
    for (int l = (pl.cols - 1) / (kl * step_l) * (kl * step_l); l >= 0; l -= kl * step_l)
      ruy::mc::Kernel(p, {l, std::min(l + kl * step_l, pl.cols), r, std::min(r + kr * step_r, pr.cols)});
}
}  // namespace
// cells of step_l x step_r kernel blocks, the last first; 0: one cell
extern "C" void guest_cells(int l, int r) {
  step_l = l, step_r = r;
  plan.run = &RunPlan;
  ruy::mc::plan() = l ? &plan : nullptr;
}
extern "C" long long guest_kernel_calls() { return ruy::mc::kernel_calls(); }
