// A minimal mlir-opt over the repository's passes and the stand-in dialects:
// runs the repository's own lit tests against the generated patterns.
#include "larq_compute_engine/mlir/ir/lce_ops.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/ToolOutputFile.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Support/FileUtilities.h"
#include "mlir/Support/ToolUtilities.h"
#include "mlir/Transforms/Passes.h"
#include "tensorflow/compiler/mlir/lite/ir/tfl_ops.h"
#include "tensorflow/compiler/mlir/tensorflow/ir/tf_ops.h"
using namespace mlir;
int main(int argc, char** argv) {
  llvm::cl::opt<std::string> in(llvm::cl::Positional, llvm::cl::desc("input"), llvm::cl::init("-"));
  llvm::cl::opt<bool> ver("verify-diagnostics", llvm::cl::init(false));
  llvm::cl::opt<bool> split("split-input-file", llvm::cl::init(false));
  registerCanonicalizerPass();
  PassPipelineCLParser pipe("", "passes");
  registerMLIRContextCLOptions();
  registerPassManagerCLOptions();
  llvm::cl::ParseCommandLineOptions(argc, argv, "");
  std::string err;
  auto f = openInputFile(in, &err);
  if (!f) { llvm::errs() << err << "\n"; return 1; }
  DialectRegistry r;
  r.insert<func::FuncDialect, arith::ArithDialect, quant::QuantizationDialect, TFL::TensorFlowLiteDialect, TF::TensorFlowDialect, lq::LarqDialect>();
  auto run = [&](std::unique_ptr<llvm::MemoryBuffer> b, llvm::raw_ostream& os) -> LogicalResult {
    MLIRContext c(r, MLIRContext::Threading::DISABLED);
    c.allowUnregisteredDialects();
    auto sm = std::make_shared<llvm::SourceMgr>();
    sm->AddNewSourceBuffer(std::move(b), llvm::SMLoc());
    std::unique_ptr<ScopedDiagnosticHandler> h;
    SourceMgrDiagnosticVerifierHandler* vh = nullptr;
    if (ver) h.reset(vh = new SourceMgrDiagnosticVerifierHandler(*sm, &c));
    else h.reset(new SourceMgrDiagnosticHandler(*sm, &c));
    auto m = parseSourceFile<ModuleOp>(sm, &c);
    if (m) {
      PassManager pm(&c, ModuleOp::getOperationName(), OpPassManager::Nesting::Implicit);
      (void)applyPassManagerCLOptions(pm);
      if (failed(pipe.addToPipeline(pm, [](const Twine& t) { llvm::errs() << t << "\n"; return failure(); }))) return failure();
      if (failed(pm.run(*m)) && !ver) return failure();
      m->print(os);
      os << "\n";
    } else if (!ver) return failure();
    return vh ? vh->verify() : success();
  };
  return failed(splitAndProcessBuffer(std::move(f), run, llvm::outs(), split));
}
