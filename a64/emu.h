// An interpreter for AArch64 programs whose memory is that of this process.
#ifndef VERIF_A64_EMU_H_
#define VERIF_A64_EMU_H_
#include <cstdint>
#include <string>
namespace a64 {
// Loads a statically linked program from its disassembly (llvm-objdump -d) and
// its ELF image, runs its constructors.
void Load(const std::string& elf, const std::string& listing, const std::string& imports);
uint64_t Symbol(const std::string& name);  // address in the program
// Calls a function of the program with integer arguments.
uint64_t Call(uint64_t f, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0, uint64_t g = 0);
extern uint64_t executed;  // instructions
const char* Coverage();    // mnemonics executed at least once
}  // namespace a64
#endif
