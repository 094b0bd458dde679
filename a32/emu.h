// An interpreter for ARMv7 (A32, VFP, NEON) programs, whose memory is the part
// of this process's memory below 4 GB.
#ifndef VERIF_A32_EMU_H_
#define VERIF_A32_EMU_H_
#include <cstddef>
#include <cstdint>
#include <string>
namespace a32 {
// Loads a statically linked program from its disassembly (llvm-objdump -d) and
// its ELF image, runs its constructors.
void Load(const std::string& elf, const std::string& listing, const std::string& imports);
uint32_t Symbol(const std::string& name);  // address in the program
// Calls a function of the program with integer arguments.
uint32_t Call(uint32_t f, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0);
// Memory that the program can address, with AddressSanitizer's red zones.
void* Alloc(size_t n);
void Free(void* p);
// What the program reported with host_report.
const char* Report();
void ClearReport();
extern uint64_t executed;  // instructions
}  // namespace a32
#endif
