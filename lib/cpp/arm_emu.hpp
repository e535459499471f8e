// An interpreter for the AArch64 assembly text the generator emits (integer subset).  It executes a function
// the way a CPU would, and checks on the way: every load and store stays inside the operands, the literal
// data or the stack; the callee-saved registers and the stack pointer are restored; x18 is untouched.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace arm {
struct Region { const void *p; size_t n; bool write; };
// Calls `fn` with up to 4 integer/pointer arguments; regions are the memory it may touch.
uint64_t call(const char *fn, const uint64_t *args, int nargs, const Region *regs, int nregs);
// Loads a program explicitly (otherwise the file ARM_SOURCE is loaded on first use).
bool exists(const char *fn);
extern uint64_t instructions;
}
