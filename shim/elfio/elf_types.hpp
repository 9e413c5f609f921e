// Stand-in for ELFIO (not available offline): same names and behaviour as far
// as mpact-sim's program loader uses them; files come from a simulated store.
#ifndef VERIF_ELFIO_TYPES_HPP_
#define VERIF_ELFIO_TYPES_HPP_
#include <cstdint>
namespace ELFIO {
using Elf_Half = uint16_t;
using Elf_Word = uint32_t;
using Elf_Sword = int32_t;
using Elf_Xword = uint64_t;
using Elf_Sxword = int64_t;
using Elf64_Addr = uint64_t;
using Elf32_Addr = uint32_t;
using Elf64_Off = uint64_t;
constexpr Elf_Word PT_NULL = 0, PT_LOAD = 1, PT_DYNAMIC = 2, PT_INTERP = 3, PT_NOTE = 4, PT_PHDR = 6, PT_TLS = 7;
constexpr Elf_Word PT_GNU_STACK = 0x6474e551;
constexpr Elf_Word PF_X = 1, PF_W = 2, PF_R = 4;
constexpr Elf_Word SHT_NULL = 0, SHT_PROGBITS = 1, SHT_SYMTAB = 2, SHT_STRTAB = 3, SHT_NOBITS = 8, SHT_DYNSYM = 11;
constexpr unsigned char STT_NOTYPE = 0, STT_OBJECT = 1, STT_FUNC = 2, STT_SECTION = 3, STT_FILE = 4;
constexpr unsigned char STB_LOCAL = 0, STB_GLOBAL = 1, STB_WEAK = 2;
}  // namespace ELFIO
#endif
