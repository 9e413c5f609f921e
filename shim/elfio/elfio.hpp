#ifndef VERIF_ELFIO_HPP_
#define VERIF_ELFIO_HPP_
#include <cstring>
#include <istream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "elfio/elf_types.hpp"
namespace ELFIO {
struct VerifSymbol {
  std::string name;
  uint64_t value = 0, size = 0;
  unsigned char bind = STB_GLOBAL, type = STT_NOTYPE, other = 0;
  Elf_Half section = 1;
};
// What a simulated file holds.
struct VerifFile {
  struct Seg { Elf_Word type = PT_LOAD, flags = PF_R; uint64_t vaddr = 0, paddr = 0, memsz = 0; std::vector<char> data; };
  struct Sec { Elf_Word type = SHT_PROGBITS; std::vector<VerifSymbol> symbols; };
  std::vector<Seg> segs;
  std::vector<Sec> secs;
  uint64_t entry = 0;
  int load_fails_after = -1;   // parsing stops after that many parts
  std::string invalid;         // what validate() says
};
inline std::map<std::string, VerifFile>& VerifFiles() { static auto* m = new std::map<std::string, VerifFile>; return *m; }

class section {
 public:
  section(Elf_Half i, const VerifFile::Sec& s) : index_(i), sec_(s) {}
  Elf_Half get_index() const { return index_; }
  Elf_Word get_type() const { return sec_.type; }
  std::string get_name() const { return ""; }
  Elf_Xword get_size() const { return sec_.symbols.size() * 24; }
  Elf_Xword get_entry_size() const { return 24; }
  const VerifFile::Sec& verif() const { return sec_; }
 private:
  Elf_Half index_;
  VerifFile::Sec sec_;
};
class segment {
 public:
  segment(Elf_Half i, const VerifFile::Seg& s) : index_(i), seg_(s) {}
  Elf_Half get_index() const { return index_; }
  Elf_Word get_type() const { return seg_.type; }
  Elf_Word get_flags() const { return seg_.flags; }
  Elf_Xword get_align() const { return 1; }
  Elf64_Addr get_virtual_address() const { return seg_.vaddr; }
  Elf64_Addr get_physical_address() const { return seg_.paddr; }
  Elf_Xword get_file_size() const { return seg_.data.size(); }
  Elf_Xword get_memory_size() const { return seg_.memsz; }
  const char* get_data() const { return seg_.data.empty() ? nullptr : seg_.data.data(); }
 private:
  Elf_Half index_;
  VerifFile::Seg seg_;
};
template <typename T>
class VerifList {
 public:
  Elf_Half size() const { return v_.size(); }
  T* operator[](unsigned i) const { return i < v_.size() ? v_[i].get() : nullptr; }
  typename std::vector<std::unique_ptr<T>>::iterator begin() { return v_.begin(); }
  typename std::vector<std::unique_ptr<T>>::iterator end() { return v_.end(); }
  typename std::vector<std::unique_ptr<T>>::const_iterator begin() const { return v_.begin(); }
  typename std::vector<std::unique_ptr<T>>::const_iterator end() const { return v_.end(); }
  std::vector<std::unique_ptr<T>> v_;
};
class elfio {
 public:
  // As the real one: whatever was loaded before is gone, even on failure.
  bool load(const std::string& name, bool = false) {
    sections.v_.clear();
    segments.v_.clear();
    entry_ = 0;
    invalid_.clear();
    auto it = VerifFiles().find(name);
    if (it == VerifFiles().end()) return false;
    const VerifFile& f = it->second;
    int n = 0;
    entry_ = f.entry;
    for (auto& s : f.secs) {
      if (n++ == f.load_fails_after) return false;
      sections.v_.push_back(std::make_unique<section>(sections.size(), s));
    }
    for (auto& s : f.segs) {
      if (n++ == f.load_fails_after) return false;
      segments.v_.push_back(std::make_unique<segment>(segments.size(), s));
    }
    if (f.load_fails_after >= n) return false;
    invalid_ = f.invalid;
    return true;
  }
  std::string validate() const { return invalid_; }
  Elf64_Addr get_entry() const { return entry_; }
  VerifList<section> sections;
  VerifList<segment> segments;
 private:
  uint64_t entry_ = 0;
  std::string invalid_;
};
template <class S>
class symbol_section_accessor_template {
 public:
  symbol_section_accessor_template(const elfio& e, S* s) : elf_(e), section_(s) {}
  Elf_Xword get_symbols_num() const { return section_->verif().symbols.size(); }
  bool get_symbol(Elf_Xword i, std::string& name, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind,
                  unsigned char& type, Elf_Half& sec, unsigned char& other) const {
    auto& v = section_->verif().symbols;
    if (i >= v.size()) return false;
    name = v[i].name; value = v[i].value; size = v[i].size; bind = v[i].bind;
    type = v[i].type; sec = v[i].section; other = v[i].other;
    return true;
  }
  bool get_symbol(const std::string& want, Elf64_Addr& value, Elf_Xword& size, unsigned char& bind,
                  unsigned char& type, Elf_Half& sec, unsigned char& other) const {
    std::string name;
    for (Elf_Xword i = 0; i < get_symbols_num(); ++i) {
      get_symbol(i, name, value, size, bind, type, sec, other);
      if (name == want) return true;
    }
    return false;
  }
 private:
  const elfio& elf_;
  S* section_;
};
using symbol_section_accessor = symbol_section_accessor_template<section>;
using const_symbol_section_accessor = symbol_section_accessor_template<const section>;
}  // namespace ELFIO
#endif
