// /verif shim: the subset of RE2's API mpact-sim uses. Patterns made of
// characters, classes, capture groups and greedy repetitions of single
// characters run on a small matcher (constant stack, RE2's treatment of UTF-8);
// anything else falls back to std::regex.
#ifndef VERIF_SHIM_RE2_H_
#define VERIF_SHIM_RE2_H_
#include <bitset>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <regex>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
class RE2 {
 public:
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  RE2(const char* p) : RE2(std::string(p), DefaultOptions) {}              // NOLINT
  RE2(const std::string& p) : RE2(p, DefaultOptions) {}                    // NOLINT
  RE2(std::string_view p) : RE2(std::string(p), DefaultOptions) {}         // NOLINT
  RE2(const std::string& p, CannedOptions o) : pattern_(p), latin1_(o == Latin1) {
    if (!Parse()) re_ = std::make_unique<std::regex>(p, std::regex::ECMAScript);
  }
  RE2(const RE2&) = delete;
  bool ok() const { return true; }
  const std::string& pattern() const { return pattern_; }
  template <typename... A>
  static bool FullMatch(std::string_view text, const RE2& re, A... args) {
    Groups g;
    if (!re.Run(text, true, true, g)) return false;
    return Assign(g, 1, args...);
  }
  template <typename... A>
  static bool PartialMatch(std::string_view text, const RE2& re, A... args) {
    Groups g;
    if (!re.Run(text, false, false, g)) return false;
    return Assign(g, 1, args...);
  }
  template <typename SV, typename... A>
  static bool Consume(SV* text, const RE2& re, A... args) {
    Groups g;
    if (!re.Run(std::string_view(text->data(), text->size()), true, false, g)) return false;
    if (!Assign(g, 1, args...)) return false;
    text->remove_prefix(g[0].size());
    return true;
  }
 private:
  using Groups = std::vector<std::string_view>;   // data() == nullptr: not matched
  enum Kind { kChar, kOpen, kClose, kBegin, kEnd };
  struct Atom {
    Kind kind = kChar;
    std::bitset<256> set;
    bool wide = false;       // also matches characters beyond ASCII
    size_t min = 1, max = 1;
    int group = 0;
  };
  static void Add(std::bitset<256>& s, char c, bool* neg) {
    *neg = false;
    auto fill = [&](const char* chars, bool n) {
      std::bitset<256> t;
      for (const char* p = chars; *p; ++p) t.set(static_cast<unsigned char>(*p));
      if (n) { for (int i = 0; i < 128; ++i) if (!t[i]) s.set(i); *neg = true; }
      else s |= t;
    };
    const char* digits = "0123456789";
    const char* space = " \t\n\f\r";
    const char* word = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    switch (c) {
      case 'd': fill(digits, false); break;
      case 'D': fill(digits, true); break;
      case 's': fill(space, false); break;
      case 'S': fill(space, true); break;
      case 'w': fill(word, false); break;
      case 'W': fill(word, true); break;
      case 'n': s.set('\n'); break;
      case 't': s.set('\t'); break;
      case 'r': s.set('\r'); break;
      default: s.set(static_cast<unsigned char>(c));
    }
  }
  bool Parse() {
    const std::string& p = pattern_;
    std::vector<int> open;
    int groups = 0;
    for (size_t i = 0; i < p.size();) {
      Atom a;
      char c = p[i++];
      if (c == '|') return false;
      if (c == '(') {
        if (i < p.size() && p[i] == '?') return false;
        a.kind = kOpen; a.group = ++groups; open.push_back(a.group); atoms_.push_back(a);
        continue;
      }
      if (c == ')') {
        if (open.empty()) return false;
        a.kind = kClose; a.group = open.back(); open.pop_back(); atoms_.push_back(a);
        if (i < p.size() && (p[i] == '*' || p[i] == '+' || p[i] == '?' || p[i] == '{')) return false;
        continue;
      }
      if (c == '^') { a.kind = kBegin; atoms_.push_back(a); continue; }
      if (c == '$') { a.kind = kEnd; atoms_.push_back(a); continue; }
      bool neg;
      if (c == '.') { a.set.set(); a.set.reset('\n'); a.wide = true; }
      else if (c == '\\') {
        if (i >= p.size()) return false;
        if (p[i] == 'b' || p[i] == 'B' || p[i] == 'x' || p[i] == 'p') return false;
        Add(a.set, p[i++], &neg);
        a.wide = neg;
      } else if (c == '[') {
        bool inv = i < p.size() && p[i] == '^';
        if (inv) ++i;
        bool first = true;
        while (i < p.size() && (p[i] != ']' || first)) {
          first = false;
          if (p[i] == '[' && i + 1 < p.size() && p[i + 1] == ':') return false;
          if (p[i] == '\\') { Add(a.set, p[i + 1], &neg); a.wide |= neg; i += 2; continue; }
          if (i + 2 < p.size() && p[i + 1] == '-' && p[i + 2] != ']') {
            for (int k = static_cast<unsigned char>(p[i]); k <= static_cast<unsigned char>(p[i + 2]); ++k) a.set.set(k);
            i += 3;
            continue;
          }
          a.set.set(static_cast<unsigned char>(p[i++]));
        }
        if (i >= p.size()) return false;
        ++i;
        if (inv) { a.set = ~a.set; a.wide = !a.wide; }
      } else {
        a.set.set(static_cast<unsigned char>(c));
      }
      if (!latin1_) for (int k = 128; k < 256; ++k) a.set.reset(k);
      if (i < p.size()) {
        if (p[i] == '*') { a.min = 0; a.max = ~size_t{0}; ++i; }
        else if (p[i] == '+') { a.max = ~size_t{0}; ++i; }
        else if (p[i] == '?') { a.min = 0; ++i; }
        else if (p[i] == '{') {
          char* e;
          a.min = strtoul(p.c_str() + i + 1, &e, 10);
          a.max = a.min;
          if (*e == ',') { ++e; if (*e == '}') a.max = ~size_t{0}; else a.max = strtoul(e, &e, 10); }
          if (*e != '}') return false;
          i = e - p.c_str() + 1;
        }
        if (i < p.size() && (p[i] == '?' || p[i] == '*' || p[i] == '+')) return false;   // lazy
      }
      atoms_.push_back(a);
    }
    groups_ = groups;
    return open.empty();
  }
  // Length of the character at pos if the atom matches it, else 0.
  size_t Unit(const Atom& a, std::string_view t, size_t pos) const {
    unsigned char c = t[pos];
    if (c < 128 || latin1_) return a.set[c];
    if (!a.wide) return 0;
    size_t n = c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : c >= 0xc2 ? 2 : 0;
    if (n == 0 || c > 0xf4 || pos + n > t.size()) return 0;
    for (size_t i = 1; i < n; ++i) if ((static_cast<unsigned char>(t[pos + i]) & 0xc0) != 0x80) return 0;
    return n;
  }
  bool Match(size_t at, std::string_view t, size_t pos, bool to_end, std::vector<size_t>& b, std::vector<size_t>& e, size_t* end) const {
    while (at < atoms_.size() && atoms_[at].kind != kChar) {
      const Atom& a = atoms_[at++];
      if (a.kind == kOpen) b[a.group] = pos;
      else if (a.kind == kClose) e[a.group] = pos;
      else if (a.kind == kBegin && pos != 0) return false;
      else if (a.kind == kEnd && pos != t.size()) return false;
    }
    if (at == atoms_.size()) {
      if (to_end && pos != t.size()) return false;
      *end = pos;
      return true;
    }
    const Atom& a = atoms_[at];
    size_t start = pos, n = 0;
    while (n < a.max && pos < t.size()) {
      size_t u = Unit(a, t, pos);
      if (u == 0) break;
      pos += u;
      ++n;
    }
    while (n >= a.min) {
      if (Match(at + 1, t, pos, to_end, b, e, end)) return true;
      if (n == 0) break;
      --n;
      do --pos; while (pos > start && !latin1_ && (static_cast<unsigned char>(t[pos]) & 0xc0) == 0x80);
    }
    return false;
  }
  bool Run(std::string_view text, bool from_start, bool to_end, Groups& g) const {
    if (re_) {
      std::cmatch m;
      const char* f = text.data();
      const char* l = f + text.size();
      bool r = to_end ? std::regex_match(f, l, m, *re_)
                      : std::regex_search(f, l, m, *re_, from_start ? std::regex_constants::match_continuous : std::regex_constants::match_default);
      if (!r) return false;
      for (auto& s : m) g.push_back(s.matched ? std::string_view(s.first, s.length()) : std::string_view());
      return true;
    }
    for (size_t s = 0; s <= (from_start ? 0 : text.size()); ++s) {
      std::vector<size_t> b(groups_ + 1), e(groups_ + 1);
      size_t end;
      if (!Match(0, text, s, to_end, b, e, &end)) continue;
      g.push_back(text.substr(s, end - s));
      for (int i = 1; i <= groups_; ++i) g.push_back(text.substr(b[i], e[i] - b[i]));
      return true;
    }
    return false;
  }
  static bool Assign(const Groups&, size_t) { return true; }
  template <typename T, typename... R>
  static bool Assign(const Groups& m, size_t i, T out, R... rest) {
    if (i >= m.size()) return false;
    if (!Set(m[i], out)) return false;
    return Assign(m, i + 1, rest...);
  }
  static bool Set(std::string_view s, std::string* o) { if (o) *o = std::string(s); return true; }
  static bool Set(std::string_view s, std::string_view* o) { if (o) *o = s; return true; }
  static bool Set(std::string_view, std::nullptr_t) { return true; }
  template <typename T>
  static typename std::enable_if<std::is_integral<T>::value, bool>::type Set(std::string_view s, T* o) {
    if (s.empty()) return false;
    std::string t(s);
    char* e;
    errno = 0;
    long long v = strtoll(t.c_str(), &e, 10);
    if (*e || errno != 0 || static_cast<long long>(static_cast<T>(v)) != v) return false;
    if (o) *o = static_cast<T>(v);
    return true;
  }
  std::string pattern_;
  bool latin1_ = false;
  int groups_ = 0;
  std::vector<Atom> atoms_;
  std::unique_ptr<std::regex> re_;
};
// Aggregate, constant-initialised like the real one.
class LazyRE2 {
 public:
  const char* pattern_;
  RE2::CannedOptions options_;
  mutable RE2* ptr_;
  RE2& operator*() const { return *get(); }
  RE2* operator->() const { return get(); }
  RE2* get() const {
    if (ptr_ == nullptr) ptr_ = new RE2(pattern_, options_);
    return ptr_;
  }
};
#endif
