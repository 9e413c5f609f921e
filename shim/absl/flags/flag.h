// Stand-in: command-line flags as plain variables holding their default.
#ifndef VERIF_SHIM_ABSL_FLAGS_FLAG_H_
#define VERIF_SHIM_ABSL_FLAGS_FLAG_H_
#define ABSL_FLAG(T, name, def, help) T FLAGS_##name = def
#define ABSL_DECLARE_FLAG(T, name) extern T FLAGS_##name
namespace absl {
template <typename T> T GetFlag(const T& f) { return f; }
template <typename T, typename V> void SetFlag(T* f, const V& v) { *f = v; }
}  // namespace absl
#endif
