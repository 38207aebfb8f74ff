// Stand-in for gflags: the same macros and functions, a plain --name=value parser.
#ifndef FAKE_GFLAGS_H_
#define FAKE_GFLAGS_H_
#include <stdint.h>
#include <string>
struct VsFlag { const char* name; int kind; void* p; const char* ds; uint64_t dn; bool set; VsFlag* next; };
extern VsFlag* vs_flags;
inline VsFlag* vs_flag_reg(VsFlag* f) { f->next = vs_flags; vs_flags = f; return f; }
#define DEFINE_string(n, d, h) static std::string FLAGS_##n; static VsFlag vsf_##n = {#n, 0, &FLAGS_##n, d, 0, false, 0}; static VsFlag* vsr_##n = vs_flag_reg(&vsf_##n)
#define DEFINE_uint64(n, d, h) static uint64_t FLAGS_##n = d; static VsFlag vsf_##n = {#n, 1, &FLAGS_##n, 0, (uint64_t)(d), false, 0}; static VsFlag* vsr_##n = vs_flag_reg(&vsf_##n)
#define DEFINE_bool(n, d, h) static bool FLAGS_##n = d; static VsFlag vsf_##n = {#n, 2, &FLAGS_##n, 0, (uint64_t)(d), false, 0}; static VsFlag* vsr_##n = vs_flag_reg(&vsf_##n)
#define DEFINE_int32(n, d, h) static int32_t FLAGS_##n = d; static VsFlag vsf_##n = {#n, 3, &FLAGS_##n, 0, (uint64_t)(d), false, 0}; static VsFlag* vsr_##n = vs_flag_reg(&vsf_##n)
#define DEFINE_int64(n, d, h) static int64_t FLAGS_##n = d; static VsFlag vsf_##n = {#n, 4, &FLAGS_##n, 0, (uint64_t)(d), false, 0}; static VsFlag* vsr_##n = vs_flag_reg(&vsf_##n)
namespace google {
struct CommandLineFlagInfo { std::string name; bool is_default; };
uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool remove);
CommandLineFlagInfo GetCommandLineFlagInfoOrDie(const char* name);
inline void ShowUsageWithFlagsRestrict(const char*, const char*) {}
inline void ShowUsageWithFlags(const char*) {}
inline void SetUsageMessage(const std::string&) {}
inline void SetVersionString(const std::string&) {}
}
namespace gflags { using namespace google; }
#endif
