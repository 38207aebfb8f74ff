// C15: the vcdiff command.  vcdiff_main.cc runs unmodified against an in-memory
// file system in which the fault-th I/O operation fails.
#include "dech.h"
#include "jsonp.h"
#include "google/vcencoder.h"
#include "fake/gflags/gflags.h"
#include <stdio.h>
#include <errno.h>
int vcdiff_cli_main(int argc, char** argv);
VsFlag* vs_flags;
static bool streq(const char* a, const char* b, size_t n) { return strlen(b) == n && !memcmp(a, b, n); }
static int g_bad_flag;
namespace google {
uint32_t ParseCommandLineFlags(int* argc, char*** argv, bool) {
  for (VsFlag* f = vs_flags; f; f = f->next) { f->set = false; if (f->kind == 0) *(std::string*)f->p = f->ds; else if (f->kind == 1 || f->kind == 4) *(uint64_t*)f->p = f->dn; else if (f->kind == 3) *(int32_t*)f->p = (int32_t)f->dn; else *(bool*)f->p = f->dn != 0; }
  int o = 1;
  for (int i = 1; i < *argc; i++) {
    char* a = (*argv)[i];
    if (a[0] != '-') { (*argv)[o++] = a; continue; }
    while (*a == '-') a++;
    const char* eq = strchr(a, '='); size_t n = eq ? (size_t)(eq - a) : strlen(a); bool done = false;
    for (VsFlag* f = vs_flags; f && !done; f = f->next) {
      if (streq(a, f->name, n)) { done = true; f->set = true; if (f->kind == 0) *(std::string*)f->p = eq ? eq + 1 : ""; else if (f->kind == 2) *(bool*)f->p = !eq || !strcmp(eq + 1, "true"); else { uint64_t v = 0; for (const char* q = eq + 1; *q; q++) v = v * 10 + (*q - '0'); if (f->kind == 3) *(int32_t*)f->p = (int32_t)v; else *(uint64_t*)f->p = v; } }
      else if (f->kind == 2 && n > 2 && a[0] == 'n' && a[1] == 'o' && streq(a + 2, f->name, n - 2)) { done = true; f->set = true; *(bool*)f->p = false; }
    }
    if (!done) g_bad_flag = 1;
  }
  *argc = o; return o;
}
CommandLineFlagInfo GetCommandLineFlagInfoOrDie(const char* name) { CommandLineFlagInfo c; c.name = name; c.is_default = true; for (VsFlag* f = vs_flags; f; f = f->next) if (!strcmp(f->name, name)) c.is_default = !f->set; return c; }
}
// ---- in-memory files ----
struct File { const char* name; uint8_t data[1600]; size_t len; bool exists; uint8_t pend[1600]; size_t np; bool touched; };   // data: durable contents; pend: still in the stdio buffer
static uint8_t g_mut; static size_t g_mut_at = (size_t)-1;      // what a reader of the delta finds at one position: xor with g_mut
struct Handle { File* f; size_t pos; bool rd, wr, err, eof, open; };
enum { F_DICT, F_TARGET, F_DELTA, F_STDIN, F_STDOUT, NFILES };
static File g_f[NFILES]; static Handle g_h[16]; static int g_nh; static unsigned g_op; static uint8_t g_fault; static bool g_faulted; static int g_fault_kind;
static bool faulty(int kind) { g_op++; if (g_fault_kind && g_fault_kind != kind) return false; if (g_fault != 0 && g_op == g_fault) { g_faulted = true; errno = EIO; return true; } return false; }
static void flush_ok(Handle* h) { File* f = h->f; for (size_t i = 0; i < f->np; i++) f->data[f->len++] = f->pend[i]; f->np = 0; }
static Handle* mk(File* f, bool rd, bool wr) { Handle* h = &g_h[g_nh++]; h->f = f; h->pos = 0; h->rd = rd; h->wr = wr; h->err = h->eof = false; h->open = true; return h; }
static Handle *g_in, *g_out;
static Handle* H(FILE* p) { Handle* h = (Handle*)p; vs_assert(h && h->open, "I/O on a closed or null stream"); return h; }
extern "C" {
FILE* vsf_stdin() { if (!g_in) g_in = mk(&g_f[F_STDIN], true, false); return (FILE*)g_in; }
FILE* vsf_stdout() { if (!g_out) { g_out = mk(&g_f[F_STDOUT], false, true); } return (FILE*)g_out; }
FILE* vsf_fopen(const char* n, const char* m) {
  if (faulty(1)) return 0;
  for (int i = 0; i < NFILES; i++) if (g_f[i].name && !strcmp(g_f[i].name, n)) {
    if (m[0] == 'r') { if (!g_f[i].exists) { errno = ENOENT; return 0; } return (FILE*)mk(&g_f[i], true, false); }
    g_f[i].touched = true; g_f[i].exists = true; if (m[0] == 'w') g_f[i].len = 0; return (FILE*)mk(&g_f[i], false, true); }
  errno = ENOENT; return 0;
}
int vsf_fflush(FILE* p) { if (!p) { if (g_out) return vsf_fflush((FILE*)g_out); return 0; } Handle* h = H(p); if (!h->wr) return 0; bool any = h->f->np; if (faulty(2) && any) { h->err = true; h->f->np = 0; return EOF; } flush_ok(h); return 0; }
int vsf_fclose(FILE* p) { Handle* h = H(p); int r = 0; if (h->wr) { bool any = h->f->np; if (faulty(3) && any) { h->f->np = 0; r = EOF; } else flush_ok(h); } h->open = false; return r; }
size_t vsf_fread(void* b, size_t s, size_t n, FILE* p) {
  Handle* h = H(p); size_t want = s * n; if (h->err || !want) return 0;
  vs_assert(h->rd, "read from an output stream");
  size_t left = h->f->len - h->pos, take = want < left ? want : left; bool bad = faulty(4); if (bad) take /= 2;
  if (take) memcpy(b, h->f->data + h->pos, take); if (h->f == &g_f[F_DELTA] && g_mut_at >= h->pos && g_mut_at < h->pos + take) ((uint8_t*)b)[g_mut_at - h->pos] ^= g_mut; h->pos += take; if (bad) h->err = true; else if (take < want) h->eof = true;
  return take / s;
}
size_t vsf_fwrite(const void* b, size_t s, size_t n, FILE* p) {
  Handle* h = H(p); vs_assert(h->wr, "write to an input stream"); size_t want = s * n; bool bad = faulty(5); if (bad) { want /= 2; h->err = true; errno = ENOSPC; }
  vs_assert(h->f->len + h->f->np + want <= sizeof h->f->data, "unreasonable amount of output");
  if (want) memcpy(h->f->pend + h->f->np, b, want); h->f->np += want; return want / s;
}
int vsf_feof(FILE* p) { return H(p)->eof; }
int vsf_ferror(FILE* p) { return H(p)->err; }
void vsf_clearerr(FILE* p) { H(p)->err = H(p)->eof = false; }
int vsf_fseek(FILE* p, long o, int w) { Handle* h = H(p); if (faulty(6)) return -1; h->pos = w == SEEK_SET ? o : w == SEEK_CUR ? h->pos + o : h->f->len + o; h->eof = false; return 0; }
void vsf_rewind(FILE* p) { Handle* h = H(p); h->pos = 0; h->eof = h->err = false; }
long vsf_ftell(FILE* p) { return (long)H(p)->pos; }
int vsf_fgetc(FILE* p) { Handle* h = H(p); if (h->err || faulty(7)) { h->err = true; return EOF; } if (h->pos >= h->f->len) { h->eof = true; return EOF; } return h->f->data[h->pos++]; }
int vsf_fputc(int c, FILE* p) { uint8_t b = (uint8_t)c; return vsf_fwrite(&b, 1, 1, p) == 1 ? c : EOF; }
int vsf_ungetc(int c, FILE* p) { Handle* h = H(p); if (c == EOF || !h->pos) return EOF; h->pos--; h->eof = false; return c; }
int vsf_remove(const char* n) { for (int i = 0; i < NFILES; i++) if (g_f[i].name && !strcmp(g_f[i].name, n)) { g_f[i].exists = false; g_f[i].len = g_f[i].np = 0; } return 0; }
}
static char g_args[16][48]; static char* g_argv[17]; static int g_argc;
static void arg(const char* a) { char* d = g_args[g_argc]; size_t i = 0; for (; a[i]; i++) d[i] = a[i]; d[i] = 0; g_argv[g_argc] = d; g_argc++; g_argv[g_argc] = 0; }
static void arg_num(const char* a, uint64_t v) { char t[48]; char b[24]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); size_t i = 0; for (; a[i]; i++) t[i] = a[i]; while (n) t[i++] = b[--n]; t[i] = 0; arg(t); }
static void put_file(int i, const uint8_t* p, size_t n) { memcpy(g_f[i].data, p, n); g_f[i].len = n; g_f[i].exists = true; }
static int run_cli(uint64_t budget) {
  vs_budget(budget); int rc = vcdiff_cli_main(g_argc, g_argv);
  // exit(): what is still in the stdout buffer is flushed, too late for the command to notice a failure
  if (g_out && g_out->f->np) { if (faulty(2)) g_out->f->np = 0; else flush_ok(g_out); }
  vs_observe(rc); return rc;
}
static JsonDelta J;
static void setup(size_t dn, size_t tn) {
  g_f[F_DICT].name = "dict"; g_f[F_TARGET].name = "target"; g_f[F_DELTA].name = "delta"; mkdict(dn); put_file(F_DICT, g_dict, dn);
  uint8_t t[200]; size_t ls = vs_param("lit", 2); for (size_t i = 0; i < tn; i++) t[i] = i < ls ? (vs_param("symt", 1) && i < 1 ? vs_u8("t") : (uint8_t)('a' + i)) : g_dict[(i - ls + 3) % (dn ? dn : 1)];
  if (vs_param("ascii", 0)) { for (size_t i = 0; i < dn; i++) g_dict[i] &= 127; put_file(F_DICT, g_dict, dn); for (size_t i = 0; i < tn; i++) if (i || !vs_param("symt", 1)) t[i] &= 127; }
  put_file(F_TARGET, t, tn); g_f[F_TARGET].exists = true;
  g_fault = vs_param("faults", 0) ? vs_u8("fault") : 0; g_fault_kind = vs_param("fk", 0);
}
static void opts(bool enc) {
  arg("--dictionary=dict");
  if (vs_param("buf", 0)) arg_num("--buffersize=", vs_param("buf", 0));
  if (enc) { if (vs_param("il", 0)) arg("--interleaved"); if (vs_param("ck", 0)) arg("--checksum"); if (vs_param("tm", 0)) arg("--target_matches"); if (vs_param("js", 0)) arg("--json"); }
  if (vs_param("stats", 0)) arg("--stats");
}
static void check_delta(const uint8_t* b, size_t n) {
  const uint8_t* t = g_f[F_TARGET].data; size_t tn = g_f[F_TARGET].len, dn = g_f[F_DICT].len;
  if (vs_param("js", 0)) { if (tn == 0) return; if (!J.parse(g_dict, dn, b, n)) vs_fail(J.err); vs_assert(J.n == tn, "JSON delta length"); for (size_t i = 0; i < tn; i++) vs_assert(J.out[i] == t[i], "JSON delta differs from target"); return; }
  R.init(g_dict, dn); int r = R.file(b, n);
  vs_assert(r == REF_ACCEPT, "exit status 0 but the delta file is not a complete, valid delta");
  vs_assert(R.out_len == tn, "exit status 0 but the delta describes a different length"); for (size_t i = 0; i < tn; i++) vs_assert(R.out[i] == t[i], "exit status 0 but the delta describes different data");
  bool il = vs_param("il", 0), ck = vs_param("ck", 0);
  vs_assert(b[3] == (il || ck ? 'S' : 0), "format flags not honoured"); if (tn) { vs_assert(ck ? R.checksums == R.windows : R.checksums == 0, "--checksum not honoured"); vs_assert(il ? R.separate == 0 : R.inter == 0, "--interleaved not honoured"); if (!vs_param("tm", 0)) vs_assert(R.tcopies == 0, "target matches although not requested"); }
}
// encode: --target or stdin -> --delta or stdout
extern "C" void cli_enc() {
  size_t dn = vs_param("dn", 40), tn = vs_param("tn", 38); setup(dn, tn); bool si = vs_param("stdin", 0), so = vs_param("stdout", 0);
  if (si) { put_file(F_STDIN, g_f[F_TARGET].data, tn); }
  arg("vcdiff"); if (vs_param("after", 0)) arg(vs_param("alias", 0) ? "delta" : "encode"); opts(true); if (!si) arg("--target=target"); if (!so) arg("--delta=delta"); if (!vs_param("after", 0)) arg(vs_param("alias", 0) ? "delta" : "encode");
  bool ta = true; if (vs_param("js", 0)) for (size_t i = 0; i < tn; i++) ta = ta & (g_f[F_TARGET].data[i] < 128);
  int rc = run_cli(vs_param("budget", 3000000));
  File& o = so ? g_f[F_STDOUT] : g_f[F_DELTA];
  if (rc == 0) { vs_reach("ok"); if (g_faulted) vs_reach("fault-tolerated"); vs_assert(ta, "--json accepted non-ASCII data"); check_delta(o.data, o.len); }
  else { vs_reach(g_faulted ? "fault-reported" : "failed"); if (!g_faulted) vs_assert(!ta, "encoding failed without any I/O error"); }
}
// decode: --delta or stdin -> --target or stdout; the delta's window is symbolic
extern "C" void cli_dec() {
  size_t dn = vs_param("dict", 16); Buf b; build_delta(b, dn); setup(dn, 0); bool si = vs_param("stdin", 0), so = vs_param("stdout", 0);
  put_file(F_DELTA, b.b, b.n); if (si) put_file(F_STDIN, b.b, b.n); g_f[F_TARGET].exists = false;
  arg("vcdiff"); opts(false); if (!si) arg("--delta=delta"); if (!so) arg("--target=target");
  uint64_t mw = 67108864, mf = 67108864; bool allow = vs_param("allow", 1);
  if (vs_param("mw", 0)) { mw = vs_param("mw", 0); arg_num("--max_target_window_size=", mw); } if (vs_param("mf", 0)) { mf = vs_param("mf", 0); arg_num("--max_target_file_size=", mf); } if (!allow) arg("--noallow_vcd_target");
  arg(vs_param("alias", 0) ? "patch" : "decode");
  R.init(g_dict, dn); R.max_win = mw; R.max_file = mf; R.allow_target = allow; int r = R.file(b.b, b.n);
  int rc = run_cli(vs_param("budget", 3000000));
  File& o = so ? g_f[F_STDOUT] : g_f[F_TARGET];
  if (r == REF_UNSPECIFIED) return;
  if (rc == 0) { vs_reach("ok"); vs_assert(r == REF_ACCEPT, "exit status 0 for an invalid or truncated delta"); vs_assert(o.len == R.out_len, "exit status 0 but the output is incomplete"); for (size_t i = 0; i < o.len; i++) vs_assert(o.data[i] == R.out[i], "exit status 0 but the output is wrong"); }
  else { vs_reach(g_faulted ? "fault-reported" : "rejected"); if (!g_faulted) vs_assert(r != REF_ACCEPT, "decoding a valid delta failed without any I/O error"); }
}
// test: encodes, decodes, compares
extern "C" void cli_test() {
  size_t dn = vs_param("dn", 40), tn = vs_param("tn", 38); setup(dn, tn); arg("vcdiff"); opts(true); arg("--target=target"); arg("--delta=delta"); arg("test");
  if (vs_param("mut", 0)) { g_mut = vs_u8("mut"); g_mut_at = vs_param("at", 0) + vs_choose(vs_param("mut", 0), "at"); }
  int rc = run_cli(vs_param("budget", 6000000));
  if (vs_param("mut", 0) && g_mut_at < g_f[F_DELTA].len) {   // the delta is damaged after it was written: only a decoding that gives the target may pass
    File& f = g_f[F_DELTA]; f.data[g_mut_at] ^= g_mut; R.init(g_dict, dn); int r = R.file(f.data, f.len); bool same = r == REF_ACCEPT && R.out_len == tn; if (same) for (size_t i = 0; i < tn; i++) same = same & (R.out[i] == g_f[F_TARGET].data[i]);
    if (r == REF_UNSPECIFIED) return;
    vs_assert((rc == 0) == same, "vcdiff test's result is not whether the delta gives the target"); vs_reach(rc == 0 ? "ok" : "damage-reported"); return;
  }
  if (rc == 0) { vs_reach("ok"); check_delta(g_f[F_DELTA].data, g_f[F_DELTA].len); } else { vs_reach("fault-reported"); vs_assert(g_faulted, "vcdiff test failed on intact files"); }
}
// bad usage is refused without touching any output
extern "C" void cli_use() {
  setup(20, 20); put_file(F_DELTA, (const uint8_t*)"zz", 2); int s = vs_choose(9, "usage"); arg("vcdiff");
  switch (s) {
    case 0: arg("--dictionary=dict"); arg("--target=target"); arg("--delta=delta"); break;
    case 1: arg("encode"); arg("--target=target"); arg("--delta=delta"); break;
    case 2: arg("encode"); arg("decode"); arg("--dictionary=dict"); arg("--target=target"); arg("--delta=delta"); break;
    case 3: arg("frobnicate"); arg("--dictionary=dict"); arg("--target=target"); arg("--delta=delta"); break;
    case 4: arg("encode"); arg("--dictionary=dict"); arg("--buffersize=0"); arg("--target=target"); arg("--delta=delta"); break;
    case 5: arg("encode"); arg("--dictionary=nosuchfile"); arg("--target=target"); arg("--delta=delta"); break;
    case 6: arg("encode"); arg("--dictionary=dict"); arg("--target=nosuchfile"); arg("--delta=delta"); break;
    case 7: arg("test"); arg("--dictionary=dict"); arg("--target=target"); break;
    case 8: arg("decode"); arg("--dictionary=dict"); arg("--delta=nosuchfile"); arg("--target=target"); break;
  }
  int rc = run_cli(3000000); vs_assert(rc != 0, "bad usage reported as success");
  vs_assert(!g_f[F_DELTA].touched && !g_f[F_TARGET].touched, "an output file was overwritten although the command was refused"); vs_assert(g_f[F_STDOUT].len == 0, "data written to stdout"); vs_reach("refused");
}
