// Minimal strict JSON reader for the encoder's JSON output: an array whose
// elements are strings (literal data) and integer pairs (COPY address, size).
#ifndef JSONP_H_
#define JSONP_H_
#include "vs.h"
#include <stddef.h>
#include <stdint.h>
#ifndef JSON_MAX
#define JSON_MAX 4096
#endif
struct JsonDelta {
  uint8_t out[JSON_MAX]; size_t n; const char* err; int copies, strings, tcopies;
  bool parse(const uint8_t* d, size_t dn, const uint8_t* p, size_t len) {
    n = 0; err = 0; copies = strings = tcopies = 0; size_t i = 0;
    if (i >= len || p[i] != '[') return fail("does not start with [");
    i++;
    bool first = true;
    for (;;) {
      if (i >= len) return fail("not terminated");
      if (first && p[i] == ']') { i++; break; }
      if (p[i] == '"') { if (!str(p, len, &i)) return false; strings++; }
      else {
        uint64_t a, s; if (!num(p, len, &i, &a)) return false;
        if (i >= len || p[i] != ',') return fail("COPY without a size");
        i++;
        if (!num(p, len, &i, &s)) return false;
        if (a >= dn + n) return fail("COPY address out of range");
        if (n + s > sizeof out) return fail("too much data");
        copies++; if (a + s > dn) tcopies++;
        for (uint64_t j = 0; j < s; j++) { uint64_t q = a + j; out[n] = q < dn ? d[q] : out[q - dn]; n++; }
      }
      first = false;
      if (i >= len) return fail("not terminated");
      if (p[i] == ',') { i++; if (i < len && p[i] == ']') return fail("trailing comma"); continue; }
      if (p[i] == ']') { i++; break; }
      return fail("unexpected character");
    }
    if (i != len) return fail("data after the closing bracket");
    return true;
  }
  bool fail(const char* m) { err = m; return false; }
  bool num(const uint8_t* p, size_t len, size_t* i, uint64_t* v) {
    size_t s = *i; uint64_t x = 0; while (*i < len && p[*i] >= '0' && p[*i] <= '9') { x = x * 10 + (p[*i] - '0'); ++*i; }
    if (*i == s) return fail("number expected"); if (*i - s > 1 && p[s] == '0') return fail("leading zero"); *v = x; return true;
  }
  bool str(const uint8_t* p, size_t len, size_t* i) {
    ++*i;
    for (;;) {
      if (*i >= len) return fail("unterminated string");
      uint8_t c = p[(*i)++];
      if (c == '"') return true;
      if (c < 32) return fail("raw control character in string");
      if (c >= 128) return fail("non-ASCII byte in string");
      if (c == '\\') {
        if (*i >= len) return fail("unterminated escape");
        uint8_t e = p[(*i)++];
        if (e == '"' || e == '\\' || e == '/') c = e;
        else if (e == 'b') c = 8; else if (e == 'f') c = 12; else if (e == 'n') c = 10; else if (e == 'r') c = 13; else if (e == 't') c = 9;
        else if (e == 'u') { unsigned v = 0; for (int k = 0; k < 4; k++) { if (*i >= len) return fail("short \\u escape"); uint8_t h = p[(*i)++]; unsigned x; if (h >= '0' && h <= '9') x = h - '0'; else if (h >= 'a' && h <= 'f') x = h - 'a' + 10; else if (h >= 'A' && h <= 'F') x = h - 'A' + 10; else return fail("bad \\u escape"); v = v * 16 + x; } if (v > 255) return fail("\\u escape beyond a byte"); c = (uint8_t)v; }
        else return fail("unknown escape");
      }
      if (n >= sizeof out) return fail("too much data");
      out[n++] = c;
    }
  }
};
#endif
