/* C library functions the code under test may call, as plain C, for the IR build only. */
#include <stddef.h>
#include <limits.h>
#include <errno.h>
void* malloc(size_t); void free(void*); void* memcpy(void*, const void*, size_t); size_t strlen(const char*); void* memset(void*, int, size_t);
#define W __attribute__((weak))
W char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
W char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
W int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
W int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
W char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
W char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
W size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
W char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
W char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
W void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return 0; }
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isprint(int c) { return c >= 32 && c < 127; }
W int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
W int isascii(int c) { return c >= 0 && c < 128; }
W int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
W int isalnum(int c) { return isalpha(c) || isdigit(c); }
W int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
W int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
W int abs(int v) { return v < 0 ? -v : v; }
static int g_errno_;
W int* __errno_location(void) { return &g_errno_; }
W char* strerror(int e) { (void)e; return (char*)"error"; }
W int atoi(const char* s) { int v = 0; while (isdigit(*s)) v = v * 10 + (*s++ - '0'); return v; }
W unsigned long strtoul(const char* s, char** e, int b) { unsigned long v = 0; if (!b) b = 10; while (isdigit(*s)) v = v * (unsigned)b + (unsigned long)(*s++ - '0'); if (e) *e = (char*)s; return v; }
