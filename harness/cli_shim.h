// Force-included before vcdiff_main.cc: standard I/O goes to the harness's
// in-memory file system (cli.cc), main() becomes vcdiff_cli_main().
#include <assert.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
extern "C" {
FILE* vsf_fopen(const char*, const char*); int vsf_fclose(FILE*); size_t vsf_fread(void*, size_t, size_t, FILE*); size_t vsf_fwrite(const void*, size_t, size_t, FILE*);
int vsf_feof(FILE*); int vsf_ferror(FILE*); int vsf_fseek(FILE*, long, int); long vsf_ftell(FILE*); int vsf_fflush(FILE*); int vsf_fgetc(FILE*); int vsf_fputc(int, FILE*); int vsf_ungetc(int, FILE*); void vsf_clearerr(FILE*); int vsf_remove(const char*);
void vsf_rewind(FILE*);
FILE* vsf_stdin(); FILE* vsf_stdout();
}
#undef stdin
#undef stdout
#undef feof
#undef ferror
#undef fgetc
#undef getc
#undef fputc
#undef putc
#undef ungetc
#undef clearerr
#define stdin vsf_stdin()
#define stdout vsf_stdout()
#define fopen vsf_fopen
#define fclose vsf_fclose
#define fread vsf_fread
#define fwrite vsf_fwrite
#define feof vsf_feof
#define ferror vsf_ferror
#define fseek vsf_fseek
#define ftell vsf_ftell
#define fflush vsf_fflush
#define fgetc vsf_fgetc
#define getc vsf_fgetc
#define fputc vsf_fputc
#define putc vsf_fputc
#define ungetc vsf_ungetc
#define clearerr vsf_clearerr
#define rewind vsf_rewind
#define remove vsf_remove
#define main vcdiff_cli_main
