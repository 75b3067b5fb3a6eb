// Force-included before every repository source: routes allocation, copying and formatting through
// checked versions. Same in the symbolic and the native replay build.
#ifndef VF_PRELUDE_H
#define VF_PRELUDE_H
#include <assert.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vf.h"
#define malloc(n) vf_malloc(n)
#define calloc(a, b) vf_calloc(a, b)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#undef strdup
#define strdup(s) vf_strdup(s)
#define memcpy(d, s, n) vf_memcpy_chk(d, s, n, __builtin_object_size(d, 1))
#define memset(d, c, n) vf_memset_chk(d, c, n, __builtin_object_size(d, 1))
#define strcpy(d, s) vf_strcpy_chk(d, s, __builtin_object_size(d, 1))
#define VF_A_(x) (long)(x)
#define VF_A0() 0
#define VF_A1(a) VF_A_(a)
#define VF_A2(a, ...) VF_A_(a), VF_A1(__VA_ARGS__)
#define VF_A3(a, ...) VF_A_(a), VF_A2(__VA_ARGS__)
#define VF_A4(a, ...) VF_A_(a), VF_A3(__VA_ARGS__)
#define VF_A5(a, ...) VF_A_(a), VF_A4(__VA_ARGS__)
#define VF_A6(a, ...) VF_A_(a), VF_A5(__VA_ARGS__)
#define VF_A7(a, ...) VF_A_(a), VF_A6(__VA_ARGS__)
#define VF_A8(a, ...) VF_A_(a), VF_A7(__VA_ARGS__)
#define VF_PICK(_0, _1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define VF_ARGS(...) VF_PICK(0, ##__VA_ARGS__, VF_A8, VF_A7, VF_A6, VF_A5, VF_A4, VF_A3, VF_A2, VF_A1, VF_A0)(__VA_ARGS__)
FILE *vf_fopen(const char *path, const char *mode);
size_t vf_fwrite(const void *d, size_t a, size_t b, FILE *h);
int vf_fflush(FILE *h);
int vf_fclose(FILE *h);
int vf_unlink(const char *path);
#include <unistd.h>
#define fopen vf_fopen
#define fwrite vf_fwrite
#define fflush vf_fflush
#define fclose vf_fclose
#define unlink vf_unlink
#undef remove
#define remove(path) vf_unlink(path)
#undef sprintf
#undef snprintf
#undef sscanf
#undef printf
#undef vprintf
#define vprintf(fmt, ap) ((void)(fmt), (void)(ap), 0)
#define printf(fmt, ...) vf_printf_n(fmt, (const long[]){VF_ARGS(__VA_ARGS__)})
#define sprintf(d, fmt, ...) vf_sprintf_n(d, __builtin_object_size(d, 1), fmt, (const long[]){VF_ARGS(__VA_ARGS__)})
#define snprintf(d, n, fmt, ...) vf_sprintf_n(d, n, fmt, (const long[]){VF_ARGS(__VA_ARGS__)})
#define sscanf(s, fmt, ...) vf_sscanf_n(s, fmt, (const long[]){VF_ARGS(__VA_ARGS__)})
#endif
