// string functions of the library's sources report what they touch (interleaving check only)
#ifndef POINTS_H
#define POINTS_H
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
void pt_touch(const void *p, size_t n);
static inline void *pt_memcpy(void *d, const void *s, size_t n) { pt_touch(d, n); pt_touch(s, n); return memcpy(d, s, n); }
static inline void *pt_memmove(void *d, const void *s, size_t n) { pt_touch(d, n); pt_touch(s, n); return memmove(d, s, n); }
static inline void *pt_memset(void *d, int c, size_t n) { pt_touch(d, n); return memset(d, c, n); }
static inline int pt_memcmp(const void *a, const void *b, size_t n) { pt_touch(a, n); pt_touch(b, n); return memcmp(a, b, n); }
static inline size_t pt_strlen(const char *s) { pt_touch(s, 1); return strlen(s); }
#define memcpy pt_memcpy
#define memmove pt_memmove
#define memset pt_memset
#define memcmp pt_memcmp
#define strlen pt_strlen
#endif
