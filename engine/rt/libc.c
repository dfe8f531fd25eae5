// C library functions executed symbolically from this source.
#include <stddef.h>
#include <stdint.h>
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { unsigned char d = 0; const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) d |= p[i] ^ q[i]; return d != 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return ((c | 32) >= 'a' && (c | 32) <= 'z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }

// Models of number formatting and parsing. The digits of a formatted number are those the harness declared for the value
// (a relation, so that no division of symbolic values is needed); the result of the standard parser is one it declared.
static struct { uint64_t v; const char* d; int n, neg; } psym_dec[8];
static int psym_ndec;
// neg: 1 for a negative value, 2 for an unsigned value that may exceed the signed range
void psym_decimal(uint64_t v, int neg, const char* digits, int n) { int i = psym_ndec++; psym_dec[i].v = v; psym_dec[i].neg = neg; psym_dec[i].d = digits; psym_dec[i].n = n; }
int psym_snprintf(char* buf, size_t size, const char* fmt, uint64_t v) {
  size_t o = 0; int longs = 0; int total = 0;
  for (; *fmt; fmt++) {
    if (*fmt != '%') { if (o + 1 < size) buf[o++] = *fmt; total++; continue; }
    fmt++;
    while (*fmt == 'l' || *fmt == 'z' || *fmt == 'j' || *fmt == 't') { longs++; fmt++; }
    int sgn = *fmt == 'd' || *fmt == 'i';
    if (!longs) v = sgn ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
    int hit = 0;
    for (int i = 0; i < psym_ndec && !hit; i++) if (psym_dec[i].v == v) {
      hit = 1;
      if (psym_dec[i].neg == 1 ? !sgn : (psym_dec[i].neg == 2 && sgn && (int64_t)v < 0)) { if (o + 1 < size) buf[o++] = '?'; total++; break; }
      if (psym_dec[i].neg == 1) { if (o + 1 < size) buf[o++] = '-'; total++; }
      for (int j = 0; j < psym_dec[i].n; j++) { if (o + 1 < size) buf[o++] = psym_dec[i].d[j]; total++; }
    }
    if (!hit) {
      char t[24]; int n = 0; uint64_t x = v;
      if (sgn && (int64_t)v < 0) { if (o + 1 < size) buf[o++] = '-'; total++; x = -v; }
      do { t[n++] = '0' + x % 10; x /= 10; } while (x);
      while (n) { --n; if (o + 1 < size) buf[o++] = t[n]; total++; }
    }
  }
  if (size) buf[o] = 0;
  return total;
}
int psym_std_parses;
double psym_std_result = 0.5;
double strtod(const char* s, char** end) { size_t n = strlen(s); psym_std_parses++; if (end) *end = (char*)s + n; return psym_std_result; }
float strtof(const char* s, char** end) { return (float)strtod(s, end); }
