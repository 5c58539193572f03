/* C-library functions zzzJSON calls (or a rewrite of it might call), as code the executor interprets. */
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
double vf_uf_double(const char *text, unsigned long n);
int vf_itoa(char *out, long n);
int vf_dtoa(char *out, double d);
int vf_dtoa_untied(char *out, double d);
void *malloc(size_t n); void free(void *p); unsigned long vf_block_size(const void *p);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; size_t i; for (i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a < (unsigned char)*b ? -1 : *a != *b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } if (!n) return 0; return (unsigned char)*a < (unsigned char)*b ? -1 : *a != *b; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (; n; s++, n--) if (*s == (unsigned char)c) return (void *)s; return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strdup(const char *s) { size_t n = strlen(s); char *r = malloc(n + 1); for (size_t i = 0; i <= n; i++) r[i] = s[i]; return r; }
void *calloc(size_t a, size_t b) { char *p = malloc(a * b); for (size_t i = 0; i < a * b; i++) p[i] = 0; return p; }
void *realloc(void *q, size_t n) { char *p = malloc(n); if (q) { size_t m = vf_block_size(q); if (m > n) m = n; for (size_t i = 0; i < m; i++) p[i] = ((char *)q)[i]; free(q); } return p; }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
void *memcpy(void *d, const void *s, size_t n);
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
int abs(int n) { return n < 0 ? -n : n; }
long labs(long n) { return n < 0 ? -n : n; }
long long llabs(long long n) { return n < 0 ? -n : n; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return c > 32 && c < 127 && !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')); }
int isblank(int c) { return c == ' ' || c == 9; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
/* decimal strtol, saturating as glibc does.  Up to 18 digits cannot overflow: the digits then stay a plain Horner sum. */
static long model_strtol(const char *s, const char **end) {
  const char *p = s; int neg = 0, n = 0, ovf = 0; long r = 0;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if (!(*p >= '0' && *p <= '9')) { if (end) *end = s; return 0; }
  while (*p >= '0' && *p <= '9') {
    long d = (long)*p - 48;
    if (n >= 19) ovf = 1;                                          /* 20 significant digits never fit */
    else if (n == 18) { unsigned long lim = neg ? (unsigned long)1 << 63 : ((unsigned long)1 << 63) - 1; if ((unsigned long)r * 10 + (unsigned long)d > lim) ovf = 1; }   /* cannot wrap: r < 10^18 */
    if (!ovf) r = (long)((unsigned long)r * 10 + (unsigned long)d);
    if (!(n == 0 && d == 0)) n++;
    p++;
  }
  if (end) *end = p;
  if (ovf) return neg ? LONG_MIN : LONG_MAX;
  return neg ? (long)(0 - (unsigned long)r) : r;
}
long strtol(const char *s, char **end, int base) { if (base != 10) __builtin_trap(); return model_strtol(s, (const char **)end); }
long long strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long __isoc23_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
long long __isoc23_strtoll(const char *s, char **end, int base) { return strtol(s, end, base); }
long atol(const char *s) { return model_strtol(s, 0); }
long long atoll(const char *s) { return model_strtol(s, 0); }
int atoi(const char *s) { return (int)model_strtol(s, 0); }
double strtod(const char *s, char **end) {
  const char *p = s, *q; 
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  const char *b = p;
  if (*p == '-' || *p == '+') p++;
  int dig = 0;
  while (*p >= '0' && *p <= '9') { p++; dig = 1; }
  if (*p == '.') { q = p + 1; if (dig || (*q >= '0' && *q <= '9')) { p = q; while (*p >= '0' && *p <= '9') { p++; dig = 1; } } }
  if (!dig) { if (end) *end = (char *)s; return 0.0; }
  if (*p == 'e' || *p == 'E') { q = p + 1; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { while (*q >= '0' && *q <= '9') q++; p = q; } }
  if (end) *end = (char *)p;
  return vf_uf_double(b, (unsigned long)(p - b));
}
double atof(const char *s) { return strtod(s, 0); }
static int put(char *buf, size_t n, const char *t, int l) { size_t i; if (n) { for (i = 0; i + 1 < n && i < (size_t)l; i++) buf[i] = t[i]; buf[i] = 0; } return l; }
int vf_snprintf_ld(char *buf, size_t n, long v) { char t[40]; int l = vf_itoa(t, v); return put(buf, n, t, l); }
int vf_snprintf_g17(char *buf, size_t n, double v) { char t[64]; int l = vf_dtoa(t, v); return put(buf, n, t, l); }
int vf_snprintf_s(char *buf, size_t n, const char *v) { return put(buf, n, v, (int)strlen(v)); }
/* other floating formats: same shapes, but the text need not denote the value again */
int vf_snprintf_gx(char *buf, size_t n, double v) { char t[64]; int l = vf_dtoa_untied(t, v); return put(buf, n, t, l); }
