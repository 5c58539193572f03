/* Reference JSON grammar (RFC 8259, plus the library's documented rule that \u surrogates must come in pairs),
   written from the standard, independently of zzzJSON. */
#ifndef REF_H
#define REF_H
#include <stddef.h>
static int ref_ws(const char *s, int i) { while (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r') i++; return i; }
static int ref_isdig(char c) { return c >= '0' && c <= '9'; }
static int ref_hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
/* four hex digits at s[i]; -1 if not */
static int ref_hex4(const char *s, int i) { int v = 0, k; for (k = 0; k < 4; k++) { int h = ref_hexv(s[i + k]); if (h < 0) return -1; v = v * 16 + h; } return v; }
/* one character of a JSON string body at s[i]: new index, or -1.  *cp gets the code unit or scalar (raw bytes: the byte) */
static int ref_schar(const char *s, int i, unsigned *cp, int *raw) {
  unsigned char c = (unsigned char)s[i]; *raw = 0;
  if (c < 0x20 || c == '"') return -1;
  if (c != '\\') { *cp = c; *raw = 1; return i + 1; }
  switch (s[i + 1]) {
  case '"': *cp = '"'; return i + 2; case '\\': *cp = '\\'; return i + 2; case '/': *cp = '/'; return i + 2;
  case 'b': *cp = 8; return i + 2; case 'f': *cp = 12; return i + 2; case 'n': *cp = 10; return i + 2; case 'r': *cp = 13; return i + 2; case 't': *cp = 9; return i + 2;
  case 'u': { int a = ref_hex4(s, i + 2), b; if (a < 0) return -1; if (a >= 0xD800 && a < 0xE000) { if (a >= 0xDC00) return -1; if (s[i + 6] != '\\' || s[i + 7] != 'u') return -1; b = ref_hex4(s, i + 8); if (b < 0xDC00 || b > 0xDFFF) return -1; *cp = 0x10000u + (((unsigned)a & 0x3FF) << 10) + ((unsigned)b & 0x3FF); return i + 12; } *cp = (unsigned)a; return i + 6; }
  default: return -1;
  }
}
/* string body starting after the opening quote; returns index of the closing quote or -1 */
static int ref_strbody(const char *s, int i) { while (s[i] != '"') { unsigned cp; int raw; i = ref_schar(s, i, &cp, &raw); if (i < 0) return -1; } return i; }
/* number at s[i]: index after it or -1 (longest match) */
static int ref_num(const char *s, int i) {
  if (s[i] == '-') i++;
  if (s[i] == '0') i++; else { if (!ref_isdig(s[i])) return -1; while (ref_isdig(s[i])) i++; }
  if (s[i] == '.') { i++; if (!ref_isdig(s[i])) return -1; while (ref_isdig(s[i])) i++; }
  if (s[i] == 'e' || s[i] == 'E') { i++; if (s[i] == '+' || s[i] == '-') i++; if (!ref_isdig(s[i])) return -1; while (ref_isdig(s[i])) i++; }
  return i;
}
static int ref_lit(const char *s, int i, const char *w) { int k; for (k = 0; w[k]; k++) if (s[i + k] != w[k]) return -1; return i + k; }
static int ref_value(const char *s, int i) {
  i = ref_ws(s, i);
  switch (s[i]) {
  case '{':
    i = ref_ws(s, i + 1); if (s[i] == '}') return i + 1;
    for (;;) { i = ref_ws(s, i); if (s[i] != '"') return -1; i = ref_strbody(s, i + 1); if (i < 0) return -1; i = ref_ws(s, i + 1); if (s[i] != ':') return -1; i = ref_value(s, i + 1); if (i < 0) return -1; i = ref_ws(s, i); if (s[i] == '}') return i + 1; if (s[i] != ',') return -1; i++; }
  case '[':
    i = ref_ws(s, i + 1); if (s[i] == ']') return i + 1;
    for (;;) { i = ref_value(s, i); if (i < 0) return -1; i = ref_ws(s, i); if (s[i] == ']') return i + 1; if (s[i] != ',') return -1; i++; }
  case '"': i = ref_strbody(s, i + 1); return i < 0 ? -1 : i + 1;
  case 't': return ref_lit(s, i, "true"); case 'f': return ref_lit(s, i, "false"); case 'n': return ref_lit(s, i, "null");
  default: return ref_num(s, i);
  }
}
/* whole NUL-terminated text is one JSON value with optional surrounding whitespace */
static int ref_json(const char *s) { int i = ref_value(s, 0); if (i < 0) return 0; i = ref_ws(s, i); return s[i] == 0; }
static int ref_isnum(const char *s, int len) { int i = ref_num(s, 0); return i == len; }
#endif
