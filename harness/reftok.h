// Reference tokenizer: an independent reading of the accepted language (RFC 8259 structure plus the documented relaxations).
#pragma once
#include <cstddef>
struct RTok { const char *n; size_t nl; int nt; const char *v; size_t vl; int vt; };
// types: 1 ascii 2 string 3 number 4 { 5 } 6 [ 7 ] 8 bool 9 null
enum { R_ASCII = 1, R_STR, R_NUM, R_OS, R_OE, R_AS, R_AE, R_BOOL, R_NULL };
enum RRes { R_TOK, R_INC, R_ERR, R_NOTOK, R_DONTCARE };
struct Ref {
  const char *d; size_t n; bool ascii, nl, comma, comments;
  size_t p = 0; char stack[320]; int depth = 0;
  enum { TOP, OPEN, COMMA, AFTER } st = TOP;
  Ref(const char *d, size_t n, int opt) : d(d), n(n), ascii(opt & 1), nl(opt & 2), comma(opt & 4), comments(opt & 8) {}
  static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 0; }
  static bool let(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
  static bool dig(char c) { return c >= '0' && c <= '9'; }
  static bool asc(char c) { return let(c) || dig(c) || c == '_' || c == '-' || c == '.' || c == '/' || c == '^' || c == '`'; }
  static bool num(char c) { return dig(c) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'; }
  // false: ran out of input
  bool skip(bool stopnl) {
    for (;;) {
      if (p >= n) return false;
      char c = d[p];
      if (comments && c == '/') {
        if (p + 1 >= n) return false;
        if (d[p + 1] == '/') { p += 2; while (p < n && d[p] != '\n') p++; if (p >= n) return false; if (!nl) p++; continue; }
        return true;
      }
      if (stopnl && nl && c == '\n') return true;
      if (!ws(c)) return true;
      p++;
    }
  }
  // scalar at p. Returns R_TOK and moves p behind it
  RRes scalar(const char *&s, size_t &l, int &t) {
    char c = d[p];
    if (c == '"') {
      size_t b = ++p;
      for (; p < n; p++) {
        if (d[p] == '\\') { p++; continue; }
        if (d[p] == '"') { s = d + b; l = p - b; t = R_STR; p++; return R_TOK; }
      }
      return R_INC;
    }
    if (dig(c) || c == '+' || c == '-') {
      size_t b = p; while (p < n && num(d[p])) p++;
      if (p >= n) return R_INC;
      s = d + b; l = p - b; t = R_NUM; return R_TOK;
    }
    if (let(c) || (ascii && asc(c))) {
      size_t b = p; while (p < n && asc(d[p])) p++;
      if (p >= n) return R_INC;
      if (d[p] == 0) return R_DONTCARE;
      s = d + b; l = p - b; t = R_ASCII;
      if (l == 4 && s[0] == 't' && s[1] == 'r' && s[2] == 'u' && s[3] == 'e') t = R_BOOL;
      else if (l == 5 && s[0] == 'f' && s[1] == 'a' && s[2] == 'l' && s[3] == 's' && s[4] == 'e') t = R_BOOL;
      else if (l == 4 && s[0] == 'n' && s[1] == 'u' && s[2] == 'l' && s[3] == 'l') t = R_NULL;
      return R_TOK;
    }
    return R_ERR;
  }
  RRes next(RTok &k) {
    k = RTok{nullptr, 0, 0, nullptr, 0, 0};
    if (st == AFTER && depth == 0) st = TOP;
    if (st == TOP) {
      if (!skip(false)) return R_INC;
      if (d[p] == '{' || d[p] == '[') return open(k);
      return R_NOTOK;
    }
    char top = stack[depth - 1];
    bool aftercomma = st == COMMA;
    if (st == AFTER) {
      if (!skip(true)) return R_INC;
      char c = d[p];
      if (c == ',') { p++; aftercomma = true; }
      else if (nl && c == '\n') p++;
      else if (c != ']' && c != '}') return R_ERR;
      st = aftercomma ? COMMA : OPEN;
    }
    if (!skip(false)) return R_INC;
    char c = d[p];
    if (c == '}' || c == ']') {
      if (aftercomma && !comma) return R_NOTOK;
      if ((c == '}') != (top == '{')) return R_NOTOK;
      k.v = d + p; k.vl = 1; k.vt = c == '}' ? R_OE : R_AE; p++; depth--; st = AFTER; return R_TOK;
    }
    if (top == '[') {
      if (c == '{' || c == '[') return open(k);
      RRes r = scalar(k.v, k.vl, k.vt); if (r != R_TOK) return r;
      if (k.vt == R_ASCII && !ascii) return R_NOTOK;
      if (!skip(true)) return R_INC;
      c = d[p];
      if (c == ',' || (nl && c == '\n')) { p++; st = OPEN; } // a comma after the last scalar of an array is tolerated
      else if (c == ']') st = OPEN;
      else return R_NOTOK;
      return R_TOK;
    }
    // object member
    if (c == '{' || c == '[') return R_NOTOK;
    RRes r = scalar(k.n, k.nl, k.nt); if (r != R_TOK) return r == R_INC ? R_INC : r == R_DONTCARE ? r : R_NOTOK;
    if (!skip(true)) return R_INC;
    if (d[p] != ':') return R_NOTOK;
    p++;
    if (k.nt != R_STR && !(k.nt == R_ASCII && ascii)) return R_NOTOK;
    if (!skip(false)) return R_INC;
    c = d[p];
    if (c == '{' || c == '[') { RRes q = open(k); return q; }
    if (c == '}' || c == ']') return R_NOTOK;
    r = scalar(k.v, k.vl, k.vt); if (r != R_TOK) return r;
    if (k.vt == R_ASCII && !ascii) return R_NOTOK;
    st = AFTER; return R_TOK;
  }
  RRes open(RTok &k) {
    char c = d[p]; k.v = d + p; k.vl = 1; k.vt = c == '{' ? R_OS : R_AS; p++;
    stack[depth++] = c; st = OPEN; return R_TOK;
  }
};
