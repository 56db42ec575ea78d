// Minimal JSON value, parser and writer of the harness (independent of the json library under test).
#pragma once
#include <string>
#include <vector>
#include <utility>
#include <map>
#include <set>
#include <memory>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <stdexcept>
namespace mini {
struct V {
  enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t;
  bool b; long long i; double d; std::string s;
  std::vector<V> a; std::vector<std::pair<std::string, V>> o;
  V() : t(NUL), b(false), i(0), d(0) {}
  static V Bool(bool x) { V v; v.t = BOOL; v.b = x; return v; }
  static V Int(long long x) { V v; v.t = INT; v.i = x; return v; }
  static V Dbl(double x) { V v; v.t = DBL; v.d = x; return v; }
  static V Str(const std::string& x) { V v; v.t = STR; v.s = x; return v; }
  static V Arr() { V v; v.t = ARR; return v; }
  static V Obj() { V v; v.t = OBJ; return v; }
  template <class X> static V Ints(const std::vector<X>& x) { V v = Arr(); v.a.reserve(x.size()); for (size_t k = 0; k < x.size(); k++) v.a.push_back(Int((long long)x[k])); return v; }
  bool null() const { return t == NUL; }
  long long integer() const { if (t == INT) return i; if (t == BOOL) return b; if (t == DBL) return (long long)d; throw std::logic_error("harness: int expected"); }
  double number() const { return t == DBL ? d : (double)integer(); }
  const std::string& str() const { if (t != STR) throw std::logic_error("harness: string expected"); return s; }
  const V* get(const char* k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct Parser {
  const char* p; const char* e;
  Parser(const std::string& s) : p(s.data()), e(s.data() + s.size()) {}
  void bad() { throw std::logic_error("harness: bad request"); }
  void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
  V parse() { ws(); if (p >= e) bad();
    switch (*p) {
      case '[': { V v = V::Arr(); p++; ws(); if (*p == ']') { p++; return v; }
        for (;;) { v.a.push_back(parse()); ws(); if (*p == ',') { p++; continue; } if (*p == ']') { p++; return v; } bad(); } }
      case '{': { V v = V::Obj(); p++; ws(); if (*p == '}') { p++; return v; }
        for (;;) { ws(); std::string k = str(); ws(); if (*p != ':') bad(); p++; v.o.push_back(std::make_pair(k, parse())); ws(); if (*p == ',') { p++; continue; } if (*p == '}') { p++; return v; } bad(); } }
      case '"': return V::Str(str());
      case 't': p += 4; return V::Bool(true);
      case 'f': p += 5; return V::Bool(false);
      case 'n': p += 4; return V();
      default: { const char* q = p; bool dbl = false;
        while (q < e && (strchr("+-0123456789.eE", *q))) { if (*q == '.' || *q == 'e' || *q == 'E') dbl = true; q++; }
        if (q == p) { if (*p == 'N') { p += 3; return V::Dbl(__builtin_nan("")); } if (*p == 'I') { p += 8; return V::Dbl(__builtin_inf()); } bad(); }
        std::string n(p, q); if (n == "-") { p = q + 8; return V::Dbl(-__builtin_inf()); }
        p = q; return dbl ? V::Dbl(strtod(n.c_str(), 0)) : V::Int(strtoll(n.c_str(), 0, 10)); }
    } }
  static void utf8(std::string& o, unsigned c) {
    if (c < 0x80) o += (char)c;
    else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  unsigned hex4() { unsigned c = (unsigned)strtoul(std::string(p, p + 4).c_str(), 0, 16); p += 4; return c; }
  std::string str() { std::string o; if (*p != '"') bad(); p++;
    while (p < e && *p != '"') {
      if (*p == '\\') { p++; char c = *p++;
        switch (c) { case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break;
          case 'u': { unsigned u = hex4(); if (u >= 0xD800 && u < 0xDC00 && p[0] == '\\' && p[1] == 'u') { p += 2; unsigned l = hex4(); u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); } utf8(o, u); break; }
          default: o += c; } }
      else o += *p++; }
    p++; return o; }
};
inline void write(std::string& o, const V& v) {
  char buf[64];
  switch (v.t) {
    case V::NUL: o += "null"; break;
    case V::BOOL: o += v.b ? "true" : "false"; break;
    case V::INT: snprintf(buf, sizeof buf, "%lld", v.i); o += buf; break;
    case V::DBL: if (v.d != v.d) o += "NaN"; else { snprintf(buf, sizeof buf, "%.17g", v.d); if (!strpbrk(buf, ".enI")) strcat(buf, ".0"); o += (buf[0]=='i') ? "Infinity" : buf; } break;
    case V::STR: o += '"'; for (unsigned char c : v.s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20) { snprintf(buf, sizeof buf, "\\u%04x", c); o += buf; } else o += (char)c; } o += '"'; break;
    case V::ARR: o += '['; for (size_t k = 0; k < v.a.size(); k++) { if (k) o += ','; write(o, v.a[k]); } o += ']'; break;
    case V::OBJ: o += '{'; for (size_t k = 0; k < v.o.size(); k++) { if (k) o += ','; write(o, V::Str(v.o[k].first)); o += ':'; write(o, v.o[k].second); } o += '}'; break;
  }
}
inline std::string hexs(const std::string& s) { static const char* d = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
inline std::string unhex(const std::string& s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtoul(s.substr(i, 2).c_str(), 0, 16); return o; }
}
