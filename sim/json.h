// Minimal JSON value, writer and parser.
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <string>
#include <vector>
#include <stdexcept>

struct Json {
  enum T { NUL, BOOL, NUM, INT, STR, ARR, OBJ } t = NUL;
  bool b = false;
  double n = 0;
  long long i = 0;
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;

  Json() {}
  Json(bool v) : t(BOOL), b(v) {}
  Json(double v) : t(NUM), n(v) {}
  Json(int v) : t(INT), n(v), i(v) {}
  Json(unsigned v) : t(INT), n(v), i(v) {}
  Json(long v) : t(INT), n(v), i(v) {}
  Json(long long v) : t(INT), n(v), i(v) {}
  Json(unsigned long v) : t(INT), n(v), i((long long)v) {}
  Json(const char *v) : t(STR), s(v) {}
  Json(const std::string &v) : t(STR), s(v) {}
  static Json arr() { Json j; j.t = ARR; return j; }
  static Json obj() { Json j; j.t = OBJ; return j; }
  template <class V> static Json arrOf(const std::vector<V> &v) {
    Json j = arr();
    for (auto &x : v) j.a.push_back(Json(x));
    return j;
  }
  Json &set(const std::string &k, const Json &v) {
    t = OBJ;
    for (auto &p : o)
      if (p.first == k) { p.second = v; return *this; }
    o.push_back({k, v});
    return *this;
  }
  Json &push(const Json &v) { t = ARR; a.push_back(v); return *this; }
  bool has(const std::string &k) const {
    for (auto &p : o) if (p.first == k) return true;
    return false;
  }
  const Json &operator[](const std::string &k) const {
    static Json nul;
    for (auto &p : o) if (p.first == k) return p.second;
    return nul;
  }
  double num() const { return t == INT ? (double)i : n; }
  long long integer() const { return t == NUM ? (long long)n : i; }
  static void esc(const std::string &s, std::string &r) {
    r += '"';
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    r += '"';
  }
  void dump(std::string &r) const {
    char buf[64];
    switch (t) {
      case NUL: r += "null"; break;
      case BOOL: r += b ? "true" : "false"; break;
      case INT: snprintf(buf, 64, "%lld", i); r += buf; break;
      case NUM: {
        if (n != n || n > 1e308 || n < -1e308) { r += n != n ? "\"nan\"" : n > 0 ? "\"inf\"" : "\"-inf\""; break; }
        snprintf(buf, 64, "%.15g", n);
        if (strtod(buf, nullptr) != n) snprintf(buf, 64, "%.17g", n);
        if (!strpbrk(buf, ".eE")) strcat(buf, ".0");
        r += buf;
        break;
      }
      case STR: esc(s, r); break;
      case ARR:
        r += '[';
        for (size_t k = 0; k < a.size(); k++) { if (k) r += ", "; a[k].dump(r); }
        r += ']';
        break;
      case OBJ:
        r += '{';
        for (size_t k = 0; k < o.size(); k++) { if (k) r += ", "; esc(o[k].first, r); r += ": "; o[k].second.dump(r); }
        r += '}';
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }
  std::string str() const { std::string r; dump(r); return r; }

  struct P {
    const char *p, *e;
    void ws() { while (p < e && strchr(" \t\r\n", *p)) p++; }
    [[noreturn]] void bad() { throw std::runtime_error("bad json"); }
    Json val() {
      ws();
      if (p >= e) bad();
      if (*p == '{') {
        p++;
        Json j = obj();
        ws();
        if (*p == '}') { p++; return j; }
        while (1) {
          ws();
          std::string k = strv();
          ws();
          if (*p++ != ':') bad();
          j.o.push_back({k, val()});
          ws();
          if (*p == ',') { p++; continue; }
          if (*p++ == '}') return j;
          bad();
        }
      }
      if (*p == '[') {
        p++;
        Json j = arr();
        ws();
        if (*p == ']') { p++; return j; }
        while (1) {
          j.a.push_back(val());
          ws();
          if (*p == ',') { p++; continue; }
          if (*p++ == ']') return j;
          bad();
        }
      }
      if (*p == '"') return Json(strv());
      if (!strncmp(p, "true", 4)) { p += 4; return Json(true); }
      if (!strncmp(p, "false", 5)) { p += 5; return Json(false); }
      if (!strncmp(p, "null", 4)) { p += 4; return Json(); }
      const char *q = p;
      bool fl = false;
      while (q < e && strchr("+-0123456789.eE", *q)) { if (strchr(".eE", *q)) fl = true; q++; }
      if (q == p) bad();
      std::string t(p, q);
      p = q;
      return fl ? Json(strtod(t.c_str(), nullptr)) : Json((long long)strtoll(t.c_str(), nullptr, 10));
    }
    std::string strv() {
      if (*p++ != '"') bad();
      std::string r;
      while (p < e && *p != '"') {
        if (*p == '\\') {
          p++;
          switch (*p) {
            case 'n': r += '\n'; break;
            case 't': r += '\t'; break;
            case 'r': r += '\r'; break;
            case 'u': { unsigned v = strtoul(std::string(p + 1, 4).c_str(), nullptr, 16); r += (char)v; p += 4; break; }
            default: r += *p;
          }
          p++;
        } else r += *p++;
      }
      if (p >= e) bad();
      p++;
      return r;
    }
  };
  static Json parse(const std::string &s) {
    P x{s.data(), s.data() + s.size()};
    return x.val();
  }
};
