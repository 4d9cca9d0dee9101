// Strings with symbolic characters and a small forking executor, for code that derives names and paths.
// A program is executed again and again with a growing prefix of decisions; a decision is taken only if the
// solver (or the set of values a single character can still have) says it is possible.
// With VF_NATIVE_STR the same scenario runs on std::string with the values of one assignment.
#pragma once
#include <bits/stdc++.h>
#ifndef VF_NATIVE_STR
#include "../../engine/report.hpp"
#endif
namespace vs {
struct Stop { std::string why; };      // this path is not explored further (an assumption does not hold)
struct Unsupported { std::string why; };
#ifdef VF_NATIVE_STR
typedef std::string S;
inline std::map<std::string, std::string>& vals() { static std::map<std::string, std::string> m; return m; }
inline int num(const std::string& n, int lo, int hi) { auto i = vals().find(n); return i == vals().end() ? lo : std::stoi(i->second); }
inline bool flag(const std::string& n) { return num(n, 0, 1); }
inline S str(const std::string& n, int lo, int hi, const std::string& alphabet) { return vals()["str:" + n]; }
inline void assume(bool b) { if (!b) throw Stop{"assumption"}; }
inline std::string concrete(const S& s) { return s; }
inline std::string arg(const S& s) { return s; }
inline S fromText(const std::string& s) { return s; }
void eq(const std::string& name, const S& got, const S& want, const std::string& what);
inline void eq(const std::string& name, const S& got, const S& want) { eq(name, got, want, ""); }
void ok(const std::string& name, bool b, const std::string& detail = "", const std::string& what = "");
inline bool same(const S& a, const S& b) { return a == b; }
#else
// ---------------------------------------------------------------- characters
struct Sv { std::string name; std::bitset<256> dom0, dom; bool isChar; int lo, hi; };
struct World {
  std::vector<Sv> v; std::map<std::string, int> byName;      // symbolic characters and small numbers
  std::vector<int> dec; size_t pos = 0;                     // decisions of this run
  std::vector<std::pair<bool, bool>> done;                  // per decision: other side explored / possible
  std::vector<std::string> pc;                              // path condition (relations between symbols)
  vf::Reporter* R = nullptr; long paths = 0;
  std::string decls() const {
    std::string o;
    for (auto& x : v) {
      o += "(declare-const |" + x.name + "| (_ BitVec 8))\n(assert (or false";
      for (int k = 0; k < 256;) if (x.dom[k]) { int e = k; while (e + 1 < 256 && x.dom[e + 1]) e++;
          char b[200]; snprintf(b, sizeof b, " (and (bvule #x%02x |%s|) (bvule |%s| #x%02x))", k, x.name.c_str(), x.name.c_str(), e); o += b; k = e + 1; } else k++;
      o += "))\n";
    }
    for (auto& c : pc) o += "(assert " + c + ")\n";
    return o;
  }
  bool feasible(const std::string& c) { std::string r = R->z3.check(decls() + "(assert " + c + ")\n", 20000); if (r == "unknown") throw Unsupported{"solver gives no answer on a path condition"}; return r == "sat"; }
};
inline World& W() { static World w; return w; }
inline int choose(bool canT, bool canF) {     // returns the side taken
  World& w = W();
  if (canT != canF) return canT;
  if (!canT) throw Stop{"infeasible"};
  if (w.pos < w.dec.size()) return w.dec[w.pos++];
  w.dec.push_back(1); w.pos++; return 1;
}
inline std::string cterm(int c) { char b[16]; if (c >= 0) { snprintf(b, sizeof b, "#x%02x", c); return b; } return "|" + W().v[-c - 1].name + "|"; }
inline bool ceq(int a, int b) {
  if (a == b) return true;
  if (a >= 0 && b >= 0) return false;
  World& w = W();
  if (a >= 0) std::swap(a, b);
  Sv& x = w.v[-a - 1];
  if (b >= 0) {
    bool t = x.dom[b], f = x.dom.count() > (t ? 1u : 0u);
    if (t && f && !w.pc.empty()) { std::string e = "(= " + cterm(a) + " " + cterm(b) + ")"; t = w.feasible(e); f = w.feasible("(not " + e + ")"); }
    int s = choose(t, f);
    if (s) { x.dom.reset(); x.dom[b] = 1; } else x.dom[b] = 0;
    return s;
  }
  std::string e = "(= " + cterm(a) + " " + cterm(b) + ")";
  int s = choose(w.feasible(e), w.feasible("(not " + e + ")"));
  w.pc.push_back(s ? e : "(not " + e + ")"); return s;
}
inline bool cin_range(int a, int lo, int hi) {
  if (a >= 0) return a >= lo && a <= hi;
  Sv& x = W().v[-a - 1]; std::bitset<256> in; for (int k = lo; k <= hi; k++) in[k] = 1;
  if (!W().pc.empty()) throw Unsupported{"range test after a relation"};
  int s = choose((x.dom & in).any(), (x.dom & ~in).any()); x.dom &= s ? in : ~in; return s;
}
struct Ch {
  int v; Ch(int c = 0) : v(c < 0 ? c : (unsigned char)c) {} static Ch raw(int c) { Ch h; h.v = c; return h; }
  explicit operator char() const { if (v < 0) throw Unsupported{"machine character of a symbolic one"}; return (char)v; }
};
inline Ch mk(char c) { return Ch::raw((unsigned char)c); }
inline bool operator==(Ch a, Ch b) { return ceq(a.v, b.v); } inline bool operator!=(Ch a, Ch b) { return !ceq(a.v, b.v); }
inline bool operator==(Ch a, char b) { return ceq(a.v, (unsigned char)b); } inline bool operator!=(Ch a, char b) { return !ceq(a.v, (unsigned char)b); }
inline bool operator==(char b, Ch a) { return a == b; } inline bool operator!=(char b, Ch a) { return a != b; }
inline bool operator<=(Ch a, char b) { return cin_range(a.v, 0, (unsigned char)b); } inline bool operator>=(Ch a, char b) { return cin_range(a.v, (unsigned char)b, 255); }
inline bool operator<(Ch a, char b) { return b && cin_range(a.v, 0, (unsigned char)b - 1); } inline bool operator>(Ch a, char b) { return !(a <= b); }
inline int isalnum(Ch a) { return cin_range(a.v, '0', '9') || cin_range(a.v, 'A', 'Z') || cin_range(a.v, 'a', 'z'); } inline int isdigit(Ch a) { return cin_range(a.v, '0', '9'); }
inline int isalpha(Ch a) { return cin_range(a.v, 'A', 'Z') || cin_range(a.v, 'a', 'z'); } inline int isspace(Ch a) { return a == ' ' || cin_range(a.v, 9, 13); }
// ---------------------------------------------------------------- strings
inline std::map<std::string, std::vector<int>>& tokens() { static std::map<std::string, std::vector<int>> m; return m; }
struct S {
  typedef size_t size_type; typedef Ch value_type; static constexpr size_t npos = (size_t)-1;
  std::vector<Ch> d; mutable std::string cs;
  S() {} S(const char* p) { if (!p) throw std::logic_error("string built from a null pointer"); *this = S(std::string(p)); }
  S(const char* p, size_t n) : S(std::string(p, n)) {}
  S(size_t n, char c) : d(n, mk(c)) {} S(std::initializer_list<char> l) { for (char c : l) d.push_back(mk(c)); }
  S(const std::string& s) {
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == 1) { size_t e = s.find('\2', i); auto t = e == std::string::npos ? tokens().end() : tokens().find(s.substr(i, e - i + 1));
        if (t != tokens().end()) { for (int c : t->second) d.push_back(Ch::raw(c)); i = e; continue; } }
      d.push_back(mk(s[i]));
    }
  }
  S(std::string_view s) : S(std::string(s)) {}
  S(const S& o, size_t pos, size_t n = npos) { *this = o.substr(pos, n); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> S(It a, It b) { for (; a != b; ++a) d.push_back(Ch(*a)); }
  operator std::string() const {      // a text that stands for this string
    bool c = true; std::string s; for (Ch x : d) { if (x.v < 0) c = false; else s += (char)x.v; } if (c) return s;
    std::vector<int> k; for (Ch x : d) k.push_back(x.v); for (auto& t : tokens()) if (t.second == k) return t.first;
    std::string n = "\1" + std::to_string(tokens().size()) + "\2"; tokens()[n] = k; return n;
  }
  size_t size() const { return d.size(); } size_t length() const { return d.size(); } bool empty() const { return d.empty(); } void clear() { d.clear(); } void reserve(size_t = 0) {} size_t capacity() const { return d.capacity(); } void resize(size_t n, char c = 0) { d.resize(n, mk(c)); } void shrink_to_fit() {}
  Ch& operator[](size_t i) { if (i >= d.size()) throw Unsupported{"character past the end"}; return d[i]; } Ch operator[](size_t i) const { return i == d.size() ? Ch(0) : d.at(i); } Ch at(size_t i) const { return d.at(i); }
  Ch& back() { return d.back(); } Ch& front() { return d.front(); } Ch back() const { return d.back(); } Ch front() const { return d.front(); }
  auto begin() { return d.begin(); } auto end() { return d.end(); } auto begin() const { return d.begin(); } auto end() const { return d.end(); } auto rbegin() const { return d.rbegin(); } auto rend() const { return d.rend(); } auto cbegin() const { return d.begin(); } auto cend() const { return d.end(); }
  void push_back(Ch c) { d.push_back(c); } void push_back(char c) { d.push_back(mk(c)); } void pop_back() { d.pop_back(); }
  const char* c_str() const { cs = *this; return cs.c_str(); } const char* data() const { return c_str(); }
  S& operator+=(const S& o) { d.insert(d.end(), o.d.begin(), o.d.end()); return *this; } S& operator+=(char c) { d.push_back(mk(c)); return *this; } S& operator+=(Ch c) { d.push_back(c); return *this; } S& operator+=(const char* c) { return *this += S(c); }
  S& append(const S& o) { return *this += o; } S& append(const S& o, size_t p, size_t n = npos) { return *this += o.substr(p, n); } S& append(size_t n, char c) { return *this += S(n, c); } S& append(const char* c) { return *this += S(c); } S& append(const char* c, size_t n) { return *this += S(c, n); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> S& append(It a, It b) { for (; a != b; ++a) d.push_back(*a); return *this; }
  S substr(size_t p = 0, size_t n = npos) const { if (p > d.size()) throw std::out_of_range("substr"); S s; size_t e = n > d.size() - p ? d.size() : p + n; s.d.assign(d.begin() + p, d.begin() + e); return s; }
  S& assign(const S& o) { return *this = o; }
  S& erase(size_t p = 0, size_t n = npos) { if (p > d.size()) throw std::out_of_range("erase"); size_t e = n > d.size() - p ? d.size() : p + n; d.erase(d.begin() + p, d.begin() + e); return *this; }
  S& insert(size_t p, const S& o) { if (p > d.size()) throw std::out_of_range("insert"); std::vector<Ch> t = o.d; d.insert(d.begin() + p, t.begin(), t.end()); return *this; }
  S& replace(size_t p, size_t n, const S& o) { S t = o; erase(p, n); return insert(p, t); }
  bool at_(size_t i, const S& o) const {       // decided characters first
    if (i + o.size() > size()) return false;
    for (size_t k = 0; k < o.size(); k++) { int a = d[i + k].v, b = o.d[k].v; if (a >= 0 && b >= 0 && a != b) return false; }
    for (size_t k = 0; k < o.size(); k++) { int a = d[i + k].v, b = o.d[k].v; if (a < 0 && b >= 0 && !W().v[-a - 1].dom[b]) return false; if (b < 0 && a >= 0 && !W().v[-b - 1].dom[a]) return false; }
    for (size_t k = 0; k < o.size(); k++) if (!ceq(d[i + k].v, o.d[k].v)) return false;
    return true;
  }
  size_t find(const S& o, size_t p = 0) const { for (size_t i = p; i + o.size() <= size(); i++) if (at_(i, o)) return i; return npos; }
  size_t find(const char* o, size_t p = 0) const { return find(S(o), p); } size_t find(char c, size_t p = 0) const { return find(S(1, c), p); } size_t find(Ch c, size_t p = 0) const { S s; s.d.push_back(c); return find(s, p); }
  size_t rfind(const S& o, size_t p = npos) const { if (o.size() > size()) return npos; for (size_t i = std::min(p, size() - o.size()) + 1; i-- > 0;) if (at_(i, o)) return i; return npos; }
  size_t rfind(const char* o, size_t p = npos) const { return rfind(S(o), p); } size_t rfind(char c, size_t p = npos) const { return rfind(S(1, c), p); }
  bool among(size_t i, const S& o) const { for (Ch c : o.d) if (ceq(d[i].v, c.v)) return true; return false; }
  size_t scan(const S& o, size_t p, bool fwd, bool want) const { if (fwd) { for (size_t i = p; i < size(); i++) if (among(i, o) == want) return i; } else if (size()) for (size_t i = std::min(p, size() - 1) + 1; i-- > 0;) if (among(i, o) == want) return i; return npos; }
#define VS_SC(n, f, w, dflt) size_t n(const S& o, size_t p = dflt) const { return scan(o, p, f, w); } size_t n(const char* o, size_t p = dflt) const { return scan(S(o), p, f, w); } size_t n(char c, size_t p = dflt) const { return scan(S(1, c), p, f, w); }
  VS_SC(find_first_of, true, true, 0) VS_SC(find_last_of, false, true, npos) VS_SC(find_first_not_of, true, false, 0) VS_SC(find_last_not_of, false, false, npos)
  int compare(const S& o) const { return at_(0, o) && size() == o.size() ? 0 : 1; } int compare(size_t p, size_t n, const S& o) const { return substr(p, n).compare(o); }
  void swap(S& o) { d.swap(o.d); }
};
inline bool operator==(const S& a, const S& b) { return a.size() == b.size() && a.at_(0, b); } inline bool operator!=(const S& a, const S& b) { return !(a == b); }
inline bool operator==(const S& a, const char* b) { return a == S(b); } inline bool operator==(const char* b, const S& a) { return a == S(b); } inline bool operator!=(const S& a, const char* b) { return !(a == S(b)); }
inline bool operator==(const S& a, const std::string& b) { return a == S(b); } inline bool operator==(const std::string& b, const S& a) { return a == S(b); } inline bool operator!=(const S& a, const std::string& b) { return !(a == S(b)); }
inline bool operator<(const S& a, const S& b) {    // map keys: any fixed total order of the characters' identities will do
  return std::lexicographical_compare(a.d.begin(), a.d.end(), b.d.begin(), b.d.end(), [](Ch x, Ch y) { return x.v < y.v; }); }
inline S operator+(S a, const S& b) { return a += b; } inline S operator+(S a, const char* b) { return a += S(b); } inline S operator+(const char* a, const S& b) { return S(a) += b; } inline S operator+(S a, char b) { return a += b; } inline S operator+(char a, const S& b) { return S(1, a) += b; }
inline S operator+(S a, Ch b) { return a += b; } inline S operator+(const std::string& a, const S& b) { return S(a) += b; } inline S operator+(S a, const std::string& b) { return a += S(b); }
inline std::ostream& operator<<(std::ostream& o, const S& s) { return o << (std::string)s; }
inline void swap(S& a, S& b) { a.d.swap(b.d); }
// ---------------------------------------------------------------- inputs of a scenario
inline int sv(const std::string& n, std::bitset<256> dom) {
  World& w = W(); auto i = w.byName.find(n); if (i != w.byName.end()) return i->second;
  Sv x; x.name = n; x.dom = x.dom0 = dom; w.v.push_back(x); return w.byName[n] = -(int)w.v.size();
}
inline int num(const std::string& n, int lo, int hi) { std::bitset<256> d; for (int k = lo; k <= hi; k++) d[k] = 1; int c = sv("num:" + n, d); for (int k = lo; k < hi; k++) if (ceq(c, k)) return k; ceq(c, hi); return hi; }
inline bool flag(const std::string& n) { return num(n, 0, 1); }
inline S str(const std::string& n, int lo, int hi, const std::string& alphabet) {
  int L = num(n + ".length", lo, hi); std::bitset<256> d; for (unsigned char c : alphabet) d[c] = 1;
  S s; for (int i = 0; i < L; i++) s.d.push_back(Ch::raw(sv("str:" + n + ":" + std::to_string(i), d))); return s;
}
inline void assume(bool b) { if (!b) throw Stop{"assumption"}; }
inline std::string concrete(const S& s) { for (Ch c : s.d) if (c.v < 0) throw Unsupported{"a real file with a symbolic name"}; return s; }
inline std::string arg(const S& s) { return s; }
inline S fromText(const std::string& s) { S t; for (char c : s) t.d.push_back(mk(c)); return t; }
struct Obl { std::string name, what, cond, detail; };
inline std::vector<Obl>& obls() { static std::vector<Obl> o; return o; }
inline std::string show(const S& s) { std::string o; for (Ch c : s.d) { if (c.v >= 0) o += (char)c.v; else o += "?"; } return o.substr(0, 400); }
inline void eq(const std::string& name, const S& got, const S& want, const std::string& what = "") {
  std::string c; if (got.size() != want.size()) c = "true";
  else { std::set<std::string> parts; for (size_t i = 0; i < got.size(); i++) if (got.d[i].v != want.d[i].v) { if (got.d[i].v >= 0 && want.d[i].v >= 0) { parts = {"true"}; break; } parts.insert("(not (= " + cterm(got.d[i].v) + " " + cterm(want.d[i].v) + "))"); } c = "(or false"; for (auto& p : parts) c += " " + p; c += ")"; }
  size_t k = 0; while (k < got.size() && k < want.size() && got.d[k].v == want.d[k].v) k++; size_t from = k > 80 ? k - 80 : 0;
  obls().push_back({name, what, c, "got \"" + show(got.substr(std::min(from, got.size()), 260)) + "\", expected \"" + show(want.substr(std::min(from, want.size()), 260)) + "\""});
}
inline void ok(const std::string& name, bool b, const std::string& detail = "", const std::string& what = "") { obls().push_back({name, what, b ? "false" : "true", detail}); }
inline bool same(const S& a, const S& b) { return a == b; }
#endif
typedef std::function<void()> Scenario;
int run(int argc, char** argv, const std::map<std::string, Scenario>& all, const std::vector<std::string>& functions);
inline std::string readFile(const std::string& f) { std::ifstream i(f); if (!i) throw std::runtime_error("no file " + f); std::stringstream b; b << i.rdbuf(); return b.str(); }
}  // namespace vs
