// A small model of the file system whose paths and contents are (symbolic) strings.
#pragma once
#include "vfstr.hpp"
namespace vs {
struct Fs {
  S cwd, conf; std::vector<std::pair<S, S>> files; std::vector<S> dirs;      // absolute normal paths
  bool anyDir = true;                                                    // directories outside the result folder exist
  S strictDir;                                                           // ... except this one, until it is created
  static std::vector<S> parts(const S& p) { std::vector<S> o; S c; for (size_t i = 0; i <= p.size(); i++) { if (i == p.size() || p[i] == '/') { if (c.size() == 0 || c == ".") {} else if (c == "..") { if (!o.empty()) o.pop_back(); } else o.push_back(c); c = S(); } else c += p[i]; } return o; }
  S norm(const S& p) const { S a = (p.size() && p[0] == '/') ? p : cwd + "/" + p; S o; for (auto& x : parts(a)) o = o + "/" + x; return o.size() ? o : S("/"); }
  static S base(const S& p) { auto v = parts(p); return v.empty() ? S() : v.back(); }
  static S dir(const S& p) { auto v = parts(p); S o; for (size_t i = 0; i + 1 < v.size(); i++) o = o + "/" + v[i]; return o.size() ? o : S("/"); }
  S* find(const S& p) { S n = norm(p); for (auto& f : files) if (f.first == n) return &f.second; return nullptr; }
  bool isDir(const S& p) { S n = norm(p); if (strictDir.size() && n == strictDir) { for (auto& d : dirs) if (d == n) return true; return false; } return true; }
  bool isConf(const S& p) const { return p == conf || p == cwd + "/" + conf; }
  bool write(const S& p, const S& c) { S n = norm(p); if (!isDir(dir(n))) return false; for (auto& f : files) if (f.first == n) { f.second = c; return true; } files.push_back({n, c}); return true; }
};
inline Fs& fs() { static Fs f; return f; }
}
