// Stand-ins for files and string streams, so that the text handling of utils.cpp runs on symbolic names.
#pragma once
#include <bits/stdc++.h>
#include <casadi/casadi.hpp>
#include <eigen3/Eigen/Dense>
#include <yaml-cpp/yaml.h>
#include "vfstr_run.hpp"
#include "fsmodel.hpp"
namespace std {
typedef vs::S vf_string;
struct vf_buf { vs::S s; };
struct vf_ifstream {
  vs::S s; bool open_ = false; size_t p = 0; vf_ifstream() {} vf_ifstream(const vs::S& f, ios_base::openmode = ios_base::in) { open(f); }
  void open(const vs::S& f, ios_base::openmode = ios_base::in) { vs::S* c = vs::fs().find(f); open_ = c; if (c) s = *c; }
  bool is_open() const { return open_; } bool good() const { return open_; } explicit operator bool() const { return open_; } bool operator!() const { return !open_; } bool fail() const { return !open_; } void close() { open_ = false; } vf_buf rdbuf() { return {s}; }
};
struct vf_stringstream {
  vs::S s; size_t p = 0; bool ok_ = true; vf_stringstream() {} explicit vf_stringstream(const vs::S& x, ios_base::openmode = ios_base::in) : s(x) {}
  vf_stringstream& operator<<(const vf_buf& b) { s += b.s; return *this; } vf_stringstream& operator<<(const vs::S& x) { s += x; return *this; } vf_stringstream& operator<<(const char* x) { s += vs::S(x); return *this; } vf_stringstream& operator<<(char c) { s += c; return *this; }
#ifndef VF_NATIVE_STR
  vf_stringstream& operator<<(const std::string& x) { s += vs::S(x); return *this; }
#endif
  template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> vf_stringstream& operator<<(T x) { std::ostringstream o; o << x; s += vs::S(o.str()); return *this; }
  vs::S str() const { return s; } void str(const vs::S& x) { s = x; } explicit operator bool() const { return ok_; }
};
struct vf_ofstream {
  vs::S f, s; bool open_ = false; vf_ofstream() {} vf_ofstream(const vs::S& f_, ios_base::openmode m = ios_base::out) { open(f_, m); }
  void open(const vs::S& f_, ios_base::openmode m = ios_base::out) { f = f_; vs::S* c = vs::fs().find(f); s = (m & ios_base::app) && c ? *c : vs::S(); open_ = true; flush(); }
  bool is_open() const { return open_; } bool good() const { return open_; } explicit operator bool() const { return open_; } bool operator!() const { return !open_; } void flush() { if (open_) vs::fs().write(f, s); } void close() { flush(); open_ = false; } ~vf_ofstream() { flush(); }
  template <class T> vf_ofstream& operator<<(const T& x) { vf_stringstream t; t << x; s += t.s; flush(); return *this; } vf_ofstream& operator<<(std::ostream& (*)(std::ostream&)) { s += "\n"; flush(); return *this; }
};
template <class IS> auto vf_getline(IS& i, vs::S& o, char d = '\n') -> decltype(i.p, i.s.size(), std::declval<IS&>()) {
  struct G { }; o = vs::S(); if (i.p >= i.s.size()) { i.p = i.s.size() + 1; }
  else { while (i.p < i.s.size() && !(i.s[i.p] == d)) { vs::S c = i.s.substr(i.p, 1); o += c; i.p++; } i.p++; return i; }
  if constexpr (std::is_same<IS, vf_ifstream>::value) i.open_ = false; else i.ok_ = false; return i;
}
}
#define string vf_string
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define stringstream vf_stringstream
#define ostringstream vf_stringstream
#define getline vf_getline
