// Stand-in for pybind11: records what a module exposes (name -> callable, argument names, defaults) so that each
// exposed name can be invoked and compared with the class method of that name.
#pragma once
#include "scen.hpp"
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <eigen3/Eigen/Dense>
namespace pybind11 {
struct Val { sc::V v; std::string s; bool b = false; long i = 0; };
struct Ret { std::string kind; int r = 0, c = 0; sc::V v; std::string s; };
template <class T> struct decay_t_ { typedef typename std::decay<T>::type type; };
template <class T> using D = typename decay_t_<T>::type;
template <class T, class = void> struct is_eigen : std::false_type {};
template <class T> struct is_eigen<T, decltype((void)std::declval<T>().rows(), (void)std::declval<T>().cols(), (void)std::declval<T>()(0, 0))> : std::true_type {};
template <class T> constexpr char kindOf() {
  return std::is_same<T, bool>::value ? 'b' : std::is_convertible<T, std::string>::value ? 's' : std::is_same<T, SC_T>::value ? 'd' : std::is_integral<T>::value ? 'i' : is_eigen<T>::value ? 'v' : std::is_same<T, sc::V>::value ? 'l' : '?';
}
template <class T> T fromVal(const Val& x) {
  if constexpr (std::is_same<T, bool>::value) return x.b;
  else if constexpr (std::is_same<T, std::string>::value) return x.s;
  else if constexpr (std::is_same<T, const char*>::value) return x.s.c_str();
  else if constexpr (std::is_same<T, SC_T>::value) return x.v.at(0);
  else if constexpr (std::is_integral<T>::value) return (T)x.i;
  else if constexpr (std::is_same<T, sc::V>::value) return x.v;
  else if constexpr (is_eigen<T>::value) { Eigen::VectorXd e((long)x.v.size()); for (size_t k = 0; k < x.v.size(); k++) e((long)k) = x.v[k]; return T(e); }
  else return T();
}
template <class T> Ret toRet(const T& x) {
  Ret r;
  if constexpr (std::is_same<T, bool>::value || std::is_integral<T>::value) { r.kind = "int"; r.v.push_back(SC_T((int)x)); }
  else if constexpr (std::is_same<T, SC_T>::value) { r.kind = "scalar"; r.v.push_back(x); }
  else if constexpr (std::is_convertible<T, std::string>::value) { r.kind = "string"; r.s = x; }
  else if constexpr (is_eigen<T>::value) { r.kind = "matrix"; r.r = (int)x.rows(); r.c = (int)x.cols(); r.v = sc::flat(x); }
  else r.kind = "other";
  return r;
}
struct Callable { std::string kinds; std::function<Ret(void*, const std::vector<Val>&)> f; bool self = true; };
template <class R, class F> Ret retOf(F&& f) { if constexpr (std::is_void<R>::value) { f(); Ret r; r.kind = "void"; return r; } else { D<R> x = f(); return toRet<D<R>>(x); } }
template <class Self, class C, class R, class... A, size_t... I> Callable memberImpl(R (C::*m)(A...), std::index_sequence<I...>) {
  Callable c; c.kinds = std::string{kindOf<D<A>>()...};
  c.f = [m](void* p, const std::vector<Val>& v) { Self* t = static_cast<Self*>(p); return retOf<R>([&]() -> R { return (t->*m)(fromVal<D<A>>(v.at(I))...); }); }; return c;
}
template <class Self, class F, class R, class S0, class... A, size_t... I> Callable freeImpl(F f, R (*)(S0, A...), std::index_sequence<I...>) {
  Callable c; c.kinds = std::string{kindOf<D<A>>()...};
  c.f = [f](void* p, const std::vector<Val>& v) mutable { Self* t = static_cast<Self*>(p); return retOf<R>([&]() -> R { if constexpr (std::is_pointer<S0>::value) return f(t, fromVal<D<A>>(v.at(I))...); else return f(*t, fromVal<D<A>>(v.at(I))...); }); }; return c;
}
template <class Self, class C, class R, class... A> Callable callable(R (C::*m)(A...)) { return memberImpl<Self>(m, std::index_sequence_for<A...>()); }
template <class Self, class C, class R, class... A> Callable callable(R (C::*m)(A...) const) { return memberImpl<Self>((R (C::*)(A...))m, std::index_sequence_for<A...>()); }
template <class Self, class R, class S0, class... A> Callable callable(R (*f)(S0, A...)) { return freeImpl<Self>(f, f, std::index_sequence_for<A...>()); }
template <class F> struct lam;
template <class C, class R, class... A> struct lam<R (C::*)(A...) const> { typedef R (*type)(A...); };
template <class C, class R, class... A> struct lam<R (C::*)(A...)> { typedef R (*type)(A...); };

template <class Self, class L, class R, class S0, class... A> Callable freeLam(L l, R (*fp)(S0, A...)) { return freeImpl<Self>(l, fp, std::index_sequence_for<A...>()); }

template <class Self, class L, class = decltype(&D<L>::operator())> Callable callable(L l) { typedef typename lam<decltype(&D<L>::operator())>::type FP; return freeLam<Self>(l, (FP) nullptr); }
struct arg_v;
struct arg { std::string name; explicit arg(const char* n) : name(n) {} template <class T> arg_v operator=(T&& x) const; arg& noconvert(bool = true) { return *this; } };
struct arg_v : arg { Val def; char kind; arg_v(const arg& a, const Val& v, char k) : arg(a), def(v), kind(k) {} };
template <class T> arg_v arg::operator=(T&& x) const { Val v; char k = kindOf<D<T>>(); if constexpr (std::is_same<D<T>, bool>::value) v.b = x; else if constexpr (std::is_integral<D<T>>::value) { v.i = x; v.b = x != 0; } else if constexpr (std::is_convertible<D<T>, std::string>::value) v.s = x; return arg_v(*this, v, k); }
namespace literals { inline arg operator""_a(const char* s, size_t) { return arg(s); } }
struct doc { std::string s; explicit doc(const char* x) : s(x) {} };
enum class return_value_policy { automatic, copy, move, reference, reference_internal, take_ownership, automatic_reference };
template <class... T> struct call_guard {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; struct is_operator {};
template <class... T> struct keep_alive {};
template <class... A> struct init_ { }; template <class... A> init_<A...> init() { return {}; }
struct Param { std::string name; bool hasDefault; Val def; };
struct Binding { std::string module, cls, name, text; Callable c; std::vector<Param> params; bool isInit = false; };
inline std::vector<Binding>& store() { static auto* v = new std::vector<Binding>; return *v; }
struct module_ { std::string name; struct Doc { template <class T> Doc& operator=(const T&) { return *this; } }; Doc doc() const { return {}; } struct Attr { template <class T> void operator=(const T&) {} }; Attr attr(const char*) { return {}; } template <class... A> module_& def(const char*, A&&...) { return *this; } };
inline void take(Binding& b, const arg_v& a) { b.params.push_back({a.name, true, a.def}); }
inline void take(Binding& b, const arg& a) { b.params.push_back({a.name, false, {}}); }
inline void take(Binding& b, const char* d) { b.text = d; }
inline void take(Binding& b, const doc& d) { b.text = d.s; }
template <class T> typename std::enable_if<!std::is_base_of<arg, T>::value && !std::is_convertible<T, const char*>::value>::type take(Binding&, const T&) {}
template <class T, class... O> struct class_ {
  module_& m; std::string name; class_(module_& mm, const char* n) : m(mm), name(n) {}
  template <class... E> class_(module_& mm, const char* n, const E&...) : m(mm), name(n) {}
  template <class... A, class... E> class_& def(const init_<A...>&, const E&... e) { Binding b; b.module = m.name; b.cls = name; b.name = "__init__"; b.isInit = true; (take(b, e), ...); store().push_back(b); return *this; }
  template <class F, class... E> class_& def(const char* n, F f, const E&... e) { Binding b; b.module = m.name; b.cls = name; b.name = n; b.c = callable<T>(f); (take(b, e), ...); store().push_back(b); return *this; }
  template <class F> class_& def_readwrite(const char*, F) { return *this; } template <class F> class_& def_readonly(const char*, F) { return *this; }
  template <class... F> class_& def_property(const char*, F&&...) { return *this; } template <class... F> class_& def_property_readonly(const char*, F&&...) { return *this; }
};
struct Reg { typedef void (*Body)(module_&); static std::vector<std::pair<std::string, Body>>& all() { static auto* v = new std::vector<std::pair<std::string, Body>>; return *v; } Reg(const char* n, Body b) { all().push_back({n, b}); } };
inline std::vector<Binding>& registry() { static bool done = false; if (!done) { done = true; for (auto& r : Reg::all()) { module_ m; m.name = r.first; r.second(m); } } return store(); }
}
#define PYBIND11_MODULE(name, variable, ...) static void pybind11_body_##name(::pybind11::module_& variable); static ::pybind11::Reg pybind11_reg_##name(#name, &pybind11_body_##name); static void pybind11_body_##name(::pybind11::module_& variable)
