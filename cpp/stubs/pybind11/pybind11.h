// stand-in for pybind11: Python objects as plain records the checks build through vp_* functions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <complex>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>
namespace pybind11 {
enum Kind { NONE, INT, FLOAT, LIST, STR, DICT, OBJ, TUPLE, CPLX };
struct object;
struct Val {
  Kind kind = NONE;
  long i = 0;
  double f = 0, g = 0;
  std::string s;
  std::vector<Val*> items;          // lists, values of dicts and objects
  std::vector<Val*> keys;           // dicts
  std::vector<std::string> names;   // objects
};
inline Val* none_val() { static Val v; return &v; }
template <class T> struct is_vec : std::false_type {};
template <class T> struct is_vec<std::vector<T>> : std::true_type {};
struct list; struct dict; struct sequence; struct tuple; struct str; struct int_; struct float_; struct none; struct handle;
template <class T> T cast_val(Val* v);
struct handle {
  Val* p = nullptr;
  handle() = default;
  explicit handle(Val* v) : p(v) {}
  template <class T> T cast() const { return cast_val<T>(p); }
  bool is_none() const { return p == nullptr || p->kind == NONE; }
  inline object attr(const char* n) const;
};
struct object : handle {
  object() = default;
  explicit object(Val* v) : handle(v) {}
};
inline object handle::attr(const char* n) const {
  for (std::size_t k = 0; k < p->names.size(); ++k)
    if (std::strcmp(p->names[k].c_str(), n) == 0) return object(p->items[k]);
  throw std::runtime_error("attribute");
}
struct none : object {};
struct str : object {};
struct int_ : object { using object::object; int_(long x) { p = new Val(); p->kind = INT; p->i = x; } };
struct float_ : object { using object::object; float_(double x) { p = new Val(); p->kind = FLOAT; p->f = x; } };
struct sequence : object { using object::object; std::size_t size() const { return p->items.size(); } object operator[](std::size_t k) const { return object(p->items.at(k)); } };
struct tuple : sequence { using sequence::sequence; };
template <class T> Val* make_val(const T& x) {
  if constexpr (std::is_base_of_v<handle, T>) return x.p ? x.p : none_val();
  else {
    Val* v = new Val();
    if constexpr (std::is_integral_v<T>) { v->kind = INT; v->i = static_cast<long>(x); }
    else if constexpr (std::is_floating_point_v<T>) { v->kind = FLOAT; v->f = x; }
    else if constexpr (is_vec<T>::value) { v->kind = LIST; for (const auto& y : x) v->items.push_back(make_val(y)); }
    else { v->kind = CPLX; v->f = x.real(); v->g = x.imag(); }
    return v;
  }
}
struct list : sequence {
  list() { p = new Val(); p->kind = LIST; }
  explicit list(Val* v) : sequence(v) {}
  template <class T> void append(const T& x) { p->items.push_back(make_val(x)); }
};
struct dict : object {
  dict() { p = new Val(); p->kind = DICT; }
  explicit dict(Val* v) : object(v) {}
  struct iter { Val* p; std::size_t k; std::pair<object, object> operator*() const { return {object(p->keys[k]), object(p->items[k])}; } iter& operator++() { ++k; return *this; } bool operator!=(const iter& o) const { return k != o.k; } };
  iter begin() const { return {p, 0}; }
  iter end() const { return {p, p->items.size()}; }
  std::size_t size() const { return p->items.size(); }
};
template <class T> T cast_val(Val* v) {
  if constexpr (std::is_base_of_v<handle, T>) return T(v);
  else if constexpr (std::is_same_v<T, bool>) return v->i != 0;
  else if constexpr (std::is_integral_v<T>) { if (v->kind != INT) throw std::runtime_error("cast"); return static_cast<T>(v->i); }
  else if constexpr (std::is_floating_point_v<T>) { if (v->kind == INT) return static_cast<T>(v->i); if (v->kind != FLOAT) throw std::runtime_error("cast"); return v->f; }
  else if constexpr (std::is_same_v<T, std::string>) { if (v->kind != STR) throw std::runtime_error("cast"); return v->s; }
  else { T out; if (v->kind != LIST && v->kind != TUPLE) throw std::runtime_error("cast"); for (Val* x : v->items) out.push_back(cast_val<typename T::value_type>(x)); return out; }
}
template <class T> T cast(const handle& h) { return cast_val<T>(h.p); }
template <class T, class U, class = std::enable_if_t<!std::is_base_of_v<handle, U>>> T cast(const U& x) { return T(make_val(x)); }
template <class U, class = std::enable_if_t<!std::is_base_of_v<handle, U>>> object cast(const U& x) { return object(make_val(x)); }
template <class T> bool isinstance(const handle& h) {
  Kind k = h.p ? h.p->kind : NONE;
  if constexpr (std::is_same_v<T, int_>) return k == INT;
  else if constexpr (std::is_same_v<T, float_>) return k == FLOAT;
  else if constexpr (std::is_same_v<T, list>) return k == LIST;
  else if constexpr (std::is_same_v<T, tuple>) return k == TUPLE;
  else if constexpr (std::is_same_v<T, str>) return k == STR;
  else if constexpr (std::is_same_v<T, dict>) return k == DICT;
  else if constexpr (std::is_same_v<T, none>) return k == NONE;
  else if constexpr (std::is_same_v<T, sequence>) return k == LIST || k == TUPLE || k == STR;
  else return false;
}
struct iterator {
  Val* p = nullptr; std::size_t k = 0;
  static iterator sentinel() { return {}; }
  bool done() const { return p == nullptr || k >= p->items.size(); }
  bool operator!=(const iterator& o) const { return done() != o.done(); }
  bool operator==(const iterator& o) const { return done() == o.done(); }
  handle operator*() const { return handle(p->items[k]); }
  iterator& operator++() { ++k; return *this; }
};
inline iterator iter(const handle& h) { return {h.p, 0}; }
template <class T> T reinterpret_borrow(const handle& h) { return T(h.p); }
struct arg { explicit arg(const char*) {} };
namespace literals { inline arg operator""_a(const char* s, std::size_t) { return arg(s); } }
struct module_ {
  module_ def_submodule(const char*) { return *this; }
  template <class... A> module_& def(A&&...) { return *this; }
};
} // namespace pybind11
#define PYBIND11_MODULE(name, var) [[maybe_unused]] static void vp_module_##name(pybind11::module_& var)
