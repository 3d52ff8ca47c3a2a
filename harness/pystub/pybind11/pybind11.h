// Just enough of pybind11 to compile the library's Python classes into a C++ program: Python objects
// are plain values (None, bool, int, double, str, list, dict, and any C++ value passed as an argument).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <utility>
namespace pybind11 {
struct object;
struct pyval { virtual ~pyval() {} };
template<class T> struct pybox : pyval { T v; pybox(const T& v) : v(v) {} };
struct cast_error { };
struct object {
  int kind = 0;                       // 0 none 1 int 2 double 3 str 4 list 5 dict 6 bool 7 boxed
  long long i = 0; double d = 0; std::string s;
  std::shared_ptr<std::vector<object>> l; std::shared_ptr<std::vector<std::pair<std::string, object>>> m; std::shared_ptr<pyval> box;
  object() {}
  object(bool v) : kind(6), i(v) {}
  object(int v) : kind(1), i(v) {}
  object(unsigned v) : kind(1), i(v) {}
  object(long v) : kind(1), i(v) {}
  object(unsigned long v) : kind(1), i((long long)v) {}
  object(float v) : kind(2), d(v) {}
  object(double v) : kind(2), d(v) {}
  object(const char* v) : kind(3), s(v) {}
  object(const std::string& v) : kind(3), s(v) {}
  template<class T> object(const std::vector<T>& v) : kind(7), box(std::make_shared<pybox<std::vector<T>>>(v)) {}
  template<class K, class T> object(const std::map<K, T>& v) : kind(7), box(std::make_shared<pybox<std::map<K, T>>>(v)) {}
  template<class T> struct tag {};
  bool conv(tag<bool>) const { return i != 0; }
  int conv(tag<int>) const { return (int)i; }
  unsigned conv(tag<unsigned>) const { return (unsigned)i; }
  float conv(tag<float>) const { return kind == 2 ? (float)d : (float)i; }
  double conv(tag<double>) const { return kind == 2 ? d : (double)i; }
  std::string conv(tag<std::string>) const { return s; }
  template<class T> T conv(tag<T>) const { return static_cast<pybox<T>*>(box.get())->v; }
  template<class T> T cast() const { return conv(tag<T>()); }
  size_t size() const { return kind == 4 ? l->size() : kind == 5 ? m->size() : s.size(); }
  object* find(const std::string& k) const { if (kind == 5) for (auto& e : *m) if (e.first == k) return &e.second; return nullptr; }
  bool contains(const std::string& k) const { return find(k) != nullptr; }
  object& operator[](const char* k) { return at(std::string(k)); }
  object& operator[](const std::string& k) { return at(k); }
  object& operator[](size_t k) { return l->at(k); }
  object& operator[](int k) { return l->at((size_t)k); }
  object& operator[](unsigned k) { return l->at(k); }
  const object& operator[](int k) const { return l->at((size_t)k); }
  void append(const object& o) { l->push_back(o); }
private:
  object& at(const std::string& k) { if (object* o = find(k)) return *o; if (kind != 5) throw cast_error(); m->push_back(std::make_pair(k, object())); return m->back().second; }
};
typedef object handle;
struct str : object { str() : object("") {} str(const object& o) : object(o.s) {} str(const char* c) : object(c) {} str(const std::string& c) : object(c) {} operator std::string() const { return s; } };
struct list : object { explicit list(size_t n = 0) { kind = 4; l = std::make_shared<std::vector<object>>(n); } };
struct arg_v { std::string name; object value; };
struct arg { std::string name; explicit arg(const char* n) : name(n) {} template<class T> arg_v operator=(const T& v) const { return arg_v{name, object(v)}; } };
struct dict : object {
  dict() { kind = 5; m = std::make_shared<std::vector<std::pair<std::string, object>>>(); }
  template<class... A> explicit dict(const arg_v& a, const A&... r) : dict() { put(a, r...); }
  void put() {}
  template<class... A> void put(const arg_v& a, const A&... r) { m->push_back(std::make_pair(a.name, a.value)); put(r...); }
};
struct kwargs : dict {
  struct item { object first, second; };
  struct iterator { const kwargs* k; size_t p; bool operator!=(const iterator& o) const { return p != o.p; } void operator++() { p++; } item operator*() const { return item{object((*k->m)[p].first), (*k->m)[p].second}; } };
  iterator begin() const { return iterator{this, 0}; } iterator end() const { return iterator{this, m->size()}; }
  template<class T> kwargs& set(const char* n, const T& v) { m->push_back(std::make_pair(std::string(n), object(v))); return *this; }
};
}
