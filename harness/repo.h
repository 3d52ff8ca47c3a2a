// Brings in the code under test: /repo/src (global namespace) or the single header include/wisardpkg.hpp.
#pragma once
#include "sym.h"
#ifdef USE_HPP
#include WISARD_HPP
using namespace wisardpkg;
#else
#include "wisardpkg.h"
#endif
typedef std::vector<int> VI;
typedef std::vector<std::vector<int>> VVI;
typedef std::vector<std::string> VS;
// runs a statement; true when it raised the library's own exception. Any other exception is a failed check
#define THROWS_LIB(...) ([&]() -> bool { try { __VA_ARGS__; } catch (Exception&) { return true; } return false; }())
// true when it raised any exception derived from std::exception
#define THROWS_STD(...) ([&]() -> bool { try { __VA_ARGS__; } catch (std::exception&) { return true; } return false; }())
static inline VI sym_image(const char* n, int size, int base) { VI v(size); for (int i = 0; i < size; i++) v[i] = (int)sym_int(n, 0, base - 1); return v; }
static inline bool same(const VI& a, const VI& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
static inline bool same(const VVI& a, const VVI& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & same(a[i], b[i]); return r; }
