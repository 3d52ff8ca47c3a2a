// The part of the C/C++ runtime that is executed symbolically together with the code under test.
// Everything here has the documented behaviour of the library function it stands for; hash tables use a
// single bucket (their observable contents do not depend on the bucket layout).
#define __NO_INLINE__ 1
#include <string>
#include <map>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <clocale>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
#include <chrono>
#include <ostream>
#include "sym.h"
extern "C" int __rt_errno; int __rt_errno = 0;
extern "C" int* __errno_location() { return &__rt_errno; }

// ---- randomness and clock
static int rmode = 0; static unsigned rstate = 12345;
extern "C" void sym_rand_mode(int m) { rmode = m; rstate = 12345; }
extern "C" int rand() { if (rmode == 0) return (int)__sym_bv("rand", 31);
  if (rmode < 0) return -1 - rmode;
  if (rmode > 1) { unsigned w = 1; while ((unsigned)(rmode - 1) >> w) w++; return (int)__sym_bvr("rand", w, (uint64_t)rmode - 1); }
  rstate = rstate * 1103515245u + 12345u; return (int)(rstate >> 1); }
extern "C" long random() { return rand(); }
extern "C" void srand(unsigned s) { rstate = s; }
extern "C" void srandom(unsigned s) { rstate = s; }
extern "C" time_t time(time_t* t) { time_t v = rmode == 0 ? (time_t)__sym_bv("time", 31) : 1000000; if (t) *t = v; return v; }

// ---- C strings
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }



static lconv lc; static char dot[] = ".", none[] = "";
lconv* localeconv() { lc.decimal_point = dot; lc.thousands_sep = none; return &lc; }
double frexp(double, int*);
}

// ---- exceptions of the standard library
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dup(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* p = dup(o._M_p, strlen(o._M_p)); free((void*)_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* p = _M_p; _M_p = o._M_p; o._M_p = p; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
#define DEFE(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
DEFE(domain_error, logic_error) DEFE(invalid_argument, logic_error) DEFE(length_error, logic_error) DEFE(out_of_range, logic_error) DEFE(range_error, runtime_error) DEFE(overflow_error, runtime_error) DEFE(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }

// ---- red-black tree primitives (here: a plain ordered binary tree; balance is not observable)
typedef _Rb_tree_node_base NB;
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
  NB* y = z; NB* x = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    return z;
  }
  NB* p = y->_M_parent; if (x) x->_M_parent = p;
  if (h._M_parent == z) h._M_parent = x; else if (p->_M_left == z) p->_M_left = x; else p->_M_right = x;
  if (h._M_left == z) { if (!z->_M_right) h._M_left = p; else { NB* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
  if (h._M_right == z) { if (!z->_M_left) h._M_right = p; else { NB* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  return z;
}
static NB* incr(NB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB* decr(NB* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB* _Rb_tree_increment(NB* x) throw() { return incr(x); }
const NB* _Rb_tree_increment(const NB* x) throw() { return incr((NB*)x); }
NB* _Rb_tree_decrement(NB* x) throw() { return decr(x); }
const NB* _Rb_tree_decrement(const NB* x) throw() { return decr((NB*)x); }
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }
namespace __detail {
void _List_node_base_dummy() {}
}
}
#include <unordered_map>
#include <list>
namespace std { namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
} }

// ---- in-memory files
static std::map<std::string, std::string>* vfs;
extern "C" std::string* __vfs_open(const char* name, unsigned len, int mode) {
  if (!vfs) vfs = new std::map<std::string, std::string>();
  std::string n(name, len); while (n.compare(0, 2, "./") == 0) n.erase(0, n.find_first_not_of('/', 1) == std::string::npos ? n.size() : n.find_first_not_of('/', 1)); if (n.empty() || n.find('/') != std::string::npos) return nullptr;   // no directories exist
  auto it = vfs->find(n);
  if (mode == 0 || mode == 3) return it == vfs->end() ? nullptr : &it->second;
  if (it == vfs->end()) it = vfs->emplace(n, std::string()).first;
  if (mode == 1) it->second.clear();
  return &it->second;
}
extern "C" int remove(const char* name) { if (!vfs) return -1; return vfs->erase(std::string(name)) ? 0 : -1; }

// ---- C files on the same in-memory files, console output discarded
struct __sx_file { std::string* s; size_t at; bool rd, wr, app, e; };
static __sx_file console;
extern "C" {
FILE* stdin = (FILE*)&console; FILE* stdout = (FILE*)&console; FILE* stderr = (FILE*)&console;
FILE* fopen(const char* n, const char* m) { bool plus = m[1] == '+' || (m[1] && m[2] == '+'); std::string* s = __vfs_open(n, (unsigned)strlen(n), m[0] == 'r' ? (plus ? 3 : 0) : m[0] == 'w' ? 1 : 2); if (!s) return nullptr; return (FILE*)new __sx_file{s, 0, m[0] == 'r' || plus, m[0] != 'r' || plus, m[0] == 'a', false}; }
int fclose(FILE* p) { if (p != (FILE*)&console) delete (__sx_file*)p; return 0; }
size_t fread(void* d, size_t z, size_t n, FILE* p) { __sx_file* f = (__sx_file*)p; size_t k = 0, t = z * n; while (k < t) { if (!f->s || f->at >= f->s->size()) { f->e = true; break; } ((char*)d)[k++] = (*f->s)[f->at++]; } return z ? k / z : 0; }
size_t fwrite(const void* d, size_t z, size_t n, FILE* p) { __sx_file* f = (__sx_file*)p; if (!f->s) return n; if (f->app) f->at = f->s->size(); for (size_t k = 0; k < z * n; k++, f->at++) { if (f->at < f->s->size()) (*f->s)[f->at] = ((const char*)d)[k]; else f->s->push_back(((const char*)d)[k]); } return n; }
int fgetc(FILE* p) { unsigned char c; return fread(&c, 1, 1, p) ? c : -1; } int getc(FILE* p) { return fgetc(p); }
char* fgets(char* d, int n, FILE* p) { int k = 0; while (k + 1 < n) { int c = fgetc(p); if (c < 0) break; d[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; d[k] = 0; return d; }
int fputc(int c, FILE* p) { char x = (char)c; fwrite(&x, 1, 1, p); return c; } int putc(int c, FILE* p) { return fputc(c, p); } int fputs(const char* s, FILE* p) { fwrite(s, 1, strlen(s), p); return 1; }
int feof(FILE* p) { return ((__sx_file*)p)->e; } int ferror(FILE*) { return 0; } int fflush(FILE*) { return 0; } void rewind(FILE* p) { ((__sx_file*)p)->at = 0; ((__sx_file*)p)->e = false; }
int fseek(FILE* p, long o, int w) { __sx_file* f = (__sx_file*)p; long a = w == 2 ? (f->s ? (long)f->s->size() : 0) + o : w == 1 ? (long)f->at + o : o; if (a < 0) return -1; f->at = (size_t)a; f->e = false; return 0; } long ftell(FILE* p) { return (long)((__sx_file*)p)->at; }
int puts(const char*) { return 1; } int putchar(int c) { return c; } void perror(const char*) {} int vprintf(const char*, va_list) { return 1; } int printf(const char*, ...) { return 1; }
int vfprintf(FILE* p, const char* m, va_list a) { if (!((__sx_file*)p)->s) return 1; char t[1024]; int n = vsnprintf(t, sizeof t, m, a); fwrite(t, 1, (size_t)n, p); return n; }
int fprintf(FILE* p, const char* m, ...) { va_list a; va_start(a, m); int n = vfprintf(p, m, a); va_end(a); return n; }
int sprintf(char* d, const char* m, ...) { va_list a; va_start(a, m); int n = vsnprintf(d, 1 << 20, m, a); va_end(a); return n; }
// one thread only
#define SX_STUB(RET, NAME, ...) RET sx_##NAME(__VA_ARGS__) __asm__(#NAME); RET sx_##NAME(__VA_ARGS__)
SX_STUB(int, pthread_mutex_lock, void*) { return 0; } SX_STUB(int, pthread_mutex_unlock, void*) { return 0; } SX_STUB(int, pthread_mutex_trylock, void*) { return 0; } SX_STUB(int, pthread_mutex_init, void*, const void*) { return 0; } SX_STUB(int, pthread_mutex_destroy, void*) { return 0; } SX_STUB(int, pthread_once, int* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
SX_STUB(int, usleep, unsigned) { return 0; } SX_STUB(unsigned, sleep, unsigned) { return 0; } SX_STUB(int, nanosleep, const void*, void*) { return 0; } SX_STUB(long, clock, ) { static long t = 0; return t += 100; }
SX_STUB(int, gettimeofday, void* p, void*) { ((long*)p)[0] = (long)time(nullptr); ((long*)p)[1] = 0; return 0; } SX_STUB(int, clock_gettime, int, void* p) { ((long*)p)[0] = (long)time(nullptr); ((long*)p)[1] = 0; return 0; }
SX_STUB(int, access, const char* n, int) { return __vfs_open(n, (unsigned)strlen(n), 0) ? 0 : -1; } SX_STUB(int, unlink, const char* n) { return remove(n); }
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { static long long t = 0; return time_point(duration(t += 1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration((long long)time(nullptr) * 1000000000LL)); }
} } }
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);

// ---- further C string functions
extern "C" {
SX_STUB(char*, strncpy, char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
SX_STUB(char*, strcat, char* d, const char* s) { size_t n = strlen(d), i = 0; do d[n + i] = s[i]; while (s[i++]); return d; } SX_STUB(char*, strncat, char* d, const char* s, size_t m) { size_t n = strlen(d), i = 0; for (; i < m && s[i]; i++) d[n + i] = s[i]; d[n + i] = 0; return d; }
SX_STUB(char*, strstr, const char* h, const char* x) { for (;; h++) { size_t i = 0; while (x[i] && h[i] == x[i]) i++; if (!x[i]) return (char*)h; if (!*h) return nullptr; } }
SX_STUB(char*, strrchr, const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
SX_STUB(char*, strpbrk, const char* s, const char* a) { for (; *s; s++) for (const char* q = a; *q; q++) if (*s == *q) return (char*)s; return nullptr; }
SX_STUB(size_t, strspn, const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; } SX_STUB(size_t, strcspn, const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) for (const char* q = a; *q; q++) if (*q == s[n]) return n; return n; }
static char* sx_tok; SX_STUB(char*, strtok, char* s, const char* a) { if (s) sx_tok = s; if (!sx_tok) return nullptr; s = sx_tok + sx_strspn(sx_tok, a); if (!*s) { sx_tok = nullptr; return nullptr; } char* e = s + sx_strcspn(s, a); if (*e) { *e = 0; sx_tok = e + 1; } else sx_tok = nullptr; return s; }
SX_STUB(size_t, strnlen, const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
SX_STUB(char*, strdup, const char* s) { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
SX_STUB(int, isdigit, int c) { return c >= '0' && c <= '9'; } SX_STUB(int, isupper, int c) { return c >= 'A' && c <= 'Z'; } SX_STUB(int, islower, int c) { return c >= 'a' && c <= 'z'; } SX_STUB(int, isalpha, int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } SX_STUB(int, isalnum, int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); } SX_STUB(int, isspace, int c) { return c == ' ' || (c >= 9 && c <= 13); } SX_STUB(int, isxdigit, int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } SX_STUB(int, isprint, int c) { return c >= 32 && c < 127; } SX_STUB(int, isgraph, int c) { return c > 32 && c < 127; } SX_STUB(int, iscntrl, int c) { return (c >= 0 && c < 32) || c == 127; } SX_STUB(int, ispunct, int c) { return c > 32 && c < 127 && !((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')); }
SX_STUB(int, toupper, int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; } SX_STUB(int, tolower, int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
SX_STUB(int, atoi, const char* s) { return (int)strtol(s, nullptr, 10); } SX_STUB(long, atol, const char* s) { return strtol(s, nullptr, 10); } SX_STUB(double, atof, const char* s) { return strtod(s, nullptr); }
struct sx_divt { int q, r; }; SX_STUB(sx_divt, div, int a, int b) { return {a / b, a % b}; } struct sx_ldivt { long q, r; }; SX_STUB(sx_ldivt, ldiv, long a, long b) { return {a / b, a % b}; } SX_STUB(long, labs, long a) { return a < 0 ? -a : a; } SX_STUB(long long, llabs, long long a) { return a < 0 ? -a : a; } SX_STUB(int, abs, int a) { return a < 0 ? -a : a; }
SX_STUB(void, qsort, void* p, size_t n, size_t z, int (*c)(const void*, const void*)) { char* b = (char*)p; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(b + (j - 1) * z, b + j * z) > 0; j--) for (size_t k = 0; k < z; k++) { char t = b[(j - 1) * z + k]; b[(j - 1) * z + k] = b[j * z + k]; b[j * z + k] = t; } }
SX_STUB(double, ldexp, double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; } SX_STUB(double, modf, double x, double* i) { *i = __builtin_trunc(x); return x - *i; }
}
