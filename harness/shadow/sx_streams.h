// Streams of the symbolic runs: the interface of the standard streams (formatting in the "C" locale) on strings and on
// in-memory files, without locales. Same visible behaviour as libstdc++ for the operations offered; console output is discarded.
#pragma once
#include <iosfwd>
#include <string>
#include <stdexcept>
#include <system_error>
#include <cstdio>
#include <cstdlib>
extern "C" { std::string* __vfs_open(const char* name, unsigned len, int mode); }   // mode 0 read, 1 truncate, 2 append, 3 read/write existing
namespace std {
class locale { public: locale() {} explicit locale(const char*) {} static const locale& classic() { static locale l; return l; } string name() const { return "C"; } bool operator==(const locale&) const { return true; } };
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 32 | 128 | 16, basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public system_error { public: explicit failure(const string& s) : system_error(io_errc_(), s) {} static error_code io_errc_() { return error_code(1, generic_category()); } };
  struct Init { Init() {} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return pr_; } streamsize precision(streamsize p) { streamsize o = pr_; pr_ = p; return o; } streamsize width() const { return w_; } streamsize width(streamsize p) { streamsize o = w_; w_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; } locale getloc() const { return locale(); } locale imbue(const locale&) { return locale(); }
  virtual ~ios_base() {}
protected:
  ios_base() {} fmtflags fl_ = dec | skipws; streamsize pr_ = 6, w_ = 0;
};
template<class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  virtual ~basic_streambuf() {}
  int_type sgetc() { return underflow(); } int_type sbumpc() { return uflow(); } int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); } int_type sungetc() { return pbackfail(T::eof()); } int_type sputbackc(C c) { return pbackfail(T::to_int_type(c)); }
  streamsize sgetn(C* s, streamsize n) { return xsgetn(s, n); } int_type sputc(C c) { return overflow(T::to_int_type(c)); } streamsize sputn(const C* s, streamsize n) { return xsputn(s, n); } int pubsync() { return sync(); } streamsize in_avail() { return showmanyc(); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); } pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff((off_type)p, ios_base::beg, m); }
protected:
  basic_streambuf() {} virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { return T::eof(); } virtual int_type overflow(int_type = T::eof()) { return T::eof(); } virtual int_type pbackfail(int_type = T::eof()) { return T::eof(); } virtual int sync() { return 0; } virtual streamsize showmanyc() { return 0; }
  virtual streamsize xsgetn(C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) { int_type c = uflow(); if (T::eq_int_type(c, T::eof())) break; s[i] = T::to_char_type(c); } return i; }
  virtual streamsize xsputn(const C* s, streamsize n) { streamsize i = 0; for (; i < n; i++) if (T::eq_int_type(overflow(T::to_int_type(s[i])), T::eof())) break; return i; }
  virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode = ios_base::in | ios_base::out) { return pos_type(off_type(-1)); }
};
template<class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ios(basic_streambuf<C, T>* b) { init(b); }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (badbit | failbit); } bool bad() const { return st_ & badbit; } bool operator!() const { return fail(); } explicit operator bool() const { return !fail(); }
  iostate rdstate() const { return st_; } void clear(iostate s = goodbit) { st_ = sb_ ? s : s | badbit; if (st_ & ex_) throw failure("basic_ios::clear"); } void setstate(iostate s) { clear(st_ | s); } void _M_setstate(iostate s) { st_ |= s; }
  iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
  basic_streambuf<C, T>* rdbuf() const { return sb_; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = sb_; sb_ = b; clear(); return o; }
  C fill() const { return fi_; } C fill(C c) { C o = fi_; fi_ = c; return o; } C widen(char c) const { return c; } char narrow(C c, char) const { return c; } basic_ostream<C, T>* tie() const { return nullptr; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return nullptr; }
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; pr_ = o.pr_; w_ = o.w_; fi_ = o.fi_; return *this; }
protected:
  basic_ios() {} void init(basic_streambuf<C, T>* b) { sb_ = b; st_ = b ? 0 : badbit; } void take(basic_ios& o) { copyfmt(o); st_ = o.st_; ex_ = o.ex_; }
  basic_streambuf<C, T>* sb_ = nullptr; iostate st_ = 0, ex_ = 0; C fi_ = ' ';
private: basic_ios(const basic_ios&); basic_ios& operator=(const basic_ios&);
};
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
  typedef ios_base B;
  void raw(const char* s, size_t n) { if (this->good()) { if (this->sb_->sputn(s, (streamsize)n) != (streamsize)n) this->setstate(B::badbit); } else this->setstate(B::failbit); }
  void padded(const char* s, size_t n, size_t sign) {
    size_t w = this->w_ > 0 ? (size_t)this->w_ : 0; this->w_ = 0; if (w <= n) { raw(s, n); return; }
    string p(w - n, this->fi_); B::fmtflags a = this->fl_ & B::adjustfield; if (a == B::left) { raw(s, n); raw(p.data(), p.size()); } else if (a == B::internal) { raw(s, sign); raw(p.data(), p.size()); raw(s + sign, n - sign); } else { raw(p.data(), p.size()); raw(s, n); }
  }
  void number(unsigned long long v, bool neg, bool sgn) {
    B::fmtflags b = this->fl_ & B::basefield; string s; size_t sign = 0;
    if (b == B::hex || b == B::oct) { const char* d = this->fl_ & B::uppercase ? "0123456789ABCDEF" : "0123456789abcdef"; unsigned sh = b == B::hex ? 4 : 3; bool z = v == 0; do { s.insert(s.begin(), d[v & ((1u << sh) - 1)]); v >>= sh; } while (v); if (this->fl_ & B::showbase && !z) { if (b == B::hex) { s = (this->fl_ & B::uppercase ? "0X" : "0x") + s; sign = 2; } else s = "0" + s; } }
    else { s = to_string(v); if (neg) s = "-" + s; else if (sgn && this->fl_ & B::showpos) s = "+" + s; sign = neg || (sgn && this->fl_ & B::showpos); }
    padded(s.data(), s.size(), sign);
  }
  template<class I> void sgn(I v, unsigned long long mask) { B::fmtflags b = this->fl_ & B::basefield; if (b == B::hex || b == B::oct) number((unsigned long long)v & mask, false, true); else if (v < 0) number(0ull - (unsigned long long)(long long)v, true, true); else number((unsigned long long)v, false, true); }
  void real(double v) {
    char f[8], t[400]; int k = 0; f[k++] = '%'; if (this->fl_ & B::showpos) f[k++] = '+'; if (this->fl_ & B::showpoint) f[k++] = '#'; f[k++] = '.'; f[k++] = '*'; B::fmtflags x = this->fl_ & B::floatfield; char c = x == B::fixed ? 'f' : x == B::scientific ? 'e' : 'g'; if (this->fl_ & B::uppercase) c -= 32; f[k++] = c; f[k] = 0;
    int n = snprintf(t, sizeof t, f, (int)this->pr_, v); padded(t, n, t[0] == '-' || t[0] == '+');
  }
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_ostream() {}
  class sentry { bool k; public: explicit sentry(basic_ostream& o) : k(o.good()) { if (!k) o.setstate(B::failbit); } explicit operator bool() const { return k; } };
  void text_(const char* s, size_t n) { padded(s, n, 0); }
  basic_ostream& operator<<(bool v) { if (this->fl_ & B::boolalpha) text_(v ? "true" : "false", v ? 4 : 5); else number(v, false, true); return *this; }
  basic_ostream& operator<<(short v) { sgn(v, 0xffff); return *this; } basic_ostream& operator<<(int v) { sgn(v, 0xffffffffu); return *this; } basic_ostream& operator<<(long v) { sgn(v, ~0ull); return *this; } basic_ostream& operator<<(long long v) { sgn(v, ~0ull); return *this; }
  basic_ostream& operator<<(unsigned short v) { number(v, false, false); return *this; } basic_ostream& operator<<(unsigned v) { number(v, false, false); return *this; } basic_ostream& operator<<(unsigned long v) { number(v, false, false); return *this; } basic_ostream& operator<<(unsigned long long v) { number(v, false, false); return *this; }
  basic_ostream& operator<<(double v) { real(v); return *this; } basic_ostream& operator<<(float v) { real(v); return *this; } basic_ostream& operator<<(long double v) { real((double)v); return *this; } basic_ostream& operator<<(const void* p) { char t[40]; int n = snprintf(t, sizeof t, "%p", p); text_(t, n); return *this; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { bool any = false; if (b) while (true) { int_type c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); any = true; } if (!any) this->setstate(B::failbit); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; } basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& put(C c) { raw(&c, 1); return *this; } basic_ostream& write(const C* s, streamsize n) { raw(s, (size_t)n); return *this; } basic_ostream& flush() { if (this->sb_ && this->good()) this->sb_->pubsync(); return *this; }
  pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, B::cur, B::out); } basic_ostream& seekp(pos_type p) { if (!this->fail()) this->sb_->pubseekoff((off_type)p, B::beg, B::out); return *this; } basic_ostream& seekp(off_type p, ios_base::seekdir d) { if (!this->fail()) this->sb_->pubseekoff(p, d, B::out); return *this; }
protected: basic_ostream() {}
};
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.text_(&c, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = (char)c; o.text_(&x, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = (char)c; o.text_(&x, 1); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (s) o.text_(s, char_traits<char>::length(s)); else o.setstate(ios_base::badbit); return o; }
template<class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template<class S, class V, class = typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, typename remove_reference<S>::type>::value>::type> inline S&& operator<<(S&& o, const V& v) { o << v; return std::move(o); }
template<class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n').flush(); }
template<class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template<class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o.flush(); }
template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
  typedef ios_base B; streamsize gc = 0;
  static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); } virtual ~basic_istream() {}
  class sentry { bool k; public: explicit sentry(basic_istream& i, bool noskip = false) : k(false) { if (!i.good()) { i.setstate(B::failbit); return; } if (!noskip && (i.flags() & B::skipws)) { i.ws_(); if (!i.good()) { i.setstate(B::failbit); return; } } k = true; } explicit operator bool() const { return k; } };
  void ws_() { while (true) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(B::eofbit); return; } if (!sp(c)) return; this->sb_->sbumpc(); } }
  streamsize gcount() const { return gc; }
  int_type get() { gc = 0; sentry s(*this, true); if (!s) return T::eof(); int_type c = this->sb_->sbumpc(); if (c == T::eof()) this->setstate(B::eofbit | B::failbit); else gc = 1; return c; }
  basic_istream& get(C& c) { int_type r = get(); if (r != T::eof()) c = T::to_char_type(r); return *this; }
  int_type peek() { gc = 0; sentry s(*this, true); if (!s) return T::eof(); int_type c = this->sb_->sgetc(); if (c == T::eof()) this->setstate(B::eofbit); return c; }
  basic_istream& read(C* d, streamsize n) { gc = 0; sentry s(*this, true); if (s) { gc = this->sb_->sgetn(d, n); if (gc != n) this->setstate(B::eofbit | B::failbit); } return *this; }
  streamsize readsome(C* d, streamsize n) { gc = 0; sentry s(*this, true); if (s) { streamsize a = this->sb_->in_avail(); if (a < 0) this->setstate(B::eofbit); else if (a > 0) gc = this->sb_->sgetn(d, a < n ? a : n); } return gc; }
  basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) { gc = 0; sentry s(*this, true); if (s) while (n == (streamsize)(~0ull >> 1) || gc < n) { int_type c = this->sb_->sbumpc(); if (c == T::eof()) { this->setstate(B::eofbit); break; } gc++; if (c == d) break; } return *this; }
  basic_istream& getline(C* d, streamsize n, C delim) { gc = 0; sentry s(*this, true); streamsize k = 0; if (s) while (true) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(B::eofbit | (gc ? B::goodbit : B::failbit)); break; } if (T::to_char_type(c) == delim) { this->sb_->sbumpc(); gc++; break; } if (k + 1 >= n) { this->setstate(B::failbit); break; } d[k++] = T::to_char_type(c); this->sb_->sbumpc(); gc++; } if (n > 0) d[k] = 0; return *this; }
  basic_istream& getline(C* d, streamsize n) { return getline(d, n, '\n'); }
  basic_istream& unget() { this->clear(this->rdstate() & ~B::eofbit); if (this->sb_->sungetc() == T::eof()) this->setstate(B::badbit); return *this; } basic_istream& putback(C c) { this->clear(this->rdstate() & ~B::eofbit); if (this->sb_->sputbackc(c) == T::eof()) this->setstate(B::badbit); return *this; } int sync() { return 0; }
  basic_istream& seekg(pos_type p) { this->clear(this->rdstate() & ~B::eofbit); if (!this->fail()) { if (this->sb_->pubseekoff((off_type)p, B::beg, B::in) == pos_type(off_type(-1))) this->setstate(B::failbit); } return *this; }
  basic_istream& seekg(off_type p, ios_base::seekdir d) { this->clear(this->rdstate() & ~B::eofbit); if (!this->fail()) { if (this->sb_->pubseekoff(p, d, B::in) == pos_type(off_type(-1))) this->setstate(B::failbit); } return *this; }
  pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->sb_->pubseekoff(0, B::cur, B::in); }
  string word_(bool num) { string r; sentry s(*this); if (s) { streamsize w = this->w_ > 0 ? this->w_ : (streamsize)(~0ull >> 1); while ((streamsize)r.size() < w) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(B::eofbit); break; } if (num ? !((c >= '0' && c <= '9') || (r.empty() && (c == '-' || c == '+'))) : sp(c)) break; r.push_back(T::to_char_type(c)); this->sb_->sbumpc(); } if (!num) this->w_ = 0; if (r.empty()) this->setstate(B::failbit); } return r; }
  string realword_() { string r; sentry s(*this); if (s) { while (true) { int_type c = this->sb_->sgetc(); if (c == T::eof()) { this->setstate(B::eofbit); break; } bool sign = (c == '-' || c == '+') && (r.empty() || r.back() == 'e' || r.back() == 'E'); if (!((c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || sign)) break; r.push_back(T::to_char_type(c)); this->sb_->sbumpc(); } if (r.empty()) this->setstate(B::failbit); } return r; }
  template<class I> basic_istream& int_(I& v) { bool was = this->fail(); string r = word_(true); if (was) return *this; if (r.empty() || r == "-" || r == "+") { v = 0; this->setstate(B::failbit); return *this; }
    bool neg = r[0] == '-'; size_t k = r[0] == '-' || r[0] == '+'; unsigned __int128 a = 0; bool big = false; for (; k < r.size(); k++) { a = a * 10 + (unsigned)(r[k] - '0'); if (a >> 64) { big = true; a = (unsigned __int128)1 << 65; } }
    I mx = (I)(I(-1) > I(0) ? I(-1) : (I)((1ull << (sizeof(I) * 8 - 1)) - 1)); I mn = I(-1) > I(0) ? I(0) : (I)(-mx - 1);
    if (I(-1) > I(0)) { if (big || a > (unsigned __int128)mx) { v = mx; this->setstate(B::failbit); } else v = (I)(neg ? I(0) - (I)a : (I)a); }
    else if (neg ? a > (unsigned __int128)(unsigned long long)mx + 1 : a > (unsigned __int128)(unsigned long long)mx) { v = neg ? mn : mx; this->setstate(B::failbit); } else v = neg ? (I)(0ull - (unsigned long long)a) : (I)a; return *this; }
  basic_istream& operator>>(short& v) { return int_(v); } basic_istream& operator>>(int& v) { return int_(v); } basic_istream& operator>>(long& v) { return int_(v); } basic_istream& operator>>(long long& v) { return int_(v); } basic_istream& operator>>(unsigned short& v) { return int_(v); } basic_istream& operator>>(unsigned& v) { return int_(v); } basic_istream& operator>>(unsigned long& v) { return int_(v); } basic_istream& operator>>(unsigned long long& v) { return int_(v); }
  basic_istream& operator>>(bool& v) { int x = 0; bool was = this->fail(); int_(x); if (!was) { if (x != 0 && x != 1) { v = true; this->setstate(B::failbit); } else v = x; } return *this; }
  template<class D> basic_istream& real_(D& v) { bool was = this->fail(); string r = realword_(); if (was) return *this; if (r.empty()) { v = 0; return *this; } char* e; v = (D)strtod(r.c_str(), &e); if (*e) { v = 0; this->setstate(B::failbit); } return *this; }
  basic_istream& operator>>(double& v) { return real_(v); } basic_istream& operator>>(float& v) { return real_(v); } basic_istream& operator>>(long double& v) { return real_(v); }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_istream& operator>>(basic_streambuf<C, T>* b) { while (true) { int_type c = this->sb_->sbumpc(); if (c == T::eof()) { this->setstate(B::eofbit); break; } b->sputc(T::to_char_type(c)); } return *this; }
protected: basic_istream() {}
};
template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { typename basic_istream<char, T>::sentry s(i); if (s) { auto r = i.rdbuf()->sbumpc(); if (r == T::eof()) i.setstate(ios_base::eofbit | ios_base::failbit); else c = (char)r; } return i; }
template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c) { return i >> (char&)c; }
template<class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, signed char& c) { return i >> (char&)c; }
template<class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) { if (i.rdbuf()) i.ws_(); return i; }
template<> inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s) { bool was = i.fail(); string r = i.word_(false); if (!was) s = r; return i; }
template<> inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d) {
  basic_istream<char>::sentry k(i, true); if (!k) return i; s.clear(); bool any = false; basic_streambuf<char>* b = i.rdbuf();
  while (true) { int c = b->sbumpc(); if (c == -1) { i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; } any = true; if ((char)c == d) break; s.push_back((char)c); } return i;
}
template<class S, class V, class = typename enable_if<!is_lvalue_reference<S>::value && is_base_of<ios_base, typename remove_reference<S>::type>::value>::type> inline S&& operator>>(S&& i, V&& v) { i >> std::forward<V>(v); return std::move(i); }
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: typedef C char_type; typedef T traits_type; explicit basic_iostream(basic_streambuf<C, T>* b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} virtual ~basic_iostream() {} protected: basic_iostream() {} };
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; } inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; } inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; } inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; } inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; } inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; } inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; } inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; } inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; } inline ios_base& unitbuf(ios_base& b) { return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; } inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; } inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; } inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; } inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
struct __sx_setw { int v; }; inline __sx_setw setw(int v) { return {v}; } struct __sx_setprec { int v; }; inline __sx_setprec setprecision(int v) { return {v}; } struct __sx_setbase { int v; }; inline __sx_setbase setbase(int v) { return {v}; } struct __sx_flags { unsigned s, m; }; inline __sx_flags setiosflags(unsigned f) { return {f, f}; } inline __sx_flags resetiosflags(unsigned f) { return {0, f}; } template<class C> struct __sx_fill { C v; }; template<class C> inline __sx_fill<C> setfill(C c) { return {c}; }
template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sx_setw w) { o.width(w.v); return o; } template<class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, __sx_setw w) { o.width(w.v); return o; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sx_setprec w) { o.precision(w.v); return o; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sx_setbase w) { o.setf(w.v == 16 ? ios_base::hex : w.v == 8 ? ios_base::oct : w.v == 10 ? ios_base::dec : 0u, ios_base::basefield); return o; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sx_flags w) { o.setf(w.s, w.m); return o; } template<class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, __sx_fill<C> w) { o.fill(w.v); return o; }
// ---- strings and files: one buffer type on a text
struct __sx_textbuf : basic_streambuf<char, char_traits<char>> {
  typedef char_traits<char> T; string* s = nullptr; size_t r = 0, w = 0; bool rd = false, wr = false, app = false;
  int_type underflow() override { return s && rd && r < s->size() ? (unsigned char)(*s)[r] : -1; } int_type uflow() override { return s && rd && r < s->size() ? (unsigned char)(*s)[r++] : -1; }
  int_type overflow(int_type c) override { if (!s || !wr) return -1; if (c == -1) return 0; char x = (char)c; xsputn(&x, 1); return (unsigned char)x; }
  int_type pbackfail(int_type c) override { if (!s || !rd || !r || (c != -1 && (*s)[r - 1] != (char)c)) return -1; r--; return (unsigned char)(*s)[r]; } streamsize showmanyc() override { return s && rd && r < s->size() ? (streamsize)(s->size() - r) : -1; }
  streamsize xsgetn(char* d, streamsize n) override { if (!s || !rd) return 0; streamsize i = 0; for (; i < n && r < s->size(); i++) d[i] = (*s)[r++]; return i; }
  streamsize xsputn(const char* d, streamsize n) override { if (!s || !wr) return 0; if (app || w == s->size()) { s->append(d, (size_t)n); w = s->size(); } else { if (w > s->size()) s->resize(w, 0); for (streamsize i = 0; i < n; i++, w++) if (w < s->size()) (*s)[w] = d[i]; else s->push_back(d[i]); } return n; }
};
struct __sx_stringbuf_base : __sx_textbuf { string own; __sx_stringbuf_base() { s = &own; } pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override { long at = d == ios_base::end ? (long)s->size() + o : d == ios_base::cur ? (long)(m & ios_base::in ? r : w) + o : o; if (at < 0 || at > (long)s->size()) return pos_type(off_type(-1)); if (m & ios_base::in) r = at; if (m & ios_base::out) w = at; return pos_type(at); } };
inline namespace __cxx11 {
template<class C, class T, class A> class basic_stringbuf : public __sx_stringbuf_base { public: explicit basic_stringbuf(ios_base::openmode m = ios_base::in | ios_base::out) { mode(m); } explicit basic_stringbuf(const string& x, ios_base::openmode m = ios_base::in | ios_base::out) { mode(m); str(x); } void mode(ios_base::openmode m) { rd = m & ios_base::in; wr = m & ios_base::out; app = m & (ios_base::app | ios_base::ate); } string str() const { return own; } void str(const string& x) { own = x; r = 0; w = app ? x.size() : 0; } };
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  basic_stringbuf<C, T, A> b; public: explicit basic_stringstream(ios_base::openmode m = ios_base::in | ios_base::out) : b(m) { this->init(&b); } explicit basic_stringstream(const string& s, ios_base::openmode m = ios_base::in | ios_base::out) : b(s, m) { this->init(&b); } basic_stringstream(basic_stringstream&& o) : b() { this->init(&b); *this = std::move(o); } basic_stringstream& operator=(basic_stringstream&& o) { this->take(o); b.own = std::move(o.b.own); b.r = o.b.r; b.w = o.b.w; return *this; }
  string str() const { return b.str(); } void str(const string& s) { b.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return (basic_stringbuf<C, T, A>*)&b; } };
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_stringbuf<C, T, A> b; public: explicit basic_ostringstream(ios_base::openmode m = ios_base::out) : b(m | ios_base::out) { this->init(&b); } explicit basic_ostringstream(const string& s, ios_base::openmode m = ios_base::out) : b(s, m | ios_base::out) { this->init(&b); } basic_ostringstream(basic_ostringstream&& o) : b() { this->init(&b); *this = std::move(o); } basic_ostringstream& operator=(basic_ostringstream&& o) { this->take(o); b.own = std::move(o.b.own); b.r = o.b.r; b.w = o.b.w; return *this; }
  string str() const { return b.str(); } void str(const string& s) { b.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return (basic_stringbuf<C, T, A>*)&b; } };
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  basic_stringbuf<C, T, A> b; public: explicit basic_istringstream(ios_base::openmode m = ios_base::in) : b(m | ios_base::in) { this->init(&b); } explicit basic_istringstream(const string& s, ios_base::openmode m = ios_base::in) : b(s, m | ios_base::in) { this->init(&b); } basic_istringstream(basic_istringstream&& o) : b() { this->init(&b); *this = std::move(o); } basic_istringstream& operator=(basic_istringstream&& o) { this->take(o); b.own = std::move(o.b.own); b.r = o.b.r; b.w = o.b.w; return *this; }
  string str() const { return b.str(); } void str(const string& s) { b.str(s); } basic_stringbuf<C, T, A>* rdbuf() const { return (basic_stringbuf<C, T, A>*)&b; } };
}
template<class C, class T> class basic_filebuf : public __sx_textbuf {
public:
  bool is_open() const { return s != nullptr; }
  basic_filebuf* open(const char* n, ios_base::openmode m) { return open(string(n), m); }
  basic_filebuf* open(const string& n, ios_base::openmode m) {
    if (s) return nullptr; bool i = m & ios_base::in, o = m & (ios_base::out | ios_base::app), a = m & ios_base::app, t = m & ios_base::trunc; if (!i && !o) return nullptr; if (t && (!(m & ios_base::out) || a)) return nullptr;
    s = __vfs_open(n.data(), n.size(), !o ? 0 : a ? 2 : i && !t ? 3 : 1); rd = i; wr = o; app = a; r = 0; w = 0; if (s && (m & ios_base::ate)) r = w = s->size(); return s ? this : nullptr;
  }
  basic_filebuf* close() { if (!s) return nullptr; s = nullptr; return this; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override { if (!s) return pos_type(off_type(-1)); long at = d == ios_base::end ? (long)s->size() + o : d == ios_base::cur ? (long)(rd ? r : app ? s->size() : w) + o : o; if (at < 0) return pos_type(off_type(-1)); r = w = at; return pos_type(at); }
};
#define SX_FILE(NAME, BASE, DEF, FORCE) template<class C, class T> class NAME : public BASE<C, T> { basic_filebuf<C, T> b; \
public: NAME() { this->init(&b); } explicit NAME(const string& n, ios_base::openmode m = DEF) { this->init(&b); open(n, m); } explicit NAME(const char* n, ios_base::openmode m = DEF) { this->init(&b); open(n, m); } \
  NAME(NAME&& o) { this->init(&b); *this = std::move(o); } NAME& operator=(NAME&& o) { this->take(o); b = o.b; o.b.s = nullptr; return *this; } \
  void open(const string& n, ios_base::openmode m = DEF) { if (b.open(n, m | FORCE)) this->clear(); else this->setstate(ios_base::failbit); } void open(const char* n, ios_base::openmode m = DEF) { open(string(n), m); } \
  bool is_open() const { return b.is_open(); } void close() { if (!b.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T>* rdbuf() const { return (basic_filebuf<C, T>*)&b; } };
SX_FILE(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
SX_FILE(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
SX_FILE(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0u)
#undef SX_FILE
}
