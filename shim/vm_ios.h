// Minimal iostream model used when code is executed by the symbolic VM.
// Files live in an in-memory file system (see rt/guestrt.cc).
#pragma once
#include <iosfwd>
#include <string>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iterator>
#include <exception>

struct VFile;
extern "C" {
VFile* __vfs_open(const char* name, int mode); // bit0 read bit1 write bit2 append bit3 trunc
void __vfs_write(VFile*, size_t pos, const char* p, size_t n);
size_t __vfs_size(VFile*);
const char* __vfs_data(VFile*);
int __vm_fmtd(char* buf, const char* fmt, double d);
}
namespace std {
typedef long streamoff; typedef long streamsize;
class ios_base {
public:
  typedef unsigned fmtflags; typedef int openmode; typedef int iostate; typedef int seekdir;
  static constexpr openmode in = 1, out = 2, app = 4, trunc = 8, ate = 16, binary = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, left = 32, right = 64, boolalpha = 128, skipws = 256, showpoint = 512, basefield = 7, floatfield = 24, adjustfield = 96, showpos = 1024, uppercase = 2048;
  class Init { public: Init() {} };
  class failure : public exception {};
protected:
  iostate st_ = 0; fmtflags fl_ = dec | skipws; streamsize prec_ = 6, wid_ = 0; char fill_ = ' ';
public:
  virtual ~ios_base() {}
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return wid_; } streamsize width(streamsize p) { streamsize o = wid_; wid_ = p; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
};
template<> class basic_streambuf<char> { public: virtual ~basic_streambuf() {} };
template<> class basic_ios<char> : public ios_base {
public:
  iostate rdstate() const { return st_; } bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  void clear(iostate s = 0) { st_ = s; } void setstate(iostate s) { st_ |= s; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
  basic_ostream<char>* tie(basic_ostream<char>* = nullptr) { return nullptr; }
  streambuf* rdbuf() const { return nullptr; } streambuf* rdbuf(streambuf*) { return nullptr; }
  void exceptions(iostate) {}
  void copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; fill_ = o.fill_; }
};
// sink: 0 discard, 1 file, 2 string
template<> class basic_ostream<char> : virtual public basic_ios<char> {
public:
  typedef char char_type; typedef char_traits<char> traits_type;
protected:
  int sink_ = 0; VFile* of_ = nullptr; string* os_ = nullptr; size_t opos_ = 0;
public:
  basic_ostream() {} explicit basic_ostream(streambuf*) {}
  basic_ostream& put(char c) { return write(&c, 1); }
  basic_ostream& write(const char* p, streamsize n) {
    if (st_) { return *this; } if (sink_ == 1) { __vfs_write(of_, opos_, p, n); opos_ += n; }
    else if (sink_ == 2) { if (opos_ == os_->size()) os_->append(p, n); else { if (os_->size() < opos_ + n) os_->resize(opos_ + n); for (streamsize i = 0; i < n; i++) (*os_)[opos_ + i] = p[i]; } opos_ += n; }
    return *this; }
  basic_ostream& flush() { return *this; }
  basic_ostream& seekp(streamoff o, seekdir = 0) { opos_ = o; return *this; } streamoff tellp() const { return opos_; }
  basic_ostream& padded(const char* p, size_t n) { streamsize w = wid_; wid_ = 0; if ((streamsize)n < w) { if (fl_ & left) { write(p, n); for (streamsize i = n; i < w; i++) put(fill_); } else { for (streamsize i = n; i < w; i++) put(fill_); write(p, n); } } else write(p, n); return *this; }
  basic_ostream& num(unsigned long v, bool neg) { char b[32]; int i = 32; unsigned base = (fl_ & hex) ? 16 : (fl_ & oct) ? 8 : 10; if (sink_ == 0) return *this; do { unsigned d = v % base; b[--i] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); if (neg) b[--i] = '-'; return padded(b + i, 32 - i); }
  basic_ostream& operator<<(long v) { if (fl_ & (hex | oct)) return num((unsigned long)v, false); return v < 0 ? num(0ul - (unsigned long)v, true) : num(v, false); }
  basic_ostream& operator<<(unsigned long v) { return num(v, false); }
  basic_ostream& operator<<(int v) { if (fl_ & (hex | oct)) return num((unsigned)v, false); return *this << (long)v; } basic_ostream& operator<<(unsigned v) { return num(v, false); } basic_ostream& operator<<(short v) { return *this << (long)v; } basic_ostream& operator<<(unsigned short v) { return num(v, false); }
  basic_ostream& operator<<(long long v) { return *this << (long)v; } basic_ostream& operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream& operator<<(bool v) { if (fl_ & boolalpha) return v ? padded("true", 4) : padded("false", 5); return num(v, false); }
  basic_ostream& operator<<(double v) { if (sink_ == 0) return *this; char b[512], f[16]; int n = 0; f[n++] = '%'; f[n++] = '.'; int p = (int)prec_; if (p >= 100) f[n++] = '0' + p / 100; if (p >= 10) f[n++] = '0' + p / 10 % 10; f[n++] = '0' + p % 10; f[n++] = (fl_ & fixed) ? 'f' : (fl_ & scientific) ? 'e' : 'g'; f[n] = 0; int k = __vm_fmtd(b, f, v); return padded(b, k); }
  basic_ostream& operator<<(float v) { return *this << (double)v; } basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(const void* p) { return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<char>& (*f)(basic_ios<char>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(streambuf*) { return *this; }
};
inline ostream& operator<<(ostream& o, const char* s) { return o.padded(s, strlen(s)); }
inline ostream& operator<<(ostream& o, char c) { return o.padded(&c, 1); }
inline ostream& operator<<(ostream& o, signed char c) { char x = c; return o.padded(&x, 1); }
inline ostream& operator<<(ostream& o, unsigned char c) { char x = c; return o.padded(&x, 1); }
inline ostream& operator<<(ostream& o, const string& s) { return o.padded(s.data(), s.size()); }
inline ostream& endl(ostream& o) { return o.put('\n'); } inline ostream& flush(ostream& o) { return o; } inline ostream& ends(ostream& o) { return o.put(0); }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; } inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct _Setw { int n; }; struct _Setp { int n; }; struct _Setf { char c; };
inline _Setw setw(int n) { return _Setw{n}; } inline _Setp setprecision(int n) { return _Setp{n}; } inline _Setf setfill(char c) { return _Setf{c}; }
inline ostream& operator<<(ostream& o, _Setw w) { o.width(w.n); return o; } inline ostream& operator<<(ostream& o, _Setp w) { o.precision(w.n); return o; } inline ostream& operator<<(ostream& o, _Setf w) { o.fill(w.c); return o; }

template<> class basic_istream<char> : virtual public basic_ios<char> {
public:
  typedef char char_type; typedef char_traits<char> traits_type; typedef int int_type;
protected:
  int src_ = 0; VFile* if_ = nullptr; string* is_ = nullptr; size_t ipos_ = 0; streamsize gc_ = 0;
  size_t isize() const { return src_ == 1 ? __vfs_size(if_) : src_ == 2 ? is_->size() : 0; }
  char at(size_t i) const { return src_ == 1 ? __vfs_data(if_)[i] : (*is_)[i]; }
public:
  basic_istream() {} explicit basic_istream(streambuf*) {}
  class sentry { bool ok; public: explicit sentry(basic_istream& s, bool noskip = false) { ok = s.prep(noskip); } explicit operator bool() const { return ok; } };
  bool prep(bool noskip = false) { if (st_) { st_ |= failbit; return false; } if (!noskip) { while (ipos_ < isize() && sp(at(ipos_))) ipos_++; if (ipos_ >= isize()) { st_ |= eofbit | failbit; return false; } } return true; }
  static bool sp(char c) { return c == ' ' || (unsigned)(c - 9) < 5u; }
  int get() { gc_ = 0; if (st_) { st_ |= failbit; return -1; } if (ipos_ >= isize()) { st_ |= eofbit | failbit; return -1; } gc_ = 1; return (unsigned char)at(ipos_++); }
  basic_istream& get(char& c) { int x = get(); if (x >= 0) c = (char)x; return *this; }
  int peek() { gc_ = 0; if (st_) return -1; if (ipos_ >= isize()) { st_ |= eofbit; return -1; } return (unsigned char)at(ipos_); }
  basic_istream& unget() { st_ &= ~eofbit; if (ipos_) ipos_--; return *this; } basic_istream& putback(char) { return unget(); }
  basic_istream& ignore(streamsize n = 1, int d = -1) { while (n-- > 0) { if (ipos_ >= isize()) { st_ |= eofbit; break; } char c = at(ipos_++); if (d >= 0 && (unsigned char)c == d) break; } return *this; }
  basic_istream& read(char* p, streamsize n) { gc_ = 0; if (st_) { st_ |= failbit; return *this; } while (gc_ < n) { if (ipos_ >= isize()) { st_ |= eofbit | failbit; break; } p[gc_++] = at(ipos_++); } return *this; }
  basic_istream& getline(char* p, streamsize n, char d = '\n') { gc_ = 0; if (st_) { st_ |= failbit; if (n) *p = 0; return *this; } streamsize k = 0; for (;;) { if (ipos_ >= isize()) { st_ |= eofbit; if (!gc_) st_ |= failbit; break; } if (at(ipos_) == d) { ipos_++; gc_++; break; } if (k >= n - 1) { st_ |= failbit; break; } p[k++] = at(ipos_++); gc_++; } p[k] = 0; return *this; }
  streamsize gcount() const { return gc_; }
  basic_istream& seekg(streamoff o, seekdir d = 0) { st_ &= ~eofbit; if (fail()) return *this; ipos_ = d == 0 ? o : d == 1 ? ipos_ + o : isize() + o; return *this; }
  streamoff tellg() const { return fail() ? -1 : (streamoff)ipos_; }
  bool readLong(long& r, bool& neg, unsigned long& mag) { if (!prep()) return false; neg = false; if (at(ipos_) == '-' || at(ipos_) == '+') { neg = at(ipos_) == '-'; ipos_++; } mag = 0; int n = 0; while (ipos_ < isize()) { char c = at(ipos_); if ((unsigned)(c - '0') > 9u) break; mag = mag * 10 + (c - '0'); ipos_++; n++; } if (ipos_ >= isize()) st_ |= eofbit; if (!n) { st_ |= failbit; r = 0; return false; } r = neg ? -(long)mag : (long)mag; return true; }
  basic_istream& operator>>(long& v) { bool g; unsigned long m; long r = 0; if (readLong(r, g, m) || st_) v = r; return *this; }
  basic_istream& operator>>(int& v) { bool g; unsigned long m; long r; if (readLong(r, g, m)) { if (r > 2147483647l) { v = 2147483647; st_ |= failbit; } else if (r < -2147483648l) { v = -2147483647 - 1; st_ |= failbit; } else v = (int)r; } else if (st_ & failbit) v = fail0(v); return *this; }
  int fail0(int v) { return (st_ & eofbit) ? v : 0; }
  basic_istream& operator>>(unsigned& v) { bool g; unsigned long m; long r; if (readLong(r, g, m)) { if (m > 4294967295ul) { v = 4294967295u; st_ |= failbit; } else v = g ? 0u - (unsigned)m : (unsigned)m; } return *this; }
  basic_istream& operator>>(unsigned long& v) { bool g; unsigned long m; long r; if (readLong(r, g, m)) v = g ? 0ul - m : m; return *this; }
  basic_istream& operator>>(short& v) { long r; *this >> r; v = (short)r; return *this; } basic_istream& operator>>(unsigned short& v) { long r; *this >> r; v = (unsigned short)r; return *this; }
  basic_istream& operator>>(bool& v) { bool g; unsigned long m; long r; if (readLong(r, g, m)) { v = r != 0; if (m > 1) st_ |= failbit; } return *this; }
  bool readDouble(double& d) { if (!prep()) return false; char b[64]; int n = 0; // longest prefix that looks like a number
    while (ipos_ < isize() && n < 63) { char c = at(ipos_); if (!((unsigned)(c - '0') <= 9u || c == '.' || ((c == '-' || c == '+') && (n == 0 || b[n - 1] == 'e' || b[n - 1] == 'E')) || ((c == 'e' || c == 'E') && n > 0))) break; b[n++] = c; ipos_++; }
    if (ipos_ >= isize()) st_ |= eofbit; b[n] = 0; char* e; d = strtod(b, &e); if (n == 0 || *e) { st_ |= failbit; d = 0; return false; } return true; }
  static double strtod(const char* s, char** e);
  basic_istream& operator>>(double& v) { double d; if (readDouble(d)) v = d; else if (!(st_ & eofbit)) v = 0; return *this; } basic_istream& operator>>(float& v) { double d; if (readDouble(d)) v = (float)d; else if (!(st_ & eofbit)) v = 0; return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  void readWord(string& s) { if (!prep()) return; s.clear(); while (ipos_ < isize()) { char c = at(ipos_); if (sp(c)) return; s.push_back(c); ipos_++; } st_ |= eofbit; }
  void readLine(string& s, char d) { if (st_) { st_ |= failbit; return; } s.clear(); size_t n = 0; for (;;) { if (ipos_ >= isize()) { st_ |= eofbit; if (!n) st_ |= failbit; return; } char c = at(ipos_++); n++; if (c == d) return; s.push_back(c); } }
};
extern "C" double strtod(const char*, char**) noexcept;
inline double basic_istream<char>::strtod(const char* s, char** e) { return ::strtod(s, e); }
inline istream& operator>>(istream& i, char& c) { if (i.prep((i.flags() & ios_base::skipws) == 0)) i.get(c); return i; }
inline istream& operator>>(istream& i, string& s) { i.readWord(s); return i; }
inline istream& getline(istream& i, string& s, char d) { i.readLine(s, d); return i; } inline istream& getline(istream& i, string& s) { i.readLine(s, '\n'); return i; }
inline istream& ws(istream& i) { while (i.good()) { int c = i.peek(); if (c < 0 || !istream::sp((char)c)) break; i.get(); } return i; }
template<> class basic_iostream<char> : public istream, public ostream {};

template<> class basic_ofstream<char> : public ostream { bool open_ = false; public:
  basic_ofstream() {} explicit basic_ofstream(const char* n, openmode m = out) { open(n, m); } explicit basic_ofstream(const string& n, openmode m = out) { open(n.c_str(), m); }
  void open(const char* n, openmode m = out) { of_ = __vfs_open(n, 2 | ((m & app) ? 4 : 8)); if (of_) { sink_ = 1; open_ = true; st_ = 0; opos_ = __vfs_size(of_); } else { st_ |= failbit; } } void open(const string& n, openmode m = out) { open(n.c_str(), m); }
  bool is_open() const { return open_; } void close() { if (!open_) st_ |= failbit; open_ = false; sink_ = 0; } };
template<> class basic_ifstream<char> : public istream { bool open_ = false; public:
  basic_ifstream() {} explicit basic_ifstream(const char* n, openmode m = in) { open(n, m); } explicit basic_ifstream(const string& n, openmode m = in) { open(n.c_str(), m); }
  void open(const char* n, openmode = in) { if_ = __vfs_open(n, 1); if (if_) { src_ = 1; ipos_ = 0; open_ = true; st_ = 0; } else st_ |= failbit; } void open(const string& n, openmode m = in) { open(n.c_str(), m); }
  bool is_open() const { return open_; } void close() { if (!open_) st_ |= failbit; open_ = false; src_ = 0; } };
template<> class basic_fstream<char> : public iostream { bool open_ = false; public:
  basic_fstream() {} explicit basic_fstream(const char* n, openmode m = in | out) { open(n, m); } explicit basic_fstream(const string& n, openmode m = in | out) { open(n.c_str(), m); }
  void open(const char* n, openmode m = in | out) { VFile* f = __vfs_open(n, ((m & in) ? 1 : 0) | ((m & out) ? 2 : 0) | ((m & app) ? 4 : 0) | (((m & trunc) || !(m & in)) ? 8 : 0)); if (f) { if_ = of_ = f; src_ = (m & in) ? 1 : 0; sink_ = (m & out) ? 1 : 0; open_ = true; st_ = 0; } else st_ |= failbit; } void open(const string& n, openmode m = in | out) { open(n.c_str(), m); }
  bool is_open() const { return open_; } void close() { if (!open_) st_ |= failbit; open_ = false; src_ = sink_ = 0; } };
template<> class basic_ostringstream<char> : public ostream { string b_; public:
  explicit basic_ostringstream(openmode = out) { sink_ = 2; os_ = &b_; } explicit basic_ostringstream(const string& s, openmode = out) : b_(s) { sink_ = 2; os_ = &b_; } basic_ostringstream(const basic_ostringstream&) = delete; string str() const { return b_; } void str(const string& s) { b_ = s; opos_ = 0; } };
template<> class basic_istringstream<char> : public istream { string b_; public:
  explicit basic_istringstream(openmode = in) { src_ = 2; is_ = &b_; } explicit basic_istringstream(const string& s, openmode = in) : b_(s) { src_ = 2; is_ = &b_; } basic_istringstream(const basic_istringstream&) = delete; string str() const { return b_; } void str(const string& s) { b_ = s; ipos_ = 0; } };
template<> class basic_stringstream<char> : public iostream { string b_; public:
  explicit basic_stringstream(openmode = in | out) { src_ = sink_ = 2; is_ = os_ = &b_; } explicit basic_stringstream(const string& s, openmode m = in | out) : b_(s) { src_ = sink_ = 2; is_ = os_ = &b_; if (m & (ate | app)) opos_ = b_.size(); } basic_stringstream(const basic_stringstream&) = delete; string str() const { return b_; } void str(const string& s) { b_ = s; ipos_ = opos_ = 0; } };
extern ostream cout, cerr, clog; extern istream cin;
}
