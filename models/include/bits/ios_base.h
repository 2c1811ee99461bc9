// Replacement for libstdc++'s stream classes, executed symbolically.
// Same names and observable behaviour for the operations modelled; no locales.
#ifndef HSE_IOS_BASE
#define HSE_IOS_BASE 1
#include <iosfwd>
#include <bits/char_traits.h>
#include <bits/localefwd.h>
#include <string>
#include <stdexcept>
#include <exception>
namespace std {
class locale { public: locale() {} locale(const char*) {} static const locale &classic() { static locale l; return l; } bool operator==(const locale&) const { return true; } string name() const { return "C"; } };
enum _Ios_Fmtflags : int {}; enum _Ios_Openmode : int {}; enum _Ios_Iostate : int {}; enum _Ios_Seekdir : int {};
#define HSE_OPS(T) inline constexpr T operator|(T a, T b) { return T(int(a)|int(b)); } inline constexpr T operator&(T a, T b) { return T(int(a)&int(b)); } \
  inline constexpr T operator^(T a, T b) { return T(int(a)^int(b)); } inline constexpr T operator~(T a) { return T(~int(a)); } \
  inline T &operator|=(T &a, T b) { return a=a|b; } inline T &operator&=(T &a, T b) { return a=a&b; } inline T &operator^=(T &a, T b) { return a=a^b; }
HSE_OPS(_Ios_Fmtflags) HSE_OPS(_Ios_Openmode) HSE_OPS(_Ios_Iostate)
enum class io_errc { stream = 1 };
class ios_base {
public:
  class failure : public runtime_error { public: explicit failure(const string &s) : runtime_error(s) {} explicit failure(const char *s) : runtime_error(s) {} };
  typedef _Ios_Fmtflags fmtflags; typedef _Ios_Iostate iostate; typedef _Ios_Openmode openmode; typedef _Ios_Seekdir seekdir;
  static constexpr fmtflags boolalpha=fmtflags(1), dec=fmtflags(2), fixed=fmtflags(4), hex=fmtflags(8), internal=fmtflags(16), left=fmtflags(32), oct=fmtflags(64),
    right=fmtflags(128), scientific=fmtflags(256), showbase=fmtflags(512), showpoint=fmtflags(1024), showpos=fmtflags(2048), skipws=fmtflags(4096), unitbuf=fmtflags(8192),
    uppercase=fmtflags(16384), adjustfield=fmtflags(32|128|16), basefield=fmtflags(2|8|64), floatfield=fmtflags(4|256);
  static constexpr iostate goodbit=iostate(0), badbit=iostate(1), eofbit=iostate(2), failbit=iostate(4);
  static constexpr openmode app=openmode(1), ate=openmode(2), binary=openmode(4), in=openmode(8), out=openmode(16), trunc=openmode(32);
  static constexpr seekdir beg=seekdir(0), cur=seekdir(1), end=seekdir(2);
  class Init { public: Init() {} };
  fmtflags flags() const { return _fl; } fmtflags flags(fmtflags f) { fmtflags o=_fl; _fl=f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o=_fl; _fl|=f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o=_fl; _fl=(_fl&~m)|(f&m); return o; } void unsetf(fmtflags m) { _fl&=~m; }
  streamsize precision() const { return _pr; } streamsize precision(streamsize p) { streamsize o=_pr; _pr=p; return o; }
  streamsize width() const { return _wd; } streamsize width(streamsize w) { streamsize o=_wd; _wd=w; return o; }
  locale getloc() const { return locale(); } locale imbue(const locale&) { return locale(); }
  static bool sync_with_stdio(bool=true) { return true; }
  virtual ~ios_base() {}
  ios_base(const ios_base&)=delete; ios_base &operator=(const ios_base&)=delete;
protected:
  ios_base() {}
  fmtflags _fl=fmtflags(2|4096); streamsize _pr=6, _wd=0;
};
#define HSE_MANIP(n,set,mask) inline ios_base &n(ios_base &b) { b.setf(ios_base::set, ios_base::mask); return b; }
HSE_MANIP(dec,dec,basefield) HSE_MANIP(hex,hex,basefield) HSE_MANIP(oct,oct,basefield) HSE_MANIP(left,left,adjustfield) HSE_MANIP(right,right,adjustfield) HSE_MANIP(internal,internal,adjustfield)
HSE_MANIP(fixed,fixed,floatfield) HSE_MANIP(scientific,scientific,floatfield)
#define HSE_MANIP2(n) inline ios_base &n(ios_base &b) { b.setf(ios_base::n); return b; } inline ios_base &no##n(ios_base &b) { b.unsetf(ios_base::n); return b; }
HSE_MANIP2(boolalpha) HSE_MANIP2(showbase) HSE_MANIP2(showpoint) HSE_MANIP2(showpos) HSE_MANIP2(skipws) HSE_MANIP2(uppercase) HSE_MANIP2(unitbuf)
}
#endif
