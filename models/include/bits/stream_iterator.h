#ifndef HSE_STREAM_ITERATOR
#define HSE_STREAM_ITERATOR 1
#include <bits/stl_iterator_base_types.h>
#include <iosfwd>
#include <bits/move.h>
#include <cstddef>
namespace std {
template<typename X, typename C=char, typename T=char_traits<C>, typename D=ptrdiff_t> class istream_iterator {
public: typedef input_iterator_tag iterator_category; typedef X value_type; typedef D difference_type; typedef const X *pointer; typedef const X &reference; typedef basic_istream<C,T> istream_type;
  istream_iterator() : s(nullptr), v() {} istream_iterator(istream_type &i) : s(&i), v() { rd(); }
  const X &operator*() const { return v; } const X *operator->() const { return &v; } istream_iterator &operator++() { rd(); return *this; } istream_iterator operator++(int) { auto o=*this; rd(); return o; }
  friend bool operator==(const istream_iterator &a, const istream_iterator &b) { return a.s==b.s; } friend bool operator!=(const istream_iterator &a, const istream_iterator &b) { return a.s!=b.s; }
private: istream_type *s; X v; void rd() { if (s && !(*s >> v)) s=nullptr; } };
template<typename X, typename C=char, typename T=char_traits<C>> class ostream_iterator {
public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference; typedef basic_ostream<C,T> ostream_type;
  ostream_iterator(ostream_type &o) : s(&o), d(nullptr) {} ostream_iterator(ostream_type &o, const C *del) : s(&o), d(del) {}
  ostream_iterator &operator=(const X &x) { *s << x; if (d) *s << d; return *this; } ostream_iterator &operator*() { return *this; } ostream_iterator &operator++() { return *this; } ostream_iterator &operator++(int) { return *this; }
private: ostream_type *s; const C *d; };
}
#endif
