#ifndef HSE_STREAMBUF_ITERATOR
#define HSE_STREAMBUF_ITERATOR 1
#include <bits/stl_iterator_base_types.h>
#include <iosfwd>
#include <cstddef>
namespace std {
template<typename C, typename T> class istreambuf_iterator {
public: typedef input_iterator_tag iterator_category; typedef C value_type; typedef ptrdiff_t difference_type; typedef C *pointer; typedef C reference; typedef basic_streambuf<C,T> streambuf_type; typedef basic_istream<C,T> istream_type;
  istreambuf_iterator() : b(nullptr) {} istreambuf_iterator(istream_type &i) : b(i.rdbuf()) {} istreambuf_iterator(streambuf_type *s) : b(s) {}
  C operator*() const { return T::to_char_type(b->sgetc()); } istreambuf_iterator &operator++() { b->sbumpc(); return *this; } istreambuf_iterator operator++(int) { auto o=*this; b->sbumpc(); return o; }
  bool at_end() const { return !b || b->sgetc()==T::eof(); } bool equal(const istreambuf_iterator &o) const { return at_end()==o.at_end(); }
  friend bool operator==(const istreambuf_iterator &x, const istreambuf_iterator &y) { return x.equal(y); } friend bool operator!=(const istreambuf_iterator &x, const istreambuf_iterator &y) { return !x.equal(y); }
private: streambuf_type *b; };
template<typename C, typename T> class ostreambuf_iterator {
public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef ptrdiff_t difference_type; typedef void pointer; typedef void reference;
  ostreambuf_iterator(basic_ostream<C,T> &o) : b(o.rdbuf()) {} ostreambuf_iterator(basic_streambuf<C,T> *s) : b(s) {}
  ostreambuf_iterator &operator=(C c) { b->sputc(c); return *this; } ostreambuf_iterator &operator*() { return *this; } ostreambuf_iterator &operator++() { return *this; } ostreambuf_iterator &operator++(int) { return *this; } bool failed() const { return false; }
private: basic_streambuf<C,T> *b; };
}
#endif
