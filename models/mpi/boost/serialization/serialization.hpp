// Model of the boost::serialization interface: an archive is a byte string.
#pragma once
#include <string>
#include <vector>
#include <deque>
#include <set>
#include <map>
#include <utility>
#include <type_traits>
#include <stdexcept>
#include <cstring>
#include <boost/mpl/bool.hpp>
#ifndef BOOST_SERIALIZATION_SPLIT_FREE
#define BOOST_SERIALIZATION_SPLIT_FREE(T) namespace boost { namespace serialization { template<class A> void serialize(A &ar, T &t, const unsigned int v) { split_free(ar,t,v); } }}
#define BOOST_SERIALIZATION_NVP(x) x
#define BOOST_CLASS_VERSION(T,N)
#define BOOST_IS_MPI_DATATYPE(T)
#define BOOST_IS_BITWISE_SERIALIZABLE(T)
#define BOOST_CLASS_IMPLEMENTATION(T,L)
#define BOOST_CLASS_TRACKING(T,L)
#endif
namespace boost {
namespace archive { struct archive_exception : std::runtime_error { archive_exception(const char *m="archive error") : std::runtime_error(m) {} }; }
namespace serialization {
struct version_type { unsigned v; version_type(unsigned x=0) : v(x) {} operator unsigned() const { return v; } };
struct access { template<class A, class T> static auto serialize(A &ar, T &t, unsigned v) -> decltype(t.serialize(ar,v)) { return t.serialize(ar,v); } };
template<class T> T &make_nvp(const char *, T &t) { return t; }
template<class A, class T> void hse_dispatch(A &ar, T &t, int, decltype(access::serialize(std::declval<A&>(),std::declval<T&>(),0u))* =0) { access::serialize(ar,t,0); }
template<class A, class T> void hse_dispatch(A &ar, T &t, long) { serialize(ar,t,version_type(0)); }
template<class A, class T> typename std::enable_if<A::is_saving::value>::type hse_split(A &ar, T &t, unsigned v) { save(ar,(const T&)t,v); }
template<class A, class T> typename std::enable_if<!A::is_saving::value>::type hse_split(A &ar, T &t, unsigned v) { load(ar,t,v); }
template<class A, class T> void split_free(A &ar, T &t, unsigned v) { hse_split(ar,t,version_type(v)); }
template<class A, class T> typename std::enable_if<A::is_saving::value>::type split_member(A &ar, T &t, unsigned v) { t.save(ar,v); }
template<class A, class T> typename std::enable_if<!A::is_saving::value>::type split_member(A &ar, T &t, unsigned v) { t.load(ar,v); }
}
struct hse_oarchive { typedef mpl::true_ is_saving; typedef mpl::false_ is_loading; std::string b;
  void raw(const void *p, size_t n) { b.append((const char*)p,n); }
  template<class T> hse_oarchive &operator&(const T &t) { put(t,0); return *this; } template<class T> hse_oarchive &operator<<(const T &t) { put(t,0); return *this; }
  template<class T> typename std::enable_if<std::is_arithmetic<T>::value||std::is_enum<T>::value>::type put(const T &t, int) { raw(&t,sizeof t); }
  void put(const std::string &s, int) { size_t n=s.size(); raw(&n,8); b.append(s); }
  template<class T,class L> void seq(const T &v, L) { size_t n=v.size(); raw(&n,8); for (auto &x:v) *this & x; }
  template<class T> void put(const std::vector<T> &v, int) { seq(v,0); } template<class T> void put(const std::deque<T> &v, int) { seq(v,0); } template<class T> void put(const std::set<T> &v, int) { seq(v,0); } template<class K,class V> void put(const std::map<K,V> &v, int) { seq(v,0); }
  template<class A,class B> void put(const std::pair<A,B> &p, int) { *this & p.first & p.second; }
  template<class T> typename std::enable_if<!std::is_arithmetic<T>::value&&!std::is_enum<T>::value>::type put(const T &t, long) { serialization::hse_dispatch(*this,const_cast<T&>(t),0); } };
struct hse_iarchive { typedef mpl::false_ is_saving; typedef mpl::true_ is_loading; const std::string &b; size_t p=0; hse_iarchive(const std::string &s) : b(s) {}
  void raw(void *d, size_t n) { if (p+n>b.size()) throw archive::archive_exception("truncated"); memcpy(d,b.data()+p,n); p+=n; }
  size_t cnt() { size_t n; raw(&n,8); if (n>100000) throw archive::archive_exception("bad length"); return n; }
  template<class T> hse_iarchive &operator&(T &t) { get(t,0); return *this; } template<class T> hse_iarchive &operator>>(T &t) { get(t,0); return *this; }
  template<class T> typename std::enable_if<std::is_arithmetic<T>::value||std::is_enum<T>::value>::type get(T &t, int) { raw(&t,sizeof t); }
  void get(std::string &s, int) { size_t n=cnt(); if (p+n>b.size()) throw archive::archive_exception("truncated"); s.assign(b.data()+p,n); p+=n; }
  template<class T> void get(std::vector<T> &v, int) { size_t n=cnt(); v.clear(); for (size_t i=0;i<n;i++) { T x; *this & x; v.push_back(x); } }
  template<class T> void get(std::deque<T> &v, int) { size_t n=cnt(); v.clear(); for (size_t i=0;i<n;i++) { T x; *this & x; v.push_back(x); } }
  template<class T> void get(std::set<T> &v, int) { size_t n=cnt(); v.clear(); for (size_t i=0;i<n;i++) { T x; *this & x; v.insert(x); } }
  template<class K,class V> void get(std::map<K,V> &v, int) { size_t n=cnt(); v.clear(); for (size_t i=0;i<n;i++) { std::pair<K,V> x; *this & x.first & x.second; v.insert(x); } }
  template<class A,class B> void get(std::pair<A,B> &q, int) { *this & q.first & q.second; }
  template<class T> typename std::enable_if<!std::is_arithmetic<T>::value&&!std::is_enum<T>::value>::type get(T &t, long) { serialization::hse_dispatch(*this,t,0); } };
}
