// Model of the yaml-cpp interface: node trees, conversions, and a reader for the block style subset
// (mappings, sequences, plain and quoted scalars, comments).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <sstream>
#include <fstream>
#include <type_traits>
#include <utility>
#include <limits>
#include <list>
#include <set>
#include <array>
namespace YAML {
struct Mark { int pos=-1, line=-1, column=-1; };
struct Exception : std::runtime_error { Mark mark; std::string msg; Exception(const std::string &m) : std::runtime_error(m), msg(m) {} };
struct ParserException : Exception { using Exception::Exception; ParserException(const std::string &m) : Exception(m) {} };
struct RepresentationException : Exception { RepresentationException(const std::string &m) : Exception(m) {} };
struct InvalidNode : RepresentationException { InvalidNode(const std::string &k="") : RepresentationException("invalid node; first invalid key: "+k) {} };
struct BadConversion : RepresentationException { BadConversion() : RepresentationException("bad conversion") {} };
template<class T> struct TypedBadConversion : BadConversion {};
struct BadSubscript : RepresentationException { BadSubscript() : RepresentationException("operator[] call on a scalar") {} };
struct BadPushback : RepresentationException { BadPushback() : RepresentationException("appending to a non-sequence") {} };
struct BadFile : Exception { BadFile(const std::string &f="") : Exception("bad file: "+f) {} };
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
template<class T> struct convert;
struct HseData; typedef std::shared_ptr<HseData> HseRef;
struct HseData { NodeType::value t=NodeType::Null; std::string s; bool isNum=false, isBool=false; long long num=0; std::vector<std::pair<HseRef,HseRef>> kv; };
struct iterator_value; class Node_iter;
class Node {
public:
  HseRef d; bool valid=true; HseRef parent, pkey; // parent/pkey: assignment creates the entry
  Node() : d(std::make_shared<HseData>()) {}
  explicit Node(NodeType::value t) : d(std::make_shared<HseData>()) { d->t=t; }
  Node(const Node &o)=default;
  template<class T, class=typename std::enable_if<!std::is_base_of<Node,typename std::decay<T>::type>::value && !std::is_same<typename std::decay<T>::type,NodeType::value>::value>::type> explicit Node(const T &v) : d(std::make_shared<HseData>()) { assign(v); }
  bool IsDefined() const { return valid && d && !pendingParent(); }
  NodeType::value Type() const { if (!valid) throw InvalidNode(); return IsDefined()? d->t : NodeType::Undefined; }
  bool IsNull() const { return IsDefined() && d->t==NodeType::Null; } bool IsScalar() const { return IsDefined() && d->t==NodeType::Scalar; } bool IsSequence() const { return IsDefined() && d->t==NodeType::Sequence; } bool IsMap() const { return IsDefined() && d->t==NodeType::Map; }
  explicit operator bool() const { return IsDefined(); } bool operator!() const { return !IsDefined(); }
  std::string Scalar() const { return text(); }
  std::size_t size() const { if (!valid) throw InvalidNode(); return IsDefined() && (d->t==NodeType::Sequence||d->t==NodeType::Map)? d->kv.size() : 0; }
  template<class T> T as() const; template<class T, class S> T as(const S &dflt) const;
  template<class K> const Node operator[](const K &k) const { if (!valid) throw InvalidNode(); Node r; if (!IsDefined()) { r.valid=false; return r; } if (d->t==NodeType::Scalar) throw BadSubscript(); HseRef x=find(k); if (x) { r.d=x; return r; } r.valid=false; return r; }
  template<class K> Node operator[](const K &k) { if (!valid) throw InvalidNode(); if (IsDefined() && d->t==NodeType::Scalar) throw BadSubscript(); Node r; HseRef x=find(k); if (x) { r.d=x; return r; } Node kn(k); r.parent=d; r.pkey=kn.d; r.up=up_for_child(); return r; }
  Node &operator=(const Node &o) { if (!o.valid) { valid=false; return *this; } if (parent) { HseRef pr=parent; attach(); for (auto &p:pr->kv) if (p.second==d) p.second=o.d; d=o.d; return *this; } d=o.d; valid=true; return *this; }
  template<class T, class=typename std::enable_if<!std::is_base_of<Node,typename std::decay<T>::type>::value>::type> Node &operator=(const T &v) { if (!valid) throw InvalidNode(); attach(); assign(v); return *this; }
  template<class T> void push_back(const T &v) { push_back(Node(v)); }
  void push_back(const Node &n) { if (!valid) throw InvalidNode(); attach(); if (d->t==NodeType::Null) d->t=NodeType::Sequence; if (d->t!=NodeType::Sequence) throw BadPushback(); d->kv.push_back({HseRef(),n.d}); }
  template<class K> bool remove(const K &k) { if (d->t!=NodeType::Map) return false; Node kn(k); for (std::size_t i=0;i<d->kv.size();i++) if (d->kv[i].first->s==kn.text()) { d->kv.erase(d->kv.begin()+i); return true; } return false; }
  bool is(const Node &o) const { return d==o.d; } void reset(const Node &o=Node()) { d=o.d; valid=o.valid; parent.reset(); }
  typedef Node_iter iterator; typedef Node_iter const_iterator; Node_iter begin() const; Node_iter end() const;
  // text of a scalar
  std::string text() const { if (!valid) throw InvalidNode(); if (d->isBool) return d->num? "true" : "false"; if (d->isNum) return std::to_string(d->num); return d->s; }
private:
  HseRef up; HseRef up_for_child() { return HseRef(); }
  bool pendingParent() const { return (bool)parent; }
  void attach() { if (!parent) return; if (parent->t==NodeType::Null) parent->t=NodeType::Map; parent->kv.push_back({pkey,d}); parent.reset(); }
  template<class K> HseRef find(const K &k) const { Node kn(k); if (d->t==NodeType::Map) { for (auto &p:d->kv) if (p.first->t==NodeType::Scalar && Nt(p.first)==kn.text()) return p.second; } else if (d->t==NodeType::Sequence && kn.d->isNum && (unsigned long long)kn.d->num<d->kv.size()) return d->kv[kn.d->num].second; return HseRef(); }
  static std::string Nt(const HseRef &r) { Node n; n.d=r; return n.text(); }
  void scalar() { d->t=NodeType::Scalar; d->isNum=d->isBool=false; d->kv.clear(); d->s.clear(); }
  void assign(const std::string &v) { scalar(); d->s=v; } void assign(const char *v) { scalar(); d->s=v; } template<std::size_t N> void assign(const char (&v)[N]) { scalar(); d->s=v; } void assign(bool v) { scalar(); d->isBool=true; d->num=v; }
  template<class T> typename std::enable_if<std::is_integral<T>::value && !std::is_same<T,bool>::value && !std::is_same<T,char>::value>::type assign(T v) { scalar(); d->isNum=true; d->num=(long long)v; }
  void assign(char c) { scalar(); d->s=std::string(1,c); }
  template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_convertible<T,std::string>::value>::type assign(const T &v) { Node n=convert<T>::encode(v); *d=*n.d; }
};
struct iterator_value : public Node, std::pair<Node,Node> { iterator_value() {} explicit iterator_value(const Node &n) : Node(n), std::pair<Node,Node>(Node(),Node()) {} iterator_value(const Node &k, const Node &v) : Node(v), std::pair<Node,Node>(k,v) {} };
class Node_iter { HseRef d; std::size_t i; struct Px { iterator_value v; iterator_value *operator->() { return &v; } }; public: typedef std::forward_iterator_tag iterator_category; typedef iterator_value value_type; typedef std::ptrdiff_t difference_type; typedef Px pointer; typedef iterator_value reference;
  Node_iter() : i(0) {} Node_iter(HseRef r, std::size_t k) : d(r), i(k) {}
  iterator_value operator*() const { Node v; v.d=d->kv[i].second; if (d->t==NodeType::Map) { Node k; k.d=d->kv[i].first; iterator_value r(k,v); r.d=HseRef(); r.valid=false; return r; } return iterator_value(v); } Px operator->() const { return Px{**this}; }
  Node_iter &operator++() { ++i; return *this; } Node_iter operator++(int) { Node_iter r(*this); ++i; return r; } bool operator==(const Node_iter &o) const { return i==o.i; } bool operator!=(const Node_iter &o) const { return i!=o.i; } };
typedef Node_iter iterator; typedef Node_iter const_iterator;
inline Node_iter Node::begin() const { return size()? Node_iter(d,0) : Node_iter(); } inline Node_iter Node::end() const { return size()? Node_iter(d,size()) : Node_iter(); }
// conversions
inline bool hse_lower_eq(const std::string &s, const char *w) { // w in lower case; accepts lower, Capitalised and UPPER
  std::string l(w), u(l), c(l); for (auto &x:u) x=x-'a'+'A'; c[0]=u[0]; return s==l||s==u||s==c; }
template<> struct convert<Node> { static Node encode(const Node &n) { return n; } static bool decode(const Node &n, Node &r) { r.reset(n); return true; } };
template<> struct convert<std::string> { static Node encode(const std::string &s) { return Node(s); } static bool decode(const Node &n, std::string &r) { if (!n.IsScalar()) return false; r=n.text(); return true; } };
template<> struct convert<bool> { static Node encode(bool b) { return Node(b); } static bool decode(const Node &n, bool &r) { if (!n.IsScalar()) return false; if (n.d->isBool) { r=n.d->num; return true; } std::string s=n.text();
  for (const char *w : {"y","yes","true","on"}) if (hse_lower_eq(s,w)) { r=true; return true; } for (const char *w : {"n","no","false","off"}) if (hse_lower_eq(s,w)) { r=false; return true; } return false; } };
template<class T> struct hse_conv_int { static Node encode(const T &v) { return Node(v); } static bool decode(const Node &n, T &r) { if (n.Type()!=NodeType::Scalar) return false;
  if (n.d->isNum) { long long v=n.d->num; if (v<0 && !std::is_signed<T>::value) return false; if (v<(long long)(std::is_signed<T>::value? std::numeric_limits<T>::min() : 0) || (v>0 && (unsigned long long)v>(unsigned long long)std::numeric_limits<T>::max())) return false; r=(T)v; return true; }
  std::string s=n.text(); std::stringstream ss(s); if (ss.peek()=='-' && std::is_unsigned<T>::value) return false; ss.unsetf(std::ios::dec); T v; if ((ss >> std::noskipws >> v) && (ss >> std::ws).eof()) { r=v; return true; } return false; } };
#define HSE_YI(T) template<> struct convert<T> : hse_conv_int<T> {};
HSE_YI(int) HSE_YI(unsigned) HSE_YI(long) HSE_YI(unsigned long) HSE_YI(long long) HSE_YI(unsigned long long) HSE_YI(short) HSE_YI(unsigned short)
template<class T> struct convert<std::vector<T>> { static Node encode(const std::vector<T> &v) { Node n(NodeType::Sequence); for (auto &x:v) n.push_back(x); return n; } static bool decode(const Node &n, std::vector<T> &r) { if (!n.IsSequence()) return false; r.clear(); for (auto it=n.begin(); it!=n.end(); ++it) { iterator_value v=*it; r.push_back(((Node&)v).as<T>()); } return true; } };
template<class T> struct hse_as { static T get(const Node &n) { T t; if (convert<T>::decode(n,t)) return t; throw TypedBadConversion<T>(); } };
template<> struct hse_as<std::string> { static std::string get(const Node &n) { if (n.IsNull()) return "null"; if (!n.IsScalar()) throw TypedBadConversion<std::string>(); return n.text(); } };
template<class T> T Node::as() const { if (!valid) throw InvalidNode(); return hse_as<T>::get(*this); }
template<class T, class S> T Node::as(const S &dflt) const { if (!valid) return dflt; T t; if (IsDefined() && convert<T>::decode(*this,t)) return t; return dflt; }
// reader
struct HseLine { int ind; std::string s; };
inline std::string hse_trim(const std::string &s) { std::size_t a=0,b=s.size(); while (a<b && (s[a]==' '||s[a]=='\t'||s[a]=='\r')) a++; while (b>a && (s[b-1]==' '||s[b-1]=='\t'||s[b-1]=='\r')) b--; return s.substr(a,b-a); }
inline Node hse_scalar(std::string s) { s=hse_trim(s); if (s.empty()||s=="~"||s=="null") return Node(); if (s.size()>=2 && (s[0]=='"'||s[0]=='\'') && s.back()==s[0]) return Node(s.substr(1,s.size()-2)); return Node(s); }
inline std::size_t hse_colon(const std::string &s) { if (!s.empty() && (s[0]=='"'||s[0]=='\'')) return std::string::npos; for (std::size_t i=0;i<s.size();i++) if (s[i]==':' && (i+1==s.size()||s[i+1]==' ')) return i; return std::string::npos; }
inline Node hse_block(std::vector<HseLine> &L, std::size_t &i, int ind) {
  if (L[i].s[0]=='-' && (L[i].s.size()==1||L[i].s[1]==' ')) { Node n(NodeType::Sequence);
    while (i<L.size() && L[i].ind==ind && L[i].s[0]=='-' && (L[i].s.size()==1||L[i].s[1]==' ')) { std::size_t k=1; while (k<L[i].s.size() && L[i].s[k]==' ') k++; if (k>=L[i].s.size()) { i++; if (i<L.size() && L[i].ind>ind) n.push_back(hse_block(L,i,L[i].ind)); else n.push_back(Node()); }
      else { std::string r=L[i].s.substr(k); if (hse_colon(r)==std::string::npos && r[0]!='-') { n.push_back(hse_scalar(r)); i++; } else { L[i].ind=ind+(int)k; L[i].s=r; n.push_back(hse_block(L,i,L[i].ind)); } } }
    return n; }
  Node n(NodeType::Map);
  while (i<L.size() && L[i].ind==ind) { std::size_t c=hse_colon(L[i].s); if (c==std::string::npos) { if (n.size()==0) { Node s=hse_scalar(L[i].s); i++; return s; } throw ParserException("yaml: expected a mapping"); }
    std::string k=hse_trim(L[i].s.substr(0,c)), v=hse_trim(L[i].s.substr(c+1)); i++; if (!v.empty()) n[k]=hse_scalar(v); else if (i<L.size() && (L[i].ind>ind || (L[i].ind==ind && L[i].s[0]=='-'))) n[k]=hse_block(L,i,L[i].ind); else n[k]=Node(); }
  return n;
}
inline Node Load(const std::string &t) { std::vector<HseLine> L; std::size_t p=0; while (p<t.size()) { std::size_t q=t.find('\n',p); if (q==std::string::npos) q=t.size(); std::string s=t.substr(p,q-p); p=q+1; std::size_t h=0; for (;h<s.size();h++) if (s[h]=='#' && (h==0||s[h-1]==' ')) { s=s.substr(0,h); break; } int ind=0; while (ind<(int)s.size() && s[ind]==' ') ind++; s=hse_trim(s); if (!s.empty() && s!="---") L.push_back({ind,s}); }
  if (L.empty()) return Node(); std::size_t i=0; Node n=hse_block(L,i,L[0].ind); if (i<L.size()) throw ParserException("yaml: end of document expected"); return n; }
inline Node Load(std::istream &is) { std::string t; char c; while (is.get(c)) t+=c; return Load(t); }
inline Node LoadFile(const std::string &f) { std::ifstream in(f); if (!in) throw BadFile(f); return Load(in); }
inline std::vector<Node> LoadAll(const std::string &t) { return {Load(t)}; }
}
