// Model of the boost::program_options interface the executables use.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <sstream>
#include <ostream>
#include <stdexcept>
#include <type_traits>
namespace boost { namespace program_options {
struct error : std::logic_error { error(const std::string &s) : std::logic_error(s) {} };
struct unknown_option : error { unknown_option(const std::string &s="") : error("unrecognised option "+s) {} }; struct invalid_command_line_syntax : error { using error::error; invalid_command_line_syntax(const std::string &s) : error(s) {} };
struct too_many_positional_options_error : error { too_many_positional_options_error() : error("too many positional options") {} }; struct validation_error : error { validation_error(const std::string &s) : error(s) {} }; typedef validation_error invalid_option_value; struct multiple_occurrences : error { multiple_occurrences() : error("option cannot be specified more than once") {} }; struct required_option : error { required_option(const std::string &s) : error("the option "+s+" is required") {} };
struct hse_val { virtual ~hse_val() {} }; template<class T> struct hse_valT : hse_val { T v; hse_valT(const T &x) : v(x) {} };
struct value_semantic { bool dflt=false, req=false, multi=false, comp=false; virtual ~value_semantic() {} virtual std::shared_ptr<hse_val> parse(const std::vector<std::string> &)=0; virtual std::shared_ptr<hse_val> def() { return {}; } virtual void note(const std::shared_ptr<hse_val>&) {} virtual bool isvec() { return false; } };
inline void hse_lex(const std::string &s, std::string &r) { r=s; }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type hse_lex(const std::string &s, T &r) { bool neg=!s.empty()&&s[0]=='-'; std::size_t i=(neg||(!s.empty()&&s[0]=='+'))?1:0; if (i>=s.size()) throw validation_error("invalid value "+s); unsigned long v=0; unsigned long lim= std::is_signed<T>::value? (1ul<<(8*sizeof(T)-1))-1+neg : (sizeof(T)==8? ~0ul : (1ul<<(8*sizeof(T)%64))-1); for (;i<s.size();i++) { if (s[i]<'0'||s[i]>'9') throw validation_error("invalid value "+s); unsigned d=s[i]-'0'; if (v>(lim-d)/10) throw validation_error("value out of range "+s); v=v*10+d; } r= neg? (T)(0-v) : (T)v; }
template<class T> struct hse_isvec : std::false_type {}; template<class T> struct hse_isvec<std::vector<T>> : std::true_type {};
template<class T> struct typed_value : value_semantic { T d; T *to=nullptr;
  typed_value *default_value(const T &v) { d=v; dflt=true; return this; } typed_value *default_value(const T &v, const std::string&) { return default_value(v); } typed_value *composing() { comp=true; return this; } typed_value *multitoken() { multi=true; return this; } typed_value *required() { req=true; return this; } typed_value *value_name(const std::string&) { return this; } typed_value *zero_tokens() { return this; } typed_value *implicit_value(const T&) { return this; }
  template<class U> static void one(const std::vector<std::string> &a, std::vector<U> &r) { for (auto &s:a) { U u; hse_lex(s,u); r.push_back(u); } } template<class U> static void one(const std::vector<std::string> &a, U &r) { if (a.size()!=1) throw multiple_occurrences(); hse_lex(a[0],r); }
  std::shared_ptr<hse_val> parse(const std::vector<std::string> &a) override { T v{}; one(a,v); return std::make_shared<hse_valT<T>>(v); } std::shared_ptr<hse_val> def() override { return std::make_shared<hse_valT<T>>(d); }
  void note(const std::shared_ptr<hse_val> &p) override { if (to) *to=static_cast<hse_valT<T>&>(*p).v; } bool isvec() override { return hse_isvec<T>::value; } };
template<class T> typed_value<T> *value() { return new typed_value<T>; } template<class T> typed_value<T> *value(T *p) { auto v=new typed_value<T>; v->to=p; return v; }
inline typed_value<bool> *bool_switch() { auto v=new typed_value<bool>; v->default_value(false); return v; }
struct hse_opt { std::string lng, sht, desc; std::shared_ptr<value_semantic> sem; };
class options_description { public: std::string cap; std::vector<hse_opt> o; options_description(unsigned=80,unsigned=40) {} options_description(const std::string &c, unsigned=80, unsigned=40) : cap(c) {} options_description(const char *c) : cap(c) {}
  struct init { options_description *d; init &operator()(const char *n, const char *ds) { return add(n,nullptr,ds); } init &operator()(const char *n, value_semantic *s, const char *ds="") { return add(n,s,ds); } init &operator()(const char *n, const value_semantic *s, const char *ds="") { return add(n,const_cast<value_semantic*>(s),ds); }
    init &add(const std::string &n, value_semantic *s, const char *ds) { hse_opt x; auto c=n.find(','); x.lng=n.substr(0,c); if (c!=std::string::npos) x.sht=n.substr(c+1); x.sem.reset(s); x.desc=ds; d->o.push_back(x); return *this; } };
  init add_options() { return init{this}; } options_description &add(const options_description &x) { for (auto &q:x.o) o.push_back(q); return *this; }
  const hse_opt *find(const std::string &n) const { for (auto &q:o) if (q.lng==n) return &q; return nullptr; } const hse_opt *findShort(const std::string &n) const { for (auto &q:o) if (!q.sht.empty() && q.sht==n) return &q; return nullptr; } };
inline std::ostream &operator<<(std::ostream &s, const options_description &d) { s << d.cap << ":\n"; for (auto &q:d.o) s << "  --" << q.lng << "  " << q.desc << "\n"; return s; }
class positional_options_description { public: std::vector<std::pair<std::string,int>> p; positional_options_description &add(const char *n, int c) { p.push_back({n,c}); return *this; } };
struct parsed_options { const options_description *d; std::vector<std::pair<std::string,std::vector<std::string>>> v; };
template<class C> class basic_command_line_parser { std::vector<std::string> a; const options_description *d=nullptr; const positional_options_description *p=nullptr; bool unreg=false; public:
  basic_command_line_parser(int c, const char *const *v) { for (int i=1;i<c;i++) a.push_back(v[i]); } basic_command_line_parser(const std::vector<std::string> &x) : a(x) {}
  basic_command_line_parser &options(const options_description &x) { d=&x; return *this; } basic_command_line_parser &positional(const positional_options_description &x) { p=&x; return *this; } basic_command_line_parser &allow_unregistered() { unreg=true; return *this; } basic_command_line_parser &style(int) { return *this; }
  parsed_options run() { parsed_options r; r.d=d; int np=0; bool only=false;
    for (std::size_t i=0;i<a.size();i++) { std::string s=a[i]; const hse_opt *o=nullptr; bool have=false; std::string val;
      if (!only && s=="--") { only=true; continue; }
      if (!only && s.size()>2 && s[0]=='-' && s[1]=='-') { auto e=s.find('='); std::string n=s.substr(2,e==std::string::npos? e : e-2); if (e!=std::string::npos) { have=true; val=s.substr(e+1); } o=d->find(n); if (!o) { if (unreg) continue; throw unknown_option(n); } }
      else if (!only && s.size()>1 && s[0]=='-') { o=d->findShort(s.substr(1,1)); if (!o) { if (unreg) continue; throw unknown_option(s); } if (s.size()>2) { have=true; val=s.substr(2); } }
      else { int k=np++; std::string nm; for (auto &q:p? p->p : std::vector<std::pair<std::string,int>>()) { if (q.second<0||k<q.second) { nm=q.first; break; } k-=q.second; } if (nm.empty()) throw too_many_positional_options_error(); add(r,nm,s); continue; }
      if (!o->sem) { r.v.push_back({o->lng,{}}); continue; }
      if (!have) { if (i+1>=a.size()) throw invalid_command_line_syntax("missing argument"); val=a[++i]; }
      add(r,o->lng,val); }
    return r; }
  static void add(parsed_options &r, const std::string &n, const std::string &v) { for (auto &x:r.v) if (x.first==n) { x.second.push_back(v); return; } r.v.push_back({n,{v}}); } };
typedef basic_command_line_parser<char> command_line_parser;
class variable_value { std::shared_ptr<hse_val> v; bool df=false; public: variable_value() {} variable_value(std::shared_ptr<hse_val> p, bool b) : v(p), df(b) {} template<class T> const T &as() const { auto q=dynamic_cast<hse_valT<T>*>(v.get()); if (!q) throw std::bad_cast(); return q->v; } bool empty() const { return !v; } bool defaulted() const { return df; } const std::shared_ptr<hse_val> &raw() const { return v; } };
class variables_map : public std::map<std::string,variable_value> { public: const options_description *d=nullptr; const variable_value &operator[](const std::string &n) const { static const variable_value e; auto it=find(n); return it==end()? e : it->second; } variable_value &ins(const std::string &n) { return std::map<std::string,variable_value>::operator[](n); } };
inline void store(const parsed_options &p, variables_map &m) { m.d=p.d; for (auto &x:p.v) { auto o=p.d->find(x.first); if (o->sem) m.ins(x.first)=variable_value(o->sem->parse(x.second),false); else m.ins(x.first)=variable_value(std::make_shared<hse_valT<std::string>>(""),false); } for (auto &o:p.d->o) if (o.sem && o.sem->dflt && !m.count(o.lng)) m.ins(o.lng)=variable_value(o.sem->def(),true); }
inline void notify(variables_map &m) { if (m.d) for (auto &o:m.d->o) if (o.sem) { if (o.sem->req && !m.count(o.lng)) throw required_option(o.lng); if (m.count(o.lng)) o.sem->note(m[o.lng].raw()); } }
inline parsed_options parse_command_line(int c, const char *const *v, const options_description &d) { return command_line_parser(c,v).options(d).run(); }
}}
