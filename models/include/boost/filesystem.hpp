// boost::filesystem over the in-memory file system of the model.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <iterator>
#include <ostream>
#include <istream>
#include <system_error>
#include <stdexcept>
#include <cerrno>
#include <cstdint>
#include <hse_api.h>
#include <hse_fs.h>
namespace boost {
namespace system {
struct error_code { int v=0; int value() const { return v; } void clear() { v=0; } std::string message() const { return "error"; } explicit operator bool() const { return v!=0; } bool operator!() const { return v==0; } bool operator==(const error_code &o) const { return v==o.v; } bool operator!=(const error_code &o) const { return v!=o.v; } };
struct system_error : std::runtime_error { error_code ec; system_error(error_code e, const std::string &w) : std::runtime_error(w), ec(e) {} const error_code &code() const { return ec; } };
}
namespace filesystem {
using boost::system::error_code;
class path {
  std::string s;
  static bool sep(char c) { return c=='/'; }
public:
  typedef char value_type; typedef std::string string_type;
  static constexpr char preferred_separator='/';
  path() {} path(const std::string &x) : s(x) {} path(std::string &&x) : s(std::move(x)) {} path(const char *x) : s(x) {}
  template<class It, class=typename std::iterator_traits<It>::iterator_category> path(It a, It b) : s(a,b) {}
  path(const path&)=default; path(path&&)=default; path &operator=(const path&)=default; path &operator=(path&&)=default;
  path &operator=(const std::string &x) { s=x; return *this; } path &operator=(const char *x) { s=x; return *this; }
  path &assign(const std::string &x) { s=x; return *this; }
  path &operator/=(const path &p) { if (p.s.empty()) return *this; if (sep(p.s[0])) { s=p.s; return *this; } if (!s.empty() && !sep(s.back())) s+='/'; s+=p.s; return *this; }
  path &operator/=(const std::string &p) { return *this/=path(p); } path &operator/=(const char *p) { return *this/=path(p); }
  path &append(const std::string &p) { return *this/=path(p); }
  path &operator+=(const path &p) { s+=p.s; return *this; } path &operator+=(const std::string &p) { s+=p; return *this; } path &operator+=(const char *p) { s+=p; return *this; } path &operator+=(char c) { s+=c; return *this; }
  path &concat(const std::string &p) { s+=p; return *this; }
  void clear() { s.clear(); } void swap(path &o) { s.swap(o.s); }
  const std::string &native() const { return s; } const char *c_str() const { return s.c_str(); } std::string string() const { return s; } std::string generic_string() const { return s; } path generic_path() const { return *this; }
  template<class S> S string() const { return S(s.begin(),s.end()); }
  operator std::string() const { return s; }
  std::size_t size() const { return s.size(); }
  bool empty() const { return s.empty(); }
  bool is_absolute() const { return !s.empty() && sep(s[0]); } bool is_relative() const { return !is_absolute(); } bool has_root_path() const { return is_absolute(); } bool has_root_directory() const { return is_absolute(); }
  path filename() const { if (s.empty()) return path(); auto p=s.rfind('/'); if (p==std::string::npos) return *this; if (p+1==s.size()) return s.size()==1? path("/") : path("."); return path(s.substr(p+1)); }
  path leaf() const { return filename(); }
  path parent_path() const { auto p=s.rfind('/'); if (p==std::string::npos) return path(); if (p==0) return s.size()>1? path("/") : path(); return path(s.substr(0,p)); }
  path branch_path() const { return parent_path(); }
  path extension() const { std::string f=filename().s; if (f=="."||f=="..") return path(); auto p=f.rfind('.'); if (p==std::string::npos||p==0) return path(); return path(f.substr(p)); }
  path stem() const { std::string f=filename().s; if (f=="."||f=="..") return path(f); auto p=f.rfind('.'); if (p==std::string::npos||p==0) return path(f); return path(f.substr(0,p)); }
  path &replace_extension(const path &e=path()) { s.erase(s.size()-extension().s.size()); if (!e.s.empty()) { if (e.s[0]!='.') s+='.'; s+=e.s; } return *this; }
  path &remove_filename() { auto p=s.rfind('/'); if (p==std::string::npos) s.clear(); else s.erase(p? p : 1); return *this; }
  path &replace_filename(const path &f) { remove_filename(); return *this/=f; }
  bool has_filename() const { return !filename().empty(); } bool has_extension() const { return !extension().empty(); } bool has_stem() const { return !stem().empty(); } bool has_parent_path() const { return !parent_path().empty(); }
  path lexically_normal() const; 
  int compare(const path &o) const { return s.compare(o.s); } int compare(const std::string &o) const { return s.compare(o); }
};
inline path path::lexically_normal() const {
  std::vector<std::string> parts; bool abs=is_absolute(); std::size_t i=0;
  while (i<s.size()) { std::size_t j=s.find('/',i); if (j==std::string::npos) j=s.size(); std::string t=s.substr(i,j-i); if (t==".." && !parts.empty() && parts.back()!="..") parts.pop_back(); else if (!t.empty() && t!=".") parts.push_back(t); i=j+1; }
  std::string r=abs? "/" : ""; for (std::size_t k=0;k<parts.size();k++) { if (k) r+='/'; r+=parts[k]; } if (r.empty()) r="."; return path(r);
}
inline bool operator==(const path &a, const path &b) { return a.native()==b.native(); } inline bool operator!=(const path &a, const path &b) { return a.native()!=b.native(); } inline bool operator<(const path &a, const path &b) { return a.native()<b.native(); } inline bool operator>(const path &a, const path &b) { return b<a; } inline bool operator<=(const path &a, const path &b) { return !(b<a); } inline bool operator>=(const path &a, const path &b) { return !(a<b); }
inline bool operator==(const path &a, const std::string &b) { return a.native()==b; } inline bool operator!=(const path &a, const std::string &b) { return a.native()!=b; } inline bool operator==(const path &a, const char *b) { return a.native()==b; } inline bool operator!=(const path &a, const char *b) { return a.native()!=b; }
inline bool operator==(const std::string &b, const path &a) { return a.native()==b; } inline bool operator!=(const std::string &b, const path &a) { return a.native()!=b; } inline bool operator==(const char *b, const path &a) { return a.native()==b; } inline bool operator!=(const char *b, const path &a) { return a.native()!=b; }
inline path operator/(const path &a, const path &b) { path r(a); r/=b; return r; }
inline path operator+(const path &a, const path &b) { path r(a); r+=b; return r; }
inline void swap(path &a, path &b) { a.swap(b); }
inline std::ostream &operator<<(std::ostream &o, const path &p) { o << '"' << p.native() << '"'; return o; }
inline std::size_t hash_value(const path &p) { return std::hash<std::string>()(p.native()); }

class filesystem_error : public boost::system::system_error { path a, b; public:
  filesystem_error(const std::string &w, error_code e) : boost::system::system_error(e,w) {} filesystem_error(const std::string &w, const path &p, error_code e) : boost::system::system_error(e,w), a(p) {} filesystem_error(const std::string &w, const path &p, const path &q, error_code e) : boost::system::system_error(e,w), a(p), b(q) {}
  const path &path1() const { return a; } const path &path2() const { return b; } };
inline error_code hse_err(int e) { error_code c; c.v=e; return c; }
enum file_type { status_error, file_not_found, regular_file, directory_file, symlink_file, block_file, character_file, fifo_file, socket_file, reparse_file, type_unknown };
struct file_status { file_type t; file_type type() const { return t; } };
inline int hse_kind(const path &p) { int i=fsm_lookup(p.c_str()); return i<0? 0 : hse_persist_fs.f[i].kind; }
inline file_status status(const path &p) { int k=hse_kind(p); return {k==0? file_not_found : k==1? regular_file : directory_file}; }
inline file_status status(const path &p, error_code &ec) { ec.clear(); return status(p); }
inline file_status symlink_status(const path &p) { return status(p); }
inline bool exists(const path &p) { return hse_kind(p)!=0; } inline bool exists(const path &p, error_code &ec) { ec.clear(); return exists(p); } inline bool exists(file_status f) { return f.t!=file_not_found; }
inline bool is_directory(const path &p) { return hse_kind(p)==2; } inline bool is_directory(const path &p, error_code &ec) { ec.clear(); return is_directory(p); } inline bool is_directory(file_status f) { return f.t==directory_file; }
inline bool is_regular_file(const path &p) { return hse_kind(p)==1; } inline bool is_regular_file(const path &p, error_code &ec) { ec.clear(); return is_regular_file(p); } inline bool is_regular_file(file_status f) { return f.t==regular_file; }
inline bool is_symlink(const path &) { return false; } inline bool is_other(const path &) { return false; }
inline std::uintmax_t file_size(const path &p) { int i=fsm_lookup(p.c_str()); if (i<0) throw filesystem_error("file_size",p,hse_err(ENOENT)); return hse_persist_fs.f[i].len; }
inline std::uintmax_t file_size(const path &p, error_code &ec) { int i=fsm_lookup(p.c_str()); if (i<0) { ec=hse_err(ENOENT); return ~std::uintmax_t(0); } ec.clear(); return hse_persist_fs.f[i].len; }
inline path current_path() { return path("/cwd"); }
inline path absolute(const path &p, const path &base=current_path()) { return p.is_absolute()? p : base/p; }
inline path system_complete(const path &p) { return absolute(p); }
inline path canonical(const path &p, const path &base=current_path()) { path q=absolute(p,base).lexically_normal(); if (!exists(q)) throw filesystem_error("canonical",p,hse_err(ENOENT)); return q; }
inline path canonical(const path &p, error_code &ec) { path q=absolute(p).lexically_normal(); if (!exists(q)) { ec=hse_err(ENOENT); return path(); } ec.clear(); return q; }
inline path canonical(const path &p, const path &base, error_code &ec) { return canonical(absolute(p,base),ec); }
inline path weakly_canonical(const path &p) { return absolute(p).lexically_normal(); }
inline bool create_directory(const path &p, error_code &ec) { ec.clear(); if (fsm_mkdir(p.c_str())==0) return true; if (!is_directory(p)) ec=hse_err(errno); return false; }
inline bool create_directory(const path &p) { error_code ec; bool r=create_directory(p,ec); if (ec) throw filesystem_error("create_directory",p,ec); return r; }
inline bool create_directories(const path &p, error_code &ec) { ec.clear(); path q=p; while (q.native().size()>1 && q.native().back()=='/') q=q.parent_path(); if (is_directory(q)||q.empty()||q.native()=="/") return false; if (exists(q)) { ec=hse_err(ENOTDIR); return false; } create_directories(q.parent_path(),ec); if (ec) return false; return create_directory(q,ec); }
inline bool create_directories(const path &p) { error_code ec; bool r=create_directories(p,ec); if (ec) throw filesystem_error("create_directories",p,ec); return r; }
inline bool remove(const path &p, error_code &ec) { ec.clear(); if (!exists(p)) return false; if (fsm_unlink(p.c_str())) { ec=hse_err(errno); return false; } return true; }
inline bool remove(const path &p) { error_code ec; bool r=remove(p,ec); if (ec) throw filesystem_error("remove",p,ec); return r; }
inline void rename(const path &a, const path &b, error_code &ec) { ec.clear(); if (fsm_rename(a.c_str(),b.c_str())) ec=hse_err(errno); }
inline void rename(const path &a, const path &b) { error_code ec; rename(a,b,ec); if (ec) throw filesystem_error("rename",a,b,ec); }
inline path temp_directory_path() { return path("/tmp"); }
inline path unique_path(const path &m=path("%%%%-%%%%-%%%%-%%%%")) { std::string r; for (char c : m.native()) if (c=='%') r+="0123456789abcdef"[hse_concrete(hse_input("uniq",4,0,15))]; else r+=c; return path(r); }

class directory_entry { path p; public: directory_entry() {} explicit directory_entry(const class path &q) : p(q) {} const class path &path() const { return p; } operator const class path &() const { return p; } file_status status() const { return filesystem::status(p); } bool operator==(const directory_entry &o) const { return p==o.p; } bool operator<(const directory_entry &o) const { return p<o.p; }
  bool is_regular_file() const { return filesystem::is_regular_file(p); } bool is_directory() const { return filesystem::is_directory(p); } bool exists() const { return filesystem::exists(p); } };
class directory_iterator { std::shared_ptr<std::vector<directory_entry>> v; std::size_t i=0;
  void init(const path &d) { int k=hse_kind(d); if (k!=2) return; v=std::make_shared<std::vector<directory_entry>>(); path q=absolute(d).lexically_normal(); std::string pre=q.native(); if (pre.back()!='/') pre+='/';
    for (int j=0;j<FSM_MAXF;j++) if (hse_persist_fs.f[j].kind) { std::string n(hse_persist_fs.f[j].name); if (n.size()>pre.size() && n.compare(0,pre.size(),pre)==0 && n.find('/',pre.size())==std::string::npos) v->emplace_back(d/path(n.substr(pre.size()))); } if (v->empty()) v.reset(); }
public: typedef std::input_iterator_tag iterator_category; typedef directory_entry value_type; typedef std::ptrdiff_t difference_type; typedef const directory_entry *pointer; typedef const directory_entry &reference;
  directory_iterator() {} explicit directory_iterator(const path &d) { if (!is_directory(d)) throw filesystem_error("directory_iterator",d,hse_err(ENOENT)); init(d); } directory_iterator(const path &d, error_code &ec) { ec.clear(); if (!is_directory(d)) ec=hse_err(ENOENT); else init(d); }
  const directory_entry &operator*() const { return (*v)[i]; } const directory_entry *operator->() const { return &(*v)[i]; }
  directory_iterator &operator++() { if (++i>=v->size()) { v.reset(); i=0; } return *this; } directory_iterator operator++(int) { directory_iterator r(*this); ++*this; return r; } directory_iterator &increment(error_code &ec) { ec.clear(); return ++*this; }
  bool operator==(const directory_iterator &o) const { return v==o.v && i==o.i; } bool operator!=(const directory_iterator &o) const { return !(*this==o); } };
inline directory_iterator begin(const directory_iterator &i) { return i; } inline directory_iterator end(const directory_iterator &) { return directory_iterator(); }
inline directory_iterator range_begin(const directory_iterator &i) { return i; }
inline bool is_empty(const path &p) { if (is_directory(p)) return directory_iterator(p)==directory_iterator(); return file_size(p)==0; }
}}
#include <boost/filesystem/fstream.hpp>
