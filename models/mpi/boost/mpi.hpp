// Model of the boost::mpi interface: messages are byte strings handed to functions the harness provides.
#pragma once
#include <boost/serialization/serialization.hpp>
#include <vector>
#include <string>
#include <memory>
#include <tuple>
// provided by the harness
int hse_mpi_size(); int hse_mpi_rank(); void hse_mpi_abort(int);
void hse_mpi_send(int self, int dest, int tag, const std::string &bytes);
std::string hse_mpi_recv(int self, int src, int tag, int *from, int *rtag);
void hse_mpi_probe(int self, int src, int tag, int *from, int *rtag);
void hse_mpi_bcast(int self, int root, std::string &bytes);
namespace boost { namespace mpi {
const int any_source=-1, any_tag=-1;
namespace threading { enum level { single, funneled, serialized, multiple }; }
struct exception : std::runtime_error { exception() : std::runtime_error("mpi") {} };
class environment { public: static void abort(int c) { hse_mpi_abort(c); } environment(bool=true) {} environment(int&, char**&, bool=true) {} explicit environment(threading::level, bool=true) {} environment(int&, char**&, threading::level, bool=true) {} };
class status { int s, t; public: status(int a=0, int b=0) : s(a), t(b) {} int source() const { return s; } int tag() const { return t; } int error() const { return 0; } bool cancelled() const { return false; } };
class communicator { int r; public:
  communicator() : r(hse_mpi_rank()) {}
  int rank() const { return r; } int size() const { return hse_mpi_size(); }
  template<class T> void send(int dest, int tag, const T &v) const { hse_oarchive a; a & v; hse_mpi_send(r,dest,tag,a.b); }
  void send(int dest, int tag) const { hse_mpi_send(r,dest,tag,std::string()); }
  template<class T> status recv(int src, int tag, T &v) const { int f,t; std::string b=hse_mpi_recv(r,src,tag,&f,&t); hse_iarchive a(b); a & v; return status(f,t); }
  status recv(int src, int tag) const { int f,t; hse_mpi_recv(r,src,tag,&f,&t); return status(f,t); }
  status probe(int src=any_source, int tag=any_tag) const { int f,t; hse_mpi_probe(r,src,tag,&f,&t); return status(f,t); }
  void barrier() const {} explicit operator bool() const { return true; }
};
template<class T> void broadcast(const communicator &c, T &v, int root) { std::string b; if (c.rank()==root) { hse_oarchive a; a & v; b=a.b; } hse_mpi_bcast(c.rank(),root,b); if (c.rank()!=root) { hse_iarchive a(b); a & v; } }
}}
