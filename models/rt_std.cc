// Model of the parts of libstdc++/libc that live in the shared library.
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <system_error>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <random>
#include <map>
#include <list>
#include <unordered_map>
#include <iostream>
#include <future>
#include <cstring>
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <cstdio>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <hse_api.h>

template class std::basic_string<char>;
template std::string std::operator+(const std::string&, const std::string&);

extern "C" {
void __cxa_bad_cast() { throw std::bad_cast(); } void __cxa_bad_typeid() { throw std::bad_typeid(); } void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}
// ---------------------------------------------------------------- exceptions
namespace std {
const nothrow_t nothrow{};
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() { _M_p=strdup(""); } __cow_string::__cow_string(const std::string &s) { _M_p=strdup(s.c_str()); } __cow_string::__cow_string(const char *s, size_t) { _M_p=strdup(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p=strdup(o._M_p); } __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p=strdup(o._M_p); return *this; } __cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p=o._M_p; } __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p=o._M_p; return *this; }
#define EX(N) N::N(const string &s) : _M_msg(s) {} N::N(const char *s) : _M_msg(s,0) {} N::N(const N &o) noexcept : exception(o), _M_msg(o._M_msg) {} N &N::operator=(const N &o) noexcept { _M_msg=o._M_msg; return *this; } N::N(N &&o) noexcept : _M_msg(o._M_msg) {} N &N::operator=(N &&o) noexcept { _M_msg=o._M_msg; return *this; } N::~N() noexcept {} const char *N::what() const noexcept { return _M_msg._M_p; }
EX(logic_error) EX(runtime_error)
#define EX2(N,B) N::N(const string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
EX2(domain_error,logic_error) EX2(invalid_argument,logic_error) EX2(length_error,logic_error) EX2(out_of_range,logic_error) EX2(range_error,runtime_error) EX2(overflow_error,runtime_error) EX2(underflow_error,runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_function_call() { throw bad_function_call(); }
#define TH(N) void __throw_##N(const char *s) { throw N(s); }
TH(logic_error) TH(domain_error) TH(invalid_argument) TH(length_error) TH(out_of_range) TH(runtime_error) TH(range_error) TH(overflow_error) TH(underflow_error)
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
inline namespace _V2 { struct Cat final : error_category { const char *name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } }; }
} namespace std { inline namespace _V2 { error_category::~error_category() noexcept {} }  
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i)==c; } bool error_category::equivalent(const error_code &c, int i) const noexcept { return c.value()==i; } error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
__cow_string error_category::_M_message(int) const { return __cow_string("error",5); }
inline namespace _V2 { const error_category &generic_category() noexcept { static Cat c; return c; } const error_category &system_category() noexcept { static Cat c; return c; } }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e,std::_V2::generic_category())); }
bool uncaught_exception() noexcept { return false; } int uncaught_exceptions() noexcept { return 0; }
// ---------------------------------------------------------------- red-black tree
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { auto y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left) { auto y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; } else { auto y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto y=x->_M_right; x->_M_right=y->_M_left; if (y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto y=x->_M_left; x->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  auto &root=h._M_parent; x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_red;
  if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
  while (x!=root && x->_M_parent->_M_color==_S_red) { auto g=x->_M_parent->_M_parent;
    if (x->_M_parent==g->_M_left) { auto y=g->_M_right; if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if (x==x->_M_parent->_M_right) { x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root); } }
    else { auto y=g->_M_left; if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if (x==x->_M_parent->_M_left) { x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root); } } }
  root->_M_color=_S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  auto &root=h._M_parent; auto &leftmost=h._M_left; auto &rightmost=h._M_right; auto y=z; _Rb_tree_node_base *x=nullptr,*xp=nullptr;
  if (!y->_M_left) x=y->_M_right; else if (!y->_M_right) x=y->_M_left; else { y=y->_M_right; while (y->_M_left) y=y->_M_left; x=y->_M_right; }
  if (y!=z) { z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if (y!=z->_M_right) { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
    if (root==z) root=y; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; auto c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; if (root==z) root=x; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if (leftmost==z) { if (!z->_M_right) leftmost=z->_M_parent; else { auto q=x; while (q->_M_left) q=q->_M_left; leftmost=q; } }
    if (rightmost==z) { if (!z->_M_left) rightmost=z->_M_parent; else { auto q=x; while (q->_M_right) q=q->_M_right; rightmost=q; } } }
  if (y->_M_color!=_S_red) {
    while (x!=root && (!x || x->_M_color==_S_black)) {
      if (x==xp->_M_left) { auto w=xp->_M_right; if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
        if ((!w->_M_left||w->_M_left->_M_color==_S_black) && (!w->_M_right||w->_M_right->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if (!w->_M_right||w->_M_right->_M_color==_S_black) { w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { auto w=xp->_M_left; if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
        if ((!w->_M_right||w->_M_right->_M_color==_S_black) && (!w->_M_left||w->_M_left->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if (!w->_M_left||w->_M_left->_M_color==_S_black) { w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } } }
    if (x) x->_M_color=_S_black; }
  return y;
}
unsigned int _Rb_tree_black_count(const _Rb_tree_node_base*, const _Rb_tree_node_base*) noexcept { return 0; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { auto n=_M_next; auto p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { bool ex=x._M_next==&x, ey=y._M_next==&y; if (ex&&ey) return; if (ex) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; return; } if (ey) { swap(y,x); return; } std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
void _List_node_base::_M_reverse() noexcept { auto t=this; do { auto n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[]={2,5,11,23,47,97,199,409,823,1741,3469,6949,14033,28411}; for (size_t p:pr) if (p>=n) { _M_next_resize=p; return p; } _M_next_resize=n; return n|1; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e+i>b || b==1) return {true,_M_next_bkt(std::max(e+i,2*b))}; return {false,0}; }
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h=seed; for (size_t i=0;i<n;i++) h=h*31+((const unsigned char*)p)[i]; return h; }
// ---------------------------------------------------------------- threads
thread::_State::~_State() {}
struct HseState { virtual ~HseState(); virtual void _M_run()=0; };
static void *hse_thread_main(void *p) { HseState *st=(HseState*)p; st->_M_run(); delete st; return nullptr; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { pthread_t t; pthread_create(&t,nullptr,hse_thread_main,st.get()); st.release(); *(pthread_t*)&_M_id=t; }
void thread::join() { if (!joinable()) __throw_system_error(EINVAL); pthread_join(*(pthread_t*)&_M_id,nullptr); _M_id=id(); }
void thread::detach() { if (!joinable()) __throw_system_error(EINVAL); pthread_detach(*(pthread_t*)&_M_id); _M_id=id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)hse_param("hardware_concurrency",2); }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { hse_sleep(); } }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(native_handle(),l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); } void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(0,&t); return time_point(duration(seconds(t.tv_sec)+nanoseconds(t.tv_nsec))); }
steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(1,&t); return time_point(duration(seconds(t.tv_sec)+nanoseconds(t.tv_nsec))); }
} }
// ---------------------------------------------------------------- random device: any value of a small range
void random_device::_M_init(const string&) {} void random_device::_M_init_pretr1(const string&) {} void random_device::_M_fini() {}
// the first random_draws values are arbitrary up to random_max, later ones all differ (also across crashes)
}
extern "C" int hse_persist_draws=0;
namespace std {
random_device::result_type random_device::_M_getval() { unsigned i=hse_persist_draws++; return i<hse_param("random_draws",0)? (unsigned)hse_concrete(hse_input(i==0?"random_0":i==1?"random_1":i==2?"random_2":i==3?"random_3":i==4?"random_4":i==5?"random_5":"random_6",32,0,hse_param("random_max",0))) : 1000+i; } random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); } double random_device::_M_getentropy() const noexcept { return 0; }
// ---------------------------------------------------------------- streams: cerr/cout/clog swallow their output
struct Sink : streambuf { streamsize xsputn(const char*, streamsize n) override { return n; } };
static Sink hse_sink; 
istream cin(&hse_sink); ostream cout(&hse_sink), cerr(&hse_sink), clog(&hse_sink);
}
// ---------------------------------------------------------------- dynamic_cast
extern "C" {
extern char _ZTVN10__cxxabiv117__class_type_infoE[], _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
struct Ti { char *vt; const char *name; }; struct SiTi { Ti b; Ti *base; }; struct VmiTi { Ti b; unsigned flags, n; struct { Ti *t; long off; } bases[1]; };
static bool ti_eq(const Ti *a, const Ti *b) { return a==b || a->name==b->name; }
static void *up(char *obj, Ti *t, Ti *dst) {
  if (ti_eq(t,dst)) return obj;
  if (t->vt==_ZTVN10__cxxabiv120__si_class_type_infoE+16) return up(obj,((SiTi*)t)->base,dst);
  if (t->vt==_ZTVN10__cxxabiv121__vmi_class_type_infoE+16) { VmiTi *v=(VmiTi*)t; for (unsigned i=0;i<v->n;i++) { if (!(v->bases[i].off&2)) continue; long o=v->bases[i].off>>8; if (v->bases[i].off&1) o=*(long*)(*(char**)obj+o); if (void *r=up(obj+o,v->bases[i].t,dst)) return r; } }
  return nullptr;
}
void *__dynamic_cast(const void *src, const void*, const void *dst, long) { char **vt=*(char***)src; long off=((long*)vt)[-2]; Ti *t=(Ti*)vt[-1]; return up((char*)src+off,t,(Ti*)dst); }
}
