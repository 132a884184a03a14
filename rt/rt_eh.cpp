// Engine-only part of the runtime model: exceptions, exception_ptr, std exception classes, std::string, guards.
// The native replay uses libstdc++ instead.
#include "vp.h"
#include <atomic>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
#include <variant>
#include <any>
#include <list>
#include <deque>

struct VHdr { std::atomic<int> refs; const std::type_info* ti; void (*dtor)(void*); void* pad; };
struct VRec { const std::type_info* ti; void* obj; int handlers; bool rethrown; VRec* next; };
static thread_local VRec* vcaught = nullptr;
static thread_local int vuncaught = 0;
static VHdr* hdr(void* o) { return (VHdr*)((char*)o - sizeof(VHdr)); }
static void vdecref(void* o) {
  if (hdr(o)->refs.fetch_sub(1, std::memory_order_acq_rel) == 1) { if (hdr(o)->dtor) hdr(o)->dtor(o); __vp_free(hdr(o)); }
}
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { VHdr* h = (VHdr*)__vp_malloc(sizeof(VHdr) + n); if (vp_static_init) __vp_noleak(h); h->refs.store(0, std::memory_order_relaxed); h->ti = nullptr; h->dtor = nullptr; return h + 1; }
void __cxa_free_exception(void* o) noexcept { __vp_free(hdr(o)); }
struct __cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* ti, void (*d)(void*)) noexcept { hdr(o)->ti = ti; hdr(o)->dtor = d; return (struct __cxxabiv1::__cxa_refcounted_exception*)hdr(o); }
[[noreturn]] static void vthrow(void* o) {
  VRec* r = (VRec*)__vp_malloc(sizeof(VRec)); r->ti = hdr(o)->ti; r->obj = o; r->handlers = 0; r->rethrown = false; r->next = nullptr; ++vuncaught; __vp_unwind(r, r->ti);
}
__attribute__((noreturn)) void __cxa_throw(void* o, std::type_info* ti, void (*d)(void*)) { hdr(o)->ti = ti; hdr(o)->dtor = d; hdr(o)->refs.store(1, std::memory_order_relaxed); vthrow(o); }
void* __cxa_get_exception_ptr(void* rec) noexcept { return ((VRec*)rec)->obj; }
void* __cxa_begin_catch(void* rec) noexcept {
  VRec* r = (VRec*)rec; r->handlers++; --vuncaught; r->rethrown = false; if (vcaught != r) { r->next = vcaught; vcaught = r; } return r->obj;
}
void __cxa_end_catch() {
  VRec* r = vcaught; if (!r) return;
  if (--r->handlers == 0) { vcaught = r->next; if (!r->rethrown) { void* o = r->obj; __vp_free(r); vdecref(o); } }
}
__attribute__((noreturn)) void __cxa_rethrow() { VRec* r = vcaught; if (!r) __vp_fail("terminate", "rethrow without an exception"); r->rethrown = true; ++vuncaught; __vp_unwind(r, r->ti); }
void __cxa_pure_virtual() { __vp_fail("memory", "pure virtual call"); }
void __cxa_deleted_virtual() { __vp_fail("memory", "deleted virtual call"); }
int __cxa_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept { return 0; }
__attribute__((noreturn)) void __cxa_bad_cast() { throw std::bad_cast(); }
__attribute__((noreturn)) void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
__attribute__((noreturn)) void abort() noexcept { __vp_fail("abort", "abort called"); __builtin_unreachable(); }
__attribute__((noreturn)) void __assert_fail(const char* e, const char*, unsigned, const char*) noexcept { __vp_fail("assert", e); __builtin_unreachable(); }
void* malloc(size_t n) { return __vp_malloc(n); }
void free(void* p) { __vp_free(p); }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
size_t strlen(const char* a) { size_t n = 0; while (a[n]) ++n; return n; }
int memcmp(const void* a, const void* b, size_t n) { auto* x = (const unsigned char*)a; auto* y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] - y[i]; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
const void* vp_memchr(const void* a, int c, size_t n) { auto* x = (const unsigned char*)a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
}
namespace std {
bool uncaught_exception() noexcept { return vuncaught > 0; }
int uncaught_exceptions() noexcept { return vuncaught; }
__attribute__((noreturn)) void terminate() noexcept { __vp_fail("terminate", "std::terminate called"); __builtin_unreachable(); }
exception_ptr current_exception() noexcept { VRec* r = vcaught; if (!r) return exception_ptr(); return exception_ptr(r->obj); }
__attribute__((noreturn)) void rethrow_exception(exception_ptr p) {
  void* o = p._M_get(); if (!o) __vp_fail("terminate", "rethrow_exception of a null exception_ptr"); hdr(o)->refs.fetch_add(1, memory_order_relaxed); p.~exception_ptr(); new (&p) exception_ptr(); vthrow(o);
}
namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs.fetch_add(1, memory_order_acq_rel); }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { void* o = _M_exception_object; _M_exception_object = nullptr; vdecref(o); } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdr(_M_exception_object)->ti; }
}
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "e"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "e"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "e"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "e"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "e"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "e"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "e"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "e"; }
nested_exception::~nested_exception() noexcept {}
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
__cow_string::__cow_string() { memset((void*)this, 0, sizeof(*this)); } __cow_string::__cow_string(const string&) { memset((void*)this, 0, sizeof(*this)); } __cow_string::__cow_string(const char*, size_t) { memset((void*)this, 0, sizeof(*this)); }
__cow_string::__cow_string(const __cow_string&) noexcept { memset((void*)this, 0, sizeof(*this)); } __cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; } __cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept { memset((void*)this, 0, sizeof(*this)); } __cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }
#define LE(C) C::C(const string& s) : logic_error(s) {} C::C(const char* s) : logic_error(s) {} C::~C() noexcept {}
#define RE(C) C::C(const string& s) : runtime_error(s) {} C::C(const char* s) : runtime_error(s) {} C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return "e"; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; } logic_error& logic_error::operator=(logic_error&&) noexcept { return *this; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return "e"; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; } runtime_error& runtime_error::operator=(runtime_error&&) noexcept { return *this; }
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range) RE(range_error) RE(overflow_error) RE(underflow_error)
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return "e"; }
error_category::~error_category() = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
namespace { struct VCat : error_category { const char* name() const noexcept override { return "c"; } string message(int) const override { return string(); } };
struct VFut final : VCat { string message(int e) const override { switch (e) { case (int)future_errc::broken_promise: return "Broken promise"; case (int)future_errc::future_already_retrieved: return "Future already retrieved"; case (int)future_errc::promise_already_satisfied: return "Promise already satisfied"; case (int)future_errc::no_state: return "No associated state"; default: return "Unknown error"; } } };
VFut vfut; VCat vgen, vsys; }
const error_category& future_category() noexcept { return vfut; }
inline namespace _V2 { const error_category& generic_category() noexcept { return vgen; } const error_category& system_category() noexcept { return vsys; } }
__attribute__((noreturn)) void __throw_bad_alloc() { throw bad_alloc(); } __attribute__((noreturn)) void __throw_bad_array_new_length() { throw bad_array_new_length(); } __attribute__((noreturn)) void __throw_bad_function_call() { throw bad_function_call(); } __attribute__((noreturn)) void __throw_bad_cast() { throw bad_cast(); } __attribute__((noreturn)) void __throw_bad_exception() { throw bad_exception(); }
__attribute__((noreturn)) void __throw_logic_error(const char* s) { throw logic_error(s); } __attribute__((noreturn)) void __throw_length_error(const char* s) { throw length_error(s); } __attribute__((noreturn)) void __throw_out_of_range(const char* s) { throw out_of_range(s); } __attribute__((noreturn)) void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } __attribute__((noreturn)) void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } __attribute__((noreturn)) void __throw_runtime_error(const char* s) { throw runtime_error(s); } __attribute__((noreturn)) void __throw_domain_error(const char* s) { throw domain_error(s); }
__attribute__((noreturn)) void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); } __attribute__((noreturn)) void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }
template class basic_string<char>;
namespace __detail { void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; } void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } } }
}
