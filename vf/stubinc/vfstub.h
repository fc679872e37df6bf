// Minimal stand-ins for the C++ library pieces used by the copy kernel: a started
// thread performs its call at creation and is recorded, so that the generated IR holds
// only the kernel's own arithmetic and the copy calls.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void *memcpy(void *, const void *, size_t);
void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t);
void vf_thread_begin(void);
void vf_thread_end(void);
void vf_thread_join(void);
void vf_fill64(void *, int64_t, int64_t);
void vf_fatal(void);
}
namespace std {
using ::memcpy; using ::memmove; using ::memset; using ::size_t;
using ::int8_t; using ::int16_t; using ::int32_t; using ::int64_t;
using ::uint8_t; using ::uint16_t; using ::uint32_t; using ::uint64_t;
using ::uintptr_t; using ::intptr_t; using ::ptrdiff_t;
typedef decltype(nullptr) nullptr_t;
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> constexpr typename remove_reference<T>::type &&move(T &&t) noexcept { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T> constexpr T &&forward(typename remove_reference<T>::type &t) noexcept { return static_cast<T &&>(t); }
template <class T> constexpr const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> constexpr const T &max(const T &a, const T &b) { return a < b ? b : a; }
template <class T> void swap(T &a, T &b) { T c = a; a = b; b = c; }
struct thread {
  bool started = false;
  thread() {}
  thread(thread &&o) { started = o.started; o.started = false; }
  thread(const thread &) = delete;
  thread &operator=(thread &&o) { started = o.started; o.started = false; return *this; }
  template <class F, class... A> explicit thread(F &&f, A &&...a) {
    started = true; vf_thread_begin(); f(static_cast<A &&>(a)...); vf_thread_end();
  }
  bool joinable() const { return started; }
  void join() { vf_thread_join(); started = false; }
  void detach() { started = false; }
  void swap(thread &o) { bool s = started; started = o.started; o.started = s; }
  ~thread() {}
  static unsigned hardware_concurrency() { return 8; }
};
template <class T> struct vector {
  enum { CAP = 64 };
  T a[CAP];
  size_t n = 0;
  typedef T *iterator;
  vector() {}
  explicit vector(size_t k) : n(k) {}
  vector(size_t k, const T &v) : n(k) { for (size_t i = 0; i < k; i++) a[i] = v; }
  T &operator[](size_t i) { return a[i]; }
  const T &operator[](size_t i) const { return a[i]; }
  T &at(size_t i) { return a[i]; }
  T *begin() { return a; }
  T *end() { return a + n; }
  const T *begin() const { return a; }
  const T *end() const { return a + n; }
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  void reserve(size_t) {}
  void resize(size_t k) { n = k; }
  void clear() { n = 0; }
  T &back() { return a[n - 1]; }
  void push_back(T &&v) { a[n++] = static_cast<T &&>(v); }
  void push_back(const T &v) { a[n++] = v; }
  template <class... A> T &emplace_back(A &&...x) { a[n] = T(static_cast<A &&>(x)...); return a[n++]; }
};
template <class T, class V> void fill(T *b, T *e, const V &v) { vf_fill64((void *)b, (e - b), (int64_t)v); }
template <class T, class S, class V> void fill_n(T *b, S n, const V &v) { vf_fill64((void *)b, (int64_t)n, (int64_t)v); }
template <class S, class T> T *copy(const S *b, const S *e, T *d) { memcpy((void *)d, (const void *)b, (e - b) * sizeof(S)); return d + (e - b); }
template <class S, class T> T *copy(S *b, S *e, T *d) { memcpy((void *)d, (const void *)b, (e - b) * sizeof(S)); return d + (e - b); }
template <class S, class N, class T> T *copy_n(const S *b, N n, T *d) { memcpy((void *)d, (const void *)b, n * sizeof(S)); return d + n; }
}
