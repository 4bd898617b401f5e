"""stand-ins for standard-library classes, so that containers and owning pointers stay visible to the analysis"""
FIXED = '#define FIXEDCAP %d\n#define CHARCAP %d\n'
MODELS = r"""
#define RAWCOPY(T) (std::is_trivially_copyable<T>::value || std::is_plainptr<T>::value)
#define RAWDROP(T) (std::is_trivially_destructible<T>::value)
// FBEND 1: the address of the element after the last one may be formed
#ifndef FBEND
#define FBEND 0
#endif
#ifdef FIXEDBOUNDS
extern "C" void bound__fail() __attribute__((noreturn)); extern "C" void toobig__fail() __attribute__((noreturn));
#define FB(C) ((C) ? (void)0 : bound__fail())
#define FC(C) ((C) ? (void)0 : toobig__fail())
#else
#define FB(C) ((void)0)
#define FC(C) ((void)0)
#endif
namespace std {
template <class T> struct plainptr; template <class T> struct is_plainptr { static const bool value = false; }; template <class T> struct is_plainptr<plainptr<T>> { static const bool value = true; };
template <class T, class A = void> struct fixedvec {
  typedef T value_type; typedef size_t size_type; typedef T *iterator; typedef const T *const_iterator; typedef T &reference; typedef const T &const_reference; typedef ptrdiff_t difference_type;
  typedef std::reverse_iterator<T *> reverse_iterator; typedef std::reverse_iterator<const T *> const_reverse_iterator;
  typename std::aligned_storage<sizeof(T), alignof(T)>::type s_[sizeof(T) == 1 ? CHARCAP : FIXEDCAP]; size_t n;
  T *a_() { return reinterpret_cast<T *>(s_); } const T *a_() const { return reinterpret_cast<const T *>(s_); }
  static constexpr size_t cap_() { return sizeof(T) == 1 ? CHARCAP : FIXEDCAP; }
  fixedvec() : n(0) {}
  explicit fixedvec(size_t k) : n(0) { resize(k); }
  fixedvec(size_t k, const T &v) : n(0) { for (size_t i = 0; i < k; ++i) new (a_() + i) T(v); n = k; }
  template <class It> fixedvec(It f, It l, typename std::enable_if<!std::is_integral<It>::value>::type * = 0) : n(0) { for (; f != l; ++f) push_back(*f); }
  fixedvec(std::initializer_list<T> l) : n(0) { for (auto &x : l) push_back(x); }
  fixedvec(const fixedvec &o) : n(0) { if (RAWCOPY(T)) { memcpy(s_, o.s_, sizeof(s_)); n = o.n; return; } for (size_t i = 0; i < o.n; ++i) push_back(o.a_()[i]); }
  fixedvec(fixedvec &&o) : n(0) { if (RAWCOPY(T)) { memcpy(s_, o.s_, sizeof(s_)); n = o.n; o.n = 0; return; } for (size_t i = 0; i < o.n; ++i) push_back(std::move(o.a_()[i])); o.clear(); }
  fixedvec &operator=(const fixedvec &o) { if (this != &o) { if (RAWCOPY(T)) { memcpy(s_, o.s_, sizeof(s_)); n = o.n; return *this; } clear(); for (size_t i = 0; i < o.n; ++i) push_back(o.a_()[i]); } return *this; }
  fixedvec &operator=(fixedvec &&o) { if (this != &o) { if (RAWCOPY(T)) { memcpy(s_, o.s_, sizeof(s_)); n = o.n; o.n = 0; return *this; } clear(); for (size_t i = 0; i < o.n; ++i) push_back(std::move(o.a_()[i])); o.clear(); } return *this; }
  ~fixedvec() { clear(); }
  size_t size() const { return n; } bool empty() const { return n == 0; } size_t capacity() const { return FIXEDCAP; }
  void resize(size_t k) { FC(k <= cap_()); if (sizeof(T) == 1 && RAWCOPY(T)) { n = k; return; } for (size_t i = n; i < k; ++i) new (a_() + i) T(); if (RAWDROP(T)) { n = k; return; } if (n < k) n = k; while (n > k) pop_back(); }
  void resize(size_t k, const T &v) { FC(k <= cap_()); for (size_t i = n; i < k; ++i) new (a_() + i) T(v); if (RAWDROP(T)) { n = k; return; } if (n < k) n = k; while (n > k) pop_back(); }
  void reserve(size_t) {} void clear() { if (RAWDROP(T)) { n = 0; return; } size_t k_ = n; n = 0; for (; k_ > 0; --k_) a_()[k_ - 1].~T(); } void shrink_to_fit() {} T *data() { return a_(); } const T *data() const { return a_(); }
  T *begin() { return a_(); } T *end() { return a_() + n; } const T *begin() const { return a_(); } const T *end() const { return a_() + n; } const T *cbegin() const { return a_(); } const T *cend() const { return a_() + n; }
  reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
#ifdef FIXEDPROXY
  template <int I> T get_(size_t i, std::integral_constant<int, I>) const { if (i == I) return a_()[I]; return get_(i, std::integral_constant<int, I + 1>()); } T get_(size_t, std::integral_constant<int, FIXEDCAP>) const { return T(7777); }
  template <int I> void set_(size_t i, T x, std::integral_constant<int, I>) { if (i == I) { if (I < n) a_()[I] = x; return; } set_(i, x, std::integral_constant<int, I + 1>()); } void set_(size_t, T, std::integral_constant<int, FIXEDCAP>) {}
  struct proxy { fixedvec *v; size_t i; operator T() const { return v->get_(i, std::integral_constant<int, 0>()); } proxy &operator=(const T &x) { v->set_(i, x, std::integral_constant<int, 0>()); return *this; } proxy &operator=(const proxy &o) { return *this = T(o); }
    proxy &operator+=(const T &x) { return *this = T(*this) + x; } proxy &operator-=(const T &x) { return *this = T(*this) - x; } proxy &operator*=(const T &x) { return *this = T(*this) * x; } proxy &operator/=(const T &x) { return *this = T(*this) / x; } proxy &operator++() { return *this += 1; } T operator++(int) { T x(*this); *this = x + 1; return x; } proxy &operator--() { return *this -= 1; } };
  template <class U = T> typename std::enable_if<std::is_arithmetic<U>::value, proxy>::type operator[](size_t i) { return proxy{this, i}; } template <class U = T> typename std::enable_if<std::is_arithmetic<U>::value, U>::type operator[](size_t i) const { return get_(i, std::integral_constant<int, 0>()); }
  template <class U = T> typename std::enable_if<!std::is_arithmetic<U>::value, U>::type &operator[](size_t i) { return a_()[i]; } template <class U = T> const typename std::enable_if<!std::is_arithmetic<U>::value, U>::type &operator[](size_t i) const { return a_()[i]; }
#else
  T &operator[](size_t i) { FB(i < n + FBEND); return a_()[i]; } const T &operator[](size_t i) const { FB(i < n + FBEND); return a_()[i]; }
#endif
  T &at(size_t i) { FB(i < n); return a_()[i]; } const T &at(size_t i) const { FB(i < n); return a_()[i]; }
  T &front() { FB(n); return a_()[0]; } T &back() { FB(n); return a_()[n - 1]; } const T &front() const { FB(n); return a_()[0]; } const T &back() const { FB(n); return a_()[n - 1]; }
#ifdef FIXEDSWITCH
  template <int I> void put_(const T &x, std::integral_constant<int, I>) { if (n == I) { new (a_() + I) T(x); return; } put_(x, std::integral_constant<int, I + 1>()); } void put_(const T &x, std::integral_constant<int, FIXEDCAP>) {}
  void push_back(const T &x) { put_(x, std::integral_constant<int, 0>()); ++n; }
#else
  void push_back(const T &x) { FC(n < cap_()); new (a_() + n) T(x); ++n; } void push_back(T &&x) { FC(n < cap_()); new (a_() + n) T(std::move(x)); ++n; }
#endif
  void pop_back() { FB(n); --n; a_()[n].~T(); }
  template <class... X> void emplace_back(X &&...x) { FC(n < cap_()); new (a_() + n) T(std::forward<X>(x)...); ++n; }
  T *erase(const T *p) { T *r = begin() + (p - begin()); for (T *q = r; q + 1 != end(); ++q) *q = std::move(*(q + 1)); pop_back(); return r; }
  T *erase(const T *f, const T *l) { T *q = begin() + (f - begin()), *r = q; size_t k = l - f; for (T *p = begin() + (l - begin()); p != end(); ++p, ++q) *q = std::move(*p); if (RAWDROP(T)) { n -= k; return r; } while (end() != q) pop_back(); return r; }
  template <class It> T *insert(const T *p, It f, It l) { if (RAWCOPY(T) && std::is_pointer<It>::value && p == end()) { size_t k = l - f; memcpy((void *)end(), (const void *)&*f, k * sizeof(T)); n += k; return end() - k; } for (; f != l; ++f) p = insert(p, *f) + 1; return begin() + (p - begin()); }
  T *insert(const T *p, T x) { size_t k = p - begin(); push_back(x); for (size_t i = n - 1; i > k; --i) std::swap(a_()[i], a_()[i - 1]); return begin() + k; }
  template <class It> void assign(It f, It l) { clear(); for (; f != l; ++f) push_back(*f); }
  void assign(size_t k, const T &v) { clear(); for (size_t i = 0; i < k; ++i) push_back(v); } void assign(std::initializer_list<T> l) { clear(); for (auto &x : l) push_back(x); }
  T *insert(const T *p, std::initializer_list<T> l) { size_t k = p - begin(); for (auto &x : l) insert(begin() + k++, x); return begin() + (k - l.size()); }
  template <class... X> T *emplace(const T *p, X &&...x) { return insert(p, T(std::forward<X>(x)...)); }
  const_reverse_iterator crbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator crend() const { return const_reverse_iterator(begin()); } size_t max_size() const { return cap_(); }
  fixedvec &operator=(std::initializer_list<T> l) { assign(l); return *this; }
  void swap(fixedvec &o) { fixedvec t(std::move(o)); o = std::move(*this); *this = std::move(t); }
};
template <class T, class A> bool operator==(const fixedvec<T, A> &a, const fixedvec<T, A> &b);
template <class T, class A> void swap(fixedvec<T, A> &a, fixedvec<T, A> &b) { a.swap(b); }
template <class T, class A> bool operator!=(const fixedvec<T, A> &a, const fixedvec<T, A> &b) { return !(a == b); }
template <class T, class A> bool operator==(const fixedvec<T, A> &a, const fixedvec<T, A> &b) { if (a.n != b.n) return false; for (size_t i = 0; i < a.n; ++i) if (!(a[i] == b[i])) return false; return true; }
template <class T> struct plainptr {
  typedef T element_type; T *p;
  plainptr() : p(0) {} plainptr(std::nullptr_t) : p(0) {} explicit plainptr(T *q) : p(q) {}
  plainptr(const plainptr &o) : p(o.p) {} template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> plainptr(const plainptr<U> &o) : p(o.p) {}
  plainptr &operator=(const plainptr &o) { p = o.p; return *this; }
  plainptr &operator=(std::nullptr_t) { p = 0; return *this; }
  T *get() const { return p; } T *operator->() const { return p; } typename std::add_lvalue_reference<T>::type operator*() const { return *p; } explicit operator bool() const { return p != 0; }
  void reset(T *q = 0) { p = q; } T *release() { T *q = p; p = 0; return q; } plainptr lock() const { return *this; } long use_count() const { return 1; } bool unique() const { return true; } bool expired() const { return p == 0; }
  void swap(plainptr &o) { T *q = p; p = o.p; o.p = q; }
};
template <class T, class U> bool operator==(const plainptr<T> &a, const plainptr<U> &b) { return a.p == b.p; } template <class T, class U> bool operator!=(const plainptr<T> &a, const plainptr<U> &b) { return a.p != b.p; }
template <class T> bool operator==(std::nullptr_t, const plainptr<T> &a) { return a.p == 0; } template <class T> bool operator!=(std::nullptr_t, const plainptr<T> &a) { return a.p != 0; } template <class T, class U> bool operator<(const plainptr<T> &a, const plainptr<U> &b) { return a.p < b.p; }
template <class T> void swap(plainptr<T> &a, plainptr<T> &b) { a.swap(b); }
template <class T> bool operator==(const plainptr<T> &a, std::nullptr_t) { return a.p == 0; } template <class T> bool operator!=(const plainptr<T> &a, std::nullptr_t) { return a.p != 0; }
template <class T, class... X> plainptr<T> make_plainptr(X &&...x) { return plainptr<T>(new T(std::forward<X>(x)...)); }
template <class T, class U> plainptr<T> plain_dynamic_cast(const plainptr<U> &u) { return plainptr<T>(dynamic_cast<T *>(u.p)); }
template <class T, class U> plainptr<T> plain_static_cast(const plainptr<U> &u) { return plainptr<T>(static_cast<T *>(u.p)); }
}
"""
RC = r"""
namespace std { template <class T> struct rcptr { typedef T element_type; T *p; long *c;
  rcptr() : p(0), c(0) {} rcptr(std::nullptr_t) : p(0), c(0) {} template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> explicit rcptr(U *q) : p(q), c(new long(1)) {}
  rcptr(const rcptr &o) : p(o.p), c(o.c) { if (c) ++*c; } rcptr(rcptr &&o) : p(o.p), c(o.c) { o.p = 0; o.c = 0; }
  template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> rcptr(const rcptr<U> &o) : p(o.p), c(o.c) { if (c) ++*c; }
  template <class U, class = typename std::enable_if<std::is_convertible<U *, T *>::value>::type> rcptr(plainptr<U> o) : p(o.p), c(new long(1)) {}
  rcptr &operator=(const rcptr &o) { if (o.c) ++*o.c; drop_(); p = o.p; c = o.c; return *this; } rcptr &operator=(rcptr &&o) { if (this != &o) { drop_(); p = o.p; c = o.c; o.p = 0; o.c = 0; } return *this; }
  template <class U> rcptr &operator=(plainptr<U> o) { drop_(); p = o.p; c = new long(1); return *this; }
  ~rcptr() { drop_(); } void drop_() { if (c) --*c; }
  T *get() const { return p; } T *operator->() const { return p; } typename std::add_lvalue_reference<T>::type operator*() const { return *p; } explicit operator bool() const { return p != 0; }
  void reset() { drop_(); p = 0; c = 0; } void reset(T *q) { drop_(); p = q; c = new long(1); } long use_count() const { return c ? *c : 0; } bool unique() const { return c && *c == 1; }
  void swap(rcptr &o) { std::swap(p, o.p); std::swap(c, o.c); } };
template <class T> bool operator==(const rcptr<T> &a, std::nullptr_t) { return a.p == 0; } template <class T> bool operator!=(const rcptr<T> &a, std::nullptr_t) { return a.p != 0; }
template <class T, class U> bool operator==(const rcptr<T> &a, const rcptr<U> &b) { return a.p == b.p; } template <class T, class U> bool operator!=(const rcptr<T> &a, const rcptr<U> &b) { return a.p != b.p; }
template <class T, class... X> rcptr<T> make_rcptr(X &&...x) { return rcptr<T>(new T(std::forward<X>(x)...)); } }
#undef shared_ptr
#undef make_shared
#define shared_ptr rcptr
#define make_shared make_rcptr
"""
VEC = '#define vector fixedvec\n'
PTR = '#define shared_ptr plainptr\n#define unique_ptr plainptr\n#define weak_ptr plainptr\n#define make_shared make_plainptr\n#define make_unique make_plainptr\n#define dynamic_pointer_cast plain_dynamic_cast\n#define static_pointer_cast plain_static_cast\n'
# callables that are only invoked while the wrapped object lives
FUN = r"""
namespace std { template <class S> struct plainfunction; template <class R, class... A> struct plainfunction<R(A...)> { void *o; R (*f)(void *, A...);
  plainfunction() : o(0), f(0) {} template <class F, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, plainfunction>::value>::type> plainfunction(F &&x) : o((void *)&x), f(&call<typename std::remove_reference<F>::type>) {}
  template <class F> static R call(void *o, A... a) { return (*(F *)o)(std::forward<A>(a)...); }
  R operator()(A... a) const { return f(o, std::forward<A>(a)...); } explicit operator bool() const { return f != 0; } }; }
#define function plainfunction
"""
# random draws as an uninterpreted function of the seed and the number of draws made so far
RND = r"""
extern "C" double uf_gauss(unsigned long, unsigned long) __attribute__((const)); extern "C" double uf_unif(unsigned long, unsigned long) __attribute__((const));
namespace std { struct plainengine { typedef unsigned result_type; unsigned long seed, n; plainengine(unsigned long s = 5489u) : seed(s), n(0) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0xffffffffu; } };
template <class T = double> struct plainnormal { T m, s; plainnormal(T m = 0, T s = 1) : m(m), s(s) {} template <class E> T operator()(E &e) { return m + s * uf_gauss(e.seed, e.n++); } };
template <class T = double> struct plainuniform { T a, b; plainuniform(T a = 0, T b = 1) : a(a), b(b) {} template <class E> T operator()(E &e) { return a + (b - a) * uf_unif(e.seed, e.n++); } }; }
#define mt19937 plainengine
#define normal_distribution plainnormal
#define uniform_real_distribution plainuniform
"""
UNVEC = '#undef vector\n'
def models(cap=8, vec=True, ptr=True, fun=False, rnd=False, chars=None, bounds=False): return ('#define FIXEDBOUNDS\n#define FBEND %d\n' % (bounds == 'end') if bounds else '') + FIXED % (cap, chars or cap) + MODELS + (VEC if vec else '') + (PTR if ptr else '') + (FUN if fun else '') + (RND if rnd else '')

# storage without content: sizes and coordinates stay symbolic, loops over elements are empty
GHOST = r"""
extern char ghost_mem[64];
namespace std { template <class T, class A = void> struct ghostvec { typedef T value_type; typedef size_t size_type; typedef T *iterator; typedef const T *const_iterator; typedef T &reference; typedef const T &const_reference; typedef ptrdiff_t difference_type; typedef std::reverse_iterator<T *> reverse_iterator; typedef std::reverse_iterator<const T *> const_reverse_iterator;
  ghostvec() {} ghostvec(const ghostvec &) {} explicit ghostvec(size_t) {} ghostvec(size_t, const T &) {} ghostvec(std::initializer_list<T>) {} template <class It> ghostvec(It, It, typename std::enable_if<!std::is_integral<It>::value>::type * = 0) {} ghostvec &operator=(const ghostvec &) { return *this; }
  T *begin() const { return (T *)0; } T *end() const { return (T *)0; } T *cbegin() const { return (T *)0; } T *cend() const { return (T *)0; } reverse_iterator rbegin() const { return reverse_iterator((T *)0); } reverse_iterator rend() const { return reverse_iterator((T *)0); }
  size_t size() const { return 0; } bool empty() const { return true; } size_t capacity() const { return 0; } void push_back(const T &) {} template <class... X> void emplace_back(X &&...) {} void pop_back() {} void reserve(size_t) {} void resize(size_t) {} void resize(size_t, const T &) {} void clear() {} void shrink_to_fit() {} void swap(ghostvec &) {}
  T &operator[](size_t) const { return *(T *)ghost_mem; } T &at(size_t) const { return *(T *)ghost_mem; } T &front() const { return *(T *)ghost_mem; } T &back() const { return *(T *)ghost_mem; } T *data() const { return (T *)ghost_mem; }
  T *erase(const T *) { return 0; } T *erase(const T *, const T *) { return 0; } template <class It> T *insert(const T *, It, It) { return 0; } T *insert(const T *, T) { return 0; } template <class It> void assign(It, It) {} };
template <class T, class A> bool operator==(const ghostvec<T, A> &, const ghostvec<T, A> &) { return true; } }
"""
GARR = """
namespace std { template <class T, size_t N> struct ghostarr { T &operator[](size_t) const { return *(T *)ghost_mem; } T &at(size_t) const { return *(T *)ghost_mem; } T *begin() const { return (T *)0; } T *end() const { return (T *)0; } T *data() const { return (T *)0; } size_t size() const { return N; } void fill(const T &) {} }; }
#define array ghostarr
"""
GVEC = '#define vector ghostvec\n'
