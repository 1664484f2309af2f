// Conformance harness core: everything a component driver needs.
//
// A driver executes named operations of one ttl component (two or three
// container instances) and reports what can be observed.  core.cpp replays TLC's
// state graph on a driver ("walk"), records random histories for TLC to judge
// ("trace") and re-executes stored ones ("replay", "retrace").
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <sanitizer/asan_interface.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <stdint.h>
#include <new>
#include <vector>

namespace vf {

// Harness memory comes from malloc, so that operator new sees ttl's requests only.
template<class T> struct MA
{
   typedef T value_type;
   MA() {}
   template<class U> MA(const MA<U> &) {}
   T *allocate(size_t n) { return static_cast<T *>(malloc(n * sizeof(T) + !n)); }
   void deallocate(T *p, size_t) { free(p); }
   template<class U> bool operator==(const MA<U> &) const { return true; }
   template<class U> bool operator!=(const MA<U> &) const { return false; }
};
template<class T> using vec = std::vector<T, MA<T> >;
typedef vec<int> IV;
typedef vec<long> LV;

constexpr unsigned H(const char *s, unsigned h = 2166136261u)
{
   return *s ? H(s + 1, (h ^ (unsigned char)*s) * 16777619u) : h;
}

// Records the first failure of the current walk.
void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();

enum { MAXARGS = 400 };
struct Op
{
   unsigned h;
   char name[20];
   int n;
   int a[MAXARGS];
   Op(): h(0), n(0) { name[0] = 0; }
   void set(const char *nm) { snprintf(name, sizeof name, "%.19s", nm); h = H(nm); n = 0; }
   Op &operator()(const char *nm) { set(nm); return *this; }
   Op &operator,(int v) { if (n < MAXARGS) a[n++] = v; return *this; }
};

struct Inst // contents of one container instance: tokens of w values each
{
   IV v;
   LV id; // one per token; -1: the element type has no identity
   int w;
   Inst(): w(1) {}
   void clear() { v.clear(); id.clear(); }
   void add(int x, long i = -1) { v.push_back(x); id.push_back(i); }
   void add(int k, int x, long i) { v.push_back(k); v.push_back(x); id.push_back(i); }
   int size() const { return (int)id.size(); }
};
enum { MAXINST = 3 };
struct Obs
{
   Inst inst[MAXINST];
   int ninst;
   IV x; // further observable integers (specification field x)
   LV aux; // recorded in traces only (capacities, counters), judged by the trace specification
   Obs(): ninst(0) {}
};

struct Rng
{
   uint64_t s;
   explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
   uint64_t next()
   {
      s ^= s << 13; s ^= s >> 7; s ^= s << 17;
      return s * 0x2545F4914F6CDD1Dull;
   }
   int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (unsigned)n); }
   int in(int lo, int hi) { return lo + below(hi - lo + 1); }
   bool chance(int pct) { return below(100) < pct; }
};

struct Limits { int maxa, maxb, nvals, maxn; };

struct Driver
{
   virtual ~Driver() {}
   virtual void reset() = 0;
   virtual void apply(const Op &, IV &reply) = 0;
   virtual void observe(Obs &) = 0;
   virtual void finish() = 0;
   virtual bool ids() const { return false; }       // node identities are meaningful
   virtual long live(const Obs &o) const            // tracked objects that must be alive
   {
      long n = 0;
      for (int i = 0; i < o.ninst; ++i)
         n += o.inst[i].size();
      return n;
   }
   virtual bool random_call(Rng &, const Obs &, const Limits &, Op &) { return false; }
   virtual bool random_fresh() const { return false; }
};
// Provided by the component; configs() lists the names, first one the default.
Driver *make_driver(const char *config);
extern const char *const component_configs[];

///////////////////////////////////////////////////////////////////////////
// Allocation accounting (operator new/delete are replaced in core.cpp).
struct Mem { long allocs, frees, blocks; };
extern Mem mem;

///////////////////////////////////////////////////////////////////////////
// Element whose objects are tracked: address -> serial of the construction.
struct Reg
{
   static long born(const void *);         // constructing; fails if alive already
   static void dies(const void *);         // destroying; fails if not alive
   static long check(const void *, const char *what); // serial, or fails
   static long count();
   static void clear();
};
extern long ncmp, ncopied; // comparisons of elements made so far, copies
extern long napplied; // applications of functions given to algorithms
struct E
{
   int v;
   int pad;
   double fill;
   E(): v(0), pad(1), fill(0) { Reg::born(this); }
   E(int x): v(x), pad(1), fill(0) { Reg::born(this); }
   E(const E &o): v(o.get("copied from")), pad(1), fill(0) { ++ncopied; Reg::born(this); }
   E &operator=(const E &o)
   {
      ++ncopied;
      int x = o.get("assigned from");
      Reg::check(this, "assigned to");
      v = x;
      return *this;
   }
   ~E() { Reg::dies(this); v = -77777; }
   int get(const char *what) const { Reg::check(this, what); return v; }
};
inline bool operator==(const E &a, const E &b) { ++ncmp; return a.get("compared") == b.get("compared"); }
inline bool operator!=(const E &a, const E &b) { ++ncmp; return a.get("compared") != b.get("compared"); }
inline bool operator<(const E &a, const E &b) { ++ncmp; return a.get("compared") < b.get("compared"); }
inline bool operator>(const E &a, const E &b) { ++ncmp; return a.get("compared") > b.get("compared"); }

///////////////////////////////////////////////////////////////////////////
// Concretisation of the abstract values 0..k: monotone, 0 is the default value.
template<class T> struct Tr
{
   static T mk(int k) { return (T)k; }
   static int val(const T &t) { return (int)t; }
   static long id(const T &) { return -1; }
   static const bool tracked = false;
};
template<> struct Tr<E>
{
   static E mk(int k) { return E(k); }
   static int val(const E &e) { return e.get("read"); }
   static long id(const E &e) { return Reg::check(&e, "read"); }
   static const bool tracked = true;
};
// Keys on both sides of zero, so far apart that their difference overflows.
template<> struct Tr<long>
{
   enum : long { LOW = -0x7fffffffffffffffl - 1 + 5000, STEP = 70368744177679l };
   static long mk(int k) { return k < 3 ? LOW + k : (k - 3) * STEP; }
   static int val(long t) { return t < 0 ? (int)(t - LOW) : t % STEP ? -5 : (int)(t / STEP) + 3; }
   static long id(long) { return -1; }
   static const bool tracked = false;
};
// Values between the whole numbers.
template<> struct Tr<double>
{
   // ... and of the two zeros, which are equal, each in turn.
   static double mk(int k) { static bool minus; return k ? k / 4.0 : (minus = !minus) ? -0.0 : 0.0; }
   static int val(double t) { int k = (int)(t * 4); return k / 4.0 == t ? k : -5; }
   static long id(double) { return -1; }
   static const bool tracked = false;
};
// Values at the far ends of int's range.  (Without a constructor that does anything:
// one that was not given a value has none.)
struct XI
{
   int v;
   XI() = default;
   XI(int x): v(x) {}
};
inline bool operator==(const XI &a, const XI &b) { return a.v == b.v; }
inline bool operator!=(const XI &a, const XI &b) { return a.v != b.v; }
inline bool operator<(const XI &a, const XI &b) { return a.v < b.v; }
inline bool operator>(const XI &a, const XI &b) { return a.v > b.v; }
template<> struct Tr<XI>
{
   static XI mk(int k) { return XI(k == 0 ? 0 : INT_MAX - 1000 + k); }
   static int val(const XI &t) { return t.v == 0 ? 0 : t.v - (INT_MAX - 1000); }
   static long id(const XI &) { return -1; }
   static const bool tracked = false;
};
// Odd-sized trivially copyable element; the same value has more than one representation.
struct B3
{
   unsigned char c[3];
   static unsigned char mark() { static unsigned char n; return 7 | (++n & 3) << 6; }
   B3() { c[0] = c[1] = 0; c[2] = mark(); }
   B3(int x) { c[0] = (unsigned char)x; c[1] = (unsigned char)(x >> 8); c[2] = mark(); }
   int get() const { return (c[2] & 63) == 7 ? c[0] | c[1] << 8 : -5; }
};
inline bool operator==(const B3 &a, const B3 &b) { return a.get() == b.get(); }
inline bool operator!=(const B3 &a, const B3 &b) { return a.get() != b.get(); }
inline bool operator<(const B3 &a, const B3 &b) { return a.get() < b.get(); }
inline bool operator>(const B3 &a, const B3 &b) { return a.get() > b.get(); }
template<> struct Tr<B3>
{
   static B3 mk(int k) { return B3(k); }
   static int val(const B3 &t) { return t.get(); }
   static long id(const B3 &) { return -1; }
   static const bool tracked = false;
};

// Wants the strictest alignment any fundamental type has; says so at every place
// where an object of it is made.
struct alignas(16) Q
{
   long v;
   long sum;
   void here() const { if ((size_t)this % 16) fail("life", "an element at an address which is not aligned for its type"); }
   Q(): v(0), sum(~0l) { here(); }
   Q(int x): v(x), sum(~(long)x) { here(); }
   Q(const Q &o): v(o.v), sum(o.sum) { here(); }
   Q &operator=(const Q &o) { v = o.v; sum = o.sum; here(); return *this; }
   int get() const { here(); return v == ~sum ? (int)v : -5; }
};
inline bool operator==(const Q &a, const Q &b) { return a.get() == b.get(); }
inline bool operator!=(const Q &a, const Q &b) { return a.get() != b.get(); }
inline bool operator<(const Q &a, const Q &b) { return a.get() < b.get(); }
inline bool operator>(const Q &a, const Q &b) { return a.get() > b.get(); }
template<> struct Tr<Q>
{
   static Q mk(int k) { return Q(k); }
   static int val(const Q &t) { return t.get(); }
   static long id(const Q &) { return -1; }
   static const bool tracked = false;
};

// Storage for a container that is constructed and destroyed explicitly.  Each
// lives in its own malloc block, so that ASan sees accesses beside it.
template<class C> struct Slot
{
   // ... and no better aligned than its type asks for.
   enum { SHIFT = alignof(C) == 8 ? 8 : 0 };
   C *p;
   char *base;
   Slot(): p(0), base(0) {}
   void *raw()
   {
      base = static_cast<char *>(malloc(SHIFT + sizeof(C) + !sizeof(C)));
      if (SHIFT)
         ASAN_POISON_MEMORY_REGION(base, SHIFT);
      return p = static_cast<C *>(static_cast<void *>(base + SHIFT));
   }
   void make() { ::new(raw()) C; }
   template<class X> void make(const X &x) { ::new(raw()) C(x); }
   template<class X, class Y> void make(const X &x, const Y &y) { ::new(raw()) C(x, y); }
   void kill() { if (p) { p->~C(); ASAN_UNPOISON_MEMORY_REGION(base, SHIFT); free(base); p = 0; } }
   C &operator*() const { return *p; }
   C *operator->() const { return p; }
};

// Reply bookkeeping
enum { TOOMANY = 400000 };

} // namespace vf
using namespace vf;
#endif
