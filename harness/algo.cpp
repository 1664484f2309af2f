// Driver for Algo.tla: the algorithms.
#include <ttl/ttl.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/functional.hpp>
#include "iters.hpp"

// Equal by halves: 0 == 1 < 2 == 3 ...
struct K2
{
   int v;
   K2(): v(0) {}
   K2(int x): v(x) {}
};
inline bool operator==(const K2 &a, const K2 &b) { return a.v / 2 == b.v / 2; }
inline bool operator!=(const K2 &a, const K2 &b) { return a.v / 2 != b.v / 2; }
inline bool operator<(const K2 &a, const K2 &b) { return a.v / 2 < b.v / 2; }
inline bool operator>(const K2 &a, const K2 &b) { return a.v / 2 > b.v / 2; }
// Ordered by halves, equal only when the same.
struct P2
{
   int v;
   P2(): v(0) {}
   P2(int x): v(x) {}
};
inline bool operator==(const P2 &a, const P2 &b) { return a.v == b.v; }
inline bool operator!=(const P2 &a, const P2 &b) { return a.v != b.v; }
inline bool operator<(const P2 &a, const P2 &b) { return a.v / 2 < b.v / 2; }
inline bool operator>(const P2 &a, const P2 &b) { return a.v / 2 > b.v / 2; }
namespace vf {
template<class K> struct Halves
{
   static K mk(int k) { return K(k); }
   static int val(const K &t) { return t.v; }
   static long id(const K &) { return -1; }
   static const bool tracked = false;
};
template<> struct Tr<K2>: Halves<K2> {};
template<> struct Tr<P2>: Halves<P2> {};
}

// Bytes and what they are promoted to, on both sides of zero.
namespace vf {
template<class T> struct Small
{
   static T mk(int k) { return (T)(k - 2); }
   static int val(T t) { return (unsigned char)(t + 2); }
   static long id(T) { return -1; }
   static const bool tracked = false;
};
template<> struct Tr<signed char>: Small<signed char> {};
template<> struct Tr<short>: Small<short> {};
template<> struct Tr<char>: Small<char> {};
}

// The value an algorithm is given, of type W, for elements of type T.  FAR and above are
// values which no element has; where W is wider, converted to T they are elements' values.
enum { FAR_ = 90 };
template<class T, class W, bool wider = (sizeof(W) > sizeof(T))> struct Given
{
   static W mk(int k) { return vf::Tr<W>::mk(k); }
};
template<class T, class W> struct Given<T, W, true>
{
   static W mk(int k) { return k < FAR_ ? (W)vf::Tr<T>::mk(k) : (W)vf::Tr<T>::mk(k - FAR_) + ((W)1 << (8 * sizeof(T))); }
};

// A copy of a number is that number, to the sign of a zero.
template<class T, class U> void alike(const T *, const T *, const U *, bool) {}
inline void alike(const double *p, const double *e, const double *from, bool many)
{
   for (; p != e; ++p, from += many)
      if (memcmp(p, from, sizeof(*p)))
         fail("content", "%g for %g", *p, *from);
}

enum { Blank = 77 };
template<class T> struct Rel
{
   int r;
   bool operator()(const T &a, const T &b) const { return r == 0 ? a == b : r == 1 ? a < b : b < a; }
};
template<class T> struct Pred
{
   int p;
   bool operator()(const T &a) const { ++napplied; int v = Tr<T>::val(a); return p == 0 ? v % 2 == 1 : v != 0; }
};
template<class T> struct Fun { T operator()(const T &a) const { ++napplied; return Tr<T>::mk(Tr<T>::val(a) + 10); } };
template<class T> struct Not { T operator()(const T &a) const { ++napplied; return Tr<T>::mk(Tr<T>::val(a) == 0); } };
template<class T> struct Fun2 { T operator()(const T &a, const T &b) const { ++napplied; return Tr<T>::mk(10 * Tr<T>::val(a) + Tr<T>::val(b) + 100); } };
template<class T> struct Gen { int *n; T operator()() const { ++napplied; return Tr<T>::mk((*n)++); } };
template<class T> struct See { IV *log; int n; void operator()(const T &a) { ++napplied; log->push_back(Tr<T>::val(a)); ++n; } };

// Numbers by position.
struct Far
{
   long i;
   long operator*() const { return i; }
   Far &operator++() { ++i; return *this; }
   Far operator++(int) { Far p = *this; ++i; return p; }
   Far &operator--() { --i; return *this; }
   Far &operator+=(long n) { i += n; return *this; }
   Far &operator-=(long n) { i -= n; return *this; }
   Far operator+(long n) const { Far p = { i + n }; return p; }
   Far operator-(long n) const { Far p = { i - n }; return p; }
   long operator-(const Far &o) const { return i - o.i; }
   long operator[](long n) const { return i + n; }
   bool operator==(const Far &o) const { return i == o.i; }
   bool operator!=(const Far &o) const { return i != o.i; }
   bool operator<(const Far &o) const { return i < o.i; }
};
struct FarLess { bool operator()(long a, long b) const { return a < b; } };

// Exactly n objects in a block of their own.
template<class T> struct Buf
{
   T *p;
   int n;
   Buf(): p(0), n(0) {}
   Buf(const int *v, int k): p(0), n(0) { set(v, k); }
   ~Buf() { clear(); }
   void clear() { for (int k = 0; k < n; ++k) p[k].~T(); free(p); p = 0; n = 0; }
   void set(const int *v, int k)
   {
      clear();
      p = (T *)malloc(k * sizeof(T) + !k);
      for (; n < k; ++n)
         ::new((void *)(p + n)) T(Tr<T>::mk(v[n]));
   }
   T *end() { return p + n; }
};
// Somewhere to write up to n objects to.
template<class T> struct Out
{
   Buf<T> b;
   explicit Out(int n) { IV v; v.assign(n + 2, Blank); b.set(v.data(), n + 2); }
   T *begin() { return b.p + 1; }
   T *end() { return b.p + b.n - 1; }
   void show(T *at, IV &r)
   {
      r.push_back((int)(at - begin()));
      for (int k = 0; k < b.n; ++k)
         r.push_back(Tr<T>::val(b.p[k]));
   }
};

// The range is one of K's iterators to T; the other range or the output one of KS's to
// U; the values given are of type W.
template<class K, class T, class KS = K, class U = T, class W = U> struct AlgoDriver: Driver
{
   typedef const T CT;
   typedef const U CU;
   Buf<T> a;
   void reset() override { a.clear(); a.set(0, 0); }
   void finish() override { a.clear(); }
   void observe(Obs &o) override
   {
      o.ninst = 1;
      for (int k = 0; k < a.n; ++k)
         o.inst[0].add(Tr<T>::val(a.p[k]), Tr<T>::id(a.p[k]));
   }
   long live(const Obs &o) const override { return Tr<T>::tracked ? o.inst[0].size() : -1; }
   int pos(const T *p) { return (int)(p - a.p); }
   template<class I> int at(const I &i) { return pos(K::base(i)); }
   template<class I> int at2(const I &i) { return pos(KS::base(i)); }

   void apply(const Op &o, IV &r) override
   {
      const int *x = o.a;
      if (o.h == H("load")) { a.set(x, o.n); return; }
      if (o.h == H("load_run"))
      {
         IV v;
         for (int k = 0; k < x[0]; ++k)
            v.push_back(x[3] + k / x[1] % x[2]);
         a.set(v.data(), x[0]);
         return;
      }
      if (o.h == H("drop")) { a.set(0, 0); return; }
      T *f = a.p + x[0], *l = a.p + x[1];
      CT *cf = f, *cl = l;
      const int n = x[1] - x[0];
      W val = Given<T, W>::mk(o.n > 2 ? x[2] : 0), val2 = Given<T, W>::mk(o.n > 3 ? x[3] : 0);
      const W &v = val, &w = val2;
      const Pred<T> pred = { o.n > 2 ? x[2] : 0 };
      switch (o.h)
      {
#define IN_ Range<K, IN, CT> R(cf, cl)
#define FWD_ Range<K, FWD, CT> R(cf, cl)
#define MFWD_ Range<K, FWD, T> R(f, l)
#define RA_ Range<K, RA, CT> R(cf, cl)
#define SECOND(cat, skip) Buf<U> sb(x + skip, o.n - skip); Range<KS, cat, CU> S(sb.p, sb.end())
#define OUT_(room) Out<U> ob(room); Range<KS, IN, U> D(ob.begin(), ob.end())
#define SHOW(it) ob.show(KS::base(it), r)
      // non-modifying
      case H("find"): { IN_; r.push_back(at(ttl::find(R.first, R.last, v))); break; }
      case H("find_if"): { IN_; r.push_back(at(ttl::find_if(R.first, R.last, pred))); break; }
      case H("find_if_not"): { IN_; r.push_back(at(ttl::find_if_not(R.first, R.last, pred))); break; }
      case H("search"): { FWD_; SECOND(FWD, 2); r.push_back(at(ttl::search(R.first, R.last, S.first, S.last))); break; }
      case H("search_p"): { FWD_; SECOND(FWD, 3); Rel<T> q = { x[2] }; r.push_back(at(ttl::search(R.first, R.last, S.first, S.last, q))); break; }
      case H("search_n"): { FWD_; r.push_back(at(ttl::search_n(R.first, R.last, x[2], w))); break; }
      case H("search_n_p"): { FWD_; Rel<T> q = { x[4] }; r.push_back(at(ttl::search_n(R.first, R.last, x[2], w, q))); break; }
      case H("count"): { IN_; r.push_back(ttl::count(R.first, R.last, v)); break; }
      case H("count_if"): { IN_; r.push_back(ttl::count_if(R.first, R.last, pred)); break; }
      case H("all_of"): { IN_; r.push_back(ttl::all_of(R.first, R.last, pred)); break; }
      case H("any_of"): { IN_; r.push_back(ttl::any_of(R.first, R.last, pred)); break; }
      case H("none_of"): { IN_; r.push_back(ttl::none_of(R.first, R.last, pred)); break; }
      case H("adjacent_find"): { FWD_; r.push_back(at(ttl::adjacent_find(R.first, R.last))); break; }
      case H("adjacent_find_p"): { FWD_; Rel<T> q = { x[2] }; r.push_back(at(ttl::adjacent_find(R.first, R.last, q))); break; }
      case H("for_each"): { IN_; See<T> s = { &r, 0 }; s = ttl::for_each(R.first, R.last, s); r.push_back(s.n); break; }
      case H("equal3"): { IN_; SECOND(IN, 2); r.push_back(ttl::equal(R.first, R.last, S.first)); break; }
      case H("equal4"): { IN_; SECOND(IN, 2); r.push_back(ttl::equal(R.first, R.last, S.first, S.last)); break; }
      case H("equal3p"): { IN_; SECOND(IN, 3); Rel<T> q = { x[2] }; r.push_back(ttl::equal(R.first, R.last, S.first, q)); break; }
      case H("equal4p"): { IN_; SECOND(IN, 3); Rel<T> q = { x[2] }; r.push_back(ttl::equal(R.first, R.last, S.first, S.last, q)); break; }
#define TWO(call) { auto m = call; r.push_back(at(m.first)); r.push_back((int)(KS::base(m.second) - sb.p)); break; }
      case H("mismatch3"): { IN_; SECOND(IN, 2); TWO(ttl::mismatch(R.first, R.last, S.first)) }
      case H("mismatch4"): { IN_; SECOND(IN, 2); TWO(ttl::mismatch(R.first, R.last, S.first, S.last)) }
      case H("mismatch3p"): { IN_; SECOND(IN, 3); Rel<T> q = { x[2] }; TWO(ttl::mismatch(R.first, R.last, S.first, q)) }
      case H("mismatch4p"): { IN_; SECOND(IN, 3); Rel<T> q = { x[2] }; TWO(ttl::mismatch(R.first, R.last, S.first, S.last, q)) }
      // modifying
      case H("iter_swap"):
      {
         Range<K, FWD, T> P(f, f + 1);
         Range<KS, FWD, T> Q(l, l + 1);
         ttl::iter_swap(P.first, Q.first);
         break;
      }
      case H("swap_ranges"):
      {
         MFWD_;
         Buf<T> sb(x + 2, o.n - 2);
         Range<KS, FWD, T> S(sb.p, sb.end());
         auto e = ttl::swap_ranges(R.first, R.last, S.first);
         r.push_back((int)(KS::base(e) - sb.p));
         for (int k = 0; k < sb.n; ++k)
            r.push_back(Tr<T>::val(sb.p[k]));
         break;
      }
      case H("swap_ranges_in"): { MFWD_; Range<KS, FWD, T> S(a.p + x[2], a.p + x[2] + n); r.push_back(at2(ttl::swap_ranges(R.first, R.last, S.first))); break; }
      case H("fill"): { MFWD_; ttl::fill(R.first, R.last, v); alike(f, l, &v, false); break; }
      case H("fill_n"): { Range<K, IN, T> R(f, f + (x[1] > 0 ? x[1] : 0)); r.push_back(at(ttl::fill_n(R.first, x[1], v))); alike(f, f + (x[1] > 0 ? x[1] : 0), &v, false); break; }
      case H("copy"): { IN_; OUT_(n); SHOW(ttl::copy(R.first, R.last, D.first)); if (n > 0) alike(ob.begin(), ob.begin() + n, (const U *)(const void *)f, true); break; }
      case H("copy_in"): { IN_; Range<KS, IN, T> D(a.p + x[2], a.p + x[2] + n); r.push_back(at2(ttl::copy(R.first, R.last, D.first))); break; }
      case H("copy_if"): { IN_; OUT_(n); SHOW(ttl::copy_if(R.first, R.last, D.first, pred)); break; }
      case H("copy_n"): { int k = x[1] > 0 ? x[1] : 0; Range<K, IN, CT> R(cf, cf + k); OUT_(k); SHOW(ttl::copy_n(R.first, x[1], D.first)); break; }
      case H("copy_n_in"):
      {
         int k = x[1] > 0 ? x[1] : 0;
         Range<K, IN, CT> R(cf, cf + k);
         Range<KS, IN, T> D(a.p + x[2], a.p + x[2] + k);
         r.push_back(at2(ttl::copy_n(R.first, x[1], D.first)));
         break;
      }
      case H("copy_backward"):
      {
         Range<K, BID, CT> R(cf, cl);
         Out<U> ob(n);
         Range<KS, BID, U> D(ob.begin(), ob.end());
         SHOW(ttl::copy_backward(R.first, R.last, D.last));
         break;
      }
      case H("copy_backward_in"):
      {
         Range<K, BID, CT> R(cf, cl);
         Range<KS, BID, T> D(a.p + x[2] - n, a.p + x[2]);
         r.push_back(at2(ttl::copy_backward(R.first, R.last, D.last)));
         break;
      }
      case H("generate"): { MFWD_; int c = x[2]; Gen<T> g = { &c }; ttl::generate(R.first, R.last, g); r.push_back(c - x[2]); break; }
      case H("generate_n"):
      {
         Range<K, IN, T> R(f, f + (x[1] > 0 ? x[1] : 0));
         int c = x[2];
         Gen<T> g = { &c };
         r.push_back(at(ttl::generate_n(R.first, x[1], g)));
         r.push_back(c - x[2]);
         break;
      }
      case H("replace"): { MFWD_; ttl::replace(R.first, R.last, v, w); break; }
      case H("replace_if"): { MFWD_; ttl::replace_if(R.first, R.last, pred, w); break; }
      case H("replace_copy"): { IN_; OUT_(n); SHOW(ttl::replace_copy(R.first, R.last, D.first, v, w)); break; }
      case H("replace_copy_if"): { IN_; OUT_(n); SHOW(ttl::replace_copy_if(R.first, R.last, D.first, pred, w)); break; }
      case H("remove"):
      case H("remove_if"):
      {
         MFWD_;
         T *e = K::base(o.h == H("remove") ? ttl::remove(R.first, R.last, v) : ttl::remove_if(R.first, R.last, pred));
         r.push_back(pos(e));
         if (e >= f && e <= l)
            for (; e != l; ++e)
               *e = Tr<T>::mk(0);
         break;
      }
      case H("remove_copy"): { IN_; OUT_(n); SHOW(ttl::remove_copy(R.first, R.last, D.first, v)); break; }
      case H("remove_copy_if"): { IN_; OUT_(n); SHOW(ttl::remove_copy_if(R.first, R.last, D.first, pred)); break; }
      case H("transform"): { IN_; OUT_(n); SHOW(ttl::transform(R.first, R.last, D.first, Fun<T>())); break; }
      case H("transform2"): { IN_; SECOND(IN, 2); OUT_(n); SHOW(ttl::transform(R.first, R.last, S.first, D.first, Fun2<T>())); break; }
      case H("transform_in"): { IN_; Range<KS, IN, T> D(f, l); r.push_back(at2(ttl::transform(R.first, R.last, D.first, Not<T>()))); break; }
      case H("reverse"): { Range<K, BID, T> R(f, l); ttl::reverse(R.first, R.last); break; }
      case H("reverse_copy"): { Range<K, BID, CT> R(cf, cl); OUT_(n); SHOW(ttl::reverse_copy(R.first, R.last, D.first)); break; }
      // sorted ranges
      case H("lower_bound"): { RA_; r.push_back(at(ttl::lower_bound(R.first, R.last, v))); break; }
      case H("upper_bound"): { RA_; r.push_back(at(ttl::upper_bound(R.first, R.last, v))); break; }
      case H("equal_range"): { RA_; auto m = ttl::equal_range(R.first, R.last, v); r.push_back(at(m.first)); r.push_back(at(m.second)); break; }
      case H("binary_search"): { RA_; r.push_back(ttl::binary_search(R.first, R.last, v)); break; }
#define CMP_ RA_; Rel<T> c = { x[3] }
      case H("lower_bound_c"): { CMP_; r.push_back(at(ttl::lower_bound(R.first, R.last, v, c))); break; }
      case H("upper_bound_c"): { CMP_; r.push_back(at(ttl::upper_bound(R.first, R.last, v, c))); break; }
      case H("equal_range_c"): { CMP_; auto m = ttl::equal_range(R.first, R.last, v, c); r.push_back(at(m.first)); r.push_back(at(m.second)); break; }
      case H("binary_search_c"): { CMP_; r.push_back(ttl::binary_search(R.first, R.last, v, c)); break; }
      case H("is_sorted_until"): { FWD_; r.push_back(at(ttl::is_sorted_until(R.first, R.last))); break; }
      case H("is_sorted"): { FWD_; r.push_back(ttl::is_sorted(R.first, R.last)); break; }
      case H("merge"): { IN_; SECOND(IN, 2); OUT_(n + o.n - 2); SHOW(ttl::merge(R.first, R.last, S.first, S.last, D.first)); break; }
      // minimum, maximum
      case H("min"): which(&ttl::min(*cf, *cl), cf, cl, r); break;
      case H("max"): which(&ttl::max(*cf, *cl), cf, cl, r); break;
      case H("minmax"): { auto m = ttl::minmax(*cf, *cl); which(&m.first, cf, cl, r); which2(&m.second, cf, cl, r); break; }
      case H("min_c"): { Rel<T> c = { x[2] }; which(&ttl::min(*cf, *cl, c), cf, cl, r); break; }
      case H("max_c"): { Rel<T> c = { x[2] }; which(&ttl::max(*cf, *cl, c), cf, cl, r); break; }
      case H("minmax_c"): { Rel<T> c = { x[2] }; auto m = ttl::minmax(*cf, *cl, c); which(&m.first, cf, cl, r); which2(&m.second, cf, cl, r); break; }
      case H("min_element"): { FWD_; r.push_back(at(ttl::min_element(R.first, R.last))); break; }
      case H("max_element"): { FWD_; r.push_back(at(ttl::max_element(R.first, R.last))); break; }
      case H("minmax_element"): { FWD_; auto m = ttl::minmax_element(R.first, R.last); r.push_back(at(m.first)); r.push_back(at(m.second)); break; }
      case H("far_lower"): case H("far_upper"): case H("far_equal"): case H("far_search"): far(o, r); break;
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   // The numbers from 0 on, more than a buffer would hold: x[0] times 2^28; the value x[1] times 2^28 and x[2].
   static void far(const Op &o, IV &r)
   {
      const int *x = o.a;
      const Far b = { 0 }, e = { (long)x[0] << 28 };
      const long v = ((long)x[1] << 28) + x[2];
      const bool c = x[3];
      switch (o.h)
      {
      case H("far_lower"): part(r, c ? ttl::lower_bound(b, e, v, FarLess()) : ttl::lower_bound(b, e, v)); break;
      case H("far_upper"): part(r, c ? ttl::upper_bound(b, e, v, FarLess()) : ttl::upper_bound(b, e, v)); break;
      case H("far_equal"):
      {
         ttl::pair<Far, Far> m = c ? ttl::equal_range(b, e, v, FarLess()) : ttl::equal_range(b, e, v);
         part(r, m.first), part(r, m.second);
         break;
      }
      case H("far_search"): r.push_back(c ? ttl::binary_search(b, e, v, FarLess()) : ttl::binary_search(b, e, v)); break;
      }
   }
   static void part(IV &r, Far p)
   {
      r.push_back(p.i >> 28);
      r.push_back(p.i & ((1l << 28) - 1));
   }
   static void which(CT *p, CT *x, CT *y, IV &r) { r.push_back(p == x ? 0 : p == y ? 1 : -1); }
   static void which2(CT *p, CT *x, CT *y, IV &r) { r.push_back(p == y ? 1 : p == x ? 0 : -1); }

   bool random_call(Rng &g, const Obs &o, const Limits &lim, Op &op) override
   {
      const Inst &in = o.inst[0];
      const int n = in.size(), V = lim.nvals;
      if (n == 0 || g.chance(8))
      {
         op("load");
         int k = g.in(1, lim.maxa), v = 0, kind = g.below(4);
         while (k--)
         {
            v = kind == 0 ? g.below(V) : kind == 1 ? (g.chance(50) ? v : v + g.below(2) + (int)g.chance(10)) : kind == 2 ? (g.chance(70) ? v : g.below(V)) : g.below(2);
            op, v;
         }
         return true;
      }
      int f = g.chance(40) ? 0 : g.in(0, n), l = g.chance(40) ? n : g.in(0, n);
      if (f > l) { int t = f; f = l; l = t; }
      int v = g.chance(60) ? in.v[g.below(n)] : g.below(V + 2), w = g.below(V), m = g.below(3), p = g.below(2);
      int len = l - f;
      int u = g.chance(10) ? FAR_ + g.below(V) : v;
      IV s; // a second range: often a piece of the first
      {
         int k = g.chance(50) ? g.in(0, 4) : g.in(0, len + 2), at = g.in(f, l);
         while (k-- && (int)s.size() < 70)
         {
            s.push_back(at < l && !g.chance(6) ? in.v[at] : g.below(V));
            ++at;
         }
      }
      bool eq = g.chance(50); // as long as the range and mostly equal
      if (eq)
      {
         s.assign(in.v.begin() + f, in.v.begin() + l);
         if (g.chance(60) && !s.empty()) s[g.below((int)s.size())] = g.below(V);
         if (g.chance(30)) s.push_back(g.below(V));
         else if (g.chance(15) && !s.empty()) s.pop_back();
         if ((int)s.size() > 70) s.resize(70);
      }
      auto add = [&]() { for (size_t k = 0; k < s.size(); ++k) op, s[k]; };
      auto ordered = [&](const IV &q, size_t b, size_t e, int r) {
         for (size_t k = b; k + 1 < e; ++k)
         {
            T x = Tr<T>::mk(q[k]), y = Tr<T>::mk(q[k + 1]);
            if (r == 1 ? y < x : y > x) return false;
         }
         return true;
      };
      bool longer = (int)s.size() >= len;
      switch (g.below(60))
      {
      case 0: op("find"), f, l, u; return true;
      case 1: op("find_if"), f, l, p; return true;
      case 2: op("find_if_not"), f, l, p; return true;
      case 3: case 4: case 5: op("search"), f, l; add(); return true;
      case 6: op("search_p"), f, l, m; add(); return true;
      case 7: case 8: op("search_n"), f, l, g.in(-1, 5), u; return true;
      case 9: op("search_n_p"), f, l, g.in(-1, 5), v, m; return true;
      case 10: op("count"), f, l, u; return true;
      case 11: op("count_if"), f, l, p; return true;
      case 12: { static const char *const q[] = { "all_of", "any_of", "none_of" }; op(q[g.below(3)]), f, l, p; return true; }
      case 13: op("adjacent_find"), f, l; return true;
      case 14: op("adjacent_find_p"), f, l, m; return true;
      case 15: op("for_each"), f, l; return true;
      case 16: if (!longer) return false; op("equal3"), f, l; add(); return true;
      case 17: op("equal4"), f, l; add(); return true;
      case 18: if (!longer) return false; op("equal3p"), f, l, m; add(); return true;
      case 19: op("equal4p"), f, l, m; add(); return true;
      case 20: if (!longer) return false; op("mismatch3"), f, l; add(); return true;
      case 21: op("mismatch4"), f, l; add(); return true;
      case 22: if (!longer) return false; op("mismatch3p"), f, l, m; add(); return true;
      case 23: op("mismatch4p"), f, l, m; add(); return true;
      case 24: op("iter_swap"), g.below(n), g.below(n); return true;
      case 25: if (!longer) return false; op("swap_ranges"), f, l; add(); return true;
      case 26: { int d = g.below(n + 1); if (d + len > n || (d + len > f && d < l)) return false; op("swap_ranges_in"), f, l, d; return true; }
      case 27: op("fill"), f, l, w; return true;
      case 28: op("fill_n"), f, (g.chance(10) ? -1 : len), w; return true;
      case 29: op("copy"), f, l; return true;
      case 30: { int d = g.below(n + 1); if (d + len > n || (d >= f && d < l)) return false; op("copy_in"), f, l, d; return true; }
      case 31: op("copy_if"), f, l, p; return true;
      case 32: op("copy_n"), f, (g.chance(10) ? -1 : len); return true;
      case 33: { int d = g.below(n + 1); if (d + len > n || (d >= f && d < l)) return false; op("copy_n_in"), f, len, d; return true; }
      case 34: op("copy_backward"), f, l; return true;
      case 35: { int d = g.below(n + 1); if (d < len || (d > f && d <= l && f != l)) return false; op("copy_backward_in"), f, l, d; return true; }
      case 36: op("generate"), f, l, w; return true;
      case 37: op("generate_n"), f, (g.chance(10) ? -1 : len), w; return true;
      case 38: op("replace"), f, l, u, w; return true;
      case 39: op("replace_if"), f, l, p, w; return true;
      case 40: op("replace_copy"), f, l, u, w; return true;
      case 41: op("replace_copy_if"), f, l, p, w; return true;
      case 42: op("remove"), f, l, u; return true;
      case 43: op("remove_if"), f, l, p; return true;
      case 44: op("remove_copy"), f, l, u; return true;
      case 45: op("remove_copy_if"), f, l, p; return true;
      case 46: op("transform"), f, l; return true;
      case 47: if (!longer) return false; op("transform2"), f, l; add(); return true;
      case 48: op("transform_in"), f, l; return true;
      case 49: op("reverse"), f, l; return true;
      case 50: op("reverse_copy"), f, l; return true;
      case 51: case 52:
      {
         static const char *const q[] = { "lower_bound", "upper_bound", "equal_range", "binary_search" };
         if (!ordered(in.v, f, l, 1)) return false;
         op(q[g.below(4)]), f, l, u;
         return true;
      }
      case 53: case 54:
      {
         static const char *const q[] = { "lower_bound_c", "upper_bound_c", "equal_range_c", "binary_search_c" };
         int c = g.in(1, 2);
         if (!ordered(in.v, f, l, c)) return false;
         op(q[g.below(4)]), f, l, v, c;
         return true;
      }
      case 55: op(p ? "is_sorted" : "is_sorted_until"), f, l; return true;
      case 56: case 57:
         if (!ordered(in.v, f, l, 1) || !ordered(s, 0, s.size(), 1)) return false;
         op("merge"), f, l; add();
         return true;
      case 58: { static const char *const q[] = { "min_element", "max_element", "minmax_element" }; op(q[m]), f, l; return true; }
      default:
      {
         static const char *const q[] = { "min", "max", "minmax" }, *const qc[] = { "min_c", "max_c", "minmax_c" };
         if (p) op(q[m]), g.below(n), g.below(n);
         else op(qc[m]), g.below(n), g.below(n), g.in(1, 2);
         return true;
      }
      }
   }
};

namespace vf {
const char *const component_configs[] = { "ptr/int", "ptr/K2", "cat/E", "cat/K2", "ptr/P2", "cat/P2", "ptr/E", "mix/E", "xim/int", "ptr/sc", "ptr/long", "ptr/double", "ptr/c", "ptr/il", 0 };
Driver *make_driver(const char *c)
{
   if (!strcmp(c, "ptr/int")) return new AlgoDriver<PtrKit, int>;
   if (!strcmp(c, "ptr/K2")) return new AlgoDriver<PtrKit, K2>;
   if (!strcmp(c, "cat/E")) return new AlgoDriver<CatKit, E>;
   if (!strcmp(c, "cat/K2")) return new AlgoDriver<CatKit, K2>;
   if (!strcmp(c, "ptr/P2")) return new AlgoDriver<PtrKit, P2>;
   if (!strcmp(c, "cat/P2")) return new AlgoDriver<CatKit, P2>;
   if (!strcmp(c, "ptr/E")) return new AlgoDriver<PtrKit, E>;
   if (!strcmp(c, "mix/E")) return new AlgoDriver<CatKit, E, PtrKit>;
   if (!strcmp(c, "xim/int")) return new AlgoDriver<PtrKit, int, CatKit>;
   if (!strcmp(c, "ptr/long")) return new AlgoDriver<PtrKit, long>;
   if (!strcmp(c, "ptr/double")) return new AlgoDriver<PtrKit, double>;
   if (!strcmp(c, "ptr/c")) return new AlgoDriver<PtrKit, char, PtrKit, char, int>;
   if (!strcmp(c, "ptr/il")) return new AlgoDriver<PtrKit, int, PtrKit, int, long>;
   if (!strcmp(c, "ptr/sc")) return new AlgoDriver<PtrKit, signed char, PtrKit, short>;
   return 0;
}
}
