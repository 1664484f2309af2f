// Driver for Util.tla (pair and helpers) and Arr.tla (array).
#include <ttl/ttl.hpp>
#include <ttl/array.hpp>
#include <ttl/algorithm.hpp>
#include <ttl/functional.hpp>
#include <ttl/numeric.hpp>
#include "iters.hpp"
#include "views.hpp"

enum { NCELLS = 150000 };
static int cells[NCELLS];

// A number whose addition is neither commutative nor associative.
struct Nc
{
   long v;
   Nc(long x = 0): v(x) {}
};
static Nc operator+(const Nc &a, const Nc &b) { return Nc((3 * a.v + b.v) % 1009); }

template<class T, class U> struct PairDriver: Driver
{
   typedef ttl::pair<T, U> C;
   Slot<C> p, q;
   void reset() override { p.kill(); q.kill(); p.make(); q.make(); }
   void finish() override { p.kill(); q.kill(); }
   long live(const Obs &) const override { return (Tr<T>::tracked ? 2 : 0) + (Tr<U>::tracked ? 2 : 0) ? (Tr<T>::tracked ? 2 : 0) + (Tr<U>::tracked ? 2 : 0) : -1; }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      o.inst[0].w = o.inst[1].w = 2;
      o.inst[0].add(Tr<T>::val(p->first), Tr<U>::val(p->second), -1);
      o.inst[1].add(Tr<T>::val(q->first), Tr<U>::val(q->second), -1);
   }
   template<class V> static void relations(int x, int y, IV &r)
   {
      const V a = Tr<V>::mk(x), b = Tr<V>::mk(y);
      r.push_back(ttl::less<V>()(a, b));
      r.push_back(ttl::greater<V>()(a, b));
      r.push_back(ttl::equal_to<V>()(a, b));
      r.push_back(ttl::not_equal_to<V>()(a, b));
   }
   template<class X, class Y> static void same(const X &a, const Y &b) {}
   void apply(const Op &o, IV &r) override
   {
      const int *x = o.a;
      C &a = *p, &b = *q;
      const C &ca = a, &cb = b;
      switch (o.h)
      {
      case H("ctor"): p.kill(); p.make(); break;
      case H("ctor2"): p.kill(); p.make(Tr<T>::mk(x[0]), Tr<U>::mk(x[1])); break;
      case H("make_pair"): a = ttl::make_pair(Tr<T>::mk(x[0]), Tr<U>::mk(x[1])); break;
      case H("copy_ctor"): q.kill(); q.make(ca); break;
      case H("conv_ctor"): { const ttl::pair<short, signed char> s((short)x[0], (signed char)x[1]); p.kill(); p.make(s); break; }
      case H("conv_assign"): { const ttl::pair<signed char, short> s((signed char)x[0], (short)x[1]); C &ret = (a = s); if (&ret != &a) fail("reply", "= returns another object"); break; }
      case H("assign_ab"): { C &ret = (a = cb); if (&ret != &a) fail("reply", "= returns another object"); break; }
      case H("assign_self"): a = ca; break;
      case H("swap"): a.swap(b); break;
      case H("swap_self"): a.swap(a); break;
      case H("swap_fn"): ttl::swap(a, b); break;
      case H("swap_members"): members(a); break;
      case H("swap_same"): ttl::swap(a.first, a.first); ttl::swap(a.second, a.second); break;
      case H("sel_first"): ttl::select_first<C>()(a) = Tr<T>::mk(x[0]); break;
      case H("sel_second"): ttl::select_second<C>()(a) = Tr<U>::mk(x[0]); break;
      case H("sel_const"):
         r.push_back(Tr<T>::val(ttl::select_first<C>()(ca)));
         r.push_back(Tr<U>::val(ttl::select_second<C>()(ca)));
         r.push_back(&ttl::select_first<C>()(ca) == &ca.first && &ttl::select_second<C>()(ca) == &ca.second && &ttl::select_same<C>()(ca) == &ca &&
                     &ttl::select_first<C>()(a) == &a.first && &ttl::select_second<C>()(a) == &a.second);
         break;
      case H("eq"):
         r.push_back(ca == cb);
         r.push_back(ca != cb);
         r.push_back(cb == ca);
         r.push_back(ca == ca && !(ca != ca));
         break;
      case H("cmp"):
      {
         IV s;
         relations<T>(x[0], x[1], r);
         relations<U>(x[0], x[1], s);
         IV far, frac;
         relations<long>(x[0], x[1], far);
         relations<double>(x[0], x[1], frac);
         if (r != s || r != far || r != frac)
            fail("reply", "less, greater, equal_to or not_equal_to differ between the element types");
         break;
      }
      case H("swap_vars"):
      {
         T v = Tr<T>::mk(x[0]), w = Tr<T>::mk(x[1]);
         U v2 = Tr<U>::mk(x[0]), w2 = Tr<U>::mk(x[1]);
         ttl::swap(v, w);
         ttl::swap(v2, w2);
         r.push_back(Tr<T>::val(v));
         r.push_back(Tr<T>::val(w));
         if (Tr<U>::val(v2) != r[0] || Tr<U>::val(w2) != r[1])
            fail("reply", "swap differs between the element types");
         break;
      }
      case H("distance"):
      {
         Range<CatKit, RA, int> R(cells, cells + NCELLS);
         int d = ttl::distance(cells + x[0], cells + x[1]), e = ttl::distance(R.first + x[0], R.first + x[1]);
         r.push_back(d);
         if (d != e)
            fail("reply", "distance is %d between pointers, %d between iterators", d, e);
         break;
      }
      case H("advance"):
      {
         int *i = cells + x[0];
         Range<CatKit, RA, int> R(cells, cells + NCELLS);
         Rand<int> j = R.first + x[0];
         ttl::advance(i, x[1]);
         ttl::advance(j, x[1]);
         r.push_back((int)(i - cells));
         if (j.p != i)
            fail("reply", "advance of an iterator differs from that of a pointer");
         break;
      }
      case H("iota"):
      {
         int n = x[3];
         IV c, d;
         c.assign(n, 50);
         d = c;
         ttl::iota(c.data() + x[0], c.data() + x[1], x[2]);
         Range<CatKit, FWD, int> R(d.data() + x[0], d.data() + x[1]);
         if (x[2] + n < 30000)
            ttl::iota(R.first, R.last, (short)x[2]);
         else
            ttl::iota(R.first, R.last, (long)x[2]);
         r = c;
         if (c != d)
            fail("reply", "iota on iterators differs from that on pointers");
         break;
      }
      case H("accumulate"):
      {
         Range<CatKit, IN, const int> R(x + 1, x + o.n);
         int s = ttl::accumulate(R.first, R.last, x[0]);
         long l = ttl::accumulate(x + 1, x + o.n, (long)x[0]);
         r.push_back(s);
         if (l != s)
            fail("reply", "accumulate as long is %ld, as int %d", l, s);
         // in the type of the initial value
         long big = ttl::accumulate(x + 1, x + o.n, 1l << 40);
         if (big != (1l << 40) + s - x[0])
            fail("reply", "accumulate from 2^40 is %ld", big);
         break;
      }
      case H("accumulate_nc"):
      {
         vec<Nc> c;
         for (int k = 1; k < o.n; ++k)
            c.push_back(Nc(x[k]));
         r.push_back((int)ttl::accumulate(c.begin(), c.end(), Nc(x[0])).v);
         break;
      }
      case H("countof"):
      {
         int c1[1];
         char c2[2];
         C *c7[7];
         r.push_back((int)ttl_countof(c1));
         r.push_back((int)ttl_countof(c2));
         r.push_back((int)countof(c7));
         break;
      }
      case H("move"):
      {
         C &&m = ttl::move(a);
         r.push_back(&m == &a);
         r.push_back(Tr<T>::val(m.first));
         break;
      }
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   // of different types: through temporaries
   template<class X, class Y> static void members(ttl::pair<X, Y> &a)
   {
      int f = Tr<X>::val(a.first), s = Tr<Y>::val(a.second);
      X y = Tr<X>::mk(s);
      Y x = Tr<Y>::mk(f);
      ttl::swap(a.first, y);
      ttl::swap(a.second, x);
   }
   template<class X> static void members(ttl::pair<X, X> &a) { ttl::swap(a.first, a.second); }

   bool random_call(Rng &g, const Obs &, const Limits &lim, Op &op) override
   {
      int V = lim.nvals, v = g.below(V), w = g.below(V);
      switch (g.below(16))
      {
      case 0: { static const char *const n[] = { "ctor", "copy_ctor", "assign_ab", "assign_self" }; op(n[g.below(4)]); return true; }
      case 1: { static const char *const n[] = { "swap", "swap_self", "swap_fn", "swap_members", "swap_same" }; op(n[g.below(5)]); return true; }
      case 2: { static const char *const n[] = { "sel_const", "eq", "countof", "move" }; op(n[g.below(4)]); return true; }
      case 3: case 4: { static const char *const n[] = { "ctor2", "make_pair", "conv_ctor", "conv_assign", "cmp", "swap_vars" }; op(n[g.below(6)]), v, w; return true; }
      case 5: op(g.chance(50) ? "sel_first" : "sel_second"), v; return true;
      case 6: case 7: { int m = g.chance(70) ? 60 : NCELLS; op("distance"), g.in(0, m), g.in(0, m); return true; }
      case 8: case 9: { int m = g.chance(70) ? 60 : NCELLS, a = g.in(0, m); op("advance"), a, g.in(-a, m - a); return true; }
      case 10: case 11: { int n = g.in(0, 30), f = g.in(0, n); op("iota"), f, g.in(f, n), g.in(-5, 100), n; return true; }
      case 12: case 13: op("accumulate"), g.in(-50, 50); for (int k = g.in(0, 30); k--;) op, g.in(-1000, 1000); return true;
      case 14: op("accumulate_nc"), v; for (int k = g.in(0, 20); k--;) op, g.below(100); return true;
      default: op("eq"); return true;
      }
   }
};

template<class T, size_t N> struct ArrDriver: Driver
{
   typedef ttl::array<T, N> C;
   // bytes around the array must stay
   struct Cell { char before[64]; C c; char after[64]; };
   Cell *cell[2];
   ArrDriver() { cell[0] = cell[1] = 0; }
   C &a() { return cell[0]->c; }
   C &b() { return cell[1]->c; }
   void kill(int k) { if (cell[k]) { cell[k]->c.~C(); guard(k); free(cell[k]); cell[k] = 0; } }
   void guard(int k)
   {
      for (int j = 0; j < 64; ++j)
         if (cell[k]->before[j] != 0x5a || cell[k]->after[j] != 0x5b)
            fail("content", "memory beside the array was written to");
   }
   void raw(int k)
   {
      kill(k);
      cell[k] = static_cast<Cell *>(malloc(sizeof(Cell)));
      memset(cell[k], 0xa5, sizeof(Cell));
      memset(cell[k]->before, 0x5a, 64);
      memset(cell[k]->after, 0x5b, 64);
   }
   void reset() override { for (int k = 0; k < 2; ++k) { raw(k); ::new((void *)&cell[k]->c) C(); } }
   void finish() override { kill(0); kill(1); }
   long live(const Obs &) const override { return Tr<T>::tracked ? 2 * (long)(N ? N : 1) : -1; }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      for (int k = 0; k < 2; ++k)
      {
         guard(k);
         view(cell[k]->c, o.inst[k]);
      }
   }
   static void view(C &c, Inst &in)
   {
      const C &cc = c;
      const T *d = cc.data();
      for (size_t j = 0; j < N; ++j)
      {
         in.add(Tr<T>::val(d[j]));
         if (&c[j] != d + j || &cc[j] != d + j || &c.at(j) != d + j || &cc.at(j) != d + j)
            fail("view", "[] or at(%d) designate another object than data() + %d", (int)j, (int)j);
      }
      if (c.data() != d || c.begin() != d || cc.begin() != d || cc.cbegin() != d)
         fail("view", "begin() is not data()");
      if (c.end() != d + N || cc.end() != d + N || cc.cend() != d + N)
         fail("view", "end() is not data() + size()");
      if (N && (&c.front() != d || &cc.front() != d || &c.back() != d + N - 1 || &cc.back() != d + N - 1))
         fail("view", "front() or back() designate another object");
      if ((const char *)d < (const char *)&c || (const char *)(d + N) > (const char *)(&c + 1))
         fail("view", "the elements are not inside the array");
   }
   template<size_t M> static typename std::enable_if<(M >= 3), void>::type init(ttl::array<T, M> *p, const int *x, int n)
   {
      switch (n)
      {
      case 0: ::new((void *)p) C{}; break;
      case 1: ::new((void *)p) C{ { Tr<T>::mk(x[0]) } }; break;
      case 2: ::new((void *)p) C{ { Tr<T>::mk(x[0]), Tr<T>::mk(x[1]) } }; break;
      case 3: ::new((void *)p) C{ { Tr<T>::mk(x[0]), Tr<T>::mk(x[1]), Tr<T>::mk(x[2]) } }; break;
      default: fail("harness", "init");
      }
   }
   static void init(ttl::array<T, 2> *p, const int *x, int n)
   {
      if (n == 2) ::new((void *)p) C{ { Tr<T>::mk(x[0]), Tr<T>::mk(x[1]) } };
      else if (n == 1) ::new((void *)p) C{ { Tr<T>::mk(x[0]) } };
      else ::new((void *)p) C{};
   }
   static void init(ttl::array<T, 1> *p, const int *x, int n)
   {
      if (n == 1) ::new((void *)p) C{ { Tr<T>::mk(x[0]) } };
      else ::new((void *)p) C{};
   }
   static void init(ttl::array<T, 0> *p, const int *, int) { ::new((void *)p) C{}; }
   void apply(const Op &o, IV &r) override
   {
      const int *x = o.a;
      const C &ca = a(), &cb = b();
      switch (o.h)
      {
      case H("set"): a()[(size_t)x[0]] = Tr<T>::mk(x[1]); break;
      case H("set_at"): a().at((size_t)x[0]) = Tr<T>::mk(x[1]); break;
      case H("set_it"): { typename C::iterator i = a().begin(); i += x[0]; *i = Tr<T>::mk(x[1]); break; }
      case H("set_data"): a().data()[x[0]] = Tr<T>::mk(x[1]); break;
      case H("set_end"): { typename C::iterator i = a().end(); i -= (int)N - x[0]; *i = Tr<T>::mk(x[1]); break; }
      case H("set_front"): a().front() = Tr<T>::mk(x[0]); break;
      case H("set_back"): a().back() = Tr<T>::mk(x[0]); break;
      case H("fill"): a().fill(Tr<T>::mk(x[0])); break;
      case H("fill_self"): a().fill(ca[(size_t)x[0]]); break;
      case H("swap"): a().swap(b()); break;
      case H("swap_self"): a().swap(a()); break;
      case H("init"): raw(0); init(&cell[0]->c, x, o.n); break;
      case H("copy_ctor"): raw(1); ::new((void *)&cell[1]->c) C(ca); break;
      case H("assign_ab"): a() = cb; break;
      case H("assign_self"): a() = ca; break;
      case H("eq"):
         r.push_back(ca == cb);
         r.push_back(ca != cb);
         r.push_back(cb == ca);
         r.push_back(cb != ca);
         r.push_back(ca == ca && !(ca != ca));
         break;
      case H("ask"):
         r.push_back((int)ca.size());
         r.push_back((int)ca.max_size());
         r.push_back(ca.empty());
         if (N)
         {
            r.push_back(Tr<T>::val(ca.front()));
            r.push_back(Tr<T>::val(ca.back()));
         }
         break;
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   bool random_call(Rng &g, const Obs &, const Limits &lim, Op &op) override
   {
      int v = g.below(lim.nvals);
      int k = g.below(10);
      if (k < 4 && !N)
         return false;
      switch (k)
      {
      case 0: case 1: case 2: { static const char *const n[] = { "set", "set_at", "set_it", "set_data", "set_end" }; op(n[g.below(5)]), g.below((int)N), v; return true; }
      case 3:
         if (g.chance(40)) op("fill_self"), g.below((int)N);
         else op(g.chance(50) ? "set_front" : "set_back"), v;
         return true;
      case 4: if (g.chance(40)) op("fill"), v; else { op("init"); for (int k = g.in(0, N < 3 ? (int)N : 3); k--;) op, g.below(lim.nvals); } return true;
      case 5: case 6: op("swap"); return true;
      case 7: { static const char *const n[] = { "swap_self", "copy_ctor", "copy_ctor", "assign_ab", "assign_self" }; op(n[g.below(5)]); return true; }
      case 8: op("eq"); return true;
      default: op("ask"); return true;
      }
   }
};

namespace vf {
const char *const component_configs[] = { "pair/int", "pair/E", "pair/mixed", "pair/B3",
   "array0/int", "array1/int", "array1/E", "array2/int", "array2/E", "array3/int", "array3/E", "array3/B3", "array7/E", "array20/int", "array300/E", "array300/int", "array70000/int", 0 };
Driver *make_driver(const char *c)
{
   if (!strcmp(c, "pair/int")) return new PairDriver<int, int>;
   if (!strcmp(c, "pair/E")) return new PairDriver<E, E>;
   if (!strcmp(c, "pair/mixed")) return new PairDriver<E, int>;
   if (!strcmp(c, "pair/B3")) return new PairDriver<int, B3>;
   if (!strcmp(c, "array0/int")) return new ArrDriver<int, 0>;
   if (!strcmp(c, "array1/int")) return new ArrDriver<int, 1>;
   if (!strcmp(c, "array1/E")) return new ArrDriver<E, 1>;
   if (!strcmp(c, "array2/int")) return new ArrDriver<int, 2>;
   if (!strcmp(c, "array2/E")) return new ArrDriver<E, 2>;
   if (!strcmp(c, "array3/int")) return new ArrDriver<int, 3>;
   if (!strcmp(c, "array3/E")) return new ArrDriver<E, 3>;
   if (!strcmp(c, "array3/B3")) return new ArrDriver<B3, 3>;
   if (!strcmp(c, "array7/E")) return new ArrDriver<E, 7>;
   if (!strcmp(c, "array300/E")) return new ArrDriver<E, 300>;
   if (!strcmp(c, "array300/int")) return new ArrDriver<int, 300>;
   if (!strcmp(c, "array70000/int")) return new ArrDriver<int, 70000>;
   if (!strcmp(c, "array20/int")) return new ArrDriver<int, 20>;
   return 0;
}
}
