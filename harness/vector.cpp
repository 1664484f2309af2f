// Driver for Vector.tla: ttl::vector and ttl::fixed_vector.
#include <ttl/ttl.hpp>
#include "views.hpp"

template<class C> struct Traits;
template<class T> struct Traits<ttl::vector<T> >
{
   static const int bound = 0;
   static void reserve(ttl::vector<T> &c, int n) { c.reserve((size_t)n); }
};
template<class T, unsigned N> struct Traits<ttl::fixed_vector<T, N> >
{
   static const int bound = N;
   static void reserve(ttl::fixed_vector<T, N> &, int) {}
};

template<class C> struct VecDriver: Driver
{
   typedef typename C::value_type T;
   Slot<C> a, b;
   static const int bound = Traits<C>::bound;

   void reset() override { a.kill(); b.kill(); a.make(); b.make(); }
   void finish() override { a.kill(); b.kill(); }
   long live(const Obs &o) const override { return Tr<T>::tracked ? Driver::live(o) : -1; }

   // storage of a before the call, to judge relocation
   const T *data0;
   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const int *x = o.a;
      typedef typename C::iterator It;
      data0 = q.data();
      switch (o.h)
      {
      case H("push_back"): q.push_back(Tr<T>::mk(x[0])); break;
      case H("pop_back"): q.pop_back(); break;
      case H("insert1"): { It i = q.insert(q.cbegin() + x[0], Tr<T>::mk(x[1])); r.push_back((int)(i - q.begin())); break; }
      case H("insertn"): { It i = q.insert(q.cbegin() + x[0], (size_t)x[1], Tr<T>::mk(x[2])); r.push_back((int)(i - q.begin())); break; }
      case H("insertr"):
      {
         Arr<T> s(x + 1, o.n - 1);
         with_far<C>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) {
            It i = q.insert(q.cbegin() + x[0], f, l);
            r.push_back((int)(i - q.begin()));
         });
         break;
      }
      case H("erase1"): { It i = q.erase(q.cbegin() + x[0]); r.push_back((int)(i - q.begin())); break; }
      case H("eraser"): { It i = q.erase(q.cbegin() + x[0], q.cbegin() + x[1]); r.push_back((int)(i - q.begin())); break; }
      case H("resize"): q.resize((size_t)x[0]); break;
      case H("resizev"): q.resize((size_t)x[0], Tr<T>::mk(x[1])); break;
      case H("reserve"): Traits<C>::reserve(q, x[0]); break;
      case H("assignn"): q.assign((size_t)x[0], Tr<T>::mk(x[1])); break;
      case H("assignr"):
      {
         Arr<T> s(x, o.n);
         with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { q.assign(f, l); });
         break;
      }
      case H("clear"): q.clear(); break;
      case H("write"):
         switch (x[0] % 3)
         {
         case 0: q[x[0]] = Tr<T>::mk(x[1]); break;
         case 1: q.at(x[0]) = Tr<T>::mk(x[1]); break;
         case 2: *(q.begin() + x[0]) = Tr<T>::mk(x[1]); break;
         }
         break;
      case H("ctor"): a.kill(); a.make(); break;
      case H("ctorn"): a.kill(); a.make((size_t)x[0]); break;
      case H("ctornv"): a.kill(); { T v(Tr<T>::mk(x[1])); a.make((size_t)x[0], v); } break;
      case H("ctorr"): { a.kill(); Arr<T> s(x, o.n); with_far<C>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { ::new(a.raw()) C(f, l); }); break; }
      case H("copy_ctor"): b.kill(); { const C &ca = *a; b.make(ca); } break;
      case H("assign_ab"): { const C &cb = *b; C &ra = (*a = cb); if (&ra != &*a) fail("reply", "operator= does not return its object"); break; }
      case H("assign_self"): { const C &ca = *a; *a = ca; break; }
      case H("swap_self"): a->swap(*a); break;
      case H("eq"): ask_equal(*a, *b, r); break;
      case H("swap"): a->swap(*b); break;
      case H("push_self"): q.push_back(q[x[0]]); break;
      case H("insert_self"): { It i = q.insert(q.cbegin() + x[1], q[x[0]]); r.push_back((int)(i - q.begin())); break; }
      case H("insertn_self"): { It i = q.insert(q.cbegin() + x[1], (size_t)x[2], q[x[0]]); r.push_back((int)(i - q.begin())); break; }
      case H("resize_self"): q.resize((size_t)x[1], q[x[0]]); break;
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   void view(C &c, Inst &in)
   {
      read_forward(c, in);
      if (failed()) return;
      read_size(c, in.size());
      read_index(c, in.size());
      read_front(c);
      read_back(c, in.size());
      const C &cc = c;
      if (cc.capacity() < cc.size())
         fail("view", "capacity() %ld below size() %ld", (long)cc.capacity(), (long)cc.size());
      if (cc.max_size() < cc.size())
         fail("view", "max_size() below size()");
      bounds(c);
   }
   template<class U, unsigned M> static void bounds(ttl::fixed_vector<U, M> &c)
   {
      if (c.max_size() != M || c.capacity() != M || c.full() != (c.size() == M) || c.size() > M)
         fail("view", "full/capacity/max_size disagree with the bound");
   }
   template<class U> static void bounds(ttl::vector<U> &) {}
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      if (failed()) return;
      view(*b, o.inst[1]);
      if (failed()) return;
      read_equal(*a, *b, o.inst[0], o.inst[1]);
      o.aux.push_back((long)a->capacity());
      o.aux.push_back((long)b->capacity());
      o.aux.push_back(data0 != a->data());
   }

   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size(), m = bound ? bound + 3 : l.maxa;
      int v = g.below(l.nvals), p = g.in(0, n);
      int room = m - n;
      if (room < 0) room = 0;
      if (g.chance(3)) { op("eq"); return true; }
      switch (g.below(27))
      {
      case 0: case 1: case 2: if (!room) return false; op("push_back"), v; return true;
      case 3: if (!n) return false; op("pop_back"); return true;
      case 4: case 5: if (!room) return false; op("insert1"), p, v; return true;
      case 6: case 7:
      {
         // often about as many as there are behind
         int most = room < l.maxn ? room : l.maxn, k = g.chance(30) ? n - p - 1 + g.below(3) : g.in(0, most);
         if (k < 0 || k > room || k > 300)
            k = most;
         if (g.chance(50)) { op("insertn"), p, k, v; return true; }
         op("insertr"), p;
         while (k--) op, g.below(l.nvals);
         return true;
      }
      case 8: if (!n) return false; op("erase1"), g.below(n); return true;
      case 9: { int q = g.in(p, n); op("eraser"), p, q; return true; }
      case 10: op("resize"), g.in(0, m); return true;
      case 11: op("resizev"), g.in(0, m), v; return true;
      case 12: case 13: if (bound) return false; op("reserve"), (g.chance(4) ? g.in(3000, 9000) : g.in(0, m + 5)); return true;
      case 14: op("assignn"), g.in(0, m), v; return true;
      case 15: op("assignr"); for (int k = g.in(0, l.maxn); k--;) op, g.below(l.nvals); return true;
      case 16: if (g.chance(70)) return false; op("clear"); return true;
      case 17: if (!n) return false; op("write"), g.below(n), v; return true;
      case 18: if (g.chance(60)) return false; op("ctorn"), g.in(0, m); return true;
      case 19: if (g.chance(60)) return false; op("ctornv"), g.in(0, m), v; return true;
      case 20: if (g.chance(60)) return false; op("ctorr"); for (int k = g.in(0, l.maxn); k--;) op, g.below(l.nvals); return true;
      case 21: op("copy_ctor"); return true;
      case 22: op("assign_ab"); return true;
      case 23: if (g.chance(50)) op(g.chance(50) ? "assign_self" : "swap_self"); else op("swap"); return true;
      case 24: if (!n || !room) return false; op("push_self"), g.below(n); return true;
      case 25: if (!n || !room) return false; if (g.chance(50)) { op("insert_self"), g.below(n), p; } else { op("insertn_self"), g.below(n), p, g.in(0, room < l.maxn ? room : l.maxn); } return true;
      case 26: if (!n) return false; op("resize_self"), g.below(n), g.in(n, m > n ? m : n); return true;
      }
      return false;
   }
};

namespace vf {
const char *const component_configs[] = { "vector/E", "vector/int", "vector/B3", "vector/Q", "fixed3/Q",
   "fixed0/E", "fixed1/E", "fixed3/E", "fixed4/int", "fixed8/E", "fixed3/B3", "fixed300/E", "fixed300/int", "fixed70000/int", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("vector/E"): return new VecDriver<ttl::vector<E> >;
   case H("vector/int"): return new VecDriver<ttl::vector<XI> >;
   case H("vector/B3"): return new VecDriver<ttl::vector<B3> >;
   case H("vector/Q"): return new VecDriver<ttl::vector<Q> >;
   case H("fixed3/Q"): return new VecDriver<ttl::fixed_vector<Q, 3> >;
   case H("fixed0/E"): return new VecDriver<ttl::fixed_vector<E, 0> >;
   case H("fixed1/E"): return new VecDriver<ttl::fixed_vector<E, 1> >;
   case H("fixed3/E"): return new VecDriver<ttl::fixed_vector<E, 3> >;
   case H("fixed4/int"): return new VecDriver<ttl::fixed_vector<XI, 4> >;
   case H("fixed8/E"): return new VecDriver<ttl::fixed_vector<E, 8> >;
   case H("fixed300/E"): return new VecDriver<ttl::fixed_vector<E, 300> >;
   case H("fixed300/int"): return new VecDriver<ttl::fixed_vector<XI, 300> >;
   case H("fixed70000/int"): return new VecDriver<ttl::fixed_vector<XI, 70000> >;
   case H("fixed3/B3"): return new VecDriver<ttl::fixed_vector<B3, 3> >;
   }
   return 0;
}
}
