// Driver for SList.tla: ttl::forward_list, ttl::backward_list, ttl::lazy_queue.
#include <ttl/ttl.hpp>
#include "seqs.hpp"

enum Kind { FORWARD, BACKWARD, LAZY };
template<class C> struct KindOf;
template<class T> struct KindOf<ttl::forward_list<T> > { static const Kind k = FORWARD; };
template<class T> struct KindOf<ttl::backward_list<T> > { static const Kind k = BACKWARD; };
template<class T> struct KindOf<ttl::lazy_queue<T> > { static const Kind k = LAZY; };

template<class C> struct SListDriver: Driver
{
   typedef typename C::value_type T;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   static constexpr Kind kind = KindOf<C>::k;
   Slot<C> a, b;
   Cursor<C> cur;
   bool cursors, count;

   SListDriver(bool c, bool m): cursors(c), count(m) {}
   bool ids() const override { return Tr<T>::tracked; }
   long live(const Obs &o) const override { return Tr<T>::tracked ? Driver::live(o) : -1; }
   void reset() override { a.kill(); b.kill(); a.make(); b.make(); cur.drop(); }
   void finish() override { a.kill(); b.kill(); cur.drop(); }
   // position k: 0 before_begin
   static CIt cat(C &c, int n)
   {
      const C &cc = c;
      return n % 2 ? adv(cc.before_begin(), n) : adv(c.cbefore_begin(), n);
   }
   static It at(C &c, int n) { return adv(c.before_begin(), n); }
   static int pos(C &c, It i) { return index_of(c.before_begin(), c.end(), i); }
   C &inst(int w) { return w == 1 ? *a : *b; }
   C &owner(It i)
   {
      for (It k = a->begin(); k != a->end(); ++k)
         if (k == i) return *a;
      return *b;
   }

   void apply(const Op &o, IV &r) override
   {
      Mem before = mem;
      apply1(o, r);
      if (count)
      {
         r.push_back((int)(mem.allocs - before.allocs));
         r.push_back((int)(mem.frees - before.frees));
      }
   }
   void apply1(const Op &o, IV &r)
   {
      C &q = *a;
      const int *x = o.a;
      switch (o.h)
      {
      case H("push_front"): q.push_front(Tr<T>::mk(x[0])); return;
      case H("pop_front"): q.pop_front(); return;
      case H("insert1"): { It i = q.insert_after(cat(q, x[0]), Tr<T>::mk(x[1])); r.push_back(pos(q, i)); return; }
      case H("insertn"): q.insert_after(cat(q, x[0]), (size_t)x[1], Tr<T>::mk(x[2])); return;
      case H("insertr"):
      {
         Arr<T> s(x + 1, o.n - 1);
         auto at = cat(q, x[0]);
         with_range<C, kind == LAZY ? 0 : OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { q.insert_after(at, f, l); });
         return;
      }
      case H("erase1"): { It i = q.erase_after(cat(q, x[0])); r.push_back(pos(q, i)); return; }
      case H("eraser"): { It i = q.erase_after(cat(q, x[0]), cat(q, x[1])); r.push_back(pos(q, i)); return; }
      case H("clear"): q.clear(); return;
      case H("write"): if (x[0] % 2) *at(q, x[0]) = Tr<T>::mk(x[1]); else *at(q, x[0]).operator->() = Tr<T>::mk(x[1]); return;
      case H("ctor"): a.kill(); a.make(); return;
      case H("ctornv"): a.kill(); { T v(Tr<T>::mk(x[1])); a.make((size_t)x[0], v); } return;
      case H("copy_ctor"): b.kill(); { const C &ca = *a; b.make(ca); } return;
      case H("assign_ab"): { const C &cb = *b; C &ra = (*a = cb); if (&ra != &*a) fail("reply", "operator= does not return its object"); return; }
      case H("assign_self"): { const C &ca = *a; *a = ca; return; }
      case H("swap_self"): a->swap(*a); return;
      case H("eq"): compare(*a, *b, r); return;
      case H("swap"): a->swap(*b); return;
      case H("push_front_self"): q.push_front(*at(q, x[0])); return;
      case H("insert_self"): { It i = q.insert_after(cat(q, x[1]), *at(q, x[0])); r.push_back(pos(q, i)); return; }
      case H("insertn_self"): q.insert_after(cat(q, x[1]), (size_t)x[2], *at(q, x[0])); return;

      case H("place"): cur.set(adv(inst(x[0]).begin(), x[1]), false, x[0]); return;
      case H("next"):
      {
         It i = cur.it;
         ++i;
         bool end = i == a->end();
         r.push_back(end ? -1 : Tr<T>::val(*i));
         if (end) cur.drop(); else cur.set(i, false, 0);
         return;
      }
      case H("cursor_insert"): { C &c = owner(cur.it); It i = c.insert_after(cur.it, Tr<T>::mk(x[0])); r.push_back(pos(c, i)); return; }
      case H("cursor_erase"): { C &c = owner(cur.it); It i = c.erase_after(cur.it); r.push_back(pos(c, i)); return; }
      }
      if constexpr (kind != FORWARD)
         switch (o.h)
         {
         case H("push_back"): q.push_back(Tr<T>::mk(x[0])); return;
         case H("push_back_self"): q.push_back(*at(q, x[0])); return;
         case H("insert_end"):
         {
            It i = x[0] % 2 ? q.insert_after(q.before_end(), Tr<T>::mk(x[0])) : q.insert_after(q.cbefore_end(), Tr<T>::mk(x[0]));
            r.push_back(pos(q, i));
            return;
         }
         }
      if constexpr (kind != LAZY)
         switch (o.h)
         {
         case H("assignn"): q.assign((size_t)x[0], Tr<T>::mk(x[1])); return;
         case H("assignr"): { Arr<T> s(x, o.n); with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { q.assign(f, l); }); return; }
         case H("ctorr"): { a.kill(); Arr<T> s(x, o.n); with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { ::new(a.raw()) C(f, l); }); return; }
         case H("reverse"): q.reverse(); return;
         }
      else
         switch (o.h)
         {
         case H("roll_head"): q.roll_head(); return;
         case H("cleanup"): q.cleanup(); return;
         }
      if constexpr (kind == FORWARD)
         switch (o.h)
         {
         case H("splice_all"): q.splice_after(cat(q, x[0]), *b); return;
         case H("splice_one"): q.splice_after(cat(q, x[0]), *b, cat(*b, x[1])); return;
         case H("splice_range"): q.splice_after(cat(q, x[0]), *b, cat(*b, x[1]), cat(*b, x[2])); return;
         case H("move_one"): q.splice_after(cat(q, x[0]), q, cat(q, x[1])); return;
         case H("move_range"): q.splice_after(cat(q, x[0]), q, cat(q, x[1]), cat(q, x[2])); return;
         }
      fail("harness", "unknown operation %s", o.name);
   }
   void view(C &c, Inst &in)
   {
      read_forward(c, in);
      if (failed()) return;
      read_mixed(c);
      read_front(c);
      const C &cc = c;
      if (cc.max_size() < (size_t)in.size())
         fail("view", "max_size() below the number of elements");
      It bb = c.before_begin();
      CIt cb = cc.before_begin();
      if (!(bb == cb) || cb != c.cbefore_begin() || (++bb, bb != c.begin()) || (++cb, cb != cc.begin()))
         fail("view", "before_begin() is not in front of begin()");
      if constexpr (kind != FORWARD)
      {
         read_back(c, in.size());
         It e = at(c, in.size());
         CIt ce(e);
         if (!(e == c.before_end()) || ce != cc.before_end() || ce != c.cbefore_end())
            fail("view", "before_end() is not the last position");
      }
   }
   template<class X> static void compare(X &x, X &y, IV &r) { ask_equal(x, y, r); }
   template<class X> static void compare(ttl::lazy_queue<X> &, ttl::lazy_queue<X> &, IV &) { fail("harness", "queues are not compared"); }
   template<class X> static void equal(X &x, X &y, const Inst &ia, const Inst &ib) { read_equal(x, y, ia, ib); }
   template<class U> static void equal(ttl::lazy_queue<U> &, ttl::lazy_queue<U> &, const Inst &, const Inst &) {}
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      if (failed()) return;
      view(*b, o.inst[1]);
      if (failed()) return;
      equal(*a, *b, o.inst[0], o.inst[1]);
      if (cursors)
         cur.find(&*a, &*b, o.inst[0], o.inst[1], o.x, false);
   }
   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size(), m = o.inst[1].size();
      int v = g.below(l.nvals), p = g.in(0, n);
      int room = l.maxa - n;
      if (room < 0) room = 0;
      int few = room < l.maxn ? room : l.maxn;
      if (kind != LAZY && g.chance(3)) { op("eq"); return true; }
      switch (g.below(cursors ? 42 : 36))
      {
      case 0: case 1: if (!room) return false; op("push_front"), v; return true;
      case 2: case 3: case 4: if (!room || kind == FORWARD) return false; op("push_back"), v; return true;
      case 5: if (!room || kind == FORWARD) return false; op("insert_end"), v; return true;
      case 6: case 7: case 8: if (!n) return false; op("pop_front"); return true;
      case 9: case 10: if (!room) return false; op("insert1"), p, v; return true;
      case 11: op("insertn"), p, g.in(0, few), v; return true;
      case 12: op("insertr"), p; for (int k = g.in(0, few); k--;) op, g.below(l.nvals); return true;
      case 13: case 14: if (!n) return false; op("erase1"), g.below(n); return true;
      case 15: case 16: { if (g.chance(50)) return false; int q = g.in(p + 1, n + 1); op("eraser"), p, q; return true; }
      case 17: if (g.chance(70)) return false; op("clear"); return true;
      case 18: if (!n) return false; op("write"), g.in(1, n), v; return true;
      case 19: if (g.chance(60)) return false; op("ctornv"), g.in(0, l.maxn), v; return true;
      case 20: op("copy_ctor"); return true;
      case 21: op("assign_ab"); return true;
      case 22: op(g.chance(50) ? "assign_self" : "swap_self"); return true;
      case 23: case 24: op("swap"); return true;
      case 25: if (!n || !room) return false; if (kind == FORWARD || g.chance(50)) op("push_front_self"), g.in(1, n); else op("push_back_self"), g.in(1, n); return true;
      case 26: if (!n || !room) return false; op("insert_self"), g.in(1, n), p; return true;
      case 27: if (!n) return false; op("insertn_self"), g.in(1, n), p, g.in(0, few); return true;
      case 28: if (g.chance(80)) return false; op("ctor"); return true;
      case 29:
         if (kind == LAZY) { if (g.chance(50)) return false; op("cleanup"); return true; }
         if (g.chance(50)) op("assignn"), g.in(0, l.maxa), v;
         else { op("assignr"); for (int k = g.in(0, l.maxn + 4); k--;) op, g.below(l.nvals); }
         return true;
      case 30: case 31: if (kind == LAZY) op("roll_head"); else op("reverse"); return true;
      case 32: if (kind == LAZY || g.chance(50)) return false; op("ctorr"); for (int k = g.in(0, l.maxn); k--;) op, g.below(l.nvals); return true;
      case 33: if (kind != FORWARD || n + m > l.maxa) return false; op("splice_all"), p; return true;
      case 34:
         if (kind != FORWARD) return false;
         if (g.chance(50)) { if (!m || !room) return false; op("splice_one"), p, g.below(m); return true; }
         if (!n) return false;
         op("move_one"), p, g.below(n);
         return true;
      case 35:
         if (kind != FORWARD) return false;
         if (g.chance(50)) { int f = g.in(0, m), t = g.in(f + 1, m + 1); if (t - f - 1 > room) return false; op("splice_range"), p, f, t; return true; }
         { int f = g.in(0, n), t = g.in(f + 1, n + 1); if (p > f && p < t) return false; op("move_range"), p, f, t; return true; }
      default:
         if (o.x[0] == 0 || g.chance(15))
         {
            int w = g.in(1, 2);
            if (!(w == 1 ? n : m)) return false;
            op("place"), w, g.below(w == 1 ? n : m);
            return true;
         }
         switch (g.below(3))
         {
         case 0: op("next"); return true;
         case 1: if (n > l.maxa + 5 || m > l.maxa + 5) return false; op("cursor_insert"), v; return true;
         case 2: if (o.x[1] + 1 >= o.inst[o.x[0] - 1].size()) return false; op("cursor_erase"); return true;
         }
      }
      return false;
   }
};

namespace vf {
const char *const component_configs[] = { "forward/E", "forward/int", "forward/B3", "forward/E+cursor", "backward/E", "backward/int", "backward/B3", "backward/E+cursor",
   "lazy/E", "lazy/int", "lazy/B3", "lazy/Q", "forward/Q", "lazy/E+cursor", "lazy/E+mem", "lazy/int+mem", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("forward/E"): return new SListDriver<ttl::forward_list<E> >(false, false);
   case H("forward/int"): return new SListDriver<ttl::forward_list<XI> >(false, false);
   case H("forward/B3"): return new SListDriver<ttl::forward_list<B3> >(false, false);
   case H("forward/E+cursor"): return new SListDriver<ttl::forward_list<E> >(true, false);
   case H("backward/E"): return new SListDriver<ttl::backward_list<E> >(false, false);
   case H("backward/int"): return new SListDriver<ttl::backward_list<XI> >(false, false);
   case H("backward/B3"): return new SListDriver<ttl::backward_list<B3> >(false, false);
   case H("backward/E+cursor"): return new SListDriver<ttl::backward_list<E> >(true, false);
   case H("lazy/E"): return new SListDriver<ttl::lazy_queue<E> >(false, false);
   case H("lazy/int"): return new SListDriver<ttl::lazy_queue<XI> >(false, false);
   case H("lazy/B3"): return new SListDriver<ttl::lazy_queue<B3> >(false, false);
   case H("lazy/Q"): return new SListDriver<ttl::lazy_queue<Q> >(false, false);
   case H("forward/Q"): return new SListDriver<ttl::forward_list<Q> >(false, false);
   case H("lazy/E+cursor"): return new SListDriver<ttl::lazy_queue<E> >(true, false);
   case H("lazy/E+mem"): return new SListDriver<ttl::lazy_queue<E> >(false, true);
   case H("lazy/int+mem"): return new SListDriver<ttl::lazy_queue<XI> >(false, true);
   }
   return 0;
}
}
