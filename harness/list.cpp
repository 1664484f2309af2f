// Driver for List.tla: ttl::list.
#include <ttl/ttl.hpp>
#include "seqs.hpp"

template<class T> struct ListDriver: Driver
{
   typedef ttl::list<T> C;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   Slot<C> a, b;
   Cursor<C> cur;
   bool cursors;

   explicit ListDriver(bool c): cursors(c) {}
   bool ids() const override { return Tr<T>::tracked; }
   long live(const Obs &o) const override { return Tr<T>::tracked ? Driver::live(o) : -1; }
   void reset() override { a.kill(); b.kill(); a.make(); b.make(); cur.drop(); }
   void finish() override { a.kill(); b.kill(); cur.drop(); }
   static CIt cat(C &c, int n) { return adv(((const C &)c).begin(), n); }
   static It at(C &c, int n) { return adv(c.begin(), n); }
   static int pos(C &c, It i) { return index_of(c.begin(), c.end(), i); }
   C &inst(int w) { return w == 1 ? *a : *b; }
   int owner(It i, bool end, int w)
   {
      if (end) return w;
      for (It k = a->begin(); k != a->end(); ++k)
         if (k == i) return 1;
      return 2;
   }

   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const int *x = o.a;
      switch (o.h)
      {
      case H("push_front"): q.push_front(Tr<T>::mk(x[0])); break;
      case H("push_back"): q.push_back(Tr<T>::mk(x[0])); break;
      case H("pop_front"): q.pop_front(); break;
      case H("pop_back"): q.pop_back(); break;
      case H("insert1"): { It i = q.insert(cat(q, x[0]), Tr<T>::mk(x[1])); r.push_back(pos(q, i)); break; }
      case H("insertn"): q.insert(cat(q, x[0]), (size_t)x[1], Tr<T>::mk(x[2])); break;
      case H("insertr"):
      {
         Arr<T> s(x + 1, o.n - 1);
         auto at = cat(q, x[0]);
         with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { q.insert(at, f, l); });
         break;
      }
      case H("erase1"): { It i = q.erase(cat(q, x[0])); r.push_back(pos(q, i)); break; }
      case H("eraser"): { It i = q.erase(cat(q, x[0]), cat(q, x[1])); r.push_back(pos(q, i)); break; }
      case H("resize"): q.resize((size_t)x[0]); break;
      case H("resizev"): q.resize((size_t)x[0], Tr<T>::mk(x[1])); break;
      case H("assignn"): q.assign((size_t)x[0], Tr<T>::mk(x[1])); break;
      case H("assignr"): { Arr<T> s(x, o.n); with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { q.assign(f, l); }); break; }
      case H("clear"): q.clear(); break;
      case H("remove"): q.remove(Tr<T>::mk(x[0])); break;
      case H("remove_if"): q.remove_if(Ge(x[0])); break;
      case H("unique"): q.unique(); break;
      case H("unique_if"): q.unique(SameHalf()); break;
      case H("splice_all"): q.splice(cat(q, x[0]), *b); break;
      case H("splice_one"): q.splice(cat(q, x[0]), *b, cat(*b, x[1])); break;
      case H("splice_range"): q.splice(cat(q, x[0]), *b, cat(*b, x[1]), cat(*b, x[2])); break;
      case H("move_one"): q.splice(cat(q, x[0]), q, cat(q, x[1])); break;
      case H("move_range"): q.splice(cat(q, x[0]), q, cat(q, x[1]), cat(q, x[2])); break;
      case H("merge"): q.merge(*b); break;
      case H("merge_gt"): q.merge(*b, Greater()); break;
      case H("merge_half"): q.merge(*b, HalfLess()); break;
      case H("reverse"): q.reverse(); break;
      case H("write"): if (x[0] % 2) *at(q, x[0]) = Tr<T>::mk(x[1]); else *at(q, x[0]).operator->() = Tr<T>::mk(x[1]); break;
      case H("ctor"): a.kill(); a.make(); break;
      case H("ctornv"): a.kill(); { T v(Tr<T>::mk(x[1])); a.make((size_t)x[0], v); } break;
      case H("ctorr"): { a.kill(); Arr<T> s(x, o.n); with_range<C, OWN>(salt(x, o.n), s.begin(), s.end(), [&](auto f, auto l) { ::new(a.raw()) C(f, l); }); break; }
      case H("copy_ctor"): b.kill(); { const C &ca = *a; b.make(ca); } break;
      case H("assign_ab"): { const C &cb = *b; C &ra = (*a = cb); if (&ra != &*a) fail("reply", "operator= does not return its object"); break; }
      case H("assign_self"): { const C &ca = *a; *a = ca; break; }
      case H("swap_self"): a->swap(*a); break;
      case H("eq"): ask_equal(*a, *b, r); break;
      case H("swap"): a->swap(*b); break;
      case H("push_front_self"): q.push_front(*at(q, x[0])); break;
      case H("push_back_self"): q.push_back(*at(q, x[0])); break;
      case H("insert_self"): { It i = q.insert(cat(q, x[1]), *at(q, x[0])); r.push_back(pos(q, i)); break; }
      case H("insertn_self"): q.insert(cat(q, x[1]), (size_t)x[2], *at(q, x[0])); break;
      case H("resize_self"): q.resize((size_t)x[1], *at(q, x[0])); break;
      case H("remove_self"): q.remove(*at(q, x[0])); break;

      case H("place"): { C &c = inst(x[0]); It i = at(c, x[1]); cur.set(i, i == c.end(), x[0]); break; }
      case H("next"):
      {
         It i = cur.it;
         C &c = inst(owner(i, cur.atend, cur.inst));
         ++i;
         bool end = i == c.end();
         r.push_back(end ? -1 : Tr<T>::val(*i));
         cur.set(i, end, &c == &*a ? 1 : 2);
         break;
      }
      case H("prev"):
      {
         It i = cur.it;
         C &c = inst(owner(i, cur.atend, cur.inst));
         --i;
         r.push_back(Tr<T>::val(*i));
         cur.set(i, false, &c == &*a ? 1 : 2);
         break;
      }
      case H("cursor_insert"):
      {
         C &c = inst(owner(cur.it, cur.atend, cur.inst));
         It i = c.insert(cur.it, Tr<T>::mk(x[0]));
         r.push_back(pos(c, i));
         break;
      }
      case H("cursor_erase"):
      {
         C &c = inst(owner(cur.it, cur.atend, cur.inst));
         It i = c.erase(cur.it);
         cur.set(i, i == c.end(), &c == &*a ? 1 : 2);
         break;
      }
      default: fail("harness", "unknown operation %s", o.name);
      }
      if (cur.on && cur.atend)
      {
         // the end iterator dies with its container
         if ((cur.inst == 1 && (o.h == H("ctor") || o.h == H("ctornv") || o.h == H("ctorr"))) || (cur.inst == 2 && o.h == H("copy_ctor")))
            cur.drop();
      }
   }
   void view(C &c, Inst &in)
   {
      read_forward(c, in);
      if (failed()) return;
      read_size(c, in.size());
      read_mixed(c);
      read_backward(c, in);
      if (failed()) return;
      read_front(c);
      read_back(c, in.size());
      if (((const C &)c).max_size() < c.size())
         fail("view", "max_size() below size()");
   }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      if (failed()) return;
      view(*b, o.inst[1]);
      if (failed()) return;
      read_equal(*a, *b, o.inst[0], o.inst[1]);
      if (cursors)
         cur.find(&*a, &*b, o.inst[0], o.inst[1], o.x, true);
   }

   static bool sorted(const Inst &in, int dir, int div)
   {
      for (int k = 1; k < in.size(); ++k)
         if (dir * (in.v[k] / div) < dir * (in.v[k - 1] / div))
            return false;
      return true;
   }
   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size(), m = o.inst[1].size();
      int v = g.below(l.nvals), p = g.in(0, n);
      int room = l.maxa - n;
      if (room < 0) room = 0;
      int few = room < l.maxn ? room : l.maxn;
      if (g.chance(3)) { op("eq"); return true; }
      switch (g.below(cursors ? 50 : 42))
      {
      case 0: case 1: if (!room) return false; op("push_front"), v; return true;
      case 2: case 3: if (!room) return false; op("push_back"), v; return true;
      case 4: if (!n) return false; op("pop_front"); return true;
      case 5: if (!n) return false; op("pop_back"); return true;
      case 6: case 7: if (!room) return false; op("insert1"), p, v; return true;
      case 8: op("insertn"), p, g.in(0, few), v; return true;
      case 9: op("insertr"), p; for (int k = g.in(0, few); k--;) op, g.below(l.nvals); return true;
      case 10: if (!n) return false; op("erase1"), g.below(n); return true;
      case 11: { int q = g.in(p, n); op("eraser"), p, q; return true; }
      case 12: op("resize"), g.in(0, l.maxa); return true;
      case 13: op("resizev"), g.in(0, l.maxa), v; return true;
      case 14: if (g.chance(50)) return false; op("assignn"), g.in(0, l.maxa), v; return true;
      case 15: op("assignr"); for (int k = g.in(0, l.maxn + 4); k--;) op, g.below(l.nvals); return true;
      case 16: if (g.chance(70)) return false; op("clear"); return true;
      case 17: op("remove"), v; return true;
      case 18: op("remove_if"), g.in(0, l.nvals); return true;
      case 19: if (g.chance(50)) op("unique"); else op("unique_if"); return true;
      case 20: if (n + m > l.maxa) return false; op("splice_all"), p; return true;
      case 21: case 22: if (!m || !room) return false; op("splice_one"), p, g.below(m); return true;
      case 23: { int f = g.in(0, m), t = g.in(f, m); if (t - f > room) return false; op("splice_range"), p, f, t; return true; }
      case 24: if (!n) return false; op("move_one"), p, g.below(n); return true;
      case 25: case 26: { int f = g.in(0, n), t = g.in(f, n); if (p >= f && p < t) return false; op("move_range"), p, f, t; return true; }
      case 27: case 28:
         if (n + m > l.maxa) return false;
         if (sorted(o.inst[0], 1, 1) && sorted(o.inst[1], 1, 1)) { op("merge"); return true; }
         if (sorted(o.inst[0], 1, 2) && sorted(o.inst[1], 1, 2)) { op("merge_half"); return true; }
         if (sorted(o.inst[0], -1, 1) && sorted(o.inst[1], -1, 1)) { op("merge_gt"); return true; }
         return false;
      case 29: case 30: // sorted contents, so that merges occur
      {
         if (g.chance(50)) return false;
         int k = g.in(0, 8), x = g.below(l.nvals);
         op("assignr");
         while (k-- && x < l.nvals) { op, x; if (g.chance(40)) x += g.in(0, 2); }
         return true;
      }
      case 31: op("reverse"); return true;
      case 32: if (!n) return false; op("write"), g.below(n), v; return true;
      case 33: if (g.chance(50)) return false; op("ctornv"), g.in(0, l.maxn), v; return true;
      case 34: if (g.chance(50)) return false; op("ctorr"); for (int k = g.in(0, l.maxn); k--;) op, g.below(l.nvals); return true;
      case 35: op("copy_ctor"); return true;
      case 36: op("assign_ab"); return true;
      case 37: op(g.chance(50) ? "assign_self" : "swap_self"); return true;
      case 38: case 39: op("swap"); return true;
      case 40: if (!n || !room) return false; if (g.chance(50)) op("push_front_self"), g.below(n); else op("push_back_self"), g.below(n); return true;
      case 41:
         if (!n) return false;
         switch (g.below(4))
         {
         case 0: if (!room) return false; op("insert_self"), g.below(n), p; return true;
         case 1: op("insertn_self"), g.below(n), p, g.in(0, few); return true;
         case 2: if (n > l.maxa) return false; op("resize_self"), g.below(n), g.in(n, l.maxa); return true;
         case 3: op("remove_self"), g.below(n); return true;
         }
         return false;
      default:
         if (o.x[0] == 0 || g.chance(15))
         {
            int w = g.in(1, 2);
            op("place"), w, g.in(0, w == 1 ? n : m);
            return true;
         }
         bool end = o.x[1] == o.inst[o.x[0] - 1].size();
         switch (g.below(4))
         {
         case 0: if (end) return false; op("next"); return true;
         case 1: if (o.x[1] == 0) return false; op("prev"); return true;
         case 2: if (n > l.maxa + 5 || m > l.maxa + 5) return false; op("cursor_insert"), v; return true;
         case 3: if (end) return false; op("cursor_erase"); return true;
         }
      }
      return false;
   }
};

namespace vf {
const char *const component_configs[] = { "list/E", "list/int", "list/B3", "list/E+cursor", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("list/E"): return new ListDriver<E>(false);
   case H("list/int"): return new ListDriver<XI>(false);
   case H("list/B3"): return new ListDriver<B3>(false);
   case H("list/E+cursor"): return new ListDriver<E>(true);
   }
   return 0;
}
}
