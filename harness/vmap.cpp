// Driver for VMaps.tla: ttl::sorted_vector_map and ttl::vector_map.
#include <ttl/ttl.hpp>
#include <ttl/sorted_vector_map.hpp>
#include <ttl/vector_map.hpp>
#include "trees.hpp"
namespace vf {
template<class K, class T> struct Tok<ttl::pair<K, T> >
{
   static void add(Inst &in, const ttl::pair<K, T> &v) { in.add(Tr<K>::val(v.first), Tr<T>::val(v.second), Tr<K>::id(v.first)); }
};
}
template<class C, bool Sorted> struct Forms;

template<class C, bool Sorted> struct VMapDriver: Driver
{
   typedef typename C::key_type K;
   typedef typename C::mapped_type T;
   typedef typename C::value_type V;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   Slot<C> a, b;
   bool ids() const override { return Sorted && Tr<K>::tracked; }
   long live(const Obs &o) const override { return Tr<K>::tracked ? 2 * Driver::live(o) : -1; }
   void reset() override { a.kill(); b.kill(); a.make(); b.make(); }
   void finish() override { a.kill(); b.kill(); }
   static V mk(int k, int v) { return V(Tr<K>::mk(k), Tr<T>::mk(v)); }
   static It at(C &c, int n) { return adv(c.begin(), n); }
   static int pos(C &c, It i) { return index_of(c.begin(), c.end(), i); }
   static int cpos(const C &c, CIt i) { return index_of(c.begin(), c.end(), i); }

   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const C &cq = *a;
      const int *x = o.a;
      switch (o.h)
      {
      case H("insert"):
      {
         V v(mk(x[0], x[1]));
         ttl::pair<It, bool> p = q.insert(v);
         r.push_back(pos(q, p.first));
         r.push_back(p.second);
         break;
      }
      case H("insert_self"): { ttl::pair<It, bool> p = q.insert(*at(q, x[0])); r.push_back(pos(q, p.first)); r.push_back(p.second); break; }
      case H("insert_run"):
      {
         int added = 0;
         for (int j = 0; j < x[2]; ++j)
         {
            V v(mk(x[0] + j * x[1], x[3]));
            added += q.insert(v).second;
         }
         r.push_back(added);
         break;
      }
      case H("index"): { K key(Tr<K>::mk(x[0])); r.push_back(Tr<T>::val(q[key])); break; }
      case H("index_set"): { K key(Tr<K>::mk(x[0])); q[key] = Tr<T>::mk(x[1]); break; }
      case H("at"):
      {
         K key(Tr<K>::mk(x[0]));
         if (&q.at(key) != &cq.at(key)) fail("reply", "at() and at() const differ");
         r.push_back(Tr<T>::val(cq.at(key)));
         break;
      }
      case H("write"): if (x[1] % 2) at(q, x[0])->second = Tr<T>::mk(x[1]); else (*at(q, x[0])).second = Tr<T>::mk(x[1]); break;
      case H("clear"): q.clear(); break;
      case H("ctor"): a.kill(); a.make(); break;
      case H("copy_ctor"): b.kill(); b.make(cq); break;
      case H("recopy"): { Slot<C> t; t.make(cq); a.kill(); a = t; break; }
      default: Forms<C, Sorted>::apply(*this, o, r);
      }
   }
   void view(C &c, Inst &in)
   {
      read_forward(c, in);
      if (failed()) return;
      read_size(c, in.size());
      read_backward(c, in);
      if (failed()) return;
      if (((const C &)c).max_size() < c.size())
         fail("view", "max_size() below size()");
      Forms<C, Sorted>::view(c, in);
   }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      if (failed()) return;
      view(*b, o.inst[1]);
      if (failed()) return;
      Forms<C, Sorted>::equal(*a, *b, o.inst[0], o.inst[1]);
   }
   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size();
      int k = g.below(l.maxa * 3 / 2 + 1), v = g.below(l.nvals), p = g.in(0, n);
      if (n && g.chance(30))
         k = o.inst[0].v[2 * g.below(n)];
      bool room = n < l.maxa;
      if (random_run(g, n, l, l.maxa * 3 / 2, v, op, false)) return true;
      switch (g.below(Sorted ? 14 : 22))
      {
      case 0: case 1: case 2: if (!room) return false; op("insert"), k, v; return true;
      case 3: if (!room) return false; op("index"), k; return true;
      case 4: case 5: if (!room) return false; op("index_set"), k, v; return true;
      case 6: case 7: case 8: op("look"), k; return true;
      case 9: if (!n) return false; op("at"), o.inst[0].v[2 * g.below(n)]; return true;
      case 10: if (!n) return false; op("write"), g.below(n), v; return true;
      case 11: if (!n) return false; op("insert_self"), g.below(n); return true;
      case 12: if (g.chance(50)) op("copy_ctor"); else op("recopy"); return true;
      case 13: if (g.chance(90)) return false; if (g.chance(50)) op("clear"); else if (Sorted) op("ctorp"), g.in(0, l.maxa); else op("ctor"); return true;
      case 14: if (!room) return false; op("push_back"), k, v; return true;
      case 15: if (!room) return false; op("vinsert"), p, k, v; return true;
      case 16: if (!n) return false; op("erase1"), g.below(n); return true;
      case 17: if (g.chance(70)) return false; { int q = g.in(p, n); op("eraser"), p, q; } return true;
      case 18: if (!n) return false; op("pop_back"); return true;
      case 19: if (g.chance(70)) return false; op("resize"), g.in(0, n + 2 < l.maxa ? n + 2 : l.maxa); return true;
      case 20: if (g.chance(50)) { op("swap"); return true; } op("reserve"), g.in(0, l.maxa + 2); return true;
      case 21: if (!n) return false; op("setkey"), g.below(n), k; return true;
      }
      return false;
   }
};
template<class C> struct Forms<C, true>
{
   typedef VMapDriver<C, true> D;
   typedef typename C::key_type K;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   static void apply(D &d, const Op &o, IV &r)
   {
      const int *x = o.a;
      switch (o.h)
      {
      case H("ctorp"): d.a.kill(); d.a.make((size_t)x[0]); break;
      case H("look"):
      {
         C &c = *d.a;
         const C &cc = c;
         K key(Tr<K>::mk(x[0]));
         It f = c.find(key), lo = c.lower_bound(key), hi = c.upper_bound(key);
         ttl::pair<It, It> eq = c.equal_range(key);
         bool cnt = cc.count(key) == 1;
         if (!cnt && cc.count(key))
            fail("reply", "count() is %ld", (long)cc.count(key));
         r.push_back(D::pos(c, f));
         r.push_back(cnt);
         r.push_back(D::pos(c, lo));
         r.push_back(D::pos(c, hi));
         int e1 = D::pos(c, eq.first), e2 = D::pos(c, eq.second);
         r.push_back(e1 == e2 ? -1 : e1);
         r.push_back(e1 == e2 ? -1 : e2);
         ttl::pair<CIt, CIt> ceq = cc.equal_range(key);
         if (cc.find(key) != CIt(f) || cc.lower_bound(key) != CIt(lo) || cc.upper_bound(key) != CIt(hi) || ceq.first != CIt(eq.first) || ceq.second != CIt(eq.second))
            fail("reply", "const lookup differs from non-const lookup");
         break;
      }
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   static void view(C &c, Inst &) { read_mixed(c); }
   static void equal(C &a, C &, const Inst &ia, const Inst &)
   {
      // value_comp and key_comp order what is in the map
      const C &c = a;
      CIt p = c.begin();
      for (int k = 1; k < ia.size(); ++k)
      {
         CIt q = p++;
         if (!c.key_comp()(q->first, p->first) || !c.value_comp()(*q, *p) || c.value_comp()(*p, *q))
            return fail("view", "key_comp() or value_comp() contradict the order at %d", k);
      }
   }
};
template<class C> struct Forms<C, false>
{
   typedef VMapDriver<C, false> D;
   typedef typename C::key_type K;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   typedef typename C::value_type V;
   typedef ttl::vector<V> Base;
   static void apply(D &d, const Op &o, IV &r)
   {
      C &q = *d.a;
      const C &cq = q;
      Base &v = q;
      const int *x = o.a;
      switch (o.h)
      {
      case H("look"):
      {
         K key(Tr<K>::mk(x[0]));
         int p = D::pos(q, q.find(key));
         if (D::cpos(cq, cq.find(key)) != p)
            fail("reply", "const find() differs from find()");
         r.push_back(p);
         r.push_back((int)cq.count(key));
         break;
      }
      case H("push_back"): { V e(D::mk(x[0], x[1])); v.push_back(e); break; }
      case H("vinsert"): { V e(D::mk(x[1], x[2])); It i = v.insert(v.begin() + x[0], e); r.push_back(D::pos(q, i)); break; }
      case H("erase1"): { It i = v.erase(v.begin() + x[0]); r.push_back(D::pos(q, i)); break; }
      case H("eraser"): { It i = v.erase(v.begin() + x[0], v.begin() + x[1]); r.push_back(D::pos(q, i)); break; }
      case H("pop_back"): v.pop_back(); break;
      case H("resize"): v.resize((size_t)x[0]); break;
      case H("reserve"): v.reserve((size_t)x[0]); break;
      case H("swap"): d.a->swap(*d.b); break;
      case H("setkey"): (q.begin() + x[0])->first = Tr<K>::mk(x[1]); break;
      default: fail("harness", "unknown operation %s", o.name);
      }
   }
   static void view(C &c, Inst &in) { read_front(c); read_back(c, in.size()); }
   static void equal(C &a, C &b, const Inst &ia, const Inst &ib) { read_equal<Base>(a, b, ia, ib); }
};

namespace vf {
const char *const component_configs[] = { "sorted/E", "sorted/E+gt", "sorted/long", "vector/E", "vector/int", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("sorted/E"): return new VMapDriver<ttl::sorted_vector_map<E, E>, true>;
   case H("sorted/E+gt"): return new VMapDriver<ttl::sorted_vector_map<E, E, Desc<E> >, true>;
   case H("sorted/long"): return new VMapDriver<ttl::sorted_vector_map<long, XI>, true>;
   case H("vector/E"): return new VMapDriver<ttl::vector_map<E, E>, false>;
   case H("vector/int"): return new VMapDriver<ttl::vector_map<XI, XI>, false>;
   }
   return 0;
}
}
