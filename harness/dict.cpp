// Driver for Dict.tla: ttl::map and ttl::set.
#include <ttl/ttl.hpp>
#include "trees.hpp"

template<class C> struct IsMap { static const bool value = false; };
template<class K, class T, class L> struct IsMap<ttl::map<K, T, L> > { static const bool value = true; };

// how the two differ
template<class C, bool Map = IsMap<C>::value> struct Kv;
template<class C> struct Kv<C, true>
{
   typedef typename C::key_type K;
   typedef typename C::mapped_type T;
   typedef typename C::value_type V;
   typedef ttl::pair<K, T> In; // what range insertion reads
   static V mk(int k, int v) { return V(Tr<K>::mk(k), Tr<T>::mk(v)); }
   static In in(int k, int v) { return In(Tr<K>::mk(k), Tr<T>::mk(v)); }
   static const K &key(const V &v) { return v.first; }
   static int index(C &c, int k) { return Tr<T>::val(c[Tr<K>::mk(k)]); }
   static void index_set(C &c, int k, int v) { c[Tr<K>::mk(k)] = Tr<T>::mk(v); }
   static int at(C &c, int k)
   {
      const C &cc = c;
      K key(Tr<K>::mk(k));
      if (&c.at(key) != &cc.at(key)) fail("reply", "at() and at() const differ");
      return Tr<T>::val(cc.at(key));
   }
   template<class It> static void write(It i, int v) { if (v % 2) i->second = Tr<T>::mk(v); else (*i).second = Tr<T>::mk(v); }
   static const int objects = 2 * Tr<K>::tracked;
   static void equal(C &a, C &b, const Inst &ia, const Inst &ib) { read_equal(a, b, ia, ib); }
   static const bool comparable = true;
   static void compare(C &a, C &b, IV &r) { ask_equal(a, b, r); }
};
template<class K, class C> void set_compare(C &, C &, IV &, ...) { fail("harness", "not comparable"); }
template<class K, class C> void set_compare(C &a, C &b, IV &r, ttl::set<K> *) { ask_equal(a, b, r); }
template<class A, class B> struct IsSame { static const bool value = false; };
template<class A> struct IsSame<A, A> { static const bool value = true; };
template<class K, class C> void set_equal(C &, C &, const Inst &, const Inst &, ...) {}
template<class K, class C> void set_equal(C &a, C &b, const Inst &ia, const Inst &ib, ttl::set<K> *) { read_equal(a, b, ia, ib); }
template<class C> struct Kv<C, false>
{
   typedef typename C::key_type K;
   typedef K V;
   typedef K In;
   static V mk(int k, int) { return Tr<K>::mk(k); }
   static In in(int k, int) { return Tr<K>::mk(k); }
   static const K &key(const V &v) { return v; }
   static int index(C &, int) { fail("harness", "sets are not indexed"); return 0; }
   static void index_set(C &, int, int) { fail("harness", "sets are not indexed"); }
   static int at(C &, int) { fail("harness", "sets have no at()"); return 0; }
   template<class It> static void write(It, int) { fail("harness", "sets have no mapped values"); }
   static const int objects = Tr<K>::tracked;
   static void equal(C &a, C &b, const Inst &ia, const Inst &ib) { set_equal<K>(a, b, ia, ib, (C *)0); }
   static const bool comparable = IsSame<C, ttl::set<K> >::value;
   static void compare(C &a, C &b, IV &r) { set_compare<K>(a, b, r, (C *)0); }
};
namespace vf {
// elements of a set: the mapped value is 0
template<class K> struct SetTok { static void add(Inst &in, const K &v) { in.add(Tr<K>::val(v), 0, Tr<K>::id(v)); } };
template<> struct Tok<E>: SetTok<E> {};
template<> struct Tok<long>: SetTok<long> {};
}

template<class C> struct DictDriver: Driver
{
   typedef Kv<C> D;
   typedef typename D::K K;
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   Slot<C> a, b;
   bool cursors;
   vec<It> cur; // 0 or 1
   bool atend;
   int curinst;
   long curid;

   explicit DictDriver(bool c): cursors(c) {}
   bool ids() const override { return Tr<K>::tracked; }
   long live(const Obs &o) const override { return Tr<K>::tracked ? D::objects * Driver::live(o) : -1; }
   void reset() override { a.kill(); b.kill(); a.make(); b.make(); cur.clear(); }
   void finish() override { a.kill(); b.kill(); cur.clear(); }
   static It at(C &c, int n) { return adv(c.begin(), n); }
   static int pos(C &c, It i) { return index_of(c.begin(), c.end(), i); }
   static int cpos(const C &c, CIt i) { return index_of(c.begin(), c.end(), i); }
   C &inst(int w) { return w == 1 ? *a : *b; }
   void set_cur(It i, C &c, int w)
   {
      cur.clear();
      cur.push_back(i);
      curinst = w;
      atend = i == c.end();
      curid = atend ? -1 : Tr<K>::id(D::key(*i));
   }
   struct Pairs // pairs of arguments as elements of an array
   {
      typedef typename D::In In;
      In *p; int n;
      Pairs(const int *x, int cnt): p((In *)malloc(cnt * sizeof(In) + 1)), n(cnt / 2)
      {
         for (int i = 0; i < n; ++i)
            ::new(p + i) In(D::in(x[2 * i], x[2 * i + 1]));
      }
      ~Pairs() { for (int i = 0; i < n; ++i) p[i].~In(); free(p); }
   };

   void look(C &c, int k, IV &r)
   {
      const C &cc = c;
      K key(Tr<K>::mk(k));
      int n = 0;
      for (It i = c.begin(); i != c.end(); ++i)
         ++n;
      long c0 = ncmp;
      It f = c.find(key);
      long c1 = ncmp;
      bool cnt = cc.count(key);
      long c2 = ncmp;
      It lo = c.lower_bound(key);
      long c3 = ncmp;
      It hi = c.upper_bound(key);
      long c4 = ncmp;
      ttl::pair<It, It> eq = c.equal_range(key);
      long c5 = ncmp;
      cheap("find", c1 - c0, n, 1);
      cheap("count", c2 - c1, n, 1);
      cheap("lower_bound", c3 - c2, n, 1);
      cheap("upper_bound", c4 - c3, n, 1);
      cheap("equal_range", c5 - c4, n, 2);
      r.push_back(pos(c, f));
      r.push_back((int)cc.count(key));
      r.push_back(pos(c, lo));
      r.push_back(pos(c, hi));
      r.push_back(pos(c, eq.first));
      r.push_back(pos(c, eq.second));
      if (cnt != (f != c.end()))
         fail("reply", "count() differs from find()");
      ttl::pair<CIt, CIt> ceq = cc.equal_range(key);
      if (cc.find(key) != CIt(f) || cc.lower_bound(key) != CIt(lo) || cc.upper_bound(key) != CIt(hi) || ceq.first != CIt(eq.first) || ceq.second != CIt(eq.second))
         fail("reply", "const lookup differs from non-const lookup");
      if (cpos(cc, cc.find(key)) != r[r.size() - 6])
         fail("reply", "const find() is at another position");
   }

   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const int *x = o.a;
      switch (o.h)
      {
      case H("insert"):
      {
         typename C::value_type v(D::mk(x[0], x[1]));
         ttl::pair<It, bool> p = q.insert(v);
         r.push_back(pos(q, p.first));
         r.push_back(p.second);
         break;
      }
      case H("insertr"):
      {
         Pairs s(x, o.n);
         with_range<C, OWN>(salt(x, o.n), s.p, s.p + s.n, [&](auto f, auto l) { q.insert(f, l); });
         break;
      }
      case H("insert_run"):
      {
         int added = 0;
         for (int j = 0; j < x[2]; ++j)
         {
            typename C::value_type v(D::mk(x[0] + j * x[1], x[3]));
            added += q.insert(v).second;
         }
         r.push_back(added);
         break;
      }
      case H("erase_run"):
      {
         int gone = 0;
         for (int j = 0; j < x[2]; ++j)
         {
            K key(Tr<K>::mk(x[0] + j * x[1]));
            gone += (int)q.erase(key);
         }
         r.push_back(gone);
         break;
      }
      case H("index"): r.push_back(D::index(q, x[0])); break;
      case H("index_set"): D::index_set(q, x[0], x[1]); break;
      case H("erase"): { K key(Tr<K>::mk(x[0])); r.push_back((int)q.erase(key)); break; }
      case H("erase_self"): r.push_back((int)q.erase(D::key(*at(q, x[0])))); break;
      case H("insert_self"): { ttl::pair<It, bool> p = q.insert(*at(q, x[0])); r.push_back(pos(q, p.first)); r.push_back(p.second); break; }
      case H("write"): D::write(at(q, x[0]), x[1]); break;
      case H("clear"): q.clear(); break;
      case H("ctor"): a.kill(); a.make(); break;
      case H("ctorr"): { a.kill(); Pairs s(x, o.n); with_range<C, OWN>(salt(x, o.n), s.p, s.p + s.n, [&](auto f, auto l) { ::new(a.raw()) C(f, l); }); break; }
      case H("copy_ctor"): b.kill(); { const C &ca = *a; b.make(ca); } break;
      case H("recopy"): { Slot<C> t; { const C &ca = *a; t.make(ca); } a.kill(); a = t; break; }
      case H("assign_ab"): { const C &cb = *b; C &ra = (*a = cb); if (&ra != &*a) fail("reply", "operator= does not return its object"); break; }
      case H("assign_ba"): { const C &ca = *a; *b = ca; break; }
      case H("assign_self"): { const C &ca = *a; *a = ca; break; }
      case H("eq"): D::compare(*a, *b, r); break;
      case H("look"): look(q, x[0], r); break;
      case H("at"): r.push_back(D::at(q, x[0])); break;
      case H("place"): set_cur(at(inst(x[0]), x[1]), inst(x[0]), x[0]); break;
      case H("next"):
      {
         C &c = inst(curinst);
         It i = cur[0];
         if (x[0]) i++; else ++i;
         r.push_back(i == c.end() ? -1 : Tr<K>::val(D::key(*i)));
         set_cur(i, c, curinst);
         break;
      }
      case H("prev"):
      {
         C &c = inst(curinst);
         It i = cur[0];
         if (x[0]) i--; else --i;
         r.push_back(Tr<K>::val(D::key(*i)));
         set_cur(i, c, curinst);
         break;
      }
      default: fail("harness", "unknown operation %s", o.name);
      }
      if (!cur.empty() && atend &&
          ((curinst == 1 && (o.h == H("ctor") || o.h == H("ctorr") || o.h == H("recopy"))) || (curinst == 2 && o.h == H("copy_ctor"))))
         cur.clear();
   }
   void view(C &c, Inst &in)
   {
      read_forward(c, in);
      if (failed()) return;
      read_mixed(c);
      read_backward(c, in);
      if (((const C &)c).max_size() < (size_t)in.size())
         fail("view", "max_size() below the number of elements");
      const C &cc = c;
      CIt p = cc.begin();
      for (int k = 1; k < in.size() && !failed(); ++k)
      {
         CIt q = p++;
         if (!typename C::value_compare()(*q, *p) || typename C::value_compare()(*p, *q))
            fail("view", "value_compare contradicts the order at %d", k);
      }
   }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      if (failed()) return;
      view(*b, o.inst[1]);
      if (failed()) return;
      D::equal(*a, *b, o.inst[0], o.inst[1]);
      if (!cursors)
         return;
      int w = 0, p = 0;
      if (!cur.empty())
         for (int k = 1; k <= 2 && !w; ++k)
         {
            Inst &in = o.inst[k - 1];
            int n = pos(inst(k), cur[0]), len = in.size();
            if (atend ? n == len : n >= 0 && n < len && in.id[n] == curid)
               w = k, p = n;
         }
      if (!w)
         cur.clear();
      else
         curinst = w;
      o.x.push_back(w);
      o.x.push_back(p);
   }
   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size(), m = o.inst[1].size();
      int keys = l.maxa * 3 / 2;
      int k = g.below(keys + 1), v = IsMap<C>::value ? g.below(l.nvals) : 0;
      if (n && g.chance(30))
         k = o.inst[0].v[2 * g.below(n)];
      bool room = n < l.maxa;
      if (random_run(g, n, l, keys, v, op)) return true;
      switch (g.below(cursors ? 28 : 22))
      {
      case 0: case 1: case 2: case 3: if (!room) return false; op("insert"), k, v; return true;
      case 4: case 5: case 6: op("erase"), k; return true;
      case 7: case 8: case 9: op("look"), k; return true;
      case 10: // runs of ascending or descending keys
      {
         int dir = g.in(-1, 1), cnt = g.in(0, l.maxa - n < 18 ? l.maxa - n : 18);
         if (cnt < 0) return false;
         if (g.chance(10)) { op("ctorr"); cnt = g.in(0, l.maxa < 18 ? l.maxa : 18); } else op("insertr");
         while (cnt--)
         {
            op, k, v;
            k = dir ? k + dir * g.in(1, 2) : g.below(keys + 1);
            if (k < 0 || k > keys) k = g.below(keys + 1);
         }
         return true;
      }
      case 11: if (!IsMap<C>::value || !room) return false; op("index"), k; return true;
      case 12: if (!IsMap<C>::value || !room) return false; op("index_set"), k, v; return true;
      case 13: if (!IsMap<C>::value || !n) return false; op("at"), o.inst[0].v[2 * g.below(n)]; return true;
      case 14: if (!IsMap<C>::value || !n) return false; op("write"), g.below(n), v; return true;
      case 15: if (!n) return false; op("erase_self"), g.below(n); return true;
      case 16: if (!n) return false; op("insert_self"), g.below(n); return true;
      case 17: if (g.chance(50)) { op("copy_ctor"); return true; } op("recopy"); return true;
      case 18: if (g.chance(50)) { op("assign_ab"); return true; } op("assign_ba"); return true;
      case 19: if (D::comparable && g.chance(70)) op("eq"); else op("assign_self"); return true;
      case 20: if (g.chance(80)) return false; if (g.chance(50)) op("clear"); else op("ctor"); return true;
      case 21: // take keys away, end by end
         if (!n) return false;
         op("erase_self"), (g.chance(50) ? 0 : n - 1);
         return true;
      default:
         if (o.x[0] == 0 || g.chance(15))
         {
            int w = g.in(1, 2);
            op("place"), w, g.in(0, w == 1 ? n : m);
            return true;
         }
         if (g.chance(60))
         {
            if (o.x[1] == o.inst[o.x[0] - 1].size()) return false;
            op("next"), g.below(2);
            return true;
         }
         if (o.x[1] == 0) return false;
         op("prev"), g.below(2);
         return true;
      }
      return false;
   }
};

namespace vf {
const char *const component_configs[] = { "map/E", "map/E+gt", "map/long", "set/E", "set/E+gt", "set/long", "map/E+cursor", "set/E+cursor", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("map/E"): return new DictDriver<ttl::map<E, E> >(false);
   case H("map/E+gt"): return new DictDriver<ttl::map<E, E, Desc<E> > >(false);
   case H("map/long"): return new DictDriver<ttl::map<long, XI> >(false);
   case H("set/E"): return new DictDriver<ttl::set<E> >(false);
   case H("set/E+gt"): return new DictDriver<ttl::set<E, Desc<E> > >(false);
   case H("set/long"): return new DictDriver<ttl::set<long> >(false);
   case H("map/E+cursor"): return new DictDriver<ttl::map<E, E> >(true);
   case H("set/E+cursor"): return new DictDriver<ttl::set<E> >(true);
   }
   return 0;
}
}
