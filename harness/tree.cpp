// Driver for Tree.tla: ttl::rbtree used directly.
#include <ttl/ttl.hpp>
#include "trees.hpp"

template<class K, class T, class Less> struct TreeDriver: Driver
{
   typedef ttl::pair<const K, T> KV;
   typedef ttl::rbtree<K, KV, ttl::select_first<KV>, Less> C;
   typedef typename C::node N;
   Slot<C> a, b;
   bool cursors;
   N *cur;
   int curinst;
   bool atend;
   long curid;

   explicit TreeDriver(bool c): cursors(c), cur(0) {}
   bool ids() const override { return Tr<K>::tracked; }
   long live(const Obs &o) const override { return Tr<K>::tracked ? 2 * Driver::live(o) : -1; }
   void reset() override { a.kill(); b.kill(); a.make(); b.make(); cur = 0; }
   void finish() override { a.kill(); b.kill(); cur = 0; }
   C &inst(int w) { return w == 1 ? *a : *b; }
   static N *first(C &c) { return c.get_root() ? static_cast<N *>(ttl::rbtree_base::min_node(c.get_root())) : c.end(); }
   static N *next(N *n) { return static_cast<N *>(ttl::rbtree_base::next_node(n)); }
   static int pos(C &c, const N *x)
   {
      int k = 0;
      for (N *n = first(c); n != c.end(); n = next(n), ++k)
         if (n == x || k > TOOMANY)
            return k;
      return x == c.end() ? k : -1;
   }
   static N *at(C &c, int k)
   {
      N *n = first(c);
      while (k--)
         n = next(n);
      return n;
   }
   void set_cur(N *n, int w)
   {
      cur = n;
      curinst = w;
      atend = n == inst(w).end();
      curid = atend ? -1 : Tr<K>::id(n->data.first);
   }
   void look(C &c, int k, IV &r)
   {
      const C &cc = c;
      K key(Tr<K>::mk(k));
      N *f = c.find(key), *lo = c.lower_bound(key), *hi = c.upper_bound(key);
      ttl::pair<N *, N *> eq = c.equal_range(key);
      r.push_back(pos(c, f));
      r.push_back((int)cc.count(key));
      r.push_back(pos(c, lo));
      r.push_back(pos(c, hi));
      r.push_back(pos(c, eq.first));
      r.push_back(pos(c, eq.second));
      ttl::pair<const N *, const N *> ceq = cc.equal_range(key);
      if (cc.find(key) != f || cc.lower_bound(key) != lo || cc.upper_bound(key) != hi || ceq.first != eq.first || ceq.second != eq.second)
         fail("reply", "const lookup differs from non-const lookup");
      // a path is never longer than the bound, so neither is a descent
      int n = pos(c, c.end());
      long c0 = ncmp;
      cc.find(key);
      long c1 = ncmp;
      cc.lower_bound(key);
      long c2 = ncmp;
      cc.upper_bound(key);
      cheap("find", c1 - c0, n, 1);
      cheap("lower_bound", c2 - c1, n, 1);
      cheap("upper_bound", ncmp - c2, n, 1);
   }
   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const int *x = o.a;
      switch (o.h)
      {
      case H("insert_equal"): { KV v(Tr<K>::mk(x[0]), Tr<T>::mk(x[1])); r.push_back(pos(q, q.insert_equal(v))); break; }
      case H("insert_each"):
         for (int k = 0; k + 1 < o.n; k += 2)
         {
            KV v(Tr<K>::mk(x[k]), Tr<T>::mk(x[k + 1]));
            q.insert_equal(v);
         }
         break;
      case H("insert_run"):
         for (int j = 0; j < x[2]; ++j)
         {
            KV v(Tr<K>::mk(x[0] + j * x[1]), Tr<T>::mk(x[3]));
            q.insert_equal(v);
         }
         break;
      case H("erase_run"):
      {
         int gone = 0;
         for (int j = 0; j < x[2]; ++j)
         {
            K key(Tr<K>::mk(x[0] + j * x[1]));
            while (N *n = q.remove(key))
               delete n, ++gone;
         }
         r.push_back(gone);
         break;
      }
      case H("insert_unique"):
      {
         KV v(Tr<K>::mk(x[0]), Tr<T>::mk(x[1]));
         ttl::pair<N *, bool> p = q.insert_unique(v);
         r.push_back(pos(q, p.first));
         r.push_back(p.second);
         break;
      }
      case H("remove"):
      {
         K key(Tr<K>::mk(x[0]));
         N *n = q.remove(key);
         if (n && Tr<K>::val(n->data.first) != x[0])
            fail("reply", "remove(%d) returned the node of %d", x[0], Tr<K>::val(n->data.first));
         r.push_back(n ? Tr<T>::val(n->data.second) : -1);
         delete n;
         break;
      }
      case H("clear"): q.clear(); break;
      case H("ctor"): a.kill(); a.make(); break;
      case H("assign_ab"): a->assign(*b); break;
      case H("assign_ba"): b->assign(*a); break;
      case H("look"): look(q, x[0], r); break;
      case H("place"): set_cur(at(inst(x[0]), x[1]), x[0]); break;
      case H("next"): { N *n = next(cur); r.push_back(n == inst(curinst).end() ? -1 : Tr<K>::val(n->data.first)); set_cur(n, curinst); break; }
      case H("prev"): { N *n = static_cast<N *>(ttl::rbtree_base::prev_node(cur)); r.push_back(Tr<K>::val(n->data.first)); set_cur(n, curinst); break; }
      default: fail("harness", "unknown operation %s", o.name);
      }
      if (cur && atend && curinst == 1 && o.h == H("ctor"))
         cur = 0;
   }
   // preorder; counts nodes to survive cycles
   bool links;
   int nodes;
   void shape(const ttl::rbnode *n, const ttl::rbnode *up, LV &out)
   {
      if (!n) { out.push_back(2); return; }
      if (++nodes > TOOMANY) { links = false; return; }
      if (n->parent != up)
         links = false;
      out.push_back(n->color == ttl::rbnode::RED);
      shape(n->left, n, out);
      shape(n->right, n, out);
   }
   // the same conditions as Tree.tla's Balanced, for replayed state graphs
   static int black(const LV &s, size_t &p, int &height)
   {
      int c = (int)s[p++];
      if (c == 2) { height = 0; return 0; }
      bool red = s[p] == 1;
      int hl, hr;
      int l = black(s, p, hl);
      red |= s[p] == 1;
      int r = black(s, p, hr);
      height = 1 + (hl > hr ? hl : hr);
      return l < 0 || l != r || (c == 1 && red) ? -1 : l + 1 - c;
   }
   void view(C &c, Inst &in, LV &aux)
   {
      vec<N *> seen;
      int n = 0;
      for (N *k = first(c); k != c.end(); k = next(k))
      {
         Tok<KV>::add(in, k->data);
         seen.push_back(k);
         if (failed()) return;
         if (++n > TOOMANY) return fail("view", "traversal does not end");
      }
      const C &cc = c;
      if ((cc.get_root() == 0) != (n == 0) || cc.get_root() != c.get_root() || cc.get_croot() != c.get_root() || cc.end() != c.end())
         fail("view", "get_root() or end() wrong with %d elements", n);
      if (n)
      {
         if (ttl::rbtree_base::max_node(cc.get_root()) != seen[n - 1])
            return fail("view", "max_node() is not the last element");
         for (int k = n - 1; k > 0; --k)
            if (ttl::rbtree_base::prev_node(seen[k]) != seen[k - 1])
               return fail("view", "backward traversal: wrong element before element %d", k);
      }
      LV s;
      links = true, nodes = 0;
      shape(cc.get_root(), c.end(), s);
      int height = 0;
      if (nodes != n)
         fail("balance", "%d nodes in the tree, traversal visits %d", nodes, n);
      else if (!links)
         fail("balance", "a parent link does not mirror the child link");
      else
      {
         size_t p = 0;
         if (s[0] == 1)
            fail("balance", "the root is red");
         else if (black(s, p, height) < 0)
            fail("balance", "red under red, or paths with different numbers of black nodes");
         else if (height > max_height(n))
            fail("balance", "height %d with %d elements", height, n);
      }
      aux.push_back(links);
      aux.insert(aux.end(), s.begin(), s.end());
   }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0], o.aux);
      if (failed()) return;
      view(*b, o.inst[1], o.aux);
      if (failed() || !cursors) return;
      int w = 0, p = 0;
      if (cur)
         for (int k = 1; k <= 2 && !w; ++k)
         {
            Inst &in = o.inst[k - 1];
            int n = pos(inst(k), cur), len = in.size();
            if (atend ? n == len : n >= 0 && n < len && in.id[n] == curid)
               w = k, p = n;
         }
      if (!w) cur = 0; else curinst = w;
      o.x.push_back(w);
      o.x.push_back(p);
   }
   bool random_call(Rng &g, const Obs &o, const Limits &l, Op &op) override
   {
      int n = o.inst[0].size(), m = o.inst[1].size();
      int keys = g.chance(60) ? l.maxa / 3 : l.maxa;
      int k = g.below(keys + 1), v = g.below(l.nvals);
      if (n && g.chance(30))
         k = o.inst[0].v[2 * g.below(n)];
      bool room = n < l.maxa;
      if (random_run(g, n, l, keys, v, op)) return true;
      switch (g.below(cursors ? 22 : 17))
      {
      case 0: case 1: case 2: if (!room) return false; op("insert_equal"), k, v; return true;
      case 3: if (!room) return false; op("insert_unique"), k, v; return true;
      case 4: case 5: case 6: case 7: op("remove"), k; return true;
      case 8: case 9: case 10: op("look"), k; return true;
      case 11: case 12:
      {
         int dir = g.in(-1, 1), cnt = g.in(0, l.maxa - n < 18 ? l.maxa - n : 18);
         if (cnt <= 0) return false;
         op("insert_each");
         while (cnt--)
         {
            op, k, v;
            v = g.below(l.nvals);
            k = dir ? k + dir * g.in(0, 2) : g.below(keys + 1);
            if (k < 0 || k > keys) k = g.below(keys + 1);
         }
         return true;
      }
      case 13: op("assign_ab"); return true;
      case 14: op("assign_ba"); return true;
      case 15: if (g.chance(80)) return false; if (g.chance(50)) op("clear"); else op("ctor"); return true;
      case 16: if (!n) return false; op("remove"), o.inst[0].v[g.chance(50) ? 0 : 2 * (n - 1)]; return true;
      default:
         if (o.x[0] == 0 || g.chance(15))
         {
            int w = g.in(1, 2);
            op("place"), w, g.in(0, w == 1 ? n : m);
            return true;
         }
         if (o.x[1] == o.inst[o.x[0] - 1].size()) return false;
         if (g.chance(60)) { op("next"), 0; return true; }
         if (o.x[1] == 0) return false;
         op("prev"), 0;
         return true;
      }
      return false;
   }
};
namespace vf {
const char *const component_configs[] = { "tree/E", "tree/E+gt", "tree/long", "tree/E+cursor", 0 };
Driver *make_driver(const char *c)
{
   switch (H(c))
   {
   case H("tree/E"): return new TreeDriver<E, E, ttl::less<E> >(false);
   case H("tree/E+gt"): return new TreeDriver<E, E, Desc<E> >(false);
   case H("tree/long"): return new TreeDriver<long, XI, ttl::less<long> >(false);
   case H("tree/E+cursor"): return new TreeDriver<E, E, ttl::less<E> >(true);
   }
   return 0;
}
}
