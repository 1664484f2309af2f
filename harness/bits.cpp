// Driver for Bits.tla: ttl::bitset.
#include <ttl/ttl.hpp>
#ifdef VF_NOGNU // the portable code
#include <stdarg.h>
#include <time.h>
#undef __GNUC__
#include <ttl/bitset.hpp>
#define __GNUC__ 13
#else
#include <ttl/bitset.hpp>
#endif
#include "views.hpp"

// a to bitset<M> and back
template<size_t N, size_t M> struct Conv
{
   typedef ttl::bitset<N> C;
   typedef ttl::bitset<M> D;
   static void members(const D &d, IV &r)
   {
      IV in;
      for (size_t i = 0; i < M; ++i)
         if (d.test(i))
            in.push_back((int)i);
      if (d.count() != in.size() || d.any() != !in.empty() || d.none() == d.any())
         fail("reply", "count, any or none of bitset<%d>(bitset<%d>) contradict its members", (int)M, (int)N);
      r.push_back((int)in.size());
      r.insert(r.end(), in.begin(), in.end());
   }
   static void run(C &a, unsigned form, IV &r)
   {
      const C &ca = a;
      switch (form)
      {
      case H("conv"):
      {
         D d(ca);
         members(d, r);
         const D &cd = d;
         C back(cd);
         a = back;
         break;
      }
      case H("conv_as"):
      {
         D d;
         d.set();
         d = ca;
         members(d, r);
         a.set();
         a = d;
         break;
      }
      case H("conv_op"):
      {
         const D d(ca.operator ttl::bitset<M>());
         members(d, r);
         a = d.operator ttl::bitset<N>();
         break;
      }
      }
   }
};
static const int sizes[] = { 0, 1, 2, 3, 4, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 193, 256, 257, 511, 1000 };

template<size_t N> struct BitDriver: Driver
{
   typedef ttl::bitset<N> C;
   Slot<C> a, b;
   static void dirt(Slot<C> &s) { memset(s.raw(), 0xa5, sizeof(C)); }
   void fresh(Slot<C> &s) { dirt(s); ::new((void *)s.p) C; }
   long live(const Obs &) const override { return -1; }
   void reset() override { a.kill(); b.kill(); fresh(a); fresh(b); }
   void finish() override { a.kill(); b.kill(); }
   static unsigned long value(const int *x) { unsigned long v = 0; for (int k = 4; k--;) v = v << 16 | (unsigned)x[k]; return v; }
   static void words(unsigned long v, IV &r) { for (int k = 0; k < 4; ++k) r.push_back((int)(v >> 16 * k & 0xffff)); }

   void conv(int m, unsigned form, IV &r)
   {
      switch (m)
      {
#define M(m) case m: Conv<N, m>::run(*a, form, r); break;
      M(0) M(1) M(2) M(3) M(4) M(31) M(32) M(33) M(63) M(64) M(65) M(100) M(127) M(128) M(129) M(192) M(193) M(256) M(257) M(511) M(1000) M(66000)
#undef M
      default: fail("harness", "no bitset<%d>", m);
      }
   }
   void apply(const Op &o, IV &r) override
   {
      C &q = *a;
      const C &cq = *a, &cb = *b;
      const int *x = o.a;
      const C *ret = &q;
      switch (o.h)
      {
      case H("set"): ret = &q.set((size_t)x[0]); break;
      case H("unset"): ret = &q.reset((size_t)x[0]); break;
      case H("flip"): ret = &q.flip((size_t)x[0]); break;
      case H("setv"): ret = &q.set((size_t)x[0], x[1] != 0); break;
      case H("set_all"): ret = &q.set(); break;
      case H("reset_all"): ret = &q.reset(); break;
      case H("flip_all"): ret = &q.flip(); break;
      case H("ref_set"): q[(size_t)x[0]] = x[1] != 0; break;
      case H("ref_aa"): q[(size_t)x[0]] = q[(size_t)x[1]]; break;
      case H("ref_ab"): q[(size_t)x[0]] = (*b)[(size_t)x[1]]; break;
      case H("ref_flip"): r.push_back((bool)q[(size_t)x[0]].flip()); break;
      case H("not"): q = ~cq; break;
      case H("and"): ret = &(q &= cb); break;
      case H("or"): ret = &(q |= cb); break;
      case H("xor"): ret = &(q ^= cb); break;
      case H("and3"): q = cq & cb; break;
      case H("or3"): q = cq | cb; break;
      case H("xor3"): q = cq ^ cb; break;
      case H("and_self"): q &= cq; break;
      case H("or_self"): q |= cq; break;
      case H("xor_self"): q ^= cq; break;
      case H("shl"): ret = &(q <<= far(x[0])); break;
      case H("shr"): ret = &(q >>= far(x[0])); break;
      case H("shl3"): q = cq << far(x[0]); break;
      case H("shr3"): q = cq >> far(x[0]); break;
      case H("ctor"): a.kill(); fresh(a); break;
      case H("copy_ctor"): b.kill(); dirt(b); ::new((void *)b.p) C(*a); break;
      case H("assign_ab"): ret = &(q = cb); break;
      case H("assign_self"): ret = &(q = cq); break;
      case H("from_ul"): a.kill(); dirt(a); ::new((void *)a.p) C(value(x)); break;
      case H("from_ull"): a.kill(); dirt(a); ::new((void *)a.p) C((unsigned long long)value(x)); break;
      case H("from_str"):
      case H("from_str2"):
      {
         bool two = o.h == H("from_str2");
         int n = o.n - 1;
         // exactly as long as it may be read
         int lim = x[0] >= 0 && x[0] < n ? x[0] : n;
         int term = x[0] < 0 || x[0] > n;
         char *s = (char *)malloc(lim + term + !(lim + term));
         static const char one[] = "01x/", other[] = "ba01";
         for (int k = 0; k < lim; ++k)
            s[k] = (two ? other : one)[x[k + 1]];
         if (term)
            s[lim] = 0;
         a.kill();
         dirt(a);
         if (two)
            ::new((void *)a.p) C((const char *)s, far(x[0]), 'b', 'a');
         else if (x[0] == -1)
            ::new((void *)a.p) C((const char *)s);
         else
            ::new((void *)a.p) C((const char *)s, far(x[0]));
         free(s);
         break;
      }
      case H("conv"): case H("conv_as"): case H("conv_op"): conv(x[0], o.h, r); break;
      case H("num"): words(cq.to_ulong(), r); words((unsigned long)cq.to_ullong(), r); break;
      case H("zero"):
      {
         ttl::bitset<0> z;
         const ttl::bitset<0> &cz = z;
         r.push_back(cz == cq);
         r.push_back(cq == cz);
         r.push_back(cz != cq);
         r.push_back(cq != cz);
         break;
      }
      case H("ask"):
         r.push_back((int)cq.count());
         r.push_back(cq.any());
         r.push_back(cq.none());
         r.push_back(cq == cb);
         r.push_back(cq != cb);
         r.push_back(cq == cq && !(cq != cq));
         r.push_back((int)cq.size());
         if (N)
            r.push_back(cq.all());
         if ((cb == cq) != (cq == cb) || (cb != cq) == (cq == cb))
            fail("eq", "== is not symmetric or != is not its negation");
         break;
      default: fail("harness", "unknown operation %s", o.name);
      }
      if (ret != &q)
         fail("reply", "%s does not return its object", o.name);
   }
   // The numbers of Far in Bits.tla.
   static size_t far(int k) { return k >= 0 ? (size_t)k : k > -100 ? (size_t)0 - (size_t)-k : ((size_t)1 << 32) + (size_t)(-100 - k); }
   static void view(C &c, Inst &in)
   {
      const C &cc = c;
      for (size_t i = 0; i < N; ++i)
      {
         bool v = cc.test(i);
         in.add(v);
         if (cc[i] != v || (bool)c[i] != v || ~c[i] == v)
            fail("view", "test(%d) is %d, [] const %d, [] %d, ~[] %d", (int)i, v, (int)cc[i], (int)(bool)c[i], (int)~c[i]);
      }
      for (size_t i = N; i < N + 200; i += i < N + 70 ? 1 : 13) // nothing there
         if (cc.test(i) || cc[i])
            fail("view", "test(%d) or [] is true in bitset<%d>", (int)i, (int)N);
      for (int k = 1; k < 3 * 64; k += k < 5 ? 1 : 7)
         if (cc.test(far(-k)) || cc[far(-k)] || cc.test(far(-100 - k + 1)) || cc[far(-100 - k + 1)])
            fail("view", "test(%lu) or test(%lu) or [] is true in bitset<%d>", (unsigned long)far(-k), (unsigned long)far(-100 - k + 1), (int)N);
      if (cc.size() != N || cc.capacity() < N)
         fail("view", "size() or capacity() wrong");
   }
   void observe(Obs &o) override
   {
      o.ninst = 2;
      view(*a, o.inst[0]);
      view(*b, o.inst[1]);
   }
   // positions, mostly near the ends of words
   static int pos(Rng &g)
   {
      if (g.chance(40)) return g.below((int)N);
      int p = g.in(0, (int)N / 32) * 32 + g.in(-2, 1);
      if (g.chance(25)) p = (int)N - g.in(1, 3);
      return p < 0 ? 0 : p >= (int)N ? (int)N - 1 : p;
   }
   static int shift(Rng &g)
   {
      if (g.chance(45)) return g.in(0, 3);
      if (g.chance(8)) return g.chance(50) ? -g.in(1, 99) : -100 - g.below((int)N + 2);
      if (g.chance(30)) return g.in(0, (int)N + 2);
      if (g.chance(20)) return (int)N + g.in(-2, 200) < 0 ? 0 : (int)N + g.in(0, 200);
      int p = 32 * g.in(0, (int)N / 32 + 1) + g.in(-1, 1);
      return p < 0 ? 0 : p;
   }
   bool random_call(Rng &g, const Obs &, const Limits &, Op &op) override
   {
      int k = g.below(32);
      if (N == 0 && k < 9)
         return false;
      switch (k)
      {
      case 0: case 1: op("set"), pos(g); return true;
      case 2: op("unset"), pos(g); return true;
      case 3: op("flip"), pos(g); return true;
      case 4: op("setv"), pos(g), g.below(2); return true;
      case 5: op("ref_set"), pos(g), g.below(2); return true;
      case 6: op("ref_aa"), pos(g), pos(g); return true;
      case 7: op("ref_ab"), pos(g), pos(g); return true;
      case 8: op("ref_flip"), pos(g); return true;
      case 9: { static const char *const n[] = { "set_all", "reset_all", "flip_all", "not" }; op(n[g.below(4)]); return true; }
      case 10: case 11: { static const char *const n[] = { "and", "or", "xor", "and3", "or3", "xor3", "and_self", "or_self", "xor_self" }; op(n[g.below(g.chance(90) ? 6 : 9)]); return true; }
      case 12: case 13: case 14:
      {
         static const char *const n[] = { "shl", "shr", "shl3", "shr3" };
         op(n[g.below(4)]), shift(g);
         return true;
      }
      case 15: { static const char *const n[] = { "copy_ctor", "assign_ab", "assign_self", "copy_ctor", "assign_ab", "copy_ctor", "ctor" }; op(n[g.below(7)]); return true; }
      case 16: case 17: case 18:
      {
         op(g.chance(50) ? "from_ul" : "from_ull");
         int m = g.below(5);
         for (int w = 0; w < 4; ++w)
            op, (m == 0 ? 0xffff : m == 1 ? g.below(0x10000) : m == 2 ? (1 << g.below(16)) * (int)g.chance(40) : m == 3 ? 0x5555 << g.below(2) : 0x8001);
         return true;
      }
      case 19: case 20: case 21: case 22:
      {
         int n = g.chance(50) ? g.in(0, 12) : g.chance(40) ? g.in(0, (int)N + 5) : 32 * g.in(0, (int)N / 32 + 1) + g.in(-1, 1);
         if (n < 0) n = 0;
         if (n > MAXARGS - 2) n = MAXARGS - 2;
         op(g.chance(70) ? "from_str" : "from_str2"), (g.chance(50) ? -1 : g.chance(10) ? -100 - g.below(3) : g.in(0, n + 1));
         while (n--)
            op, (g.chance(4) ? g.in(2, 3) : g.below(2));
         return true;
      }
      case 23: case 24: case 25:
      {
         static const char *const n[] = { "conv", "conv_as", "conv_op" };
         op(n[g.below(3)]), sizes[g.below(sizeof sizes / sizeof *sizes)];
         return true;
      }
      case 26: case 27: op("num"); return true;
      case 28: op("zero"); return true;
      default: op("ask"); return true;
      }
   }
};

namespace vf {
#define SIZES S(0) S(1) S(2) S(3) S(31) S(32) S(33) S(63) S(64) S(65) S(100) S(127) S(128) S(129) S(192) S(193) S(256) S(257) S(511) S(1000) S(66000)
const char *const component_configs[] = {
#define S(n) "bits/" #n,
SIZES
#undef S
0 };
Driver *make_driver(const char *c)
{
#define S(n) if (!strcmp(c, "bits/" #n)) return new BitDriver<n>;
SIZES
#undef S
   return 0;
}
}
