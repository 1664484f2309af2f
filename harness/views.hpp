// Reading a container through every view it offers; disagreement between views
// is a failure of kind "view" (contents) or "iter" (iterator behaviour).
#ifndef VF_VIEWS_HPP
#define VF_VIEWS_HPP
#include "core.hpp"
#include "iters.hpp"
namespace vf {

// How to read an element into an Inst
template<class V> struct Tok
{
   static void add(Inst &in, const V &v) { in.add(Tr<V>::val(v), Tr<V>::id(v)); }
};

template<class C> void read_forward(C &c, Inst &in)
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   const C &cc = c;
   int n = 0;
   vec<const void *> adr;
   for (It i = c.begin(); i != c.end() && !failed(); ++i)
   {
      Tok<typename C::value_type>::add(in, *i);
      adr.push_back(&*i);
      if (++n > TOOMANY)
         return fail("view", "forward traversal does not end");
   }
   if (failed())
      return;
   int k = 0;
   for (CIt i = cc.begin(); i != cc.end() && !failed(); ++k)
   {
      if (k >= n)
         return fail("view", "const traversal visits more elements than mutable traversal");
      CIt before = i;
      CIt was = i++;
      if (!(was == before) || was != before || &*was != adr[k])
         return fail("iter", "const_iterator: post-increment did not return the old position");
   }
   if (k != n)
      return fail("view", "const traversal visits %d elements, mutable traversal %d", k, n);
   k = 0;
   CIt ci = cc.cbegin();
   for (It i = c.begin(); !(i == c.end()) && k <= n && !failed(); ++k)
   {
      CIt conv(i);
      if (!(conv == ci) || conv != ci)
         return fail("iter", "iterator converted to const_iterator is a different position");
      It was = i++;
      if (&*was != adr[k])
         return fail("iter", "iterator: post-increment did not return the old position");
      CIt &r = ++ci;
      if (&r != &ci)
         return fail("iter", "const_iterator: pre-increment did not return itself");
   }
   if (ci != cc.cend() || !(ci == cc.cend()))
      return fail("iter", "cbegin..cend differs from begin..end");
   if (c.empty() != (n == 0) || cc.empty() != (n == 0))
      fail("view", "empty() is %d with %d elements", (int)c.empty(), n);
}
// iterator classes (not raw pointers): comparison of iterator with const_iterator
template<class C> void read_mixed(C &c)
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   const C &cc = c;
   CIt b = cc.begin(), e = cc.end();
   It mb = c.begin(), me = c.end();
   if (!(mb == b) || mb != b || !(me == e) || me != e)
      fail("iter", "iterator and const_iterator at the same position compare different");
   if (!c.empty() && (mb == e || !(mb != e) || me == b || !(me != b)))
      fail("iter", "iterator and const_iterator at different positions compare equal");
   if (!c.empty() && (mb == me || !(mb != me) || b == e))
      fail("iter", "begin equals end in a non-empty container");
   CIt ci = b;
   for (It i = mb; i != me && !failed(); ++i, ++ci)
      if (i.operator->() != &*i || ci.operator->() != &*ci || &*i != &*ci)
         fail("iter", "operator-> does not designate what operator* does");
}
template<class C> void read_backward(C &c, const Inst &in)
{
   typedef typename C::iterator It;
   typedef typename C::const_iterator CIt;
   const C &cc = c;
   int n = in.size();
   vec<const void *> adr;
   for (It i = c.begin(); i != c.end(); ++i)
      adr.push_back(&*i);
   It i = c.end();
   for (int k = n; k-- && !failed();)
   {
      It &r = --i;
      if (&r != &i || &*i != adr[k])
         return fail("view", "backward traversal: step %d is not element %d", n - 1 - k, k);
   }
   if (i != c.begin())
      return fail("view", "backward traversal does not arrive at begin");
   CIt ci = cc.end();
   for (int k = n; k-- && !failed();)
   {
      CIt before = ci;
      CIt was = ci--;
      if (was != before || &*ci != adr[k])
         return fail("iter", "const_iterator: backward step %d wrong", n - 1 - k);
   }
   if (ci != cc.begin())
      return fail("view", "backward const traversal does not arrive at begin");
   i = c.end();
   for (int k = n; k-- && !failed();)
   {
      It before = i;
      It was = i--;
      if (was != before || &*i != adr[k])
         return fail("iter", "iterator: post-decrement wrong at step %d", n - 1 - k);
      CIt x(i);
      CIt &xr = ++x;
      CIt &yr = --x;
      if (&xr != &x || &yr != &x || &*x != adr[k])
         return fail("iter", "const_iterator: forward and back again is a different element");
   }
}
template<class C> void read_size(C &c, int n)
{
   const C &cc = c;
   if ((long)cc.size() != n)
      fail("view", "size() is %ld with %d elements", (long)cc.size(), n);
}
template<class C> void read_front(C &c)
{
   const C &cc = c;
   if (!c.empty() && (&c.front() != &*c.begin() || &cc.front() != &*cc.begin()))
      fail("view", "front() is not the first element");
}
template<class C> void read_back(C &c, int n)
{
   const C &cc = c;
   if (!n)
      return;
   typename C::iterator i = c.begin();
   for (int k = 1; k < n; ++k)
      ++i;
   if (&c.back() != &*i || &cc.back() != &*i)
      fail("view", "back() is not the last element");
}
template<class C> void read_index(C &c, int n)
{
   const C &cc = c;
   typename C::iterator i = c.begin();
   for (int k = 0; k < n; ++k, ++i)
      if (&c[k] != &*i || &cc[k] != &*i || &c.at(k) != &*i || &cc.at(k) != &*i || c.data() + k != &*i || cc.data() + k != &*i)
         return fail("view", "indexing, at() or data() differ from iteration at %d", k);
   if (c.data() != c.begin() || cc.data() != cc.cbegin() || (long)(c.end() - c.begin()) != n)
      fail("view", "data()/begin()/end() disagree");
}
// == and != against the contents as read
template<class C> void read_equal(C &a, C &b, const Inst &ia, const Inst &ib)
{
   const C &ca = a, &cb = b;
   bool want = ia.v == ib.v;
   if ((ca == cb) != want || (cb == ca) != want || (ca != cb) == want || (cb != ca) == want)
      fail("eq", "a == b is %d, b == a is %d, contents are %s", (int)(ca == cb), (int)(cb == ca), want ? "equal" : "different");
   if (!(ca == ca) || ca != ca || !(cb == cb) || cb != cb)
      fail("eq", "a container does not equal itself");
}
// the comparison itself as an operation
template<class C> void ask_equal(C &a, C &b, IV &r)
{
   const C &ca = a, &cb = b;
   r.push_back(ca == cb);
   r.push_back(ca != cb);
   r.push_back(cb == ca);
   r.push_back(cb != ca);
   r.push_back(ca == ca);
   r.push_back(cb != cb);
}
template<class It> int index_of(It first, It last, It it)
{
   int n = 0;
   for (; first != last; ++first, ++n)
      if (first == it)
         return n;
      else if (n > TOOMANY)
         return -2;
   return first == it ? n : -1;
}
// array of abstract values as concrete elements
template<class V> struct Arr
{
   V *p; int n;
   Arr(const int *a, int cnt): p((V *)malloc(cnt * sizeof(V) + !cnt)), n(cnt)
   {
      for (int i = 0; i < n; ++i)
         ::new(p + i) V(Tr<V>::mk(a[i]));
   }
   ~Arr()
   {
      for (int i = 0; i < n; ++i)
         p[i].~V();
      free(p);
   }
   V *begin() { return p; }
   V *end() { return p + n; }
};
// single-pass style forward iterator over an array, for InputIterator parameters
template<class V> struct FwdIt
{
   typedef V value_type;
   typedef const V &reference;
   typedef const V *pointer;
   typedef ptrdiff_t difference_type;
   const V *p;
   FwdIt(const V *q): p(q) {}
   const V &operator*() const { return *p; }
   const V *operator->() const { return p; }
   FwdIt &operator++() { ++p; return *this; }
   FwdIt operator++(int) { FwdIt t(*this); ++p; return t; }
   bool operator==(const FwdIt &o) const { return p == o.p; }
   bool operator!=(const FwdIt &o) const { return p != o.p; }
};
template<class C, class V> auto fill(C &c, V *b, V *e, int) -> decltype(c.push_back(*b), void())
{
   for (; b != e; ++b)
      c.push_back(*b);
}
template<class C, class V> auto fill(C &c, V *b, V *e, int) -> decltype(c.insert(typename C::value_type(*b)), void())
{
   for (; b != e; ++b)
      c.insert(typename C::value_type(*b));
}
template<class C, class V> void fill(C &c, V *b, V *e, long)
{
   while (b != e)
      c.push_front(*--e);
}
// Calls f(first, last) on a range in one of several guises, the same for the same call:
// pointers to const or not, a plain forward iterator, an input iterator that can be
// read once only, an iterator that permits any jump, iterators of another container.
enum { OWN = 1 };
template<class C, int What, class V, class F> void with_range(unsigned h, V *b, V *e, F f)
{
   h = h * 7 + (unsigned)(e - b);
   switch (h % (What & OWN ? 6 : 5))
   {
   case 0: f(b, e); return;
   case 1: f((const V *)b, (const V *)e); return;
   case 2: f(FwdIt<V>(b), FwdIt<V>(e)); return;
   case 3: { Range<CatKit, IN, const V> r(b, e); f(r.first, r.last); return; }
   case 4: { Range<CatKit, RA, const V> r(b, e); f(r.first, r.last); return; }
   case 5:
      if constexpr ((What & OWN) != 0)
      {
         Slot<C> t;
         t.make();
         fill(*t, b, e, 0);
         const C &ct = *t;
         if (h / 6 % 2) f((*t).begin(), (*t).end());
         else f(ct.begin(), ct.end());
         t.kill();
      }
      return;
   }
}
// the same where the range must permit any jump
template<class C, class V, class F> void with_far(unsigned h, V *b, V *e, F f)
{
   switch (h % 4)
   {
   case 0: f(b, e); return;
   case 1: f((const V *)b, (const V *)e); return;
   case 2: { Range<CatKit, RA, const V> r(b, e); f(r.first, r.last); return; }
   case 3: { Range<CatKit, RA, V> r(b, e); f(r.first, r.last); return; }
   }
}
// a number that depends on the arguments of a call
inline unsigned salt(const int *x, int n)
{
   unsigned h = 5;
   for (int i = 0; i < n && i < 8; ++i)
      h = h * 31 + (unsigned)x[i];
   return h ^ h >> 7;
}
} // namespace vf
#endif
