// Parts common to the drivers of the search trees.
#ifndef VF_TREES_HPP
#define VF_TREES_HPP
#include "seqs.hpp"
namespace vf {
template<class K, class T> struct Tok<ttl::pair<const K, T> >
{
   static void add(Inst &in, const ttl::pair<const K, T> &v) { in.add(Tr<K>::val(v.first), Tr<T>::val(v.second), Tr<K>::id(v.first)); }
};
template<class T> struct Desc { bool operator()(const T &a, const T &b) const { return b < a; } };

// In histories of large dictionaries, whole runs of keys come and go.
inline bool random_run(Rng &g, int n, const Limits &l, int keys, int v, Op &op, bool erase = true)
{
   if (l.maxa < 400 || !g.chance(45))
      return false;
   int first = g.below(keys + 1), step = g.chance(60) ? 1 : g.in(2, 5);
   if (g.chance(50))
      step = -step;
   int most = step > 0 ? (keys - first) / step + 1 : first / -step + 1;
   int cnt = g.chance(30) ? most : g.in(0, most);
   if (erase && (n > l.maxa || (n && g.chance(40))))
   {
      op("erase_run"), first, step, g.chance(50) ? cnt : cnt / 3;
      return true;
   }
   if (cnt > l.maxa - n)
      cnt = l.maxa - n;
   if (cnt <= 0)
      return false;
   op("insert_run"), first, step, cnt, v;
   return true;
}
// floor(2 * log2(n + 1)): the height no red-black tree with n elements exceeds
inline int max_height(int n)
{
   int h = 0;
   while ((1ull << (h + 1)) <= (unsigned long long)(n + 1) * (n + 1))
      ++h;
   return h;
}
// at most 4 comparisons per level (and 4 more); counted for tracked keys only
inline void cheap(const char *what, long used, int n, int searches)
{
   if (used > 4l * searches * (max_height(n) + 1))
      fail("balance", "%s among %d elements took %ld key comparisons", what, n, used);
}
}
#endif
