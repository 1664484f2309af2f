// Parts common to the drivers of the linked sequences.
#ifndef VF_SEQS_HPP
#define VF_SEQS_HPP
#include "views.hpp"

template<class It> It adv(It i, int n) { while (n-- > 0) ++i; return i; }

// unary predicate: value >= v
struct Ge { int v; explicit Ge(int x): v(x) {} template<class T> bool operator()(const T &t) const { ++napplied; return Tr<T>::val(t) >= v; } };
// equal halves; ordered by halves; descending
struct SameHalf { template<class T> bool operator()(const T &a, const T &b) const { ++napplied; return Tr<T>::val(a) / 2 == Tr<T>::val(b) / 2; } };
struct HalfLess { template<class T> bool operator()(const T &a, const T &b) const { ++napplied; return Tr<T>::val(a) / 2 < Tr<T>::val(b) / 2; } };
struct Greater { template<class T> bool operator()(const T &a, const T &b) const { ++napplied; return Tr<T>::val(b) < Tr<T>::val(a); } };

// An iterator the "user" keeps; its element's identity tells whether the element
// is still there.
template<class C> struct Cursor
{
   typedef typename C::iterator It;
   It it;
   bool on, atend;
   int inst; // container whose end it is
   long id;
   Cursor(): on(false), atend(false), inst(0), id(-1) {}
   void drop() { on = false; }
   void set(It i, bool end, int w)
   {
      it = i;
      on = true;
      atend = end;
      inst = w;
      id = end ? -1 : Tr<typename C::value_type>::id(*i);
   }
   // finds it again: x gets <<instance, position>>
   void find(C *a, C *b, const Inst &ia, const Inst &ib, IV &x, bool has_end)
   {
      int w = 0, p = 0;
      if (on)
      {
         C *c[2] = { a, b };
         const Inst *in[2] = { &ia, &ib };
         for (int k = 0; k < 2 && !w; ++k)
         {
            int n = index_of(c[k]->begin(), c[k]->end(), it);
            int len = in[k]->size();
            if (n >= 0 && n < len && !atend && in[k]->id[n] == id)
               w = k + 1, p = n;
            else if (n == len && atend && has_end)
               w = k + 1, p = n;
         }
      }
      if (!w)
         drop();
      x.push_back(w);
      x.push_back(p);
   }
};
#endif
