// Iterators of each category that check how they are used.
#ifndef VF_ITERS_HPP
#define VF_ITERS_HPP
#include "core.hpp"

namespace vf {
enum { IN = 0, FWD = 1, BID = 2, RA = 3 };

// Input (also output) iterators into one range share how far it was read.
struct Pass { const void *cur; };

template<class T, int Cat> struct It
{
   typedef T value_type;
   typedef T &reference;
   typedef T *pointer;
   typedef ptrdiff_t difference_type;
   T *p, *b, *e;
   Pass *pass;
   bool loose;
   It(): p(0), b(0), e(0), pass(0), loose(false) {}
   It(T *q, T *lo, T *hi, Pass *ps): p(q), b(lo), e(hi), pass(ps), loose(false) {}
   T &operator*() const
   {
      if (p < b || p >= e)
      {
         fail("range", "an iterator outside its range is dereferenced");
         return *b; // ASan complains if that is not there
      }
      if (Cat == IN && !loose && pass->cur != p)
         fail("range", "an input iterator is dereferenced after another copy of it was incremented");
      return *p;
   }
   T *operator->() const { return &**this; }
   It &operator++()
   {
      if (p >= e)
         fail("range", "an iterator is incremented past the end");
      if (Cat == IN)
      {
         if (pass->cur != p)
            fail("range", "an input iterator is incremented twice");
         pass->cur = p + 1;
      }
      ++p;
      return *this;
   }
   It operator++(int) { It t(*this); ++*this; t.loose = true; return t; }
   bool operator==(const It &o) const { same(o); return p == o.p; }
   bool operator!=(const It &o) const { same(o); return p != o.p; }
   void same(const It &o) const { if (b != o.b) fail("range", "iterators of different ranges are compared"); }
};
template<class T, int Cat> struct Bidi: It<T, Cat>
{
   typedef It<T, Cat> Base;
   Bidi() {}
   Bidi(T *q, T *lo, T *hi, Pass *ps): Base(q, lo, hi, ps) {}
   Bidi &operator++() { Base::operator++(); return *this; }
   Bidi operator++(int) { Bidi t(*this); ++*this; return t; }
   Bidi &operator--()
   {
      if (this->p <= this->b)
         fail("range", "an iterator is decremented before the beginning");
      --this->p;
      return *this;
   }
   Bidi operator--(int) { Bidi t(*this); --*this; return t; }
};
template<class T> struct Rand: Bidi<T, RA>
{
   typedef Bidi<T, RA> Base;
   Rand() {}
   Rand(T *q, T *lo, T *hi, Pass *ps): Base(q, lo, hi, ps) {}
   Rand &operator++() { Base::operator++(); return *this; }
   Rand operator++(int) { Rand t(*this); ++*this; return t; }
   Rand &operator--() { Base::operator--(); return *this; }
   Rand operator--(int) { Rand t(*this); --*this; return t; }
   Rand &operator+=(ptrdiff_t n)
   {
      if (n > this->e - this->p || n < this->b - this->p)
      {
         fail("range", "an iterator is moved out of its range");
         return *this;
      }
      this->p += n;
      return *this;
   }
   Rand &operator-=(ptrdiff_t n) { return *this += -n; }
   Rand operator+(ptrdiff_t n) const { Rand t(*this); t += n; return t; }
   Rand operator-(ptrdiff_t n) const { Rand t(*this); t -= n; return t; }
   friend Rand operator+(ptrdiff_t n, const Rand &r) { return r + n; }
   ptrdiff_t operator-(const Rand &o) const { this->same(o); return this->p - o.p; }
   T &operator[](ptrdiff_t n) const { return *(*this + n); }
   bool operator<(const Rand &o) const { return this->p < o.p; }
   bool operator>(const Rand &o) const { return this->p > o.p; }
   bool operator<=(const Rand &o) const { return this->p <= o.p; }
   bool operator>=(const Rand &o) const { return this->p >= o.p; }
};
struct CatKit
{
   template<class T, int C> struct Of { typedef It<T, C> type; };
   template<class T> struct Of<T, BID> { typedef Bidi<T, BID> type; };
   template<class T> struct Of<T, RA> { typedef Rand<T> type; };
   template<class T, int C> static typename Of<T, C>::type mk(T *p, T *b, T *e, Pass *s) { return typename Of<T, C>::type(p, b, e, s); }
   template<class I> static auto base(const I &i) -> decltype(i.p) { return i.p; }
};
struct PtrKit
{
   template<class T, int C> struct Of { typedef T *type; };
   template<class T, int C> static T *mk(T *p, T *, T *, Pass *) { return p; }
   template<class T> static T *base(T *p) { return p; }
};
// A range to be given to an algorithm as iterators of category C.
template<class K, int C, class T> struct Range
{
   Pass pass;
   typedef typename K::template Of<T, C>::type I;
   I first, last;
   Range(T *b, T *e): pass(), first(K::template mk<T, C>(b, b, e, &pass)), last(K::template mk<T, C>(e, b, e, &pass)) { pass.cur = b; }
   Range(const Range &) = delete;
};
} // namespace vf
#endif
