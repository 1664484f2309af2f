// Uses of each header of ttl, for the programs generated from Heads.tla.  P_<feature>
// is defined for the features whose headers the translation unit has included, in
// whatever order.  X is the type of the elements.  (C++98 and no library needed.)
namespace probes {
#define IS(...) if (!(__VA_ARGS__)) return __LINE__
inline unsigned long N(int n) { return n; }
template<class T> struct Arr3 { T v[3]; Arr3() { v[0] = T(1); v[1] = T(2); v[2] = T(3); } const T *begin() const { return v; } const T *end() const { return v + 3; } T *begin() { return v; } T *end() { return v + 3; } };
template<class I, class E> int sum(I f, I l, E) { int s = 0; for (; f != l; ++f) s = s * 10 + num(*f); return s; }
template<class C> int all(const C &c) { int s = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) s = s * 10 + num(*i); return s; }
template<class C> int keys(const C &c) { int s = 0; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) s = s * 100 + num(i->first) * 10 + num(i->second); return s; }
#ifdef P_types
static int types() { ttl::size_t n = sizeof(X); ttl::ptrdiff_t d = -1; IS(n == sizeof(X) && d < 0); return 0; }
#endif
#ifdef P_type_traits
static int type_traits()
{
   IS(ttl::is_const<const X>::value && !ttl::is_const<X>::value && ttl::is_pointer<X *>::value && ttl::is_signed<int>::value);
   IS((ttl::is_same<ttl::remove_cv<const volatile X>::type, X>::value) && (ttl::is_same<ttl::remove_reference<X &>::type, X>::value));
   IS(ttl::is_integral<long>::value && ttl::is_floating_point<double>::value && ttl::is_array<X[2]>::value && ttl::is_void<void>::value);
   return 0;
}
#endif
#ifdef P_functional
static int functional()
{
   X a(1), b(2);
   IS(ttl::less<X>()(a, b) && ttl::greater<X>()(b, a) && ttl::equal_to<X>()(a, a) && ttl::not_equal_to<X>()(a, b));
   return 0;
}
#endif
#ifdef P_utility
static int utility()
{
   X a(1), b(2), five[5];
   ttl::swap(a, b);
   IS(num(a) == 2 && num(b) == 1);
   ttl::pair<X, int> p(a, 3), q = ttl::make_pair(b, 4);
   p.swap(q);
   IS(p != q && num(p.first) == 1 && q.second == 3 && p == p);
   IS(ttl::distance(five, five + 3) == 3);
   X *i = five;
   ttl::advance(i, 2);
   IS(i == five + 2 && ttl_countof(five) == 5);
#ifndef own_countof
   IS(countof(five) == 5);
#endif
   IS(&ttl::select_first<ttl::pair<X, int> >()(p) == &p.first && &ttl::select_second<ttl::pair<X, int> >()(p) == &p.second && &ttl::select_same<X>()(a) == &a);
   return 0;
}
#endif
#ifdef P_move
static int move() { X a(1); X b(ttl::move(a)); IS(num(b) == 1); return 0; }
#endif
#ifdef P_numeric
static int numeric()
{
   int v[4];
   ttl::iota(v, v + 4, 7);
   IS(v[0] == 7 && v[3] == 10 && ttl::accumulate(v, v + 4, 1) == 35);
   return 0;
}
#endif
#ifdef P_algorithm
static bool odd(const X &x) { return num(x) % 2 != 0; }
static bool before(const X &a, const X &b) { return a < b; }
static bool same(const X &a, const X &b) { return a == b; }
static X ten(const X &x) { return X(num(x) + 10); }
static X plus(const X &x, const X &y) { return X(num(x) + num(y)); }
static X four() { return X(4); }
static int seen;
static void see(const X &x) { seen += num(x); }
static int algorithm()
{
   Arr3<X> a, b;
   const Arr3<X> c;
   X out[8];
   IS(ttl::find(c.begin(), c.end(), X(2)) == c.v + 1 && ttl::find_if(c.begin(), c.end(), odd) == c.v && ttl::find_if_not(c.begin(), c.end(), odd) == c.v + 1);
   IS(ttl::search(c.begin(), c.end(), a.v + 1, a.v + 3) == c.v + 1 && ttl::search(c.begin(), c.end(), a.v + 1, a.v + 3, same) == c.v + 1);
   IS(ttl::search_n(c.begin(), c.end(), 1, X(3)) == c.v + 2 && ttl::search_n(c.begin(), c.end(), 1, X(3), same) == c.v + 2);
   IS(ttl::count(c.begin(), c.end(), X(1)) == 1 && ttl::count_if(c.begin(), c.end(), odd) == 2);
   IS(!ttl::all_of(c.begin(), c.end(), odd) && ttl::any_of(c.begin(), c.end(), odd) && !ttl::none_of(c.begin(), c.end(), odd));
   IS(ttl::adjacent_find(c.begin(), c.end()) == c.end() && ttl::adjacent_find(c.begin(), c.end(), before) == c.v);
   seen = 0;
   ttl::for_each(c.begin(), c.end(), see);
   IS(seen == 6);
   IS(ttl::equal(a.begin(), a.end(), b.begin()) && ttl::equal(a.begin(), a.end(), b.begin(), same) && ttl::equal(a.begin(), a.end(), c.begin(), c.end()) && ttl::equal(a.begin(), a.end(), c.begin(), c.end(), same));
   ttl::fill(out, out + 8, X(9));
   ttl::fill_n(out, 2, X(8));
   IS(sum(out, out + 3, 0) == 889);
   IS(ttl::copy(c.begin(), c.end(), out) == out + 3 && ttl::copy_if(c.begin(), c.end(), out + 3, odd) == out + 5 && ttl::copy_n(c.begin(), 2, out + 5) == out + 7 && sum(out, out + 8, 0) == 12313129);
   IS(ttl::copy_backward(out, out + 3, out + 4) == out + 1 && sum(out, out + 4, 0) == 1123);
   ttl::generate(out, out + 2, four);
   ttl::generate_n(out + 2, 1, four);
   IS(sum(out, out + 4, 0) == 4443);
   ttl::replace(out, out + 2, X(4), X(5));
   ttl::replace_if(out, out + 3, odd, X(6));
   IS(sum(out, out + 4, 0) == 6643);
   IS(ttl::replace_copy(c.begin(), c.end(), out, X(3), X(7)) == out + 3 && ttl::replace_copy_if(c.begin(), c.end(), out + 3, odd, X(0)) == out + 6 && sum(out, out + 6, 0) == 127020);
   IS(ttl::remove_copy(c.begin(), c.end(), out, X(2)) == out + 2 && ttl::remove_copy_if(c.begin(), c.end(), out + 2, odd) == out + 3 && sum(out, out + 3, 0) == 132);
   IS(ttl::transform(c.begin(), c.end(), out, ten) == out + 3 && num(out[2]) == 13 && ttl::transform(c.begin(), c.end(), a.begin(), out, plus) == out + 3 && sum(out, out + 3, 0) == 246);
   IS(ttl::reverse_copy(c.begin(), c.end(), out) == out + 3 && sum(out, out + 3, 0) == 321);
   IS(ttl::lower_bound(c.begin(), c.end(), X(2)) == c.v + 1 && ttl::lower_bound(c.begin(), c.end(), X(2), before) == c.v + 1);
   IS(ttl::upper_bound(c.begin(), c.end(), X(2)) == c.v + 2 && ttl::upper_bound(c.begin(), c.end(), X(2), before) == c.v + 2);
   IS(ttl::binary_search(c.begin(), c.end(), X(2)) && !ttl::binary_search(c.begin(), c.end(), X(4), before));
   IS(ttl::is_sorted(c.begin(), c.end()) && ttl::is_sorted_until(out, out + 3) == out + 1);
   IS(ttl::merge(c.begin(), c.end(), a.begin(), a.end(), out) == out + 6 && sum(out, out + 6, 0) == 112233);
   IS(&ttl::min(c.v[0], c.v[1]) == c.v && &ttl::max(c.v[0], c.v[1]) == c.v + 1 && &ttl::min(c.v[0], c.v[1], before) == c.v && &ttl::max(c.v[0], c.v[1], before) == c.v + 1);
   IS(ttl::min_element(c.begin(), c.end()) == c.v && ttl::max_element(c.begin(), c.end()) == c.v + 2);
   return 0;
}
#endif
#ifdef P_algorithm_pair
static bool alike(const X &a, const X &b) { return a == b; }
static bool ahead(const X &a, const X &b) { return a < b; }
static int algorithm_pair()
{
   const Arr3<X> c;
   Arr3<X> b;
   IS(ttl::mismatch(c.begin(), c.end(), b.begin()).first == c.end() && ttl::mismatch(c.begin(), c.end(), b.begin(), b.end()).second == b.end() && ttl::mismatch(c.begin(), c.end(), b.begin(), alike).first == c.end()
      && ttl::mismatch(c.begin(), c.end(), b.begin(), b.end(), alike).first == c.end());
   IS(ttl::equal_range(c.begin(), c.end(), X(2)).first == c.v + 1 && ttl::equal_range(c.begin(), c.end(), X(2), ahead).second == c.v + 2);
   IS(&ttl::minmax(c.v[0], c.v[1]).second == c.v + 1 && &ttl::minmax(c.v[1], c.v[0], ahead).first == c.v && ttl::minmax_element(c.begin(), c.end()).second == c.v + 2);
   return 0;
}
#endif
#ifdef P_algorithm_move
static bool uneven(const X &x) { return num(x) % 2 != 0; }
static int algorithm_move()
{
   X out[6] = { X(1), X(2), X(7), X(0), X(2), X(0) };
   IS(ttl::remove(out, out + 6, X(0)) == out + 4 && sum(out, out + 4, 0) == 1272 && ttl::remove_if(out, out + 4, uneven) == out + 2 && sum(out, out + 2, 0) == 22);
   return 0;
}
#endif
#ifdef P_algorithm_swap
static int algorithm_swap()
{
   Arr3<X> a, b;
   ttl::reverse(a.begin(), a.end());
   IS(sum(a.v, a.v + 3, 0) == 321);
   ttl::reverse(a.begin(), a.end());
   ttl::iter_swap(a.v, b.v + 1);
   IS(num(a.v[0]) == 2 && num(b.v[1]) == 1);
   IS(ttl::swap_ranges(a.begin(), a.end(), b.begin()) == b.end() && sum(a.v, a.v + 3, 0) == 113 && sum(b.v, b.v + 3, 0) == 223);
   return 0;
}
#endif
#ifdef P_array
static int array()
{
   ttl::array<X, 3> a = { { X(1), X(2), X(3) } };
   const ttl::array<X, 3> &c = a;
   IS(a.size() == 3 && !a.empty() && &a[1] == a.begin() + 1 && &a.at(2) == a.end() - 1 && &a.front() == a.data() && &c.back() == &a.back() && c.cend() - c.cbegin() == 3 && all(c) == 123);
   return 0;
}
#endif
#ifdef P_array_algorithm
static int array_algorithm()
{
   ttl::array<X, 2> a = { { X(1), X(2) } }, b = { { X(3), X(4) } };
   IS(a != b);
   a.fill(X(7));
   b.fill(X(7));
   IS(a == b && all(a) == 77);
   return 0;
}
#endif
#ifdef P_array_swap
static int array_swap() { ttl::array<X, 2> a = { { X(1), X(2) } }, b = { { X(3), X(4) } }; a.swap(b); IS(all(a) == 34 && all(b) == 12); return 0; }
#endif
#ifdef P_vector
static int vector()
{
   Arr3<X> s;
   ttl::vector<X> v, w(N(2), X(5)), u(s.begin(), s.end()), z(N(1));
   v.push_back(X(1));
   v.reserve(10);
   v.insert(v.begin(), X(2));
   v.insert(v.end(), N(2), X(3));
   v.insert(v.begin() + 1, s.begin(), s.end());
   IS(all(v) == 2123133 && v.capacity() >= 10 && v.size() == 7 && all(w) == 55 && all(u) == 123 && z.size() == 1);
   v.erase(v.begin());
   v.erase(v.begin(), v.begin() + 2);
   v.pop_back();
   IS(all(v) == 313 && num(v.front()) == 3 && num(v.back()) == 3 && num(v.at(1)) == 1 && v.data() == &v[0]);
   v.resize(1);
   v.resize(N(3), X(6));
   w = v;
   w.assign(N(2), X(4));
   u.assign(s.begin(), s.end());
   IS(all(v) == 366 && all(w) == 44 && all(ttl::vector<X>(u)) == 123);
   v.clear();
   IS(v.empty() && v.begin() == v.end() && v.cbegin() == v.cend() && v.max_size() > 10);
   return 0;
}
#endif
#ifdef P_vector_algorithm
static int vector_algorithm() { ttl::vector<X> a(N(2), X(1)), b(N(2), X(1)), c(N(3), X(1)); IS(a == b && a != c); return 0; }
#endif
#ifdef P_vector_utility
static int vector_utility() { ttl::vector<X> a(N(2), X(1)), b(N(3), X(2)), c; a.swap(b); IS(all(a) == 222 && all(b) == 11); c.swap(b); IS(all(c) == 11 && b.empty()); c.swap(b); IS(all(b) == 11 && c.empty() && b.capacity() >= 2); return 0; }
#endif
#ifdef P_fixed_vector
static int fixed_vector()
{
   Arr3<X> s;
   typedef ttl::fixed_vector<X, 9> F;
   F v, w(N(2), X(5)), u(s.begin(), s.end()), z(N(1));
   v.push_back(X(1));
   v.insert(v.begin(), X(2));
   v.insert(v.end(), N(2), X(3));
   v.insert(v.begin() + 1, s.begin(), s.end());
   IS(all(v) == 2123133 && v.capacity() == 9 && v.size() == 7 && !v.full() && all(w) == 55 && all(u) == 123 && z.size() == 1);
   v.erase(v.begin());
   v.erase(v.begin(), v.begin() + 2);
   v.pop_back();
   IS(all(v) == 313 && num(v.front()) == 3 && num(v.back()) == 3 && num(v.at(1)) == 1 && v.data() == &v[0]);
   v.resize(1);
   v.resize(N(3), X(6));
   w = v;
   w.assign(N(2), X(4));
   u.assign(s.begin(), s.end());
   IS(all(v) == 366 && all(w) == 44 && all(F(u)) == 123);
   v.clear();
   IS(v.empty() && v.begin() == v.end() && v.cbegin() == v.cend());
   return 0;
}
#endif
#ifdef P_fixed_vector_algorithm
static int fixed_vector_algorithm()
{
   typedef ttl::fixed_vector<X, 4> F;
   F a(N(2), X(1)), b(N(2), X(1)), c(N(3), X(1));
   IS(a == b && a != c);
   return 0;
}
#endif
#ifdef P_fixed_vector_swap
static int fixed_vector_swap()
{
   typedef ttl::fixed_vector<X, 4> F;
   F a(N(2), X(1)), c(N(3), X(1));
   ttl::swap(a, c);
   IS(a.size() == 3 && c.size() == 2);
   return 0;
}
#endif
#ifdef P_list
static int list()
{
   Arr3<X> s;
   typedef ttl::list<X> L;
   L a, b(N(2), X(5)), u(s.begin(), s.end()), z;
   a.push_back(X(1));
   a.push_front(X(2));
   a.insert(a.begin(), X(3));
   a.insert(a.end(), N(2), X(4));
   a.insert(++a.begin(), s.begin(), s.end());
   IS(all(a) == 31232144 && all(b) == 55 && all(u) == 123 && a.size() == 8);
   a.erase(a.begin());
   a.pop_front();
   a.pop_back();
   a.remove(X(1));
   IS(all(a) == 2324);
   a.reverse();
   a.unique();
   a.splice(a.end(), u);
   IS(all(a) == 4232123 && u.empty() && num(a.front()) == 4 && num(a.back()) == 3);
   L c(a), d;
   d = c;
   d.resize(2);
   d.resize(N(3), X(6));
   b.assign(N(2), X(1));
   z.assign(s.begin(), s.end());
   b.merge(z);
   IS(all(d) == 426 && all(b) == 11123);
   d.swap(b);
   IS(all(d) == 11123);
   d.clear();
   IS(d.empty() && d.begin() == d.end() && d.cbegin() == d.cend());
   return 0;
}
#endif
#ifdef P_list_algorithm
static int list_algorithm() { ttl::list<X> a(N(2), X(1)), b(N(2), X(1)), c(N(3), X(1)); IS(a == b && a != c); return 0; }
#endif
#ifdef P_forward_list
static int forward_list()
{
   Arr3<X> s;
   typedef ttl::forward_list<X> L;
   L a, b(N(2), X(5)), u(s.begin(), s.end()), z;
   a.push_front(X(2));
   a.push_front(X(3));
   a.insert_after(a.before_begin(), X(1));
   a.insert_after(a.begin(), s.begin(), s.end());
   IS(all(a) == 112332 && all(b) == 55 && all(u) == 123 && num(a.front()) == 1);
   a.erase_after(a.begin());
   a.pop_front();
   IS(all(a) == 2332);
   L c(a), d;
   d = c;
   a.reverse();
   b.assign(N(2), X(1));
   z.assign(s.begin(), s.end());
   a.splice_after(a.before_begin(), z);
   IS(all(a) == 1232332 && z.empty() && all(d) == 2332 && all(b) == 11);
   d.clear();
   IS(d.empty() && d.begin() == d.end() && d.cbegin() == d.cend());
   return 0;
}
#endif
#ifdef P_forward_list_algorithm
static int forward_list_algorithm() { ttl::forward_list<X> a(N(2), X(1)), b(N(2), X(1)), c(N(3), X(1)); IS(a == b && a != c); return 0; }
#endif
#ifdef P_forward_list_utility
static int forward_list_utility() { ttl::forward_list<X> a(N(2), X(1)), b(N(3), X(2)), c; a.swap(b); IS(all(a) == 222 && all(b) == 11); c.swap(b); IS(all(c) == 11 && b.empty()); c.swap(b); IS(all(b) == 11 && c.empty()); return 0; }
#endif
#ifdef P_backward_list
static int backward_list()
{
   Arr3<X> s;
   typedef ttl::backward_list<X> L;
   L a, b(N(2), X(5)), u(s.begin(), s.end()), z;
   a.push_front(X(2));
   a.push_back(X(3));
   a.insert_after(a.before_begin(), X(1));
   a.insert_after(a.begin(), s.begin(), s.end());
   IS(all(a) == 112323 && all(b) == 55 && all(u) == 123 && num(a.front()) == 1 && num(a.back()) == 3);
   a.erase_after(a.begin());
   a.pop_front();
   IS(all(a) == 2323);
   L c(a), d;
   d = c;
   a.reverse();
   b.assign(N(2), X(1));
   z.assign(s.begin(), s.end());
   IS(all(a) == 3232 && all(z) == 123 && all(d) == 2323 && all(b) == 11);
   d.clear();
   IS(d.empty() && d.begin() == d.end() && d.cbegin() == d.cend());
   return 0;
}
#endif
#ifdef P_backward_list_algorithm
static int backward_list_algorithm() { ttl::backward_list<X> a(N(2), X(1)), b(N(2), X(1)), c(N(3), X(1)); IS(a == b && a != c); return 0; }
#endif
#ifdef P_backward_list_utility
static int backward_list_utility() { ttl::backward_list<X> a(N(2), X(1)), b(N(3), X(2)), c; a.swap(b); IS(all(a) == 222 && all(b) == 11); c.swap(b); IS(all(c) == 11 && b.empty()); c.swap(b); IS(all(b) == 11 && c.empty()); return 0; }
#endif
#ifdef P_lazy_queue
static int lazy_queue()
{
   typedef ttl::lazy_queue<X> L;
   L a, b;
   a.push_front(X(2));
   a.push_back(X(3));
   a.push_back(X(4));
   IS(all(a) == 234 && num(a.front()) == 2);
   a.pop_front();
   a.push_back(X(5));
   a.cleanup();
   b = a;
   IS(all(b) == 345 && all(L(b)) == 345);
   b.clear();
   IS(b.empty() && b.begin() == b.end() && b.cbegin() == b.cend());
   return 0;
}
#endif
#ifdef P_lazy_queue_utility
static int lazy_queue_utility() { ttl::lazy_queue<X> a, b; a.push_back(X(1)); b.push_back(X(2)); ttl::lazy_queue<X> c; a.swap(b); IS(all(a) == 2 && all(b) == 1); c.swap(b); c.push_back(X(3)); b.push_back(X(4)); IS(all(c) == 13 && all(b) == 4); return 0; }
#endif
#ifdef P_map
static int map()
{
   typedef ttl::map<X, int> M;
   typedef M::value_type V;
   const int K_ = 17243148; // 1:7 2:4 3:1 4:8
   M m;
   for (int k = 1; k < 9; ++k)
      m.insert(V(X(k * 3 % 10), k));
   IS(!m.insert(V(X(3), 9)).second && m.find(X(3))->second == 1 && m.count(X(10)) == 0 && m.at(X(6)) == 2);
   m[X(5)] = 8;
   IS(m.lower_bound(X(4)) == m.find(X(4)) && m.upper_bound(X(4)) == m.find(X(5)) && m.equal_range(X(5)).first == m.find(X(5)));
   for (int k = 5; k < 10; ++k)
      IS((int)m.erase(X(k)) == (k != 7));
   IS(keys(m) == K_);
   M c(m), d;
   d = c;
   IS(keys(d) == K_);
   Arr3<V> *none = 0;
   d.insert((V *)none, (V *)none);
   d.clear();
   IS(d.empty() && d.begin() == d.end() && d.cbegin() == d.cend());
   return 0;
}
#endif
#ifdef P_map_algorithm
static int map_algorithm() { ttl::map<X, int> a, b; a[X(1)] = 2; IS(a != b); b[X(1)] = 2; IS(a == b); return 0; }
#endif
#ifdef P_set
static int set()
{
   typedef ttl::set<X> S;
   S m;
   for (int k = 1; k < 9; ++k)
      m.insert(X(k * 3 % 10));
   IS(!m.insert(X(3)).second && num(*m.find(X(3))) == 3 && m.count(X(10)) == 0);
   IS(m.lower_bound(X(4)) == m.find(X(4)) && m.upper_bound(X(4)) == m.find(X(5)) && m.equal_range(X(6)).first == m.find(X(6)));
   for (int k = 5; k < 10; ++k)
      IS((int)m.erase(X(k)) == (k != 7));
   IS(all(m) == 1234);
   S c(m), d;
   d = c;
   IS(all(d) == all(m));
   d.clear();
   IS(d.empty() && d.begin() == d.end() && d.cbegin() == d.cend());
   return 0;
}
#endif
#ifdef P_set_algorithm
static int set_algorithm() { ttl::set<X> a, b; a.insert(X(1)); IS(a != b); b.insert(X(1)); IS(a == b); return 0; }
#endif
#ifdef P_vector_map
static int vector_map()
{
   typedef ttl::vector_map<X, int> M;
   typedef M::value_type V;
   M m;
   m.insert(V(X(3), 1));
   m.insert(V(X(1), 2));
   IS(!m.insert(V(X(3), 9)).second && m.find(X(3))->second == 1 && m.count(X(5)) == 0 && m.at(X(1)) == 2);
   m[X(2)] = 8;
   IS(keys(m) == 311228 && keys(M(m)) == 311228);
   m.clear();
   IS(m.empty());
   return 0;
}
#endif
#ifdef P_sorted_vector_map
static int sorted_vector_map()
{
   typedef ttl::sorted_vector_map<X, int> M;
   typedef M::value_type V;
   M m;
   m.insert(V(X(3), 1));
   m.insert(V(X(1), 2));
   IS(!m.insert(V(X(3), 9)).second && m.find(X(3))->second == 1 && m.count(X(5)) == 0 && m.at(X(1)) == 2);
   m[X(2)] = 8;
   IS(keys(m) == 122831 && keys(M(m)) == 122831 && m.size() == 3);
   IS(m.lower_bound(X(2)) == m.find(X(2)) && m.upper_bound(X(2)) == m.find(X(3)) && m.equal_range(X(3)).first == m.find(X(3)));
   IS(m.key_comp()(X(1), X(2)) && m.value_comp()(*m.begin(), *m.find(X(3))));
   m.clear();
   IS(m.empty());
   return 0;
}
#endif
#ifdef P_bitset
static int bitset()
{
   ttl::bitset<70> a, b(5ul);
   a.set(3).set(69);
   b |= a;
   IS(b.count() == 4 && b.test(69) && !b[1] && b.any() && !b.none() && !b.all() && b != a && (b & a) == a);
   b.flip(69);
   b <<= 65;
   IS(b.count() == 3 && b[65] && b[68] && (b >> 65).to_ulong() == 13);
   b.reset();
   b[7] = true;
   IS((~b).count() == 69 && (b ^ b).none() && (b | a).count() == 3);
   return 0;
}
#endif
#ifdef P_slist_node
static int slist_node()
{
   ttl::slist_node h = { 0 }, a = { 0 }, b = { 0 };
   h.insert_after(&a);
   h.insert_after(&b);
   h.reverse();
   IS(h.next == &a && a.next == &b && h.unlink_next() == &a && h.next == &b);
   return 0;
}
#endif
#ifdef P_rbtree
struct First { const X &operator()(const X &x) const { return x; } };
struct Less { bool operator()(const X &a, const X &b) const { return a < b; } };
static int rbtree()
{
   typedef ttl::rbtree<X, X, First, Less> T;
   T t;
   for (int k = 0; k < 8; ++k)
      t.insert_equal(X(k * 3 % 8));
   IS(num(t.find(X(5))->data) == 5 && t.count(X(3)) == 1);
   for (int k = 0; k < 4; ++k)
   {
      T::node *n = t.remove(X(2 * k));
      IS(num(n->data) == 2 * k);
      delete n;
   }
   int s = 0;
   for (const ttl::rbnode *n = T::min_node(t.get_root()); n && n != t.end(); n = T::next_node(n))
      s = s * 10 + num(static_cast<const T::node *>(n)->data);
   IS(s == 1357);
   t.clear();
   return 0;
}
#endif
#undef IS
}
