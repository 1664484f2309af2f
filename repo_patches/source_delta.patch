From b7283dd1c7a13030b7361c6c16d80dd9095cd1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 01/53] fix: list: splicing an empty range, or a range to where
 it is, must not unlink nodes

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..abc6f01 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last)
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 7db579e7a00d3f8a690d6a3a9206380dad6a0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 02/53] fix: list: swap of two empty lists must leave both
 empty

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index abc6f01..dcce4f2 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
-- 
2.43.0


From e8dc9616f4f1fe985efdbb4d85dcb2b38a317a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 03/53] fix: list: clear() must not leave the back of the list
 dangling

---
 ttl/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index dcce4f2..7ee611c 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -408,6 +408,7 @@ namespace ttl
          head_.next = head_.next->next;
          delete p;
       }
+      head_.init();
    }
    template<typename T>
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
-- 
2.43.0


From beaf666e7dbe15d5960bf693dc8df2c48d9e40d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 04/53] fix: list: self-assignment must not clear the list

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 7ee611c..154ebbc 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -213,6 +213,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 8a785af75183de3c1e20d29ac7a1a690367117e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 05/53] fix: list: resize(0) must remove all elements

---
 ttl/list.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 154ebbc..a0c06f6 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -368,6 +368,11 @@ namespace ttl
    {
       size_type siz = 0;
       list_node *p;
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       for (p = head_.next; p != &head_; p = p->next)
          if (++siz == newsize)
          {
@@ -387,6 +392,11 @@ namespace ttl
    {
       size_type siz = 0;
       list_node *p;
+      if (!newsize)
+      {
+         clear();
+         return;
+      }
       for (p = head_.next; p != &head_; p = p->next)
          if (++siz == newsize)
          {
-- 
2.43.0


From f6b2b84f2fec649ba15968158f26d03eeaac6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 06/53] fix: list: resize must value-initialise the elements it
 appends

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index a0c06f6..70cbbba 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -128,7 +128,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From f3786f738ee125ba2c653890e46c254cfe9f5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 07/53] fix: list: remove() must not compare with an element it
 has already deleted

---
 ttl/list.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 70cbbba..295a120 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -438,11 +438,12 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      list removed; // value may refer to one of the removed elements
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            removed.head_.insert_before(p);
          }
    }
    template<typename T>
-- 
2.43.0


From e19501a98a4f88b66f9a050ab9fb30b43a0ac4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 08/53] fix: list: erase of an empty range must not erase
 anything

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 295a120..07fa017 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -426,6 +426,8 @@ namespace ttl
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
    {
       list_node *p = const_cast<list_node *>(pos.head_);
+      if (p == last.head_)
+         return iterator(p);
       while (p->next != last.head_)
       {
          node *next = static_cast<node *>(p->next);
-- 
2.43.0


From cb44c8d1efef377774561308188277a4d232df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 09/53] fix: slist_node: splicing an empty range, or nodes to
 where they are, must not lose nodes

---
 ttl/slist_node.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..8a50566 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -29,6 +29,8 @@ namespace ttl
       }
       void splice_after(slist_node *o)
       {
+         if (this == o || o->next == this)
+            return;
          slist_node *n = o->next;
          o->next = n->next;
          n->next = next;
@@ -36,6 +38,8 @@ namespace ttl
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (this == f || f->next == l)
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From a04e287aafaa5cf2a4b6d8ab84d82d5f875f626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 10/53] fix: forward_list: self-assignment must not clear the
 list

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From 9520d468620497de3f9c839b4d59a7baba6e4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 11/53] fix: backward_list: range insertion at the end must
 move the tail to the last new node

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..7e5cfa3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -266,7 +266,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 358f2e433cf533572d9e037df591dd8f87073b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 12/53] fix: backward_list: pop_front of the last element must
 reset the tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 7e5cfa3..45021f8 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -138,7 +138,7 @@ namespace ttl
       const_iterator cend() const { return const_iterator(0); }
       const_iterator cbefore_end() const { return const_iterator(tail_); }
 
-      bool empty() const { return &head_ == tail_; }
+      bool empty() const { return !head_.next; }
       size_type max_size() const { return (size_type)-1/sizeof(node); }
 
       reference front() { return static_cast<node *>(head_.next)->value; }
-- 
2.43.0


From 21dc5c14075376e3c51e42fbdcc0b799876ccd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 13/53] fix: backward_list: swap with an empty list must not
 leave the tail in the other list

---
 ttl/backward_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 45021f8..70e7ce9 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -219,6 +219,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (empty())
+            tail_ = &head_;
+         if (other.empty())
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From c19adb498f908d2d9f438361e54ac281ae765d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 14/53] fix: backward_list: reversing an empty list must keep a
 valid tail

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 70e7ce9..3005fa4 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -292,7 +292,7 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
-      tail_ = head_.next;
+      tail_ = head_.next ? head_.next: &head_;
       head_.reverse();
    }
 #if TODO
-- 
2.43.0


From ec970c2c64b19a119d4d7e20de81a78c35111e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 15/53] fix: backward_list: self-assignment must not clear the
 list

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 3005fa4..9b48efd 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From e6b5fd40ab40d9692230f137b108e370d83ea583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 16/53] fix: lazy_queue: cleanup() must not destroy the values
 of dead nodes a second time

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..43f9f2c 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next()));
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From 3a4093edf539f13ef8000cb860c6fed9aef351ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 17/53] fix: lazy_queue: swap with an empty queue must not
 leave the tail in the other queue

---
 ttl/lazy_queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 43f9f2c..12e0b38 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -207,6 +207,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (empty())
+            tail_ = &head_;
+         if (other.empty())
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From cbc10785ccbec1b0d3d822faa607ffb3c1e863cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 18/53] fix: lazy_queue: self-assignment must not clear the
 queue

---
 ttl/lazy_queue.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 12e0b38..57d414f 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
-- 
2.43.0


From e91f2f4bb5b967274de2d82a2aa1807f10dc240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 19/53] fix: vector: self-assignment must not clear the vector

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..69bcd16 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From 2f62806c181b308f6b7abd46c80863725a10c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 20/53] fix: vector: erase of an empty range must not destroy
 elements

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 69bcd16..0df31bc 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -307,6 +307,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From ce61018fba68c864304a3ce29c0bb1cd5806356c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 21/53] fix: vector: reserve of the present capacity must not
 relocate the elements

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 0df31bc..e182486 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -236,7 +236,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From a20498685d8c7c85991f78034edf82d3bb0ad737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 22/53] fix: vector: insert must not read the inserted value
 after shifting it away

---
 ttl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index e182486..a2aa6e1 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,13 +121,15 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x may refer to an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type value(x); // x may refer to an element of this vector
+         vc_counter_args args(value);
          return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
       }
 
-- 
2.43.0


From 40100961b31986e0134ea6c94eccdd642ce32d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 23/53] fix: fixed_vector: self-assignment must not clear the
 vector

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..aec20b4 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
-- 
2.43.0


From 54d216c660e66a4ac4b932208b7aa903be2c420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 24/53] fix: fixed_vector: erase of an empty range must not
 destroy elements

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index aec20b4..eead4e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -266,6 +266,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From e100078b7c59648dcab355a262596ed23ebf05ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 25/53] fix: fixed_vector: swap of a longer with a shorter
 vector must exchange all elements

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index eead4e3..5121493 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -286,7 +286,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From ac4b46d67fad00fa994266d32f27d177f10f4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 26/53] fix: fixed_vector: insert must not read the inserted
 value after shifting it away, nor overflow on huge counts

---
 ttl/fixed_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 5121493..f13ea60 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -201,11 +201,14 @@ namespace ttl
    typename fixed_vector<T,N>::iterator fixed_vector<T,N>::insert(const_iterator pos, size_type n, const value_type &x)
    {
       difference_type dist = pos - cbegin();
+      if (n > N)
+         n = N;
       if (n)
       {
          T *o;
          if (pos < end())
          {
+            const value_type value(x); // x may refer to an element shifted below
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -218,7 +221,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(value);
          }
          else
          {
-- 
2.43.0


From 5a92f5e233d6bdb35f59638bcd6c91bb718e876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 27/53] fix: map, set: upper_bound and equal_range of an absent
 key must not skip the next greater element

---
 ttl/map.hpp | 22 ++++------------------
 ttl/set.hpp | 22 ++++------------------
 2 files changed, 8 insertions(+), 36 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..aeacb82 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -273,39 +273,25 @@ namespace ttl
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::iterator map<KT,T,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    typename map<KT,T,Compare>::const_iterator map<KT,T,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename T, typename Compare>
    pair<typename map<KT,T,Compare>::iterator, typename map<KT,T,Compare>::iterator>
    map<KT,T,Compare>::equal_range(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
-      return pair<iterator, iterator>(iterator(lo), iterator(up));
+      return pair<iterator, iterator>(lower_bound(key), upper_bound(key));
    }
    template<typename KT, typename T, typename Compare>
    pair<typename map<KT,T,Compare>::const_iterator, typename map<KT,T,Compare>::const_iterator>
    map<KT,T,Compare>::equal_range(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
-      return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
+      return pair<const_iterator, const_iterator>(lower_bound(key), upper_bound(key));
    }
 
    template<class InputIt1, class InputIt2>
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..51cc8f4 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -250,39 +250,25 @@ namespace ttl
    template<typename KT, typename Compare>
    typename set<KT,Compare>::iterator set<KT,Compare>::upper_bound(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
+      return iterator(rbtree_.upper_bound(key));
    }
    template<typename KT, typename Compare>
    typename set<KT,Compare>::const_iterator set<KT,Compare>::upper_bound(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      if (lo == rbtree_.end())
-         return end();
-      return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
+      return const_iterator(rbtree_.upper_bound(key));
    }
 
    template<typename KT, typename Compare>
    pair<typename set<KT,Compare>::iterator, typename set<KT,Compare>::iterator>
    set<KT,Compare>::equal_range(const KT &key)
    {
-      node_type *lo = rbtree_.lower_bound(key);
-      node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<node_type *>(rbtree_base::next_node(lo));
-      return pair<iterator, iterator>(iterator(lo), iterator(up));
+      return pair<iterator, iterator>(lower_bound(key), upper_bound(key));
    }
    template<typename KT, typename Compare>
    pair<typename set<KT,Compare>::const_iterator, typename set<KT,Compare>::const_iterator>
    set<KT,Compare>::equal_range(const KT &key) const
    {
-      const node_type *lo = rbtree_.lower_bound(key);
-      const node_type *up = lo;
-      if (lo != rbtree_.end())
-         up = static_cast<const node_type *>(rbtree_base::next_node(lo));
-      return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
+      return pair<const_iterator, const_iterator>(lower_bound(key), upper_bound(key));
    }
 
    template<class InputIt1, class InputIt2>
-- 
2.43.0


From 9e67787bbd5c45f9076b6bb99b809d69671eaf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 28/53] fix: map, set: self-assignment must not clear the
 container

---
 ttl/map.hpp | 2 ++
 ttl/set.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index aeacb82..eed8c17 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,6 +181,8 @@ namespace ttl
 
       map &operator=(const map &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 51cc8f4..88e40da 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,6 +169,8 @@ namespace ttl
 
       set &operator=(const set &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          rbtree_.assign(other.rbtree_);
          return *this;
-- 
2.43.0


From d4ed46c22ef2792e2fb91d60b9967eb82a443768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 29/53] fix: rbtree: count must see equal keys in both subtrees

---
 ttl/rbtree.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..1392e85 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -350,20 +350,11 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
+      const rbnode *n = lower_bound(key);
+      const rbnode *last = upper_bound(key);
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      for (; n != last; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From 4aa64c3cfba9b30eb18987f4fe9bc8b1919cdac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 30/53] fix: sorted_vector_map: count must be 1 for present and
 0 for absent keys

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From cd20afddc7080f33a427fb74c4587d26655174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 31/53] fix: sorted_vector_map: growing from capacity 1 must
 make room for the new element

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From 513f89ba47537a21a75d55641e33fa08a90724bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 32/53] fix: vector_map: count of a present key must terminate

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From a801b69ad8be8711cd6ca7507991f2e11f834de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 33/53] fix: bitset: assigning one reference to another must
 keep the other bits of the word

---
 ttl/bitset.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..7976bae 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,8 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
-            return *this;
+            return operator=(other.operator bool());
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
          bool operator~() const { return (*bits_ & mask_) == 0; }
-- 
2.43.0


From 830f77e91774dc40171bf74e7abacf19db7694fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 34/53] fix: bitset: set(pos, false) must clear the bit

---
 ttl/bitset.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 7976bae..2d1018d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -122,9 +122,7 @@ namespace ttl
       }
       bitset<N> &set(ttl::size_t pos, bool value)
       {
-         const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
-         return *this;
+         return value ? set(pos): reset(pos);
       }
 
       bitset<N> &reset()
-- 
2.43.0


From 3de2c44f4910599c9be4922f8fddff15a1db9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 35/53] fix: bitset: constructing from a string longer than N
 must not write out of bounds

---
 ttl/bitset.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 2d1018d..d10299b 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -201,7 +201,9 @@ namespace ttl
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
          bits_[s] = 0;
       for (; i--; ++bits)
-         if (*bits == zero)
+         if (i >= N)
+            continue;
+         else if (*bits == zero)
             reset(i);
          else if (*bits == one)
             set(i);
-- 
2.43.0


From b6379d738ab654ddae28fa0fe487f4ed9d07b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 36/53] fix: bitset: converting from a smaller bitset must not
 pick up its unused bits

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index d10299b..c674edd 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -283,6 +283,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (M < N && n)
+         bits_[n - 1] &= bitset<M>::last_bits();
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 2e441b970b700bbcfd2e3cbb206b5d80cd545a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 37/53] fix: algorithm: search_n with a predicate must use it
 for the first element, too

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From 23f72e21c5616bfb381ee22b18d7bc8b832a37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 38/53] fix: algorithm: min must return its first argument when
 both are equal

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From 2c0a4525938944c65f4e7b5e1161770fd996b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 39/53] fix: bitset: bitset<0> has no word to store an integer
 in

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index c674edd..c8601ae 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -372,6 +372,8 @@ namespace ttl
       return bitset<N>(a) ^= b;
    }
 
+   template<> inline bitset<0>::bitset(unsigned long) {}
+   template<> inline bitset<0>::bitset(unsigned long long) {}
    template<> inline bitset<0>::slot_type *bitset<0>::bits_slot(ttl::size_t) { return bits_; }
    template<> inline bool bitset<0>::test(ttl::size_t) const { return false; }
    template<> inline bitset<0> &bitset<0>::set() { return *this; }
-- 
2.43.0


From 43df44d3354e3d05c890929bc0ebf6c7958220bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 40/53] fix: rbtree: remove among equal keys must not lose an
 element

---
 ttl/rbtree.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 1392e85..c2d50d5 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -483,8 +483,17 @@ namespace ttl
             }
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
             {
-               *root = move_right(*root);
-               isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
+               rbnode *pivot = *root;
+               *root = move_right(pivot);
+               // After a rotation the old pivot continues on the right.
+               // Its former left child, now above it, must stay even if it
+               // is equal to the key: delete_min cannot start at a node
+               // which has only a right child.
+               if (*root != pivot)
+               {
+                  root = &(*root)->right;
+                  continue;
+               }
             }
             if (key == keyof_(static_cast<const node *>(*root)->data))
             {
-- 
2.43.0


From 47049e5df3c3de35fc83d9e924a14151139afee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 41/53] fix: type_traits: is_const and is_volatile of an rvalue
 reference must compile

---
 ttl/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/type_traits.hpp b/ttl/type_traits.hpp
index 08ca210..9b8e754 100644
--- a/ttl/type_traits.hpp
+++ b/ttl/type_traits.hpp
@@ -48,6 +48,9 @@ namespace ttl
    template<typename T> struct is_const: is_const_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template<typename T> struct is_const<T&>: false_type{};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_const<T&&>: false_type{};
+#endif
 
    // is_volatile<T>::value == true if and only if T has volatile-qualification.
    template<typename T> struct is_volatile_value: false_type {};
@@ -56,6 +59,9 @@ namespace ttl
    template<typename T> struct is_volatile: is_volatile_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template <typename T> struct is_volatile<T&>: false_type {};
+#if __cplusplus >= 201103L // C++11
+   template <typename T> struct is_volatile<T&&>: false_type {};
+#endif
 
     // is_signed<T>::value == true if and only if T is one of the following types:
     template<class T> struct is_signed: integral_constant<bool,
-- 
2.43.0


From 2f81e104026b5e1db92636d2f7dee3fef865e335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 42/53] fix: utility: ttl_countof must not expand the countof
 macro again

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..619850f 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a)
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From 5e93afd3fade14e4fa558cfc753a4eaad450ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:42 +0000
Subject: [PATCH 43/53] fix: fixed_vector: the slots must be aligned for the
 element type

---
 ttl/fixed_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index f13ea60..490c4f7 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,7 +34,11 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L // C++11
+      union { alignas(T) char b[sizeof(T)]; } bytes_[N];
+#else
       union { char b[sizeof(T)]; } bytes_[N];
+#endif
       T *last_;
       T *elements() const { return (T *)bytes_; }
       T *end_of_elements() const { return (T *)(bytes_ + N); }
-- 
2.43.0


From 74003376cca2a7991756ed13f87a96f38353ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 44/53] fix: map, set, sorted_vector_map: reference and pointer
 of the iterators must name what they yield

reference was a pointer type, and those of const_iterator named a modifiable element.
---
 ttl/map.hpp               | 6 +++---
 ttl/set.hpp               | 6 +++---
 ttl/sorted_vector_map.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index eed8c17..6f47cd6 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -57,7 +57,7 @@ namespace ttl
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -97,8 +97,8 @@ namespace ttl
       public:
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/set.hpp b/ttl/set.hpp
index 88e40da..d851634 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -45,7 +45,7 @@ namespace ttl
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -85,8 +85,8 @@ namespace ttl
       public:
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eced061..0d5abcb 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -41,7 +41,7 @@ namespace ttl
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return **ptr_; }
          value_type *operator->() const { return *ptr_; }
@@ -65,8 +65,8 @@ namespace ttl
       public:
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return **ptr_; }
          const value_type *operator->() const { return *ptr_; }
-- 
2.43.0


From 8dad0e13c442df50861aaffa86ec417a82a405ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 45/53] fix: algorithm: swap_ranges must return the position in
 the second range

It returned it as an iterator of the first range's type, and did not compile
for two ranges of different iterator types.
---
 ttl/algorithm.hpp    | 2 +-
 ttl/array.hpp        | 2 +-
 ttl/fixed_vector.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e310f2d..3e3cf62 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -304,7 +304,7 @@ namespace ttl
    }
 
    template<class iterator1, class iterator2>
-   inline iterator1 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
+   inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
          iter_swap(first1, first2);
diff --git a/ttl/array.hpp b/ttl/array.hpp
index ec34191..46b2939 100644
--- a/ttl/array.hpp
+++ b/ttl/array.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
    template<typename iterator, typename size_type, typename value_type> iterator fill_n(iterator, size_type count, const value_type &);
 
    template<typename T, const ttl::size_t N>
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 490c4f7..6f79a92 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -17,7 +17,7 @@ namespace ttl
    template<class ForwardIt, class T> pair<ForwardIt,ForwardIt> equal_range(ForwardIt, ForwardIt, const T &);
    template<class InputIt1, class InputIt2> bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
    template<typename T> void swap(T &, T &);
-   template<class iterator1, class iterator2> iterator1 swap_ranges(iterator1, iterator1, iterator2);
+   template<class iterator1, class iterator2> iterator2 swap_ranges(iterator1, iterator1, iterator2);
 
    template<typename T, const unsigned int N>
    class fixed_vector
-- 
2.43.0


From 4dd3c99d77334018ef545a2d98e50eb1a39b6abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 46/53] fix: forward_list: the header did not compile on its
 own

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index 86615ac..0b51925 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -12,6 +12,8 @@
 
 namespace ttl
 {
+   template<typename T> void swap(T &, T &);
+
    template<typename T>
    class forward_list
    {
-- 
2.43.0


From 2a7411a22f3fc24bd700f27c1f01860ef249b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 47/53] fix: rbtree: the header did not declare the size_t it
 uses

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index c2d50d5..176f22b 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -9,6 +9,8 @@
 #ifndef _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_
 #define _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_ 1
 
+#include "types.hpp"
+
 namespace ttl
 {
    template<typename T1, typename T2> struct pair;
-- 
2.43.0


From d202478ed0557d1b873053c389dcbc04ee0c4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 48/53] fix: map: == did not compile when map.hpp comes before
 algorithm.hpp

---
 ttl/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 6f47cd6..79ed8c4 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -297,7 +297,7 @@ namespace ttl
    }
 
    template<class InputIt1, class InputIt2>
-   bool equal(InputIt1, InputIt1, InputIt2);
+   bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
    template <typename KT, typename T, typename Compare>
    bool operator==(const map<KT,T,Compare> &a, const map<KT,T,Compare> &b)
-- 
2.43.0


From 6db662a16e52b372aa9bb04d5ac546a270ceb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:14 +0000
Subject: [PATCH 49/53] fix: algorithm: swap was not found when algorithm.hpp
 comes before utility.hpp

---
 ttl/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 3e3cf62..31811e1 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -17,6 +17,7 @@ namespace ttl
 #else
 #define ttl_constexpr
 #endif
+   template<typename T> void swap(T &, T &);
    template<class T1, class T2> struct pair;
    template<class T1, class T2> pair<T1,T2> make_pair(T1, T2);
 #if __cplusplus >= 201103L // C++11
-- 
2.43.0


From 136692e9301a120412542896992cc973171b2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:07 +0000
Subject: [PATCH 50/53] fix: algorithm: internal calls were ambiguous with
 std's for elements associated with namespace std

---
 ttl/algorithm.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 31811e1..f1a8f7e 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -176,19 +176,19 @@ namespace ttl
    template<class InputIt, class UnaryPredicate>
    bool all_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-      return find_if_not(first, last, p) == last;
+      return ttl::find_if_not(first, last, p) == last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool any_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) != last;
+       return ttl::find_if(first, last, p) != last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool none_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) == last;
+       return ttl::find_if(first, last, p) == last;
    }
 
    // find duplicates
@@ -308,7 +308,7 @@ namespace ttl
    inline iterator2 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
-         iter_swap(first1, first2);
+         ttl::iter_swap(first1, first2);
       return first2;
    }
 
@@ -440,7 +440,7 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt remove(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = find(first, last, value);
+      first = ttl::find(first, last, value);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!(*i == value))
@@ -454,7 +454,7 @@ namespace ttl
    template<class ForwardIt, class UnaryPredicate>
    ForwardIt remove_if(ForwardIt first, ForwardIt last, UnaryPredicate p)
    {
-      first = find_if(first, last, p);
+      first = ttl::find_if(first, last, p);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!p(*i))
@@ -579,29 +579,29 @@ namespace ttl
    template<class ForwardIt, class T>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = lower_bound(first, last, value);
+      first = ttl::lower_bound(first, last, value);
       return !(first == last) && !(value < *first);
    }
 
    template<class ForwardIt, class T, class Compare>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-       first = lower_bound(first, last, value, comp);
+       first = ttl::lower_bound(first, last, value, comp);
        return !(first == last) && !comp(value, *first);
    }
 
    template<class ForwardIt, class T>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value)
    {
-      ForwardIt low = lower_bound(first, last, value);
-      return make_pair(low, upper_bound(low, last, value));
+      ForwardIt low = ttl::lower_bound(first, last, value);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value));
    }
 
    template<class ForwardIt, class T, class Compare>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      ForwardIt low = lower_bound(first, last, value, comp);
-      return make_pair(low, upper_bound(low, last, value, comp));
+      ForwardIt low = ttl::lower_bound(first, last, value, comp);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value, comp));
    }
 
    //
@@ -627,7 +627,7 @@ namespace ttl
    template<class ForwardIt>
    bool is_sorted(ForwardIt first, ForwardIt last)
    {
-      return is_sorted_until(first, last) == last;
+      return ttl::is_sorted_until(first, last) == last;
    }
 
    //
@@ -722,7 +722,7 @@ namespace ttl
    ttl::pair<ForwardIt, ForwardIt> minmax_element(ForwardIt first, ForwardIt last)
    {
       // TODO: optimize
-      return ttl::pair<ForwardIt, ForwardIt>(min_element(first, last), max_element(first, last));
+      return ttl::pair<ForwardIt, ForwardIt>(ttl::min_element(first, last), ttl::max_element(first, last));
    }
 }
 #endif // _TINY_TEMPLATE_LIBRARY_ALGORITHM_HPP_
-- 
2.43.0


From e23e2511183d407a26d4dbf6af09b6fb04d6b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 51/53] fix: utility: did not compile in C++11 with a countof
 macro of the program's

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 619850f..9994cfb 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
 #if __cplusplus >= 201103L // C++11
-   template<typename T, unsigned int N> constexpr unsigned int countof(const T (&)[N]) { return N; }
+   template<typename T, unsigned int N> constexpr unsigned int (countof)(const T (&)[N]) { return N; }
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-- 
2.43.0


From 8999ba00d75e403fc88fd39f3460b04cddcbb1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 52/53] fix: bitset: sizeof of a member in a static function is
 not C++98

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index c8601ae..5cf90a4 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -24,7 +24,7 @@ namespace ttl
    public:
       static slot_type last_bits()
       {
-         return sizeof(bits_)*CHAR_BIT == N ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
+         return N % (sizeof(slot_type) * CHAR_BIT) == 0 ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
       }
       ttl::size_t last_slot_index() const {return N ? sizeof(bits_)/sizeof(*bits_) - 1: 0; }
 
-- 
2.43.0


From 320254e9e9b03a2cae2e433b29428dd8fd185573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:12 +0000
Subject: [PATCH 53/53] fix: algorithm: the bounds of a sorted range of more
 than INT_MAX elements were wrong

lower_bound and upper_bound (and equal_range and binary_search, which use them)
kept the length of the range in an int.
---
 ttl/algorithm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index f1a8f7e..b7b90f1 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -503,9 +503,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it = first + step;
          if (*it < value)
@@ -522,9 +522,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (comp(*it, value))
@@ -541,9 +541,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!(value < *it))
@@ -560,9 +560,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!comp(value, *it))
-- 
2.43.0

