From 6fd21898bccf64c7fe03dfec06bf14420146f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 01/55] fix: vector keeps its invariants when an element or
 allocation throws

---
 include/cest/vector.hpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..e767df0 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -30,6 +30,9 @@ public:
 
   constexpr vector() : m_size{}, m_capacity{}, m_p{}, m_alloc{} {}
 
+  explicit constexpr vector(const Allocator& alloc)
+    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc) {}
+
   constexpr void swap(vector& other)
   {
     using std::swap;
@@ -42,8 +45,7 @@ public:
   constexpr vector(const vector& other) : vector()
   {
     reserve(other.capacity());
-    m_size = other.size();
-    for (size_type i = 0; i < m_size; i++)
+    for (size_type i = 0; i < other.size(); i++, m_size++)
       std::construct_at(&m_p[i], other.m_p[i]);
   }
 
@@ -54,17 +56,16 @@ public:
 
   constexpr vector(size_type count,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector(alloc)
   {
     reserve(count);
-    m_size = count;
-    for (size_type i = 0; i < m_size; i++)
+    for (size_type i = 0; i < count; i++, m_size++)
       std::construct_at(&m_p[i]);
   }
 
   constexpr vector(std::initializer_list<T> init,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
@@ -89,7 +90,7 @@ public:
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
-      for (; i < other.size(); i++)
+      for (; i < other.size(); i++, m_size++)
         std::construct_at(&m_p[i], other.m_p[i]);
     } else {
       for (; i < other.size(); i++)
@@ -110,8 +111,15 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      size_type i = 0;
+      try {
+        for (; i < m_size; i++)
+          std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      } catch (...) {
+        std::destroy_n(p,i);
+        m_alloc.deallocate(p,new_cap);
+        throw;
+      }
       if (0 != m_capacity) {
         std::destroy_n(m_p,m_size);
         m_alloc.deallocate(m_p,m_capacity);
@@ -126,7 +134,7 @@ public:
     if (count > m_size)
     {
       reserve(count);
-      for (size_type i = m_size; i < count; i++)
+      for (size_type i = m_size; i < count; i++, m_size++)
         std::construct_at(&m_p[i]);
     } else if (count < m_size) {
       std::destroy_n(&m_p[count], m_size-count);
@@ -191,7 +199,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],value);
+    std::construct_at(&m_p[m_size],value);
+    m_size++;
   }
 
   constexpr void push_back(value_type &&value)
@@ -201,7 +210,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
+    std::construct_at(&m_p[m_size],std::forward<T>(value));
+    m_size++;
   }
 
   constexpr iterator erase(iterator first, iterator last)
-- 
2.43.0


From 573e9eb6f8499d691db9870895d45323b687888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 02/55] fix: vector push_back of one of its own elements when
 it has to grow

---
 include/cest/vector.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index e767df0..d038226 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -107,15 +107,28 @@ public:
   constexpr size_type        size() const noexcept { return m_size;       }
   constexpr size_type    capacity() const noexcept { return m_capacity;   }
   constexpr void reserve(size_type new_cap)
+  {
+    reallocate(new_cap);
+  }
+
+  // Moves the elements to new storage. The arguments, if any, construct one
+  // more element, and may refer to an existing one; so it's constructed first.
+  template <class... Args>
+  constexpr void reallocate(size_type new_cap, Args&&... args)
   {
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      size_type i = 0;
+      size_type i = 0, extra = 0;
       try {
+        if constexpr (sizeof...(Args) != 0) {
+          std::construct_at(&p[m_size], std::forward<Args>(args)...);
+          extra = 1;
+        }
         for (; i < m_size; i++)
           std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
       } catch (...) {
+        std::destroy_n(p+m_size,extra);
         std::destroy_n(p,i);
         m_alloc.deallocate(p,new_cap);
         throw;
@@ -126,6 +139,7 @@ public:
       }
       m_p = p;
       m_capacity = new_cap;
+      m_size += extra;
     }
   }
 
@@ -197,7 +211,8 @@ public:
     if (0 == m_capacity) {
       reserve(1);
     } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+      reallocate(m_capacity * 2, value);
+      return;
     }
     std::construct_at(&m_p[m_size],value);
     m_size++;
@@ -208,7 +223,8 @@ public:
     if (0 == m_capacity) {
       reserve(1);
     } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+      reallocate(m_capacity * 2, std::forward<T>(value));
+      return;
     }
     std::construct_at(&m_p[m_size],std::forward<T>(value));
     m_size++;
-- 
2.43.0


From dcd36860af9b76f233b00036099b88cccc5beabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 03/55] fix: deque positions at the edges of its chunks

Stepping an iterator over the last element of a chunk, stepping back into
the previous chunk, the difference of two iterators, pushing at the back
when the next chunk is already there, and a deque emptied at a chunk edge
all read or wrote outside the elements. The chunk table now ends in a null
pointer, which is where an iterator past a full last chunk points, and a
deque popped empty starts over in the middle.
---
 include/cest/deque.hpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..81b4806 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -81,8 +81,8 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
-        + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
+        * (__x.m_ppchunk - __y.m_ppchunk) + (__x.m_p - *__x.m_ppchunk)
+        - (__y.m_p - *__y.m_ppchunk);
     }
 
     value_type*  m_p       = nullptr;
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -142,8 +142,8 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
-        + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
+        * (__x.m_ppchunk - __y.m_ppchunk) + (__x.m_p - *__x.m_ppchunk)
+        - (__y.m_p - *__y.m_ppchunk);
     }
 
     const value_type*  m_p       = nullptr;
@@ -156,6 +156,7 @@ public:
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
     m_chunks.push_back(p);
+    m_chunks.push_back(nullptr); // for iterators one past a full last chunk
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -176,7 +177,7 @@ public:
   {
     clear();
     for (auto p : m_chunks)
-      m_alloc.deallocate(p, CHUNK_SIZE);
+      if (p) m_alloc.deallocate(p, CHUNK_SIZE);
   }
 
   constexpr deque& operator=(const deque& other)
@@ -192,9 +193,15 @@ public:
     for (size_type i = 0; i < size(); ++i)
       std::destroy_n(&(*this)[i], 1);
 
+    reset();
+  }
+
+  // No elements, and room at both ends of the middle chunk
+  constexpr void reset() noexcept
+  {
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
-    m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.
+    m_front_chunk = m_back_chunk = (m_chunks.size() - 1) / 2; // 1 / 2 is 0 btw.
     m_size = 0;
   }
 
@@ -226,6 +233,7 @@ public:
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
+      if (m_size == 1) { reset(); return; }
       if (m_back == 0) {
         m_back = CHUNK_SIZE - 1;
         --m_back_chunk;
@@ -240,6 +248,7 @@ public:
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_front_chunk][m_front], 1);
+      if (m_size == 1) { reset(); return; }
       if (m_front == CHUNK_SIZE - 1) {
         m_front = 0;
         ++m_front_chunk;
@@ -260,12 +269,18 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator    end() const noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
+    if (m_back == CHUNK_SIZE - 1)
+      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};
     return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
   }
   constexpr reference       front() {
@@ -327,13 +342,14 @@ private:
   {
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 1)
+      if (m_back_chunk == m_chunks.size() - 2)
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-        ++m_back_chunk;
+        m_chunks.back() = p;
+        m_chunks.push_back(nullptr);
       }
-      
+
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From cdde9e92c1d56a07f3dadb6d66c89a21cfea5f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:19 +0000
Subject: [PATCH 04/55] fix: self-assignment of a deque keeps its elements

---
 include/cest/deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 81b4806..2ea8f4b 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -182,6 +182,7 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
-- 
2.43.0


From 14603974ea4ac1a5f686ee67d1d9491099176b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:57 +0000
Subject: [PATCH 05/55] fix: deque is unchanged when pushing an element throws

---
 include/cest/deque.hpp | 69 ++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 2ea8f4b..0e40d3d 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -152,6 +152,7 @@ public:
 
   constexpr deque()
   {
+    m_chunks.reserve(2);
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
@@ -209,39 +210,40 @@ public:
   constexpr void push_front( const T& value )
   {
     push_front_helper();
+    try {
     std::construct_at(&m_chunks[m_front_chunk][m_front],           value);
+    } catch (...) { pop_front_helper(); throw; }
   }
 
   constexpr void push_front( T&& value )
   {
     push_front_helper();
+    try {
     std::construct_at(&m_chunks[m_front_chunk][m_front], std::move(value));
+    } catch (...) { pop_front_helper(); throw; }
   }
 
   constexpr void push_back( const T& value )
   {
     push_back_helper();
+    try {
     std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    } catch (...) { pop_back_helper(); throw; }
   }
 
   constexpr void push_back( T&& value )
   {
     push_back_helper();
+    try {
     std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    } catch (...) { pop_back_helper(); throw; }
   }
 
   constexpr void pop_back()
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
-      if (m_size == 1) { reset(); return; }
-      if (m_back == 0) {
-        m_back = CHUNK_SIZE - 1;
-        --m_back_chunk;
-      } else {
-        --m_back;
-      }
-      --m_size;
+      pop_back_helper();
     }
   }
 
@@ -249,14 +251,7 @@ public:
   {
     if (!empty()) {
       std::destroy_n(&m_chunks[m_front_chunk][m_front], 1);
-      if (m_size == 1) { reset(); return; }
-      if (m_front == CHUNK_SIZE - 1) {
-        m_front = 0;
-        ++m_front_chunk;
-      } else {
-        ++m_front;
-      }
-      --m_size;
+      pop_front_helper();
     }
   }
 
@@ -314,14 +309,40 @@ public:
 
 private:
 
+  // Gives up the slot at an end, in which there is no element
+  constexpr void pop_back_helper()
+  {
+      if (m_size == 1) { reset(); return; }
+      if (m_back == 0) {
+        m_back = CHUNK_SIZE - 1;
+        --m_back_chunk;
+      } else {
+        --m_back;
+      }
+      --m_size;
+  }
+
+  constexpr void pop_front_helper()
+  {
+      if (m_size == 1) { reset(); return; }
+      if (m_front == CHUNK_SIZE - 1) {
+        m_front = 0;
+        ++m_front_chunk;
+      } else {
+        ++m_front;
+      }
+      --m_size;
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
       if (m_front_chunk == 0)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
+        m_chunks.push_back(nullptr);
+        value_type *p = allocate_chunk();
+        m_chunks.back() = p;
         std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
         ++m_back_chunk;
       }
@@ -345,9 +366,9 @@ private:
     {
       if (m_back_chunk == m_chunks.size() - 2)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.back() = p;
         m_chunks.push_back(nullptr);
+        value_type *p = allocate_chunk();
+        m_chunks[m_back_chunk+1] = p;
       }
 
       ++m_back_chunk;
@@ -361,6 +382,14 @@ private:
     m_size++;
   }
 
+  // A chunk for the table, which has already grown; and shrinks if it fails
+  constexpr value_type *allocate_chunk()
+  {
+    try {
+      return m_alloc.allocate(CHUNK_SIZE);
+    } catch (...) { m_chunks.pop_back(); throw; }
+  }
+
   allocator_type      m_alloc;
   size_type           m_front;
   size_type           m_back;
-- 
2.43.0


From 9fca1437f4bf43141f35ec3f5615e308e7272cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 06/55] fix: post-increment of list and forward_list iterators
 returns an iterator

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..1f8596c 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From 4cb32e2ab66ef725384ed85b10502302e6b8206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:08 +0000
Subject: [PATCH 07/55] fix: self-assignment of a list, set or map keeps its
 elements

---
 include/cest/list.hpp | 1 +
 include/cest/map.hpp  | 1 +
 include/cest/set.hpp  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f8596c..043c1cc 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,7 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..a1f20af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,7 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..a3c38c5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,7 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From cd29b7f1b690b9789af2769324dc83fa1e59bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 08/55] fix: list, forward_list, set and map are unchanged when
 inserting an element throws

---
 include/cest/forward_list.hpp | 8 ++++++--
 include/cest/list.hpp         | 4 ++++
 include/cest/map.hpp          | 8 ++++++--
 include/cest/set.hpp          | 8 ++++++--
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..b2e26a0 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,13 +97,13 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
     while (from->next) {
       const node *nextf = static_cast<node*>(from->next);
-      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);
+      insert_after({to}, nextf->value);
       from     = from->next;
         to     =   to->next;
     }
@@ -140,7 +140,9 @@ struct forward_list {
   iterator insert_after(const_iterator pos, const value_type& value) {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
+    try {
     p->next        = std::construct_at(new_node,           value, p->next);
+    } catch (...) { m_node_alloc.deallocate(new_node, 1); throw; }
     return {new_node};
   }
 
@@ -148,7 +150,9 @@ struct forward_list {
   iterator insert_after(const_iterator pos,      value_type&& value) {
     node_base*   p  = const_cast<node_base*>(pos.m_node);
     node* new_node  = m_node_alloc.allocate(1);
+    try {
     p->next         = std::construct_at(new_node, std::move(value), p->next);
+    } catch (...) { m_node_alloc.deallocate(new_node, 1); throw; }
     return {new_node};
   }
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 043c1cc..8376b7d 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -217,7 +217,9 @@ struct list {
 
     // As an implicit-lifetime type (P0593R6), node construction isn't needed
     //std::construct_at(&new_node->value, value);
+    try {
     std::construct_at(new_node, value);
+    } catch (...) { m_node_alloc.deallocate(new_node, 1); throw; }
     // ...actually...it is: that exemption doesn't apply for constexpr.
 
     // List_node_base::_M_hook
@@ -242,7 +244,9 @@ struct list {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
 
+    try {
     std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    } catch (...) { m_node_alloc.deallocate(new_node, 1); throw; }
 
     // List_node_base::_M_hook
     new_node->next = p;
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index a1f20af..56e38fa 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -281,9 +281,13 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
+        const bool first = !m_begin || m_comp(value.first,m_begin->x.first);
+        ret_node = m_node_alloc.allocate(1);
+        try {
         std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
-        m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
+        } catch (...) { m_node_alloc.deallocate(ret_node,1); throw; }
+        n = ret_node;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index a3c38c5..d4927a9 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -217,9 +217,13 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
+        const bool first = !m_begin || m_comp(value,m_begin->x);
+        ret_node = m_node_alloc.allocate(1);
+        try {
         std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
-        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
+        } catch (...) { m_node_alloc.deallocate(ret_node,1); throw; }
+        n = ret_node;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
-- 
2.43.0


From 524bbbec0882871eee94e170c3645e6b60f90db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 09/55] fix: stepping a map iterator does not depend on the
 keys' operator==

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 56e38fa..f2deaf8 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 5c162319e3bf484b07dafcf5328759f6f4476053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:46 +0000
Subject: [PATCH 10/55] fix: finding a map entry by a type other than the key's
 compiles

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index f2deaf8..87d10c9 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -246,7 +246,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -260,7 +260,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From 9c83b5b3a030254899aac634dd76fca1742be69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 11/55] fix: string find of a character starts at the given
 position

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..0f867d6 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -139,8 +139,10 @@ public:
     return this->find(str.data(), pos);
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From dfc916e68d6d24796d7eb5046c9d87343bfce58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 12/55] fix: copying and finding a string keep its embedded
 null characters

---
 include/cest/string.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 0f867d6..37bcc15 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,7 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str) : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -136,7 +136,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
@@ -220,9 +220,15 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
+    return this->assign(s, traits_type::length(s));
+  }
+
+  constexpr basic_string& operator=(const basic_string& str) {
+    return this->assign(str.data(), str.size());
+  }
 
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
     if (m_capacity < count+1) {
       m_alloc.deallocate(m_p, m_capacity+1);
       m_capacity = count+1;                    // ensure m_capacity is not 0
@@ -231,15 +237,11 @@ public:
         std::construct_at(&m_p[i]);
     }
     
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
+    traits_type::copy(m_p, s, count);
+    traits_type::assign(m_p[m_size = count], CharT());
     return *this;
   }
 
-  constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
-  }
-
   constexpr void reserve(size_type new_cap)
   {
     if (new_cap > m_capacity)
-- 
2.43.0


From 8a1b17a7e11cd6395e58333c6c25f866523cfd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 13/55] fix: a string assigned or appended from its own
 characters

and a string assignment whose allocation fails, which freed the storage before
---
 include/cest/string.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 37bcc15..e36e905 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -180,9 +180,10 @@ public:
   }
 
   constexpr void push_back(const value_type &value) {
+    const value_type ch = value; // value may lie in this string
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
-    traits_type::assign(this->data()[  m_size], value);
+    traits_type::assign(this->data()[  m_size], ch);
     traits_type::assign(this->data()[++m_size], CharT()); // null terminator
   }
 
@@ -230,14 +231,18 @@ public:
   constexpr basic_string& assign(const CharT* s, size_type count)
   {
     if (m_capacity < count+1) {
+      const size_type cap = count+1;           // ensure m_capacity is not 0
+      value_type *p = m_alloc.allocate(cap+1); // +1 for the null terminator
+      for (size_type i = 0; i < cap+1; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);          // s may lie in this string
       m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
+      m_p = p;
+      m_capacity = cap;
     }
-    
-    traits_type::copy(m_p, s, count);
+    else
+      traits_type::move(m_p, s, count);
+
     traits_type::assign(m_p[m_size = count], CharT());
     return *this;
   }
-- 
2.43.0


From 2064682a8e7c8c38af46446e86d89cc18477c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 14/55] fix: a string made from an empty stream range

had no storage for its null character
---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index e36e905..f92bed1 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -66,7 +66,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+    : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From 6ed59fb2cd6b8f5c9c2b31c8064f4ba38d4b050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 15/55] fix: a default string whose allocation fails throws and
 does not terminate

---
 include/cest/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index f92bed1..e1b610b 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -34,11 +34,11 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
+  constexpr basic_string() :
     basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
-- 
2.43.0


From 2e271c806d08124ed76157f9af0f0424f1b98cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:19 +0000
Subject: [PATCH 16/55] fix: equality of strings of every character type is
 constexpr

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index e1b610b..d92e5b7 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -307,7 +307,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From 5d860a7636f877a5a2f0a7028c4d65906210a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 17/55] fix: unique_ptr move assignment deletes the object
 assigned over

---
 include/cest/memory.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 3ef2462..637fff2 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -43,8 +43,7 @@ public:
 
   constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
   {
-    using std::swap;
-    swap(other.ptr_, ptr_);
+    reset(other.release());
     return *this;
   }
 
-- 
2.43.0


From a662e9e47b88b4f4572773bde9c4805346a6cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:49 +0000
Subject: [PATCH 18/55] fix: copying or aliasing an empty shared_ptr

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From f372f8bc7c9c11c0789964becf61ecd90a308326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 19/55] fix: assigning a shared_ptr counts its owners

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..4663ec4 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp(r);
+    std::swap(ptr_, tmp.ptr_);
+    std::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From 33bd4a4ee65d8a67d386b171cb1ccdad23d2f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 20/55] fix: shared_ptr deletes through the type of the pointer
 it was given

---
 include/cest/shared_ptr.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 4663ec4..ec7e9b8 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -65,6 +65,10 @@ protected:
   template <typename U>
   struct def_del : default_delete<U> {};
 
+  // deletes through the pointer given, which may be to a derived class
+  template <typename Y>
+  using def_del_for = def_del<std::conditional_t<std::is_array_v<Td>,Td,Y>>;
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -74,7 +78,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,def_del_for<Y>{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From a17bf66e618d01ccd267488d34a8e1c693981c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 21/55] fix: shared_ptr deletes the object when its control
 block cannot be made

---
 include/cest/shared_ptr.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index ec7e9b8..df217de 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -62,6 +62,14 @@ protected:
     Deleter del_;
   };
 
+  template <class U, class Deleter>
+  static constexpr ctrl* make_ctrl(U* ptr, Deleter del)
+  {
+    try {
+      return new ctrl_derived<U,Deleter>{ptr,del};
+    } catch (...) { del(ptr); throw; }
+  }
+
   template <typename U>
   struct def_del : default_delete<U> {};
 
@@ -78,11 +86,11 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,def_del_for<Y>{}}} {}
+    : ptr_{ptr}, pctrl_{make_ctrl(ptr,def_del_for<Y>{})} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+    : ptr_{ptr}, pctrl_{make_ctrl(ptr,del)} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
-- 
2.43.0


From a054c4bf126364c8f85cbf43a948b54460b2b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:46 +0000
Subject: [PATCH 22/55] fix: get_deleter finds a deleter given with a pointer
 to a derived class

---
 include/cest/shared_ptr.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index df217de..8f2fa16 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -52,14 +52,22 @@ protected:
     long count_;
   };
 
+  template <class Deleter>
+  struct ctrl_deleter : public ctrl
+  {
+    constexpr ctrl_deleter(Deleter del) : del_{del} {}
+
+    Deleter del_;
+  };
+
   template <class U, class Deleter>
-  struct ctrl_derived : public ctrl
+  struct ctrl_derived : public ctrl_deleter<Deleter>
   {
-    constexpr ctrl_derived(U* ptr, Deleter del) : ptr_{ptr}, del_{del} {}
-    virtual constexpr void destroy() override { del_(ptr_); }
+    constexpr ctrl_derived(U* ptr, Deleter del)
+      : ctrl_deleter<Deleter>{del}, ptr_{ptr} {}
+    virtual constexpr void destroy() override { this->del_(ptr_); }
 
     U* ptr_;
-    Deleter del_;
   };
 
   template <class U, class Deleter>
@@ -138,13 +146,11 @@ protected:
 template <class Deleter, class U>
 constexpr Deleter* get_deleter(const shared_ptr<U>& p) noexcept
 {
-  using elem_t = typename shared_ptr<U>::element_type;
-
-  if constexpr (std::is_invocable_v<Deleter,elem_t*>)
+  if constexpr (std::is_copy_constructible_v<Deleter>)
   {
-    using ctrl_derived_t =
-      typename shared_ptr<U>::template ctrl_derived<elem_t,Deleter>;
-    auto ptr = dynamic_cast<ctrl_derived_t*>(p.pctrl_);
+    using ctrl_deleter_t =
+      typename shared_ptr<U>::template ctrl_deleter<Deleter>;
+    auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
     return ptr ? &ptr->del_ : nullptr;
   } 
   
-- 
2.43.0


From 7484692462f7fdfd9ea35cc3ed15f196d4537c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:13 +0000
Subject: [PATCH 23/55] fix: a function is made from a const callable, and
 moves from a temporary one

---
 include/cest/functional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..853d492 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -22,7 +22,7 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F&& f) : f_(std::move(f)) {}
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -35,7 +35,7 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(F&& f) : f_(std::move(f)) {}
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -60,7 +60,7 @@ public:
   template<typename F>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         R, Args...>>(std::move(f))){}
+                         R, Args...>>(std::decay_t<F>(std::forward<F>(f)))){}
 };
 
 template <typename... Args>
@@ -76,7 +76,7 @@ public:
   template<typename F>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         void, Args...>>(std::move(f))){}
+                         void, Args...>>(std::decay_t<F>(std::forward<F>(f)))){}
 };
 
 // Deduction guide borrowed from libcxx
-- 
2.43.0


From 410b56d9ef774759c85b97e7ba185a51f4d03aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:25 +0000
Subject: [PATCH 24/55] fix: copying a function copies its target

It wrapped the function in itself, without end; and a const one did not compile.
---
 include/cest/functional.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index 853d492..feb125e 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -24,6 +25,8 @@ class impl_f : public virt_impl_f<R , Args...>
 public:
   constexpr impl_f(F&& f) : f_(std::move(f)) {}
 
+  constexpr virtual impl_f* clone() const override { return new impl_f(F(f_)); }
+
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
   }
@@ -37,6 +40,8 @@ class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 public:
   constexpr impl_f(F&& f) : f_(std::move(f)) {}
 
+  constexpr virtual impl_f* clone() const override { return new impl_f(F(f_)); }
+
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
   }
@@ -57,7 +62,20 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& other)
+    : f_(other.f_ ? other.f_->clone() : nullptr) {}
+
+  constexpr function(function&& other) = default;
+
+  constexpr function& operator=(const function& other) {
+    f_.reset(other.f_ ? other.f_->clone() : nullptr);
+    return *this;
+  }
+
+  constexpr function& operator=(function&& other) = default;
+
+  template<typename F,
+           typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>,function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          R, Args...>>(std::decay_t<F>(std::forward<F>(f)))){}
@@ -73,7 +91,20 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& other)
+    : f_(other.f_ ? other.f_->clone() : nullptr) {}
+
+  constexpr function(function&& other) = default;
+
+  constexpr function& operator=(const function& other) {
+    f_.reset(other.f_ ? other.f_->clone() : nullptr);
+    return *this;
+  }
+
+  constexpr function& operator=(function&& other) = default;
+
+  template<typename F,
+           typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>,function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          void, Args...>>(std::decay_t<F>(std::forward<F>(f)))){}
-- 
2.43.0


From 1e8989fc9a7a701434a7da6514d6310b73a6a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 25/55] fix: the text of a string stream can be read

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From c7c7c60c21687456d3d23e3580443bafc89b6da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 26/55] fix: inserting a long into an output stream links, and
 writes it

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..c99f091 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -60,7 +60,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From 5248d4ebba590d96b453b5c20478afb85acce90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 27/55] fix: dec, hex and oct change the base of later integers

---
 include/cest/ostream.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index c99f091..9bd8c5a 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,9 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    if      (__pf == cest::dec) impl::runtime_ostream(*this, std::dec);
+    else if (__pf == cest::hex) impl::runtime_ostream(*this, std::hex);
+    else if (__pf == cest::oct) impl::runtime_ostream(*this, std::oct);
     return *this;
   }
 
-- 
2.43.0


From 6c3e45af511450374369b59e10ab83d7ceaa0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 28/55] fix: a string is written with its embedded null
 characters

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index d92e5b7..9e93713 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -6,6 +6,7 @@
 #include <string>      // std::char_traits
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
+#include <string_view> // std::basic_string_view
 #include <limits>      // std::numeric_limits
 #include <type_traits> // std::is_same_v
 
@@ -377,7 +378,7 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(os, std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From 98269d7343b6ec225a9b2aec92bc80ca69fc099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 29/55] fix: fprintf without arguments returns the number of
 characters written

---
 include/cest/cstdio.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..db8352f 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -44,6 +44,7 @@ constexpr int fprintf(ostream* stream, const char* format)
   if (!std::is_constant_evaluated())
   {
     (*stream) << format;
+    return std::char_traits<char>::length(format);
   }
 
   return 0;
-- 
2.43.0


From 975b5455c36fc88748b24c09203dcdd010935590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:02 +0000
Subject: [PATCH 30/55] fix: each header includes what it uses

---
 include/cest/cmath.hpp     | 1 +
 include/cest/complex.hpp   | 4 ++++
 include/cest/ios_base.hpp  | 2 ++
 include/cest/pair.hpp      | 2 +-
 include/cest/streambuf.hpp | 4 ++++
 5 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..a8ac844 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -2,6 +2,7 @@
 #define _CEST_CMATH_HPP_
 
 #include "cest/bits/abs.hpp"
+#include <limits> // std::numeric_limits
 
 namespace cest {
 
diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..a40c344 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -8,6 +8,10 @@
 // namespace __gnu_cxx are also omitted.
 
 #include <type_traits>
+#include <cmath>
+#include "cest/cmath.hpp"
+#include "cest/istream.hpp"
+#include "cest/ostream.hpp"
 #include "cest/algorithm.hpp"
 
 // Get rid of a macro possibly defined in <complex.h>
diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index c51d052..e36f348 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -1,6 +1,8 @@
 #ifndef _CEST_IOS_BASE_HPP_
 #define _CEST_IOS_BASE_HPP_
 
+#include <ios> // std::streamsize
+
 namespace cest {
 
   enum _Ios_Fmtflags
diff --git a/include/cest/pair.hpp b/include/cest/pair.hpp
index 15ec31f..e9dd425 100644
--- a/include/cest/pair.hpp
+++ b/include/cest/pair.hpp
@@ -1,7 +1,7 @@
 #ifndef _CEST_PAIR_HPP_
 #define _CEST_PAIR_HPP_
 
-#include <pair>
+#include <utility>
 
 namespace cest {
 
diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index a2ff25a..6a9f113 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -1,6 +1,10 @@
 #ifndef _CEST_STREAMBUF_HPP_
 #define _CEST_STREAMBUF_HPP_
 
+#include "ios_base.hpp" // cest::streamsize
+#include <algorithm>    // std::min
+#include <string>       // std::char_traits
+
 namespace cest {
 
 #define _IsUnused __attribute__ ((__unused__))
-- 
2.43.0


From 473345701750367ad75f217b246c9247915e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:41 +0000
Subject: [PATCH 31/55] fix: the standard stream objects may be defined in
 several translation units

---
 include/cest/iostream.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..acd24b3 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,16 +8,16 @@
 namespace cest {
 
 namespace impl {
-  basic_stringbuf cout(string("cout"));
-  basic_stringbuf cerr(string("cerr"));
-  basic_stringbuf clog(string("clog"));
-  basic_stringbuf cin(string("cin"));
+  inline basic_stringbuf cout(string("cout"));
+  inline basic_stringbuf cerr(string("cerr"));
+  inline basic_stringbuf clog(string("clog"));
+  inline basic_stringbuf cin(string("cin"));
 }
 
-ostream cout(&impl::cout);
-ostream cerr(&impl::cerr);
-ostream clog(&impl::clog);
-istream cin(&impl::cin);
+inline ostream cout(&impl::cout);
+inline ostream cerr(&impl::cerr);
+inline ostream clog(&impl::clog);
+inline istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
 using wiostream = basic_iostream<wchar_t>;
-- 
2.43.0


From 102562d0f40c094485048ed3ddf30ab328c9b200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 32/55] fix: ceil and floor of values next to an integer

---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a8ac844..f1bdb1e 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -119,7 +119,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ?  (int)v + 1 : v;
   }
 
   constexpr double cos(double x) {
@@ -131,7 +131,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ?  (int)v - 1 : v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From 36584cc43feff5f6294ded0507de7ce926bf1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:12 +0000
Subject: [PATCH 33/55] fix: sqrt of zero, of negative numbers and of infinity,
 and log of infinity, return

---
 include/cest/cmath.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index f1bdb1e..b9388d8 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -142,7 +142,9 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    return x <  0 ? std::numeric_limits<double>::quiet_NaN() :
+           x == 0 || x != x || x == std::numeric_limits<double>::infinity() ? x :
+           sqrt_helper(x,1.0);
   }
 
   constexpr double sin(double x) { 
@@ -162,6 +164,7 @@ namespace cest {
   constexpr double log(double x) {
     return x == 0 ? -std::numeric_limits<double>::infinity() :
            x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
+           x == std::numeric_limits<double>::infinity() ? x :
            2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);
   }
 
-- 
2.43.0


From fcab9ead28e6e2317e496a32a4a9bfc5298d88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:28 +0000
Subject: [PATCH 34/55] hook: CEST_VERIF_CHUNK_SIZE sets the number of elements
 in a deque chunk

---
 include/cest/deque.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 0e40d3d..c595cbe 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -6,7 +6,11 @@
 #include <algorithm> // std::rotate
 #include <initializer_list>
 
+#ifdef CEST_VERIF_CHUNK_SIZE
+#define CHUNK_SIZE CEST_VERIF_CHUNK_SIZE
+#else
 #define CHUNK_SIZE 1024
+#endif
 
 namespace cest {
 
-- 
2.43.0


From dc4e832c279ef2c02112437de7a21d9569911a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:16 +0000
Subject: [PATCH 35/55] fix: fprintf writes the characters after a null
 character

---
 include/cest/cstdio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index db8352f..cb133d3 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -57,9 +57,10 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
+    if (nbytes < 0) { return nbytes; }
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    (*stream) << string(psz, nbytes); // may contain nulls
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From 979d4b1f166397bb5281b4868ed5df9d7fb606a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:46 +0000
Subject: [PATCH 36/55] fix: complex sqrt, tan, tanh, log10 and pow compile and
 use the library's own functions

---
 include/cest/complex.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a40c344..02cc782 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -795,7 +795,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / _Tp(log(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -873,7 +873,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -906,7 +906,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -934,7 +934,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1000,16 +1000,16 @@ namespace cest
 	return _Tp();
 #endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return exp(__y * log(__x.real()));
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1040,9 +1040,9 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From a25a074d74ffee252b7f2453bd2864647a52d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:25 +0000
Subject: [PATCH 37/55] fix: deque iterators have the operations of the random
 access category they claim

---
 include/cest/deque.hpp | 71 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index c595cbe..523c24b 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -2,6 +2,7 @@
 #define _CEST_DEQUE_HPP_
 
 #include "vector.hpp"
+#include <compare>
 #include <memory>    // std::allocator_traits
 #include <algorithm> // std::rotate
 #include <initializer_list>
@@ -89,6 +90,41 @@ public:
         - (__y.m_p - *__y.m_ppchunk);
     }
 
+    constexpr iter& operator+=(difference_type n) noexcept
+    {
+      constexpr difference_type size = CHUNK_SIZE;
+      const difference_type offset = n + (m_p - *m_ppchunk);
+      const difference_type chunks =
+        offset >= 0 ? offset / size : -((size - 1 - offset) / size);
+      m_ppchunk += chunks;
+      m_p = *m_ppchunk + (offset - chunks * size);
+      return *this;
+    }
+
+    constexpr iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr iter operator+(iter x, difference_type n) noexcept {
+      return x += n;
+    }
+
+    friend constexpr iter operator+(difference_type n, iter x) noexcept {
+      return x += n;
+    }
+
+    friend constexpr iter operator-(iter x, difference_type n) noexcept {
+      return x -= n;
+    }
+
+    friend constexpr auto operator<=>(const iter& x, const iter& y) noexcept {
+      return x - y <=> 0;
+    }
+
     value_type*  m_p       = nullptr;
     value_type** m_ppchunk = nullptr; // address of the vector element
   };
@@ -150,6 +186,41 @@ public:
         - (__y.m_p - *__y.m_ppchunk);
     }
 
+    constexpr const_iter&operator+=(difference_type n) noexcept
+    {
+      constexpr difference_type size = CHUNK_SIZE;
+      const difference_type offset = n + (m_p - *m_ppchunk);
+      const difference_type chunks =
+        offset >= 0 ? offset / size : -((size - 1 - offset) / size);
+      m_ppchunk += chunks;
+      m_p = *m_ppchunk + (offset - chunks * size);
+      return *this;
+    }
+
+    constexpr const_iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr const_iter operator+(const_iter x, difference_type n) noexcept {
+      return x += n;
+    }
+
+    friend constexpr const_iter operator+(difference_type n, const_iter x) noexcept {
+      return x += n;
+    }
+
+    friend constexpr const_iter operator-(const_iter x, difference_type n) noexcept {
+      return x -= n;
+    }
+
+    friend constexpr auto operator<=>(const const_iter& x, const const_iter& y) noexcept {
+      return x - y <=> 0;
+    }
+
     const value_type*  m_p       = nullptr;
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
-- 
2.43.0


From 75ca233ca322d40c10c042f03bb59d3085bbbeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 38/55] fix: constant iterators can be default-constructed, as
 forward iterators must

---
 include/cest/deque.hpp        | 1 +
 include/cest/forward_list.hpp | 1 +
 include/cest/list.hpp         | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 523c24b..dd288aa 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -137,6 +137,7 @@ public:
     using pointer           = const value_type*;
     using iterator_category = std::random_access_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const value_type* p, value_type* const* ppchunk)
       : m_p(p),      m_ppchunk(ppchunk)      {}
     constexpr const_iter(const iter&     it)
diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index b2e26a0..c30b894 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -70,6 +70,7 @@ struct forward_list {
     using pointer           = const value_type*;
     using iterator_category = std::forward_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 8376b7d..1ef3da7 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -102,6 +102,7 @@ struct list {
     using pointer           = const value_type*;
     using iterator_category = std::bidirectional_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
     
-- 
2.43.0


From 295587036f88571859e7d17e708ed2d618a23a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 39/55] fix: set and map iterators step backwards, as the
 bidirectional category they claim requires

---
 include/cest/map.hpp | 106 +++++++++++++++++++++++++++++++++++++------
 include/cest/set.hpp |  59 +++++++++++++++++++-----
 2 files changed, 138 insertions(+), 27 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 87d10c9..14c5614 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -46,7 +46,8 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr tree_iter()                  noexcept                 { }
-    explicit constexpr tree_iter(node *np) noexcept : curr_node(np) { }
+    explicit constexpr tree_iter(node *np, node *const *root) noexcept
+      : curr_node(np), root(root) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -74,11 +75,45 @@ public:
 
     constexpr tree_iter      operator++(int) // post-increment
     {
-      tree_iter tmp(curr_node);
+      tree_iter tmp{*this};
       ++(*this);
       return tmp; 
     }
 
+    constexpr tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node)
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node==pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr tree_iter      operator--(int) // post-decrement
+    {
+      tree_iter tmp{*this};
+      --(*this);
+      return tmp;
+    }
+
     friend constexpr bool operator==(const tree_iter &x, const tree_iter &y) {
       return x.curr_node == y.curr_node;
     }
@@ -88,6 +123,7 @@ public:
     }
 
     node *curr_node = nullptr;
+    node *const *root = nullptr; // address of the root; to step back from end()
   };
 
   struct const_tree_iter
@@ -99,9 +135,10 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr const_tree_iter()                  noexcept                 { }
-    explicit constexpr const_tree_iter(node *np) noexcept : curr_node(np) { }
+    explicit constexpr const_tree_iter(node *np, node *const *root) noexcept
+      : curr_node(np), root(root) { }
     constexpr const_tree_iter(const map::iterator& it)  noexcept
-      : curr_node(it.curr_node) { }
+      : curr_node(it.curr_node), root(it.root) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -129,11 +166,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp(curr_node);
+      const_tree_iter tmp{*this};
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node)
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node==pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp{*this};
+      --(*this);
+      return tmp;
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node;
@@ -145,6 +216,7 @@ public:
     }
 
     node *curr_node = nullptr;
+    node *const *root = nullptr; // address of the root; to step back from end()
   };
 
   enum eCol { RED, BLACK };
@@ -179,14 +251,18 @@ public:
 // and it results in the iterator's type failing std::weakly_incrementable etc.
 //  constexpr     iterator  begin()       noexcept { return iterator{m_begin}; }
   constexpr const_iterator  begin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,&m_root};
   }
   constexpr const_iterator cbegin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,&m_root};
+  }
+  constexpr       iterator    end()       noexcept { return iterator(nullptr,&m_root); }
+  constexpr const_iterator    end() const noexcept {
+    return const_iterator(nullptr,&m_root);
+  }
+  constexpr const_iterator   cend() const noexcept {
+    return const_iterator(nullptr,&m_root);
   }
-  constexpr       iterator    end()       noexcept { return iterator(); }
-  constexpr const_iterator    end() const noexcept { return const_iterator(); }
-  constexpr const_iterator   cend() const noexcept { return const_iterator(); }
   constexpr size_type        size() const noexcept { return m_size; }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -219,7 +295,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,&m_root);
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -232,7 +308,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,&m_root);
   }
 
   template <class K>
@@ -246,7 +322,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,&m_root);
   }
 
   template <class K>
@@ -260,7 +336,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,&m_root);
   }
 
   constexpr void rotate_left(node *&n) {
@@ -325,7 +401,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator(ret_node),added};
+    return {iterator(ret_node,&m_root),added};
   }
 
   node *m_root;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index d4927a9..0168198 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -69,11 +69,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp{curr_node};
+      const_tree_iter tmp{*this};
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node)
+      {
+        curr_node = *root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node==pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp{*this};
+      --(*this);
+      return tmp;
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node; // this should work constexpr. Test.
@@ -85,6 +119,7 @@ public:
     }
 
     node *curr_node = nullptr;
+    node *const *root = nullptr; // address of the root; to step back from end()
   };
 
   enum eCol { RED, BLACK };
@@ -118,12 +153,12 @@ public:
 
 // This seems to exist in cppreference.com; but GCC doesn't have it, and
 // it results in the iterator's type failing std::weakly_incrementable etc.
-//  constexpr     iterator  begin()       noexcept { return {m_begin}; }
-  constexpr const_iterator  begin() const noexcept { return {m_begin}; }
-  constexpr const_iterator cbegin() const noexcept { return {m_begin}; }
-  constexpr       iterator    end()       noexcept { return {nullptr}; }
-  constexpr const_iterator    end() const noexcept { return {nullptr}; }
-  constexpr const_iterator   cend() const noexcept { return {nullptr}; }
+//  constexpr     iterator  begin()       noexcept { return {m_begin,&m_root}; }
+  constexpr const_iterator  begin() const noexcept { return {m_begin,&m_root}; }
+  constexpr const_iterator cbegin() const noexcept { return {m_begin,&m_root}; }
+  constexpr       iterator    end()       noexcept { return {nullptr,&m_root}; }
+  constexpr const_iterator    end() const noexcept { return {nullptr,&m_root}; }
+  constexpr const_iterator   cend() const noexcept { return {nullptr,&m_root}; }
   constexpr size_type        size() const noexcept { return m_size;    }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -155,7 +190,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -168,7 +203,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   template <class K>
@@ -182,7 +217,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   template <class K>
@@ -196,7 +231,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,&m_root};
   }
 
   constexpr void rotate_left(node *&n) {
@@ -261,7 +296,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator{ret_node},added};
+    return {iterator{ret_node,&m_root},added};
   }
 //  std::pair<iterator,bool> insert( value_type&& value );
 
-- 
2.43.0


From 10113b7522dddb61c462114620812327d244da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:54 +0000
Subject: [PATCH 40/55] fix: assigning a string to itself is a constant
 expression

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 9e93713..eb7b736 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -242,7 +242,7 @@ public:
       m_p = p;
       m_capacity = cap;
     }
-    else
+    else if (s != m_p) // a move onto itself is not a constant expression
       traits_type::move(m_p, s, count);
 
     traits_type::assign(m_p[m_size = count], CharT());
-- 
2.43.0


From e7e6634705a979369101bee95abb75df4b55e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:59 +0000
Subject: [PATCH 41/55] fix: integral powers of any exponent, without recursing
 once per unit of it

---
 include/cest/cmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index b9388d8..9531ba4 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -135,9 +135,10 @@ namespace cest {
   }
 
   constexpr double pow(double base, int exponent) {
-    return exponent <  0 ? 1.0 / pow(base,-exponent) :
+    return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :
            exponent == 0 ? 1.                        :
            exponent == 1 ? base                      :
+           exponent % 2 == 0 ? square(pow(base,exponent/2)) :
            base * pow(base,exponent-1);
   }
 
-- 
2.43.0


From a94ba8ab8107b3fc1d392d9bea46eb936d07bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 42/55] fix: istream sentries skip white space instead of
 failing

---
 include/cest/istream.hpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/cest/istream.hpp b/include/cest/istream.hpp
index b89df35..cb0faf5 100644
--- a/include/cest/istream.hpp
+++ b/include/cest/istream.hpp
@@ -102,23 +102,15 @@ using wistream = basic_istream<wchar_t>;
     __streambuf_type* __sb = __in.rdbuf();
     __int_type __c = __sb->sgetc();
 
-#if !defined(_LIBCPP_VERSION)
-    const __ctype_type& __ct = __check_facet(__in._M_ctype);
-#else
-    // The way it should be done in libcxx, except that all of this is not 
-    // constexpr yet..
-    // const std::ctype<_CharT>& __ct = std::use_facet<std::ctype<_CharT> >(__in.getloc());
+    // No facet is cached in the stream (nor usable in a constant
+    // expression); so these are the spaces of the classic locale.
+    const auto __space = [](char_type __ch) {
+      return __ch == char_type(' ') ||
+             (__ch >= char_type('\t') && __ch <= char_type('\r'));
+    };
 
-    // No __check_facet in libcxx and std::use_facet requires a lot of 
-    // non-constexpr functionallity, so using a default in its place for now. So
-    // if we end up with some strange output this may be the cause.
-    struct __place_holder_ctype : std::ctype<char> {};
-    const __ctype_type& __ct = __place_holder_ctype();
-#endif
-    
     while (!traits_type::eq_int_type(__c, __eof)
-           && __ct.is(std::ctype_base::space,
-          traits_type::to_char_type(__c)))
+           && __space(traits_type::to_char_type(__c)))
       __c = __sb->snextc();
 
     // _GLIBCXX_RESOLVE_LIB_DEFECTS
-- 
2.43.0


From 445a38b98d9e9de05fe33f47f0906af235d53a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 43/55] fix: shared pointers compare as pointers, not as
 booleans

---
 include/cest/shared_ptr.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 8f2fa16..df59dd8 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -4,6 +4,7 @@
 // TODO: Sharing subobjects
 // https://www.justsoftwaresolutions.co.uk/cplusplus/shared-ptr-secret-constructor.html
 
+#include <compare>
 #include <type_traits>
 
 #include "cest/iostream.hpp"
@@ -187,6 +188,20 @@ public:
   }
 };
 
+template <typename T, typename U>
+constexpr bool
+operator==(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() == b.get();
+}
+
+template <typename T, typename U>
+constexpr std::strong_ordering
+operator<=>(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return std::compare_three_way{}(a.get(), b.get());
+}
+
 template<typename T>
 constexpr cest::ostream&
 operator<<(cest::ostream& o, shared_ptr<T> const& p)
-- 
2.43.0


From 1be8c8db1926f80b01caaebb62972e6245165e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 44/55] fix: unique pointers of different types compare as
 pointers

---
 include/cest/memory.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 637fff2..7527acd 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -89,44 +89,44 @@ public:
 //------------------------------------------------------------------------------
 // Comparison operators
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator==(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator==(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() == b.get();
 }
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator!=(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator!=(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() != b.get();
 }
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator<(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator<(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() < b.get();
 }
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator<=(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator<=(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() <= b.get();
 }
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator>(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator>(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() > b.get();
 }
 
-template<typename T>
+template<typename T, typename U>
 constexpr bool
-operator>=(unique_ptr<T> const& a, unique_ptr<T> const& b) noexcept
+operator>=(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 {
   return a.get() >= b.get();
 }
-- 
2.43.0


From 719bf01190fcfb8570cd3c1af473c53dbd55728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 45/55] fix: writing a unique_ptr or shared_ptr to a stream
 compiles

---
 include/cest/ostream.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 9bd8c5a..9724d25 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -78,6 +78,12 @@ public:
     return *this;
   }
 
+  // for the pointers held by unique_ptr and shared_ptr
+  constexpr __ostream_type& operator<<(const void* p)                         {
+    impl::runtime_ostream(*this, p);
+    return *this;
+  }
+
   constexpr __ostream_type& flush();
 
   protected:
@@ -108,6 +114,22 @@ operator<<(basic_ostream<CharT,Traits>& os, const CharT* s)
   return os;
 }
 
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const signed char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const unsigned char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
 template <class CharT, class Traits >
 constexpr basic_ostream<CharT,Traits> &
 endl(basic_ostream<CharT, Traits> &os)
-- 
2.43.0


From 2af470ae0be46dc1577ca56f41c2cd81e5ad7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 46/55] fix: shorts, and signed and unsigned characters, are
 written as such

---
 include/cest/ostream.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 9724d25..0036874 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -73,6 +73,11 @@ public:
     return *this;
   }
 
+  constexpr __ostream_type& operator<<(short value)                           {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& operator<<(unsigned int value)                    {
     impl::runtime_ostream(*this, value);
     return *this;
@@ -114,6 +119,22 @@ operator<<(basic_ostream<CharT,Traits>& os, const CharT* s)
   return os;
 }
 
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, signed char ch)
+{
+  impl::runtime_ostream(os, ch);
+  return os;
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, unsigned char ch)
+{
+  impl::runtime_ostream(os, ch);
+  return os;
+}
+
 template <class Traits>
 constexpr basic_ostream<char,Traits>&
 operator<<(basic_ostream<char,Traits>& os, const signed char* s)
-- 
2.43.0


From 829f1e68a80705f0e673f86306e15fd691c2a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 47/55] fix: lists and forward lists move the elements given as
 rvalues

---
 include/cest/forward_list.hpp | 5 ++++-
 include/cest/list.hpp         | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index c30b894..e87fd15 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -2,6 +2,7 @@
 #define _CEST_FORWARD_LIST_HPP_
 
 #include <memory>
+#include <utility> // std::move
 
 namespace cest {
 
@@ -27,7 +28,9 @@ struct forward_list {
   struct        node_base { node_base* next = nullptr; };
   struct node : node_base {
     constexpr node(const value_type &v, node_base* n = nullptr)
-                                                  : node_base{n}, value{v} {}
+                                                  : node_base{n}, value(v) {}
+    constexpr node(value_type &&v, node_base* n = nullptr)
+                                       : node_base{n}, value(std::move(v)) {}
     value_type value;
   };
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1ef3da7..206566d 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -3,6 +3,7 @@
 
 #include <memory>
 #include <algorithm>
+#include <utility> // std::move
 
 namespace cest {
 
@@ -52,6 +53,7 @@ struct list {
   struct node : node_base
   {
     constexpr node(const value_type &v) : value(v) {}
+    constexpr node(value_type &&v) : value(std::move(v)) {}
     value_type value;
   };
 
-- 
2.43.0


From bd4c4ba2c9ba124b16456df84a879b8bca971cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:09 +0000
Subject: [PATCH 48/55] fix: a vector's move constructor is noexcept, so
 vectors of vectors move as they grow

---
 include/cest/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index d038226..d90d71a 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -49,7 +49,7 @@ public:
       std::construct_at(&m_p[i], other.m_p[i]);
   }
 
-  constexpr vector(vector&& other) : vector()
+  constexpr vector(vector&& other) noexcept : vector()
   {
     swap(other);
   }
-- 
2.43.0


From 5a5928e59dbd736deb5194a93055b9f23189c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:24 +0000
Subject: [PATCH 49/55] fix: make_unique passes its arguments to a constructor
 in parentheses, as std::make_unique does

---
 include/cest/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 7527acd..a1ee803 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -134,7 +134,10 @@ operator>=(unique_ptr<T> const& a, unique_ptr<U> const& b) noexcept
 template<typename T, typename... Args>
 constexpr unique_ptr<T> make_unique( Args&&... args )
 {
-  return { new T{ std::forward<Args>(args)... } };
+  if constexpr (std::is_constructible_v<T, Args...>)
+    return { new T( std::forward<Args>(args)... ) };
+  else
+    return { new T{ std::forward<Args>(args)... } }; // an aggregate
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d11463a48ab036a5cbacf27ca674d1988257f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:17 +0000
Subject: [PATCH 50/55] fix: a deque reuses its spare chunks instead of growing
 for ever

---
 include/cest/deque.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index dd288aa..dfc5f13 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -414,7 +414,16 @@ private:
   {
     if (m_front == 0)
     {
-      if (m_front_chunk == 0)
+      const size_type spare = m_chunks.size() - 2 - m_back_chunk;
+      if (m_front_chunk == 0 && spare > 0 && spare >= m_chunks.size() / 2)
+      {
+        // most chunks are spare, and beyond the back: reuse them
+        std::rotate(m_chunks.rbegin() + 1, m_chunks.rbegin() + 1 + spare,
+                    m_chunks.rend());
+        m_front_chunk += spare - 1;
+        m_back_chunk  += spare;
+      }
+      else if (m_front_chunk == 0)
       {
         m_chunks.push_back(nullptr);
         value_type *p = allocate_chunk();
@@ -440,7 +449,16 @@ private:
   {
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 2)
+      if (m_back_chunk == m_chunks.size() - 2 &&
+          m_front_chunk >= m_chunks.size() / 2)
+      {
+        // most chunks are spare, and before the front: reuse them
+        std::rotate(m_chunks.begin(), m_chunks.begin() + m_front_chunk,
+                    m_chunks.end() - 1);
+        m_back_chunk -= m_front_chunk;
+        m_front_chunk = 0;
+      }
+      else if (m_back_chunk == m_chunks.size() - 2)
       {
         m_chunks.push_back(nullptr);
         value_type *p = allocate_chunk();
-- 
2.43.0


From 40ff62c87e5bd7e9729be742da8274fa32eb47d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:39 +0000
Subject: [PATCH 51/55] fix: a moved string stream reads from a buffer of its
 own

---
 include/cest/sstream.hpp | 41 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 8dd0f85..1bc2706 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -5,6 +5,7 @@
 #include "streambuf.hpp"
 #include "string.hpp"
 #include <limits>   // std::numeric_limits
+#include <utility>  // std::move
 
 namespace cest {
 
@@ -51,6 +52,22 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr basic_stringbuf(basic_stringbuf&& __rhs)
+  : __streambuf_type(), _M_mode(), _M_string()
+  { *this = std::move(__rhs); }
+
+  // The text and the position in it; the areas are always of our own string
+  constexpr basic_stringbuf& operator=(basic_stringbuf&& __rhs)
+  {
+    const off_type __off = __rhs.gptr() - __rhs.eback();
+    _M_string = __rhs._M_string;
+    this->setg(nullptr, nullptr, nullptr);
+    this->setp(nullptr, nullptr);
+    _M_stringbuf_init(__rhs._M_mode);
+    this->__safe_gbump(__off);
+    return *this;
+  }
+
   constexpr __string_type str() const { return _M_string; }
 
   constexpr void str(const __string_type& __s)
@@ -160,6 +177,18 @@ public:
   constexpr __string_type str() const { return _M_stringbuf.str(); }
   constexpr void str(const __string_type& __s) { _M_stringbuf.str(__s); }
 
+  constexpr basic_istringstream(basic_istringstream&& __rhs)
+  : __istream_type(__rhs), _M_stringbuf(std::move(__rhs._M_stringbuf))
+  { this->_M_streambuf = &_M_stringbuf; }
+
+  constexpr basic_istringstream& operator=(basic_istringstream&& __rhs)
+  {
+    _M_stringbuf = std::move(__rhs._M_stringbuf);
+    __istream_type::operator=(__rhs);
+    this->_M_streambuf = &_M_stringbuf;
+    return *this;
+  }
+
   constexpr ~basic_istringstream() {}
 
   __stringbuf_type  _M_stringbuf;
@@ -199,6 +228,18 @@ public:
   constexpr __string_type str() const { return _M_stringbuf.str(); }
   constexpr void str(const __string_type& __s) { _M_stringbuf.str(__s); }
 
+  constexpr basic_stringstream(basic_stringstream&& __rhs)
+  : __iostream_type(__rhs), _M_stringbuf(std::move(__rhs._M_stringbuf))
+  { this->_M_streambuf = &_M_stringbuf; }
+
+  constexpr basic_stringstream& operator=(basic_stringstream&& __rhs)
+  {
+    _M_stringbuf = std::move(__rhs._M_stringbuf);
+    __iostream_type::operator=(__rhs);
+    this->_M_streambuf = &_M_stringbuf;
+    return *this;
+  }
+
   constexpr ~basic_stringstream() {}
 
   __stringbuf_type  _M_stringbuf;
-- 
2.43.0


From 4c5c08face99c422b99fac62a68dfa91eca14d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 52/55] fix: istream.hpp includes the output stream it flushes

---
 include/cest/istream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/istream.hpp b/include/cest/istream.hpp
index cb0faf5..ee19a4a 100644
--- a/include/cest/istream.hpp
+++ b/include/cest/istream.hpp
@@ -2,6 +2,7 @@
 #define _CEST_ISTREAM_HPP_
 
 #include "ios.hpp" // cest::basic_ios
+#include "ostream.hpp" // cest::basic_ostream, flushed when tied
 #include "streambuf.hpp"
 #include <string>  // std::char_traits
 
-- 
2.43.0


From d3ce5d3d93373e1826cbbbaa369f48c9c57c3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:23 +0000
Subject: [PATCH 53/55] fix: a copied stream buffer reads from where the other
 stands

---
 include/cest/streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index 6a9f113..8be9f32 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -98,7 +98,7 @@ protected:
 //  _M_buf_locale(locale())
   { }
 
-  constexpr basic_streambuf(const basic_streambuf& /*rhs*/) {}
+  constexpr basic_streambuf(const basic_streambuf&) = default;
 
   constexpr char_type*
   eback() const { return _M_in_beg; }
-- 
2.43.0


From d37d8a800e933dfe572f6275afb63bb3c18208d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:38 +0000
Subject: [PATCH 54/55] fix: the constants of strings and streams may be passed
 by reference

---
 include/cest/ios_base.hpp | 36 ++++++++++++++++++------------------
 include/cest/string.hpp   |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index e36f348..3b6d01a 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -144,24 +144,24 @@ class ios_base
 {
 public:
   typedef _Ios_Fmtflags fmtflags;
-  static const fmtflags boolalpha =   _S_boolalpha;
-  static const fmtflags dec =         _S_dec;
-  static const fmtflags fixed =       _S_fixed;
-  static const fmtflags hex =         _S_hex;
-  static const fmtflags internal =    _S_internal;
-  static const fmtflags left =        _S_left;
-  static const fmtflags oct =         _S_oct;
-  static const fmtflags right =       _S_right;
-  static const fmtflags scientific =  _S_scientific;
-  static const fmtflags showbase =    _S_showbase;
-  static const fmtflags showpoint =   _S_showpoint;
-  static const fmtflags showpos =     _S_showpos;
-  static const fmtflags skipws =      _S_skipws;
-  static const fmtflags unitbuf =     _S_unitbuf;
-  static const fmtflags uppercase =   _S_uppercase;
-  static const fmtflags adjustfield = _S_adjustfield;
-  static const fmtflags basefield =   _S_basefield;
-  static const fmtflags floatfield =  _S_floatfield;
+  static constexpr fmtflags boolalpha =   _S_boolalpha;
+  static constexpr fmtflags dec =         _S_dec;
+  static constexpr fmtflags fixed =       _S_fixed;
+  static constexpr fmtflags hex =         _S_hex;
+  static constexpr fmtflags internal =    _S_internal;
+  static constexpr fmtflags left =        _S_left;
+  static constexpr fmtflags oct =         _S_oct;
+  static constexpr fmtflags right =       _S_right;
+  static constexpr fmtflags scientific =  _S_scientific;
+  static constexpr fmtflags showbase =    _S_showbase;
+  static constexpr fmtflags showpoint =   _S_showpoint;
+  static constexpr fmtflags showpos =     _S_showpos;
+  static constexpr fmtflags skipws =      _S_skipws;
+  static constexpr fmtflags unitbuf =     _S_unitbuf;
+  static constexpr fmtflags uppercase =   _S_uppercase;
+  static constexpr fmtflags adjustfield = _S_adjustfield;
+  static constexpr fmtflags basefield =   _S_basefield;
+  static constexpr fmtflags floatfield =  _S_floatfield;
 
   typedef _Ios_Iostate iostate;
   static constexpr iostate badbit  = _S_badbit;
diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index eb7b736..6a6a6b3 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -33,7 +33,7 @@ public:
   using reverse_iterator    = std::reverse_iterator<iterator>;
   using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-  static const size_type npos = static_cast<size_type>(-1);
+  static constexpr size_type npos = static_cast<size_type>(-1);
 
   constexpr basic_string() :
     basic_string( Allocator() ) {}
-- 
2.43.0


From 5b60ba55b26e358b70dfa15d9a2f4f0c22a133f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:12 +0000
Subject: [PATCH 55/55] fix: insertions into wide streams, or over traits of
 one's own, compile

---
 include/cest/runtime_ostream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..b2601be 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -3,6 +3,7 @@
 
 #include "basic_ios.hpp"
 #include <iostream>      // std::cout, std::cerr, std::clog
+#include <type_traits>
 
 namespace cest {
 
@@ -11,6 +12,8 @@ namespace impl {
 template <class CharT, class Traits, class T>
 constexpr void runtime_ostream(basic_ostream<CharT,Traits>& os, T x)
 {
+  // the standard streams are all of one type; others, e.g. wide, aren't output
+  if constexpr (std::is_same_v<basic_ostream<CharT,Traits>,basic_ostream<char>>)
   if (!std::is_constant_evaluated())
   {
     if      (&cest::cout == &os) std::cout << x;
@@ -26,6 +29,8 @@ constexpr void runtime_ostream(
   std::basic_ostream<CharT,Traits>& (*fp)(std::basic_ostream<CharT,Traits>&)
 )
 {
+  // the standard streams are all of one type; others, e.g. wide, aren't output
+  if constexpr (std::is_same_v<basic_ostream<CharT,Traits>,basic_ostream<char>>)
   if (!std::is_constant_evaluated())
   {
     if      (&cest::cout == &os) std::cout << fp;
-- 
2.43.0

