From 43b42b24fb7829b7dd4c19e7cd8cf6acb499978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 01/60] fix: ring buffer drops of 0 elements and overrun
 accounting

drop_first(0)/drop_last(0) are documented to drop everything but dropped nothing and turned a full
buffer into an empty one (hit by aborting a transaction without queued bytes); the overrun counter
underflowed in drop_last and missed overruns on a buffer of one element.
---
 src/spine/io/stream/transaction.cpp |  2 +-
 src/spine/structure/ringbuffer.hpp  | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/spine/io/stream/transaction.cpp b/src/spine/io/stream/transaction.cpp
index 605ee0a..44dfafd 100644
--- a/src/spine/io/stream/transaction.cpp
+++ b/src/spine/io/stream/transaction.cpp
@@ -56,7 +56,7 @@ void Transaction::finalize() {
 bool Transaction::is_finalized() const { return _is_finalized; }
 void Transaction::undo(size_t n_bytes) const {
     n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
-    _stream->output_buffer_drop_last(n_bytes);
+    if (n_bytes > 0) _stream->output_buffer_drop_last(n_bytes); // dropping 0 bytes would drop the whole buffer
 }
 
 } // namespace spn::io
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index 81472bc..eff5aa4 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -81,11 +81,11 @@ bool RingBuffer<T>::push(const T& value, bool rollover) {
     if (m_is_full && !rollover) return false;
     m_buffer[m_head] = value;
     m_head = (m_head + 1) % m_buffer.size();
-    if (m_head == m_tail) {
-        m_is_full = true;
-    } else if (m_is_full) {
+    if (m_is_full) {
         m_tail = (m_tail + 1) % m_buffer.size();
         ++m_overwritten;
+    } else if (m_head == m_tail) {
+        m_is_full = true;
     }
     return true;
 }
@@ -150,21 +150,21 @@ bool RingBuffer<T>::peek_at(T** ptr, size_t index) {
 
 template<typename T>
 size_t RingBuffer<T>::drop_last(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     retract_head(n);
 
-    m_is_full = false;
-    m_overwritten = std::max(static_cast<size_t>(0), m_overwritten - n);
+    if (n > 0) m_is_full = false;
+    m_overwritten -= std::min(m_overwritten, n);
     return n;
 }
 
 template<typename T>
 size_t RingBuffer<T>::drop_first(size_t n) {
-    n = std::min(used_space(), n);
+    n = n > 0 ? std::min(used_space(), n) : used_space();
     advance_tail(n);
 
-    m_is_full = false;
-    m_overwritten = std::min(m_overwritten, used_space() - n);
+    if (n > 0) m_is_full = false;
+    m_overwritten = std::min(m_overwritten, used_space());
     return n;
 }
 
-- 
2.43.0


From cef13fcad36c68ec96e67a416d25dbfe9e0bcdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 02/60] fix: line views of lines that wrap around the end of
 the buffer

A view of a wrapped line ran past the end of the storage.
---
 src/spine/structure/linebuffer.cpp | 8 ++++++--
 src/spine/structure/ringbuffer.hpp | 8 ++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/linebuffer.cpp b/src/spine/structure/linebuffer.cpp
index 960d3a7..4acc215 100644
--- a/src/spine/structure/linebuffer.cpp
+++ b/src/spine/structure/linebuffer.cpp
@@ -13,8 +13,12 @@ std::optional<std::string_view> LineBuffer::get_next_line_view(const std::option
     auto length = discovered_length.value_or(length_of_next_line());
     if (length == 0) return {};
     length -= 1; // ignore delimiter
-    char* str;
-    if (peek_at(&str, 0) == false) return std::nullopt;
+    char *str, *delimiter;
+    if (peek_at(&str, 0) == false || peek_at(&delimiter, length) == false) return std::nullopt;
+    if (delimiter < str) { // the line wraps around the end of the storage, a view needs it in one piece
+        make_contiguous();
+        peek_at(&str, 0);
+    }
     return std::string_view(str, length);
 }
 
diff --git a/src/spine/structure/ringbuffer.hpp b/src/spine/structure/ringbuffer.hpp
index eff5aa4..5b02654 100644
--- a/src/spine/structure/ringbuffer.hpp
+++ b/src/spine/structure/ringbuffer.hpp
@@ -61,6 +61,14 @@ public:
     size_t capacity() const { return m_buffer.max_size(); }
 
 protected:
+    /// Rotate the storage such that all elements lie contiguously in memory, starting with the first inserted element
+    void make_contiguous() {
+        const auto used = used_space();
+        std::rotate(m_buffer.data(), m_buffer.data() + m_tail, m_buffer.data() + capacity());
+        m_tail = 0;
+        m_head = used % m_buffer.size();
+    }
+
     /// Push the reading head forwards by `n`, effectively dropping `n` first inserted  elements
     void advance_tail(size_t n) { m_tail = (m_tail + n) % m_buffer.size(); }
 
-- 
2.43.0


From 94454b55d58617f4f5e1f5b1bf82ac2f6272bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 03/60] fix: pulling in data never overwrites a complete line
 that is still unread

After an overrun a later pull overwrote the line that was waiting in the full buffer.
---
 src/spine/io/stream/buffered_stream.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 8606fcd..804fac3 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -26,20 +26,17 @@ size_t BufferedStream::length_of_next_line() const { return _input_buffer.length
 size_t BufferedStream::pull_in_data() {
     size_t bytes_read = 0;
     uint8_t last_char = '\0';
+    bool line_is_waiting = _input_buffer.has_line();
 
     while (_stream->available() > 0) {
-        // early break when a delimiter has been found, as to lose no input if possible
-        if (_input_buffer.full()) {
-            if (_input_buffer.delimiters().find(last_char) != std::string::npos)
-                break; // break when the last incoming was a delimiter
-            if (_input_buffer.overrun_space() == 0 && _input_buffer.has_line())
-                break; // break when the buffer just turned full and the buffer already contains a line
-        }
+        // early break when the buffer is full and contains a line, as to never overwrite a line that is still unread
+        if (_input_buffer.full() && line_is_waiting) break;
 
         if (!_stream->read(last_char)) {
             return bytes_read; // read failure
         }
         _input_buffer.push(last_char, true);
+        if (_input_buffer.delimiters().find(last_char) != std::string::npos) line_is_waiting = true;
         ++bytes_read;
     }
     return bytes_read;
-- 
2.43.0


From 623885a1282fb8afa3258b12f6b38f696f2da548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 04/60] fix: a byte that could not be written to the stream
 stays queued

push_out_data removed the byte from the output buffer before writing it.
---
 src/spine/io/stream/buffered_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/io/stream/buffered_stream.cpp b/src/spine/io/stream/buffered_stream.cpp
index 804fac3..c6faa84 100644
--- a/src/spine/io/stream/buffered_stream.cpp
+++ b/src/spine/io/stream/buffered_stream.cpp
@@ -47,7 +47,8 @@ size_t BufferedStream::push_out_data() {
 
     while (_stream->available_for_write() > 0) {
         char v;
-        if (!_output_buffer.pop(v) || !_stream->write(v)) return bytes_written;
+        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
+        _output_buffer.pop(); // only remove what was really written
         ++bytes_written;
     }
     return bytes_written;
-- 
2.43.0


From 3127fd30eb617def4e37e62dd68ca3d70cce6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 05/60] fix: arrays release their elements and storage when
 destroyed, assigned over or moved from

The destructor freed the storage without destroying the elements, assignments
dropped the old storage, moved-from containers kept their size, and
Vector::remove left a second copy of the last element behind (and moved one
element too many, from beyond the storage when full).
---
 src/spine/structure/array.hpp  | 23 ++++++++++++++++-------
 src/spine/structure/vector.hpp | 23 ++++++++++++++++++++++-
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 83df11f..0f980aa 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -111,6 +111,17 @@ protected:
     T* m_store;
     Size m_max_size;
 
+private:
+    /// Destroy the elements and free the store, if it is owned by this array.
+    void release() {
+        if (m_store_is_internal && m_store) {
+            for (Size i = 0; i < m_max_size; ++i)
+                m_store[i].~T();
+            std::free(m_store);
+        }
+        m_store = nullptr;
+    }
+
 private:
     bool m_store_is_internal;
 };
@@ -147,10 +158,7 @@ Array<T>::Array(const std::initializer_list<T>& init_values) : Array(init_values
 
 template<typename T>
 Array<T>::~Array() {
-    if (m_store_is_internal) {
-        std::free(m_store);
-        m_store = nullptr;
-    }
+    release();
 }
 
 template<typename T>
@@ -164,12 +172,14 @@ Array<T>::Array(Array&& other) noexcept
     : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
       m_store_is_internal(other.m_store_is_internal) {
     other.m_store = nullptr;
+    other.m_max_size = 0;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const Array& other) {
     if (this == &other) return *this;
     ArrayBase::operator=(other);
+    release();
     m_store = other.m_store;
     m_max_size = other.m_max_size;
     m_store_is_internal = false; // prevent double free
@@ -180,18 +190,17 @@ template<typename T>
 Array<T>& Array<T>::operator=(Array&& other) noexcept {
     if (this == &other) return *this;
     ArrayBase::operator=(std::move(other));
+    release();
     m_store = other.m_store;
     other.m_store = nullptr;
     m_max_size = other.m_max_size;
+    other.m_max_size = 0;
     m_store_is_internal = other.m_store_is_internal;
     return *this;
 }
 
 template<typename T>
 Array<T>& Array<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
-    if (m_store_is_internal) {
-        std::free(m_store);
-    }
     *this = Array<T>(value_list);
     return *this;
 }
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 4ed5d8c..ff922d6 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -4,6 +4,8 @@
 #include "spine/platform/hal.hpp"
 #include "spine/structure/array.hpp"
 
+#include <utility>
+
 namespace spn::structure {
 
 // Topographical layout
@@ -26,6 +28,10 @@ public:
     Vector(Size max_size, T init_value);
     Vector(const std::initializer_list<T>& value_list);
 
+    Vector(const Vector& other) = default;
+    Vector(Vector&& other) noexcept;
+    Vector& operator=(const Vector& other) = default;
+    Vector& operator=(Vector&& other) noexcept;
     Vector& operator=(const std::initializer_list<T>& value_list) noexcept;
 
     T& operator[](Size index);
@@ -106,6 +112,19 @@ Vector<T>::Vector(ArrayBase::Size max_size, T init_value) : Array<T>(max_size, i
 template<typename T>
 Vector<T>::Vector(const std::initializer_list<T>& value_list) : Array<T>(value_list), m_tail(value_list.size()) {}
 
+template<typename T>
+Vector<T>::Vector(Vector&& other) noexcept
+    : Array<T>(std::move(other)), m_head(std::exchange(other.m_head, 0)), m_tail(std::exchange(other.m_tail, 0)) {}
+
+template<typename T>
+Vector<T>& Vector<T>::operator=(Vector&& other) noexcept {
+    if (this == &other) return *this;
+    Array<T>::operator=(std::move(other));
+    m_head = std::exchange(other.m_head, 0);
+    m_tail = std::exchange(other.m_tail, 0);
+    return *this;
+}
+
 template<typename T>
 Vector<T>& Vector<T>::operator=(const std::initializer_list<T>& value_list) noexcept {
     Array<T>::operator=(value_list);
@@ -251,7 +270,9 @@ T Vector<T>::remove(ArrayBase::Size index) {
     }
     if (index > m_head && index < m_tail) {
         auto removed = std::move(this->m_store[index]);
-        memmove(&this->m_store[index], &this->m_store[index + 1], (m_tail-- - index) * sizeof(T));
+        --m_tail;
+        memmove((char*)&this->m_store[index], (char*)&this->m_store[index + 1], (m_tail - index) * sizeof(T));
+        memset((char*)&this->m_store[m_tail], '\0', sizeof(T)); // this element lives on at its new position
         if (m_tail == m_head) {
             m_tail = 0;
             m_head = 0;
-- 
2.43.0


From b3793a9e54fe68bf7cf9983ce4869cf83445b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 06/60] fix: swap exchanges size, bounds and storage ownership
 along with the storage

---
 src/spine/structure/array.hpp  | 7 ++++---
 src/spine/structure/vector.hpp | 9 +++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 0f980aa..02e4822 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <initializer_list>
+#include <utility>
 
 namespace spn::structure {
 
@@ -327,9 +328,9 @@ ArrayBase::Size Array<T>::max_size() const {
 
 template<typename T>
 void Array<T>::swap(Array& other) noexcept {
-    T* tmp = this->m_store;
-    this->m_store = other.m_store;
-    other.m_store = tmp;
+    std::swap(this->m_store, other.m_store);
+    std::swap(this->m_max_size, other.m_max_size);
+    std::swap(this->m_store_is_internal, other.m_store_is_internal);
 }
 
 template<typename T>
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index ff922d6..90315c5 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -59,6 +59,8 @@ public:
 
     void clear();
 
+    void swap(Vector& other) noexcept;
+
     T& back();
 
     typename Array<T>::iterator begin();
@@ -290,6 +292,13 @@ void Vector<T>::clear() {
     }
 }
 
+template<typename T>
+void Vector<T>::swap(Vector& other) noexcept {
+    Array<T>::swap(other);
+    std::swap(m_head, other.m_head);
+    std::swap(m_tail, other.m_tail);
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
-- 
2.43.0


From e5509af2f3b201127c28e0ce7a48ed16aedc7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 07/60] fix: postfix iterator operators return the old
 position, const reverse ranges are complete

---
 src/spine/structure/array.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index 02e4822..b7a0dc5 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -291,22 +291,22 @@ typename Array<T>::reverse_iterator Array<T>::rend() {
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::rend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crbegin() const {
-    return const_reverse_iterator(m_store, m_max_size - (m_max_size > 0));
+    return const_reverse_iterator(m_store, m_max_size - 1);
 }
 
 template<typename T>
 typename Array<T>::const_reverse_iterator Array<T>::crend() const {
-    return const_reverse_iterator(m_store, (m_max_size - (m_max_size > 0)));
+    return const_reverse_iterator(m_store, -1);
 }
 
 /* utility */
@@ -367,8 +367,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator++() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator++(int) {
+    const auto before = *this;
     m_index++;
-    return *this;
+    return before;
 }
 
 template<typename T>
@@ -379,8 +380,9 @@ ArrayIterator<T>& ArrayIterator<T>::operator--() {
 
 template<typename T>
 ArrayIterator<T> ArrayIterator<T>::operator--(int) {
+    const auto before = *this;
     m_index--;
-    return *this;
+    return before;
 }
 
 template<typename T>
@@ -418,8 +420,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator++() {
 
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator++(int) {
+    const auto before = *this;
     --this->m_index;
-    return *this;
+    return before;
 }
 template<typename T>
 ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
@@ -428,8 +431,9 @@ ArrayReverseIterator<T>& ArrayReverseIterator<T>::operator--() {
 }
 template<typename T>
 ArrayReverseIterator<T> ArrayReverseIterator<T>::operator--(int) {
+    const auto before = *this;
     ++this->m_index;
-    return *this;
+    return before;
 }
 
 } // namespace spn::structure
-- 
2.43.0


From 7802c39b99c90afd31c4c2b775362a9e1ff48930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 08/60] fix: arrays can use a byte buffer for elements of any
 type

---
 src/spine/structure/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/array.hpp b/src/spine/structure/array.hpp
index b7a0dc5..8f85ae3 100644
--- a/src/spine/structure/array.hpp
+++ b/src/spine/structure/array.hpp
@@ -133,7 +133,7 @@ Array<T>::Array(T (&store)[CAP]) : m_store(store), m_max_size(CAP), m_store_is_i
 
 template<typename T>
 Array<T>::Array(uint8_t* buffer, Size buffer_length)
-    : m_store(static_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
+    : m_store(reinterpret_cast<T*>(buffer)), m_max_size(buffer_length / sizeof(T)), m_store_is_internal(false) {
     memset(m_store, '\0', m_max_size * sizeof(T));
 }
 
-- 
2.43.0


From 243d8b3113f33af5213c167ffd46fedee418a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 09/60] fix: vectors stay consistent after pops at the front
 and when full

front(), at(), data(), the const ranges and remove() ignored elements popped
from the front; push_front, emplace_front and insert wrote beyond the storage
of a full vector, and pop_front on an empty vector made its size wrap.
---
 src/spine/structure/vector.hpp | 42 ++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 90315c5..c09be84 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -61,17 +61,25 @@ public:
 
     void swap(Vector& other) noexcept;
 
+    T& at(Size index) const;
+    T& front();
     T& back();
+    T* data();
+    const T* data() const;
 
     typename Array<T>::iterator begin();
     typename Array<T>::const_iterator begin() const;
     typename Array<T>::iterator end();
     typename Array<T>::const_iterator end() const;
+    typename Array<T>::const_iterator cbegin() const { return begin(); }
+    typename Array<T>::const_iterator cend() const { return end(); }
 
     typename Array<T>::reverse_iterator rbegin();
     typename Array<T>::reverse_iterator rend();
     typename Array<T>::const_reverse_iterator rbegin() const;
     typename Array<T>::const_reverse_iterator rend() const;
+    typename Array<T>::const_reverse_iterator crbegin() const { return rbegin(); }
+    typename Array<T>::const_reverse_iterator crend() const { return rend(); }
 
     bool empty() const;
     bool full() const;
@@ -196,6 +204,7 @@ void Vector<T>::push_front(const T& item) {
         this->m_store[--m_head] = item;
         return;
     }
+    if (full()) return;
 
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
@@ -209,10 +218,12 @@ void Vector<T>::push_front(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_front(const T&& item) {
+    spn_assert(this->size() < this->max_size());
     if (m_head > 0) {
         this->m_store[--m_head] = std::move(item);
         return;
     }
+    if (full()) return;
 
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
@@ -231,7 +242,8 @@ T& Vector<T>::peek_front() const {
 template<typename T>
 T&& Vector<T>::pop_front() {
     spn_assert(size() > 0);
-    const auto cur_head = m_head++;
+    const auto cur_head = m_head;
+    if (!empty()) m_head++;
     if (m_tail == m_head) {
         m_tail = 0;
         m_head = 0;
@@ -253,6 +265,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
     }
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
+    if (full()) return;
 
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + index + 1], (char*)&this->m_store[m_head + index],
@@ -264,13 +277,14 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
-    if (index == m_head) {
+    if (index == 0) {
         return std::move(pop_front());
     }
-    if (index == m_tail) {
+    if (index == size()) {
         return std::move(pop_back());
     }
-    if (index > m_head && index < m_tail) {
+    if (index < size()) {
+        index += m_head;
         auto removed = std::move(this->m_store[index]);
         --m_tail;
         memmove((char*)&this->m_store[index], (char*)&this->m_store[index + 1], (m_tail - index) * sizeof(T));
@@ -299,6 +313,26 @@ void Vector<T>::swap(Vector& other) noexcept {
     std::swap(m_tail, other.m_tail);
 }
 
+template<typename T>
+T& Vector<T>::at(ArrayBase::Size index) const {
+    return this->m_store[m_head + index];
+}
+
+template<typename T>
+T& Vector<T>::front() {
+    return this->m_store[m_head];
+}
+
+template<typename T>
+T* Vector<T>::data() {
+    return this->m_store + m_head;
+}
+
+template<typename T>
+const T* Vector<T>::data() const {
+    return this->m_store + m_head;
+}
+
 template<typename T>
 T& Vector<T>::back() {
     return this->m_store[m_tail > 0 ? m_tail - 1 : 0];
-- 
2.43.0


From 41d9c970ec444a9cb2f9e247883ccbb4338d20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 10/60] fix: Stack can be instantiated, push copies its element
 and pop releases it

---
 src/spine/structure/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/stack.hpp b/src/spine/structure/stack.hpp
index 58aa474..aa942b9 100644
--- a/src/spine/structure/stack.hpp
+++ b/src/spine/structure/stack.hpp
@@ -6,17 +6,17 @@ namespace spn::structure {
 
 template<typename T>
 /// A Vector that only allows Last-In-First-Out access order.
-class Stack : public Vector<T> {
+class Stack {
 public:
     using Size = ArrayBase::Size;
 
     Stack(Size size) : store(size) {}
 
     /// Push an element unto the stack.
-    void push(T& element) { emplace(std::forward<T>(element)); }
+    void push(const T& element) { store.push_back(element); }
 
     /// Pop an element from the stack.
-    void pop() { store.pop_back(); }
+    void pop() { [[maybe_unused]] const T discarded = store.pop_back(); }
 
     /// Returns a reference to the element on top without removing it (dangerous!).
     T& top() {
-- 
2.43.0


From 310215ca2016cb75fb5fb0ae9c856e77a9494efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 11/60] fix: a pool releases all of its objects and can hold
 more than 65535

---
 src/spine/structure/pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 38068ba..633005f 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -16,7 +16,7 @@ protected:
 public:
     Pool(size_t size) : _pointers(Vector<Pointer>(size)) {}
     ~Pool() {
-        for (size_t i = 0; i < _pointers.size(); ++i)
+        while (!_pointers.empty())
             depopulate().reset();
         spn_assert(_pointers.empty());
     }
@@ -84,7 +84,7 @@ protected:
     Vector<Pointer> _pointers;
 
 private:
-    uint16_t _lookup_index = 0;
+    size_t _lookup_index = 0;
 };
 
 } // namespace spn::structure
-- 
2.43.0


From cbd6619c91a780f28a77079c0030bd8be94650ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:22 +0000
Subject: [PATCH 12/60] fix: converting integral units is exact

Kernel time was converted by way of a float, which only represents integers up
to 2^24: comparing or adding two equal units already lost milliseconds after
five hours.
---
 src/spine/structure/units/primitives/unit.hpp | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 04ae1f7..043d0b2 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -2,8 +2,11 @@
 
 #include "spine/core/exception.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <limits>
+#include <numeric>
 #include <type_traits>
 
 namespace spn::structure::units {
@@ -137,9 +140,29 @@ private:
 
     template<typename MOther>
     ValueType from_other(const Unit<UT, MOther, VT>& other) const {
-        constexpr float ratio = MOther::Magnitude / MT::Magnitude;
-        if constexpr (is_integral()) return std::round(ratio * other.raw());
-        return ratio * other.raw();
+        if constexpr (is_integral()) {
+            // floating points can't represent all integers: convert by a reduced, integral fraction
+            constexpr auto numerator = whole(MOther::Magnitude) * whole(1.0f / MT::Magnitude);
+            constexpr auto denominator = whole(1.0f / MOther::Magnitude) * whole(MT::Magnitude);
+            constexpr auto divisor = std::gcd(numerator, denominator);
+            constexpr ValueType multiply_by = numerator / divisor;
+            constexpr ValueType divide_by = denominator / divisor;
+
+            const ValueType value = other.raw() * multiply_by;
+            const ValueType quotient = value / divide_by;
+            const ValueType remainder = value % divide_by;
+            if (remainder >= divide_by - remainder) return quotient + 1; // rounds half away from zero
+            if (-remainder >= divide_by + remainder) return quotient - 1;
+            return quotient;
+        } else {
+            constexpr float ratio = MOther::Magnitude / MT::Magnitude;
+            return ratio * other.raw();
+        }
+    }
+
+    /// Returns `magnitude` as a whole number if it is 1 or larger, otherwise 1
+    static constexpr int64_t whole(float magnitude) {
+        return magnitude > 1.0f ? static_cast<int64_t>(magnitude + 0.5f) : 1;
     }
 };
 
-- 
2.43.0


From 32e4985358ea0ee44800edb3f42fadf75850ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 13/60] fix: the simulated clocks no longer scale by 1000 on
 top of the unit conversion

---
 src/spine/platform/implementations/mock.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index fd890e9..514b158 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -217,8 +217,8 @@ struct Mock : Platform<Mock, MockConfig, MockGPIO, MockAnalogue, MockUART> {
 
     static void printflush() {}
 
-    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros / 1000); }
-    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis * 1000); }
+    static k_time_ms millis() { return k_time_ms(MockStateInstance().millis + MockStateInstance().micros); }
+    static k_time_us micros() { return k_time_us(MockStateInstance().micros + MockStateInstance().millis); }
     static void delay_us(k_time_us us) { MockStateInstance().micros += us; }
     static void delay_ms(k_time_ms ms) { MockStateInstance().millis += ms; }
 
-- 
2.43.0


From cb7e8fb0bb08fbe3caab099c283ce3579828f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 14/60] fix: the event loop compares delays in the same unit

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 4c6337c..74989d7 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -81,7 +81,7 @@ void EventSystem::loop() {
 
     if (_cfg.delay_between_ticks) {
         if (_pipeline.contains_futures())
-            HAL::delay_ms(std::min(_pipeline.time_until_next_future().raw(), _cfg.max_delay_between_ticks.raw()));
+            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
         else
             HAL::delay(_cfg.min_delay_between_ticks);
     }
-- 
2.43.0


From bb0372e9605391cbdf5c07f56de37d2967b365de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 15/60] fix: the event system releases all of its events

---
 src/spine/eventsystem/eventsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index 74989d7..fb0ee37 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -48,7 +48,7 @@ EventSystem::~EventSystem() {
     for (size_t i = 0; i < _map.size(); i++) {
         _map[i].reset();
     }
-    for (size_t i = 0; i < _store.size(); ++i) {
+    while (_store.size() > 0) {
         auto ev = _store.depopulate();
         ev.reset();
     }
-- 
2.43.0


From 8239c8f41be419c758357477ed26f01e7c68a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 16/60] fix: triggering or scheduling an event while all events
 are in use is harmless

---
 src/spine/eventsystem/eventsystem.cpp | 1 +
 src/spine/eventsystem/pipeline.cpp    | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/spine/eventsystem/eventsystem.cpp b/src/spine/eventsystem/eventsystem.cpp
index fb0ee37..0e3f1dc 100644
--- a/src/spine/eventsystem/eventsystem.cpp
+++ b/src/spine/eventsystem/eventsystem.cpp
@@ -57,6 +57,7 @@ EventSystem::~EventSystem() {
 
 void EventSystem::trigger(const std::shared_ptr<Event>& event) {
     spn_assert(event);
+    if (!event) return; // all events are in use
     trigger(*event.get());
 }
 
diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 6447275..98290b3 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -67,6 +67,8 @@ std::shared_ptr<Future> Pipeline::expire() {
 }
 
 void Pipeline::push(std::shared_ptr<Future>&& future) {
+    spn_assert(future);
+    if (!future) return; // e.g. all events are in use
     spn_assert(_pipe.size() < _pipe.max_size());
     future->reschedule();
 
-- 
2.43.0


From b224c8c139fc78d01d0e1f8b97a204b92c682a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 17/60] fix: short pipelines can be described in debug builds

---
 src/spine/eventsystem/pipeline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/eventsystem/pipeline.cpp b/src/spine/eventsystem/pipeline.cpp
index 98290b3..e110728 100644
--- a/src/spine/eventsystem/pipeline.cpp
+++ b/src/spine/eventsystem/pipeline.cpp
@@ -42,7 +42,7 @@ std::string Pipeline::to_string() const {
     pipeline_repr(&result, false);
 
     spn_assert(result.size() <= total_length); // no reallocation
-    spn_assert(result.capacity() == total_length); // no reallocation
+    spn_assert(result.capacity() >= total_length); // no reallocation
     return result;
 }
 
-- 
2.43.0


From ab297a7726e731135bda2e89b0ab3121a6ed4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 18/60] fix: time text without a count or with a too large one
 is rejected instead of throwing

---
 src/spine/core/utils/time_repr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/spine/core/utils/time_repr.cpp b/src/spine/core/utils/time_repr.cpp
index 98643fc..5ea8d12 100644
--- a/src/spine/core/utils/time_repr.cpp
+++ b/src/spine/core/utils/time_repr.cpp
@@ -2,6 +2,7 @@
 
 // #include <charconv>
 #include <iterator>
+#include <limits>
 #include <numeric>
 #include <optional>
 #include <variant>
@@ -36,7 +37,15 @@ parse_time(const std::string_view input) {
     if (pos == std::string_view::npos) return std::nullopt; // No unit found
 
     // Extract numeric value and unit
-    int value = std::stoi(std::string(input.substr(0, pos)));
+    if (pos == 0) return std::nullopt; // No value found
+    using ValueType = k_time_us::ValueType;
+    constexpr auto limit = std::numeric_limits<ValueType>::max();
+    ValueType value = 0;
+    for (const auto c : input.substr(0, pos)) {
+        const ValueType digit = c - '0';
+        if (value > (limit - digit) / 10) return std::nullopt; // Value doesn't fit
+        value = value * 10 + digit;
+    }
     std::string_view unit = input.substr(pos);
 
     if (unit == "us") return k_time_us(value);
-- 
2.43.0


From c91812c9f4313dbaefbb614fe60fe5c684a8b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 19/60] fix: an interval timer expires at the moment it
 announces

expired() needed one millisecond more than the interval, contradicting future()
and time_until_next().
---
 src/spine/structure/time/timers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/timers.cpp b/src/spine/structure/time/timers.cpp
index 0a08ab6..0ad773f 100644
--- a/src/spine/structure/time/timers.cpp
+++ b/src/spine/structure/time/timers.cpp
@@ -44,7 +44,7 @@ IntervalTimer::IntervalTimer(k_time_ms sampling_interval, bool allow_catch_up)
 bool IntervalTimer::expired() {
     const k_time_ms current = HAL::millis();
 
-    if (current - _previous > _interval) {
+    if (current - _previous >= _interval) {
         if (_allow_catch_up) {
             _previous += _interval;
         } else {
-- 
2.43.0


From 6da71bc34dda6da6c94613caf81b7aee6c22e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 20/60] fix: the PID controller uses the configured
 proportionality

---
 src/spine/controller/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/pid.cpp b/src/spine/controller/pid.cpp
index 3b4334b..0d145bb 100644
--- a/src/spine/controller/pid.cpp
+++ b/src/spine/controller/pid.cpp
@@ -5,7 +5,7 @@ namespace spn::controller {
 PID::PID(PID::Config&& cfg)
     : _cfg(cfg),
       _pid_backend(PIDController(&_input, &_output, &_setpoint, _cfg.tunings.Kp, _cfg.tunings.Ki, _cfg.tunings.Kd,
-                                 PIDController::Proportionality::ON_MEASUREMENT, _cfg.direction)) {
+                                 _cfg.proportionality, _cfg.direction)) {
     spn_assert(k_time_ms(_cfg.sample_interval).raw() > 0);
 }
 
-- 
2.43.0


From a30c202d6985c505b465498af62db1955e4070b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 21/60] fix: PID gains follow sampling times that are no
 multiple of the previous one

---
 src/spine/controller/implementations/pid/pid_controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index 6737297..f3f7176 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -111,7 +111,7 @@ void PIDController::set_controller_direction(const PIDController::Direction dire
 void PIDController::set_sampling_time(const k_time_ms sampling_time) {
     // adjust sample
     if (sampling_time > k_time_ms(0)) {
-        float ratio = sampling_time.raw() / _sampling_time.raw();
+        const float ratio = static_cast<float>(sampling_time.raw()) / static_cast<float>(_sampling_time.raw());
         _ki *= ratio;
         _kd /= ratio;
         _sampling_time = sampling_time;
-- 
2.43.0


From 21ce37828083810b46ab15a37bd53ddb2bdd0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 22/60] fix: the PID tunings read back are the ones that were
 set

---
 .../controller/implementations/pid/pid_controller.cpp |  3 +++
 .../controller/implementations/pid/pid_controller.hpp | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_controller.cpp b/src/spine/controller/implementations/pid/pid_controller.cpp
index f3f7176..246c38b 100644
--- a/src/spine/controller/implementations/pid/pid_controller.cpp
+++ b/src/spine/controller/implementations/pid/pid_controller.cpp
@@ -86,6 +86,9 @@ void PIDController::set_tunings(float Kp, float Ki, float Kd, const PIDControlle
     spn_assert(_sampling_time > k_time_ms{});
 
     _proportionality = proportionality;
+    _set_kp = Kp;
+    _set_ki = Ki;
+    _set_kd = Kd;
 
     const auto sampletime_in_seconds = _sampling_time.raw() / 1000.0f;
     _kp = Kp;
diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index d2748d1..dc0981e 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -42,9 +42,10 @@ public:
 
     void set_sampling_time(const k_time_ms sampling_time);
 
-    float Kp() const { return _kp; }
-    float Ki() const { return _ki; }
-    float Kd() const { return _kd; }
+    /// Returns the tuning parameters as they were set (i.e. not scaled to the sampling time)
+    float Kp() const { return _set_kp; }
+    float Ki() const { return _set_ki; }
+    float Kd() const { return _set_kd; }
 
     Direction direction() const { return _controller_direction; }
 
@@ -53,6 +54,10 @@ private:
     float _ki = 0; // * (I)ntegral Tuning Parameter
     float _kd = 0; // * (D)erivative Tuning Parameter
 
+    float _set_kp = 0;
+    float _set_ki = 0;
+    float _set_kd = 0;
+
     enum Direction _controller_direction = Direction::FORWARD;
 
     float* _user_input = nullptr; // * Pointers to the Input, Output, and Setpoint variables
-- 
2.43.0


From ef05cc6f4d0b2c2fea47201c2ee12864c980744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 23/60] fix: autotuned gains are divided by the number of
 cycles that were averaged

---
 src/spine/controller/implementations/pid/pid_tuner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spine/controller/implementations/pid/pid_tuner.cpp b/src/spine/controller/implementations/pid/pid_tuner.cpp
index 26f334b..8a2d28c 100644
--- a/src/spine/controller/implementations/pid/pid_tuner.cpp
+++ b/src/spine/controller/implementations/pid/pid_tuner.cpp
@@ -117,9 +117,11 @@ float PIDAutotuner::do_autotune(float input, k_time_ms ms) {
     if (is_finished()) {
         output = false;
         outputValue = minOutput;
-        kp = pAverage / (cycle - 1);
-        ki = iAverage / (cycle - 1);
-        kd = dAverage / (cycle - 1);
+        if (const auto averaged_cycles = cycle - 2; averaged_cycles > 0) {
+            kp = pAverage / averaged_cycles;
+            ki = iAverage / averaged_cycles;
+            kd = dAverage / averaged_cycles;
+        }
     }
 
     return outputValue;
-- 
2.43.0


From 7dcc3125082f7cb6b8e8694b09dd729a5b97eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 24/60] fix: a copied PID controller works on its own variables

---
 .../implementations/pid/pid_controller.hpp          |  8 ++++++++
 src/spine/controller/pid.hpp                        | 13 +++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/spine/controller/implementations/pid/pid_controller.hpp b/src/spine/controller/implementations/pid/pid_controller.hpp
index dc0981e..12baead 100644
--- a/src/spine/controller/implementations/pid/pid_controller.hpp
+++ b/src/spine/controller/implementations/pid/pid_controller.hpp
@@ -29,6 +29,14 @@ public:
     PIDController(float* Input, float* Output, float* Setpoint, float Kp, float Ki, float Kd,
                   Direction ControllerDirection);
 
+    /// A controller in the same state as `other` that works on another set of variables
+    PIDController(const PIDController& other, float* input, float* output, float* setpoint)
+        : PIDController(other) {
+        _user_input = input;
+        _user_output = output;
+        _user_setpoint = setpoint;
+    }
+
     void initialize();
 
     bool update(const k_time_ms now);
diff --git a/src/spine/controller/pid.hpp b/src/spine/controller/pid.hpp
index 2f5f9ce..3e054c6 100644
--- a/src/spine/controller/pid.hpp
+++ b/src/spine/controller/pid.hpp
@@ -48,6 +48,19 @@ public:
     PID(Config&& cfg);
     PID(const Config& cfg) : PID(Config(cfg)) {}
 
+    // the backend refers to the variables of the controller it belongs to
+    PID(const PID& other)
+        : _cfg(other._cfg), _pid_backend(other._pid_backend, &_input, &_output, &_setpoint), _setpoint(other._setpoint),
+          _input(other._input), _output(other._output) {}
+    PID& operator=(const PID& other) {
+        _cfg = other._cfg;
+        _pid_backend = PIDController(other._pid_backend, &_input, &_output, &_setpoint);
+        _setpoint = other._setpoint;
+        _input = other._input;
+        _output = other._output;
+        return *this;
+    }
+
     /// Initialize the PID-controller backend
     void initialize();
 
-- 
2.43.0


From 853bfa72e381af2c8d892ebbf6a39bbf30475105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 25/60] fix: readings that repeat the state of a latch no
 longer postpone its maximal time

---
 src/spine/controller/sr_latch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/controller/sr_latch.hpp b/src/spine/controller/sr_latch.hpp
index 1e6f2c1..93363e5 100644
--- a/src/spine/controller/sr_latch.hpp
+++ b/src/spine/controller/sr_latch.hpp
@@ -35,6 +35,7 @@ public:
 
 protected:
     void set(const State state) {
+        if (state == _value) return; // only an actual change of state restarts the timing
         _value = state;
         _last_turned.reset();
     }
-- 
2.43.0


From 46bdf6e6e41ca614146ca82617536de0f0aaed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 26/60] fix: a band pass counts rejections anew after it
 accepted a sample

---
 src/spine/filter/implementations/bandpass.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 5983670..b2177bf 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -74,6 +74,7 @@ public:
                 spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
             }
             _value = sample;
+            _rejections = 0;
         }
     }
 
-- 
2.43.0


From 2a3e22e56ac489d7244accda2dc3ab8b58b10d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 27/60] fix: a filter stack passes samples on in their own type

---
 src/spine/filter/filterstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index 1baa066..af68c2c 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -28,7 +28,7 @@ public:
     }
 
     /// Take a new sample, returns filtered value
-    ValueType value(const float new_sample) {
+    ValueType value(const ValueType new_sample) {
         ValueType new_value = new_sample;
         for (auto& sf : _filters) {
             spn_assert(sf.get() != nullptr);
-- 
2.43.0


From 570e97903227df5114c64faa23290c351952823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 28/60] fix: a filter stack holds no more filters than it has
 slots

---
 src/spine/filter/filterstack.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index af68c2c..aa59bf4 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -13,12 +13,12 @@ template<typename ValueType = float>
 /// Stack of filters. Any value provided to this stack will pass through all filters in the stack
 class Stack {
 public:
-    Stack(uint8_t number_of_filters) : _filters() { _filters.reserve(number_of_filters); }
+    Stack(uint8_t number_of_filters) : _filters(), _slots(number_of_filters) { _filters.reserve(number_of_filters); }
 
     /// Attach a filter to the provided slot's index
     void attach_filter(std::unique_ptr<Filter<ValueType>> filter) {
-        spn_expect(_filters.size() < _filters.max_size());
-        if (_filters.size() < _filters.max_size()) _filters.emplace_back(std::move(filter));
+        spn_expect(_filters.size() < filter_slots());
+        if (_filters.size() < filter_slots()) _filters.emplace_back(std::move(filter));
     }
 
     /// Detach a filter for a provided slot's index
@@ -51,7 +51,7 @@ public:
     }
 
     /// Returns count of pre-allocated filter slots
-    size_t filter_slots() const { return _filters.max_size(); }
+    size_t filter_slots() const { return _slots; }
 
     /// Returns count of occupied filter slots
     size_t filter_slots_occupied() const { return _filters.size(); }
@@ -59,6 +59,8 @@ public:
 private:
     /// todo: cannot use spn/structure/vector; : inplace allocator is missing, or better even to use a linked list
     std::vector<std::unique_ptr<Filter<ValueType>>> _filters;
+
+    size_t _slots;
 };
 
 } // namespace spn::filter
-- 
2.43.0


From dde4980d7fcc733373677216f6eeea6cc9aedea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 29/60] fix: filters can be detached from a filter stack

---
 src/spine/filter/filterstack.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/filter/filterstack.hpp b/src/spine/filter/filterstack.hpp
index aa59bf4..257e40f 100644
--- a/src/spine/filter/filterstack.hpp
+++ b/src/spine/filter/filterstack.hpp
@@ -5,6 +5,9 @@
 #include "spine/filter/filter.hpp"
 #include "spine/structure/vector.hpp"
 
+#include <cstdint>
+#include <memory>
+#include <utility>
 #include <vector>
 
 namespace spn::filter {
@@ -24,7 +27,10 @@ public:
     /// Detach a filter for a provided slot's index
     std::unique_ptr<Filter<ValueType>> detach_filter(uint8_t index) {
         spn_expect(index < _filters.size());
-        return index < _filters.size() ? _filters.remove(index) : nullptr;
+        if (index >= _filters.size()) return nullptr;
+        auto filter = std::move(_filters[index]);
+        _filters.erase(_filters.begin() + index);
+        return filter;
     }
 
     /// Take a new sample, returns filtered value
-- 
2.43.0


From 15842a0706ef8f724be4f531d5f9c551f915eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 30/60] fix: a fade neither passes its setpoint nor stops next
 to it

---
 src/spine/platform/gpio.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/spine/platform/gpio.cpp b/src/spine/platform/gpio.cpp
index 42ba896..9f4be0b 100644
--- a/src/spine/platform/gpio.cpp
+++ b/src/spine/platform/gpio.cpp
@@ -10,20 +10,13 @@ void fade_to(void (*set_value)(void*, float), void* imp, float value, float setp
              k_time_ms increment_interval) {
     spn_assert(setpoint >= 0.0f && setpoint <= 1.0f);
 
-    const float decimals_of_diff = 1.0f / increment;
-    float diff = std::round(std::fabs(value - setpoint) * decimals_of_diff) / decimals_of_diff;
-
-    if (diff < increment) {
-        set_value(imp, setpoint);
-        return;
-    }
     const auto invert = value > setpoint ? -1 : 1;
-    while (diff > 0) {
+    while (std::fabs(setpoint - value) > increment) {
         value = std::clamp(value + invert * increment, 0.0f, 1.0f);
         set_value(imp, value);
-        diff -= increment;
         HAL::delay(increment_interval);
     }
+    set_value(imp, setpoint);
 }
 
 } // namespace spn::platform::detail
-- 
2.43.0


From 589dc2274429edc7ec1a43a4812f9580f2b91e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 31/60] fix: analogue outputs know the value they were set to

The implementations hid AnalogueOutput::set_value, so value() and the start of
a fade ignored every value set through them.
---
 src/spine/platform/gpio.hpp                    | 2 +-
 src/spine/platform/implementations/arduino.hpp | 5 ++++-
 src/spine/platform/implementations/mock.hpp    | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index cc9c4ce..a4e6587 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -48,7 +48,7 @@ public:
     /// Set the output to the provided `value`
     void set_value(float value) {
         _value = value;
-        ((GPIOImp*)(this))->set_value(value);
+        static_cast<GPIOImp*>(this)->set_value_impl(value);
     }
 
     /// Returns the currently active value
diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1381c6b..f0bc2ec 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -99,14 +99,17 @@ public:
         set_value(0.0);
     }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
         analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
diff --git a/src/spine/platform/implementations/mock.hpp b/src/spine/platform/implementations/mock.hpp
index 514b158..fb47f56 100644
--- a/src/spine/platform/implementations/mock.hpp
+++ b/src/spine/platform/implementations/mock.hpp
@@ -86,12 +86,15 @@ public:
 
     void initialize() { set_value(0.0f); }
 
+protected:
     // value between 0 and 1 where 1 is the logical state ON
-    void set_value(float value) {
+    void set_value_impl(float value) {
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
     }
 
+    friend AnalogueOutput;
+
 private:
     const Config _cfg;
 };
-- 
2.43.0


From 8d92145eb623003c3462a7fac60e029d9404e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 32/60] fix: long log messages are cut off instead of
 overflowing their buffer

---
 src/spine/core/logging.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/logging.cpp b/src/spine/core/logging.cpp
index 9413373..2ea9320 100644
--- a/src/spine/core/logging.cpp
+++ b/src/spine/core/logging.cpp
@@ -2,6 +2,7 @@
 
 #include "spine/platform/hal.hpp"
 
+#include <algorithm>
 #include <cinttypes>
 
 namespace spn::logging {
@@ -40,18 +41,23 @@ void print(const LogLevel level, const char* filename, const int line_number, co
     char msg_buffer[SPINE_LOGGING_MAX_MSG_SIZE];
     size_t space_used = 0;
 
+    // snprintf returns the length it would have liked to write
+    const auto add_used = [&](int length) {
+        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);
+    };
+
 #ifndef SPN_LOG_OVERLOAD
-    space_used += snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level));
+    add_used(snprintf(msg_buffer, sizeof(msg_buffer), "[%s] [%s] ", get_current_time(), to_string(level)));
 #endif
 
     va_list args;
     va_start(args, fmt);
-    space_used += vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args);
+    add_used(vsnprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, fmt, args));
     va_end(args);
 
     if (level == LogLevel::DEBUG) {
-        space_used += snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
-                               line_number, function_name);
+        add_used(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
+                          line_number, function_name));
     }
 
 #if defined(SPN_LOG_OVERLOAD)
-- 
2.43.0


From 3a21cb46a4d1ea805deab689e2ba4be8e8087d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 33/60] fix: stripping and suffix tests stay within their view,
 rstrip returns the front part

---
 src/spine/core/utils/string.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 4c1ad1d..9482467 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -9,7 +9,7 @@ namespace spn::core::utils {
 /// Returns a string_view with the beginning of the string `strv` stripped of any char in `delimiters`
 std::string_view lstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.begin();
     return {strv.data() + len, strv.size() - len};
@@ -18,10 +18,10 @@ std::string_view lstrip(const std::string_view& strv, const std::string_view& de
 /// Returns a string_view with the end of the string `strv` stripped of any char in `delimiters`
 std::string_view rstrip(const std::string_view& strv, const std::string_view& delimiters) {
     auto it = strv.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - strv.rbegin();
-    return {strv.data() + len, strv.size() - len};
+    return {strv.data(), strv.size() - len};
 }
 
 /// Returns true if string `strv` starts with `needle
@@ -31,7 +31,8 @@ bool starts_with(const std::string_view& strv, const std::string_view& needle) {
 
 /// Returns true if string `strv` ends with `needle
 bool ends_with(const std::string_view& strv, const std::string_view& needle) {
-    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;
+    if (needle.size() > strv.size()) return false;
+    return strv.compare(strv.size() - needle.size(), needle.size(), needle) == 0;
 }
 
 /// Find the first occurence of any char in `delimiters` in the string `strv` or return std::string::npos when nothing
-- 
2.43.0


From 282194088c6284e7a371d3e1dfe7676fb98f4003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 34/60] fix: floats are parsed from their view only

---
 src/spine/core/utils/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spine/core/utils/string.cpp b/src/spine/core/utils/string.cpp
index 9482467..ed60fc7 100644
--- a/src/spine/core/utils/string.cpp
+++ b/src/spine/core/utils/string.cpp
@@ -1,6 +1,7 @@
 #include "spine/core/utils/string.hpp"
 
 // #include <charconv>
+#include <cstdlib>
 #include <string>
 #include <string_view>
 
@@ -58,10 +59,11 @@ std::size_t find_first_of(const std::string_view& strv, const std::string_view&
 // }
 
 float to_float(const std::string_view& sv) {
+    const std::string text(sv); // a view isn't necessarily terminated
     char* end;
-    float result = std::strtof(sv.data(), &end);
+    float result = std::strtof(text.c_str(), &end);
 
-    if (end == sv.data() || *end != '\0') {
+    if (end == text.c_str() || end != text.c_str() + text.size()) {
         return 0.0f; // Handle conversion error
     }
 
-- 
2.43.0


From 4998569878396b5ba286b40f2752514010a27abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:52 +0000
Subject: [PATCH 35/60] fix: static strings of only delimiters can be stripped,
 suffixes may be longer than the string

---
 src/spine/structure/static_string.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/spine/structure/static_string.cpp b/src/spine/structure/static_string.cpp
index bdf3927..13978b7 100644
--- a/src/spine/structure/static_string.cpp
+++ b/src/spine/structure/static_string.cpp
@@ -17,7 +17,7 @@ char* StaticString::data(const size_t expected_bytes_written) {
 }
 StaticString& StaticString::lstrip(std::string_view delimiters) {
     auto it = _buffer.begin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.end() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.begin();
     std::memmove(data(), data() + len, size() - len);
@@ -26,7 +26,7 @@ StaticString& StaticString::lstrip(std::string_view delimiters) {
 }
 StaticString& StaticString::rstrip(std::string_view delimiters) {
     auto it = _buffer.rbegin();
-    while (delimiters.find(*it) != std::string::npos)
+    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
         ++it;
     const auto len = it - _buffer.rbegin();
     set_size(_buffer.size() - len);
@@ -36,6 +36,7 @@ bool StaticString::starts_with(const std::string_view needle) const {
     return _buffer.compare(0, needle.size(), needle, 0) == 0;
 }
 bool StaticString::ends_with(const std::string_view needle) const {
-    return _buffer.compare(_buffer.size() - needle.size(), _buffer.size(), needle) == 0;
+    if (needle.size() > _buffer.size()) return false;
+    return _buffer.compare(_buffer.size() - needle.size(), needle.size(), needle) == 0;
 }
 } // namespace spn::structure
-- 
2.43.0


From 304594717d818314d3c7590163ed8d4213609bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 36/60] fix: chaining and matching an empty result no longer
 read the value it does not have

---
 src/spine/structure/result.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index b445a64..931caa3 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -92,7 +92,7 @@ public:
         using ExpectedResult = Result<std::decay_t<T>, std::decay_t<E>, std::decay_t<I>>;
         static_assert(std::is_invocable_r_v<ExpectedResult, F, I&>,
                       "Function passed to chain must return a Result<T, E, I> and take I& as a parameter.");
-        if (is_failed() || is_success()) {
+        if (!is_intermediary()) {
             return *this;
         }
         return func(intermediary_value_mut());
@@ -147,6 +147,12 @@ public:
     auto match(SuccessFn&& success_fn, ErrorFn&& error_fn, IntermediaryFn&& intermediary_fn) const {
         if (is_success()) return success_fn(value());
         if (is_intermediary()) return intermediary_fn(intermediary_value());
+
+        using ReturnType = std::decay_t<std::invoke_result_t<SuccessFn, const T&>>;
+        if constexpr (std::is_void_v<ReturnType> || std::is_default_constructible_v<ReturnType>) {
+            spn_assert(is_failed());
+            if (!is_failed()) return ReturnType(); // NO_VALUE case
+        }
         return error_fn(error_value());
     }
 
-- 
2.43.0


From e1f4ab87c8e0d11f908ec9d2a481bbc736e2890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 37/60] fix: results and values that are not const are no
 longer taken for an error

For an arithmetic error type, copying a (non-const) result or constructing one
from a (non-const) value picked the constructor for errors.
---
 src/spine/structure/result.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/result.hpp b/src/spine/structure/result.hpp
index 931caa3..2b0be4a 100644
--- a/src/spine/structure/result.hpp
+++ b/src/spine/structure/result.hpp
@@ -26,6 +26,12 @@ public:
     Result& operator=(Result&& other) noexcept = default;
     ~Result() = default;
 
+    // only values that are errors; neither a value of type `T` nor another result (which converts to bool)
+    template<typename U>
+    using EnableIfError =
+        std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T> && !std::is_same_v<std::decay_t<U>, T>
+                         && !std::is_same_v<std::decay_t<U>, Result>>;
+
     Result(const T& v) : _v(std::in_place, WrappedT(v)), _type(Type::OK) {}
     Result(T&& v) : _v(std::in_place, WrappedT(std::move(v))), _type(Type::OK) {}
 
@@ -35,10 +41,10 @@ public:
     static Result failed(const E& v) { return Result(Type::FAILED, WrappedE(v)); }
     static Result failed(E&& v) { return Result(Type::FAILED, WrappedE(std::move(v))); }
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = EnableIfError<U>>
     Result(const U& error) : _v(std::in_place, WrappedE(error)), _type(Type::FAILED) {}
 
-    template<typename U = E, typename = std::enable_if_t<std::is_convertible_v<U, E> && !std::is_same_v<E, T>>>
+    template<typename U = E, typename = EnableIfError<U>>
     Result(U&& error) : _v(std::in_place, WrappedE(std::forward<U>(error))), _type(Type::FAILED) {}
 
     bool is_success() const { return _type == Type::OK; }
-- 
2.43.0


From 3cdb2e3ddb7b0435622958329e1c878350b48ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 38/60] fix: times with a leading zero are not octal

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 806a5f3..b87b6fe 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -133,7 +133,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_mon = month - 1;
     _tm.tm_mday = day;
     int hour, min, sec;
-    sscanf(time, "%i:%i:%i", &hour, &min, &sec);
+    sscanf(time, "%d:%d:%d", &hour, &min, &sec);
     _tm.tm_hour = hour;
     _tm.tm_min = min;
     _tm.tm_sec = sec;
-- 
2.43.0


From e1619dbc2ec7187d7bbce44e801a9b068566c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 39/60] fix: dates built from strings no longer depend on
 uninitialised memory

---
 src/spine/structure/time/datetime.cpp | 1 +
 src/spine/structure/time/datetime.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index b87b6fe..738aeb7 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -138,6 +138,7 @@ DateTime::DateTime(const char* date, const char* time) {
     _tm.tm_min = min;
     _tm.tm_sec = sec;
     _tm.tm_yday = calcYearDay(year, month, day);
+    _tm.tm_isdst = -1;
     set_timestamps();
 }
 
diff --git a/src/spine/structure/time/datetime.hpp b/src/spine/structure/time/datetime.hpp
index 461413d..b5db20d 100644
--- a/src/spine/structure/time/datetime.hpp
+++ b/src/spine/structure/time/datetime.hpp
@@ -51,5 +51,5 @@ private:
 protected:
     time_t _unix_timestamp;
     time_t _y2k_timestamp;
-    tm _tm;
+    tm _tm{};
 };
\ No newline at end of file
-- 
2.43.0


From 18efb93637e644ef976aa3a98dbeecdbcab3aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 40/60] fix: dates before 2000 are accepted in debug builds

---
 src/spine/structure/time/datetime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/time/datetime.cpp b/src/spine/structure/time/datetime.cpp
index 738aeb7..5b4e5da 100644
--- a/src/spine/structure/time/datetime.cpp
+++ b/src/spine/structure/time/datetime.cpp
@@ -86,7 +86,7 @@ static uint8_t bcd2bin(uint8_t val) { return static_cast<uint8_t>(val - 6 * (val
  */
 DateTime::DateTime(time_t unix_timestamp)
     : _unix_timestamp{unix_timestamp}, _y2k_timestamp{static_cast<time_t>(unix_timestamp - UNIX_OFFSET)} {
-    spn_assert(unix_timestamp - UNIX_OFFSET <= LONG_MAX);
+    spn_assert(unix_timestamp >= LONG_MIN + static_cast<time_t>(UNIX_OFFSET));
     gmtime_r(&_unix_timestamp, &_tm);
 }
 
-- 
2.43.0


From 340bd6be3e3e51f41da7d13f6a46e9828d6bfd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 41/60] fix: the next block of a schedule is the earliest one,
 in whatever order they are listed

---
 src/spine/structure/time/schedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/time/schedule.cpp b/src/spine/structure/time/schedule.cpp
index 487c0b0..1c70fc3 100644
--- a/src/spine/structure/time/schedule.cpp
+++ b/src/spine/structure/time/schedule.cpp
@@ -23,10 +23,11 @@ float Schedule::value_at(const k_time_s t) const {
 }
 
 k_time_s Schedule::start_of_next_block(const k_time_s t) const {
+    k_time_s next = k_time_h(24);
     for (auto& b : _blocks) {
-        if (t < b.start) return b.start;
+        if (t < b.start && b.start < next) next = b.start;
     }
-    return k_time_h(24);
+    return next;
 }
 
 } // namespace spn::structure::time
-- 
2.43.0


From df46a510a048d76ed80baf1f559b249f8a40c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 42/60] fix: compound units of different magnitudes compare by
 their value

---
 .../units/primitives/compound_unit.hpp        | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index 654e214..de51210 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -186,8 +186,8 @@ public:
 
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator==(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        if constexpr (std::is_integral_v<ValueType>) return raw() == other.raw();
-        return approximately_equal(raw(), other.raw());
+        if constexpr (std::is_integral_v<ValueType>) return raw() == raw_of(other);
+        return approximately_equal(raw(), raw_of(other));
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator!=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
@@ -195,19 +195,30 @@ public:
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() < other.raw();
+        return raw() < raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() > other.raw();
+        return raw() > raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator<=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() <= other.raw();
+        return raw() <= raw_of(other);
     }
     template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
     bool operator>=(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) const {
-        return raw() >= other.raw();
+        return raw() >= raw_of(other);
+    }
+
+private:
+    /// Returns the value of `other` in terms of the units of this compound
+    template<typename OtherNumeratorUnit, typename OtherDenominatorUnit>
+    static ValueType raw_of(const CompoundUnit<OtherNumeratorUnit, OtherDenominatorUnit>& other) {
+        if constexpr (detail::are_interchangeable<NumeratorUnit, DenominatorUnit, OtherNumeratorUnit,
+                                                  OtherDenominatorUnit>())
+            return CompoundUnit(other).raw();
+        else
+            return other.raw();
     }
 
 private:
-- 
2.43.0


From 70b53cd900d3b3739eee0b5ccfb3067dd219583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 43/60] fix: compound units that are negative, tiny or huge
 keep their value when simplified

Negative and huge values were cast to an unsigned integer, negative integral
ones were divided as if unsigned, and tiny ones by zero.
---
 src/spine/structure/units/primitives/compound_unit.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spine/structure/units/primitives/compound_unit.hpp b/src/spine/structure/units/primitives/compound_unit.hpp
index de51210..ff7ede1 100644
--- a/src/spine/structure/units/primitives/compound_unit.hpp
+++ b/src/spine/structure/units/primitives/compound_unit.hpp
@@ -104,7 +104,8 @@ public:
     /// Simplify compound by reducing numerator and denominator by greatest common denominator. Provided
     /// `scaling_factor` determines precision. A `scaling_factor` of 1e6 makes 6 decimals of precision.
     void simplify(RealRawType scaling_factor = 1e6) {
-        const auto gcd = compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor);
+        const auto gcd = static_cast<ValueType>(compute_gcd(_numerator.raw(), _denominator.raw(), scaling_factor));
+        if (gcd == 0) return; // nothing to reduce within this precision
         _numerator /= gcd;
         _denominator /= gcd;
     }
@@ -229,7 +230,9 @@ private:
     }
 
     inline unsigned long scale_to_integer(ValueType num, RealRawType scaling_factor) {
-        return static_cast<unsigned long>(std::round(num * scaling_factor));
+        const auto scaled = std::round(std::fabs(num * scaling_factor));
+        constexpr auto limit = static_cast<decltype(scaled)>(std::numeric_limits<unsigned long>::max());
+        return scaled < limit ? static_cast<unsigned long>(scaled) : 1;
     }
     unsigned long compute_gcd(ValueType numerator, ValueType denominator, RealRawType scaling_factor) {
         if constexpr (std::is_integral_v<ValueType>) return std::gcd(numerator, denominator);
-- 
2.43.0


From 9ac67e06fafa200147aa0d5c5180a3d4b6dba2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 44/60] fix: points include the math they use

---
 src/spine/structure/point.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/structure/point.hpp b/src/spine/structure/point.hpp
index 011dbb3..44ecd66 100644
--- a/src/spine/structure/point.hpp
+++ b/src/spine/structure/point.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cmath>
+
 namespace spn::structure {
 
 /*
-- 
2.43.0


From 3f129837b67846740725667c811340865e0336f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 45/60] fix: popping the last element at the back returns it
 after pops at the front

---
 src/spine/structure/vector.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index c09be84..3b31c5e 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -187,14 +187,13 @@ T& Vector<T>::peek_back() const {
 template<typename T>
 [[nodiscard]] T&& Vector<T>::pop_back() {
     spn_assert(size() > 0);
-    if (m_tail > 0) {
-        m_tail--;
-        if (m_tail == m_head) {
-            m_tail = 0;
-            m_head = 0;
-        }
+    if (m_tail > 0) m_tail--;
+    const auto cur_tail = m_tail;
+    if (m_tail == m_head) {
+        m_tail = 0;
+        m_head = 0;
     }
-    return std::move(this->m_store[m_tail]);
+    return std::move(this->m_store[cur_tail]);
 }
 
 template<typename T>
-- 
2.43.0


From 2e9ce4eeba5824cecec8311a472e29b73a1c29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 46/60] fix: lux can be compared, added and converted like
 every other unit

---
 src/spine/structure/units/illuminance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/structure/units/illuminance.hpp b/src/spine/structure/units/illuminance.hpp
index 95ae4c0..85f8f16 100644
--- a/src/spine/structure/units/illuminance.hpp
+++ b/src/spine/structure/units/illuminance.hpp
@@ -9,4 +9,4 @@ struct TagIlluminance {};
 } // namespace spn::structure::units
 
 // Illuminance, with unit: lux
-using lux = spnu::Unit<spnu::TagIlluminance, spnu::TagIlluminance, spnu::RealRawType>;
+using lux = spnu::Unit<spnu::TagIlluminance, spnu::Base, spnu::RealRawType>;
-- 
2.43.0


From c1a5e45e2485367cf9901a6488bca6e9bc7bf636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 47/60] fix: a band pass is as wide as documented:
 mantissa*10^(decades+1)

---
 src/spine/filter/implementations/bandpass.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index b2177bf..0bb0d30 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -94,8 +94,8 @@ public:
 protected:
     void update_limits() {
         ValueType compensated_midpoint = _cfg.mode == Mode::RELATIVE ? _value + _cfg.offset : _cfg.offset;
-        _upper = compensated_midpoint + std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
-        _lower = compensated_midpoint - std::pow(_cfg.mantissa * 10, (_cfg.decades + 1));
+        _upper = compensated_midpoint + _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
+        _lower = compensated_midpoint - _cfg.mantissa * std::pow(ValueType(10), _cfg.decades + 1);
     }
 
     /// Arbitrary value to be used as a default value
-- 
2.43.0


From 16e819e1f858ef09344cef9a9f4e103d94769187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 48/60] fix: a fully on analogue output stays within the duty
 range of the board

---
 src/spine/platform/implementations/arduino.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index f0bc2ec..137df75 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -105,7 +105,7 @@ protected:
         spn_assert(value >= 0.0f && value <= 1.0f);
         if (_cfg.active_on_low) value = 1.0f - value;
 
-        analogWrite(_cfg.pin, int(value * powf(2, _cfg.resolution)));
+        analogWrite(_cfg.pin, int(value * (powf(2, _cfg.resolution) - 1))); // the highest duty is 2^resolution - 1
     }
 
     friend AnalogueOutput;
-- 
2.43.0


From 237ac0097df43db08561e55a31b4f927760b4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 49/60] fix: detaching an interrupt detaches the one that was
 attached

---
 src/spine/platform/implementations/arduino.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 137df75..d803081 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -213,7 +213,13 @@ public:
 #endif
     }
 
-    void detach_interrupt() { ::detachInterrupt(_cfg.pin); }
+    void detach_interrupt() {
+#if defined(__AVR_ATmega8__) || defined(__AVR_ATmega168__) || defined(__AVR_ATmega328P__)
+        ::detachInterrupt(_cfg.pin);
+#else
+        ::detachInterrupt(digitalPinToInterrupt(_cfg.pin));
+#endif
+    }
 
 private:
     const Config _cfg;
-- 
2.43.0


From 0978e366432903c4a6171d3de065f6ce61f041c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 50/60] fix: interrupts use the trigger values of the board's
 own core

---
 src/spine/platform/implementations/arduino.hpp           | 6 +++---
 .../platform/implementations/arduino_without_sugar.hpp   | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index d803081..1c29ed9 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -196,9 +196,9 @@ public:
         //        spn_assert(mode_actual != Mode::NOP);
 
         switch (mode_actual) {
-        case TriggerType::RISING_AND_FALLING_EDGE: mode_bits = 1; break;
-        case TriggerType::FALLING_EDGE: mode_bits = 2; break;
-        case TriggerType::RISING_EDGE: mode_bits = 3; break;
+        case TriggerType::RISING_AND_FALLING_EDGE: mode_bits = detail::ARDUINO_TRIGGER_CHANGE; break;
+        case TriggerType::FALLING_EDGE: mode_bits = detail::ARDUINO_TRIGGER_FALLING; break;
+        case TriggerType::RISING_EDGE: mode_bits = detail::ARDUINO_TRIGGER_RISING; break;
         default: mode_bits = 0; break;
         }
 
diff --git a/src/spine/platform/implementations/arduino_without_sugar.hpp b/src/spine/platform/implementations/arduino_without_sugar.hpp
index f46124f..a616d2d 100644
--- a/src/spine/platform/implementations/arduino_without_sugar.hpp
+++ b/src/spine/platform/implementations/arduino_without_sugar.hpp
@@ -4,6 +4,15 @@
 
 #include <Arduino.h>
 
+// Keep the interrupt triggers, their values differ between cores, before the macros are undefined
+namespace spn::platform::detail {
+enum ArduinoTrigger : int {
+    ARDUINO_TRIGGER_CHANGE = static_cast<int>(CHANGE),
+    ARDUINO_TRIGGER_FALLING = static_cast<int>(FALLING),
+    ARDUINO_TRIGGER_RISING = static_cast<int>(RISING)
+};
+} // namespace spn::platform::detail
+
 // Undefine Arduino-specific macros if they are defined
 #if defined(LOW)
 #    undef LOW
-- 
2.43.0


From f3b686d519f395a3e6621846607f31026530e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:08 +0000
Subject: [PATCH 51/60] fix: reading a byte from an idle Arduino UART is not a
 success

---
 src/spine/platform/implementations/arduino.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/arduino.hpp b/src/spine/platform/implementations/arduino.hpp
index 1c29ed9..77def2f 100644
--- a/src/spine/platform/implementations/arduino.hpp
+++ b/src/spine/platform/implementations/arduino.hpp
@@ -262,7 +262,9 @@ public:
 
     size_t read(uint8_t* const buffer, size_t length) override { return _stream_ref->readBytes(buffer, length); }
     bool read(uint8_t& value) override {
-        value = _stream_ref->read();
+        const int read = _stream_ref->read();
+        if (read < 0) return false; // nothing to read
+        value = static_cast<uint8_t>(read);
         return true;
     }
 
-- 
2.43.0


From 1c9562d95a0267e0ecfc9ceb549e0db70c88e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 52/60] fix: inputs, analogue outputs and interrupts can be
 used through their interface

---
 src/spine/platform/gpio.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/spine/platform/gpio.hpp b/src/spine/platform/gpio.hpp
index a4e6587..5321d48 100644
--- a/src/spine/platform/gpio.hpp
+++ b/src/spine/platform/gpio.hpp
@@ -30,8 +30,8 @@ template<typename GPIOImp>
 struct DigitalInput {
     using LogicalState = core::LogicalState;
 
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
-    LogicalState state() const { return static_cast<GPIOImp>(this)->state(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
+    LogicalState state() const { return static_cast<LogicalState>(static_cast<const GPIOImp*>(this)->state()); }
 };
 
 namespace detail {
@@ -43,7 +43,7 @@ template<typename GPIOImp>
 class AnalogueOutput {
 public:
     /// Initialize a port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Set the output to the provided `value`
     void set_value(float value) {
@@ -68,10 +68,10 @@ private:
 template<typename GPIOImp>
 struct AnalogueInput {
     /// Initialize an analogue input port/pin
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Reads the Analogue input port/pin
-    float read() { return static_cast<GPIOImp>(this)->read(); }
+    float read() { return static_cast<GPIOImp*>(this)->read(); }
 };
 
 // todo: Add an ADC/DAC configuration blocks to set up stuff like read/write resolution, ref voltage and sampling
@@ -82,15 +82,15 @@ struct Interrupt {
     using TriggerType = core::TriggerType;
 
     /// Intializes the interrupt (doesn't attach it)
-    void initialize() { static_cast<GPIOImp>(this)->initialize(); }
+    void initialize() { static_cast<GPIOImp*>(this)->initialize(); }
 
     /// Attaches the interrupt to the callback.
     void attach_interrupt(void (*callback)() = nullptr, TriggerType trigger = TriggerType::UNDEFINED) {
-        static_cast<GPIOImp>(this)->attach_interrupt(callback, trigger);
+        static_cast<GPIOImp*>(this)->attach_interrupt(callback, trigger);
     }
 
     /// Detaches the interrupt from the callback
-    void detach_interrupt() { static_cast<GPIOImp>(this)->detach_interrupt(); }
+    void detach_interrupt() { static_cast<GPIOImp*>(this)->detach_interrupt(); }
 };
 
 } // namespace spn::platform
-- 
2.43.0


From 2960d21427851aa7c69ab3b0af91a056ca9f9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 53/60] fix: delays on Zephyr are no shorter than asked for

---
 src/spine/platform/implementations/zephyr.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spine/platform/implementations/zephyr.hpp b/src/spine/platform/implementations/zephyr.hpp
index 5580703..f611df2 100644
--- a/src/spine/platform/implementations/zephyr.hpp
+++ b/src/spine/platform/implementations/zephyr.hpp
@@ -40,9 +40,8 @@ struct Zephyr : Platform<Zephyr, ZephyrConfig> {
     static void delay_us(k_time_us us) {
         if (us.raw() >= 1000) {
             k_msleep(us.raw() / 1000);
-        } else {
-            k_busy_wait(us.raw()); // Busy wait for shorter delays
         }
+        k_busy_wait(us.raw() % 1000); // Busy wait for shorter delays
     }
     static void delay_ms(k_time_ms ms) { k_msleep(ms.raw()); }
 };
-- 
2.43.0


From bf845a514da9e802336b002fb259d2649b3993ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 54/60] fix: switching logging off on Zephyr does not leave
 errors on

---
 src/spine/platform/implementations/zephyr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spine/platform/implementations/zephyr.cpp b/src/spine/platform/implementations/zephyr.cpp
index fd40d9c..457f1a8 100644
--- a/src/spine/platform/implementations/zephyr.cpp
+++ b/src/spine/platform/implementations/zephyr.cpp
@@ -29,7 +29,7 @@ void zephyr_set_log_level(spn::logging::LogLevel level) {
     LOG_MODULE_DECLARE(spine, LOG_LEVEL_INF);
 
     switch (level) {
-    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE);
+    case spn::logging::LogLevel::OFF: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_NONE); break;
     case spn::logging::LogLevel::ERR: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_ERR); break;
     case spn::logging::LogLevel::WARN: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_WRN); break;
     case spn::logging::LogLevel::INFO: log_filter_set(log_backend_get_by_name("spine"), 0, 0, LOG_LEVEL_INF); break;
-- 
2.43.0


From 9369aa1c49c418a1971d39c493b6d1f93d4fafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:55 +0000
Subject: [PATCH 55/60] fix: popping from a vector hands out the element, not a
 reference to its old slot

With a reference, v.push_back(v.pop_front()) on a full vector read the slot after it
had been overwritten by the rearrangement, and an element that was copied out of the
slot stayed alive in there.
---
 src/spine/structure/pool.hpp   |  2 +-
 src/spine/structure/vector.hpp | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 633005f..97f6a03 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -53,7 +53,7 @@ public:
     }
 
     /// Depopulate a single element from the pool.
-    [[nodiscard]] Pointer&& depopulate() {
+    [[nodiscard]] Pointer depopulate() {
         spn_assert(!_pointers.empty());
         return _pointers.pop_front();
     }
diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 3b31c5e..3d53750 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -44,10 +44,10 @@ public:
     void emplace_front(const T&& item);
 
     T& peek_back() const;
-    [[nodiscard]] T&& pop_back();
+    [[nodiscard]] T pop_back();
 
     T& peek_front() const;
-    [[nodiscard]] T&& pop_front();
+    [[nodiscard]] T pop_front();
 
     void insert(Size index, const T& item);
     T remove(Size index);
@@ -185,7 +185,7 @@ T& Vector<T>::peek_back() const {
 }
 
 template<typename T>
-[[nodiscard]] T&& Vector<T>::pop_back() {
+[[nodiscard]] T Vector<T>::pop_back() {
     spn_assert(size() > 0);
     if (m_tail > 0) m_tail--;
     const auto cur_tail = m_tail;
@@ -239,7 +239,7 @@ T& Vector<T>::peek_front() const {
 }
 
 template<typename T>
-T&& Vector<T>::pop_front() {
+T Vector<T>::pop_front() {
     spn_assert(size() > 0);
     const auto cur_head = m_head;
     if (!empty()) m_head++;
@@ -277,10 +277,10 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
 template<typename T>
 T Vector<T>::remove(ArrayBase::Size index) {
     if (index == 0) {
-        return std::move(pop_front());
+        return pop_front();
     }
     if (index == size()) {
-        return std::move(pop_back());
+        return pop_back();
     }
     if (index < size()) {
         index += m_head;
-- 
2.43.0


From 5830b0c68f4c3811a6b59fec64e87ed9803b4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 56/60] fix: storing a vector's own element in it again stores
 that element

The argument may refer to an element that is moved to make room.
---
 src/spine/structure/vector.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/spine/structure/vector.hpp b/src/spine/structure/vector.hpp
index 3d53750..72e43d0 100644
--- a/src/spine/structure/vector.hpp
+++ b/src/spine/structure/vector.hpp
@@ -161,7 +161,12 @@ const T& Vector<T>::operator[](ArrayBase::Size index) const {
 
 template<typename T>
 void Vector<T>::push_back(const T& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T copy(item); // `item` may refer to one of the elements that are about to be moved
+        rearrange(0);
+        this->m_store[m_tail++] = copy;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) this->m_store[m_tail++] = item;
@@ -169,7 +174,12 @@ void Vector<T>::push_back(const T& item) {
 
 template<typename T>
 void Vector<T>::emplace_back(const T&& item) {
-    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
+    if (m_tail >= this->max_size() && m_head > 0) {
+        const T copy(item); // `item` may refer to one of the elements that are about to be moved
+        rearrange(0);
+        this->m_store[m_tail++] = copy;
+        return;
+    }
     spn_assert(m_tail < this->max_size());
 
     if (m_tail < this->max_size()) {
@@ -205,13 +215,15 @@ void Vector<T>::push_front(const T& item) {
     }
     if (full()) return;
 
+    const T copy(item); // `item` may refer to one of the elements that are about to be moved
+
     // todo: use `rearrange()`
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
 
-    this->m_store[m_head] = item;
+    this->m_store[m_head] = copy;
     m_tail++;
 }
 
@@ -224,11 +236,13 @@ void Vector<T>::emplace_front(const T&& item) {
     }
     if (full()) return;
 
+    const T copy(item); // `item` may refer to one of the elements that are about to be moved
+
     // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
     memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
     memset((char*)&this->m_store[m_head], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head] = std::move(item);
+    this->m_store[m_head] = copy;
     m_tail++;
 }
 
@@ -262,6 +276,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
         push_back(item);
         return;
     }
+    const T copy(item); // `item` may refer to one of the elements that are about to be moved
     if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
     spn_assert(m_tail < this->max_size());
     if (full()) return;
@@ -271,7 +286,7 @@ void Vector<T>::insert(ArrayBase::Size index, const T& item) {
             (m_tail++ - (m_head + index)) * sizeof(T));
     memset((char*)&this->m_store[m_head + index], '\0',
            sizeof(T)); // otherwise copy assignment below interacts with moved memory
-    this->m_store[m_head + index] = item;
+    this->m_store[m_head + index] = copy;
 }
 
 template<typename T>
-- 
2.43.0


From abe9e5cc076479c3947424d66cea1a2f795532b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 57/60] fix: any sample may be a band-pass filter's first one

A value equal to the filter's marker for 'no value yet' made it take the next sample
whatever it was.
---
 src/spine/filter/implementations/bandpass.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spine/filter/implementations/bandpass.hpp b/src/spine/filter/implementations/bandpass.hpp
index 0bb0d30..2b8e238 100644
--- a/src/spine/filter/implementations/bandpass.hpp
+++ b/src/spine/filter/implementations/bandpass.hpp
@@ -56,7 +56,7 @@ public:
 
     /// Provide a new sample for filtering (optionally throws if value is out of band)
     void new_sample(const ValueType sample) override {
-        if (_value == DefaultValue) BandPass::reset_to(sample);
+        if (!_has_value) BandPass::reset_to(sample);
         if (_cfg.mode == Mode::RELATIVE) BandPass::update_limits();
 
         if (sample >= _lower && sample <= _upper) {
@@ -89,7 +89,10 @@ public:
     ValueType operator()(ValueType reading) { return value(reading); }
 
     /// Reset the filter's internal value to a provided value (next sample will be filtered based on this value)
-    void reset_to(ValueType reading) override { _value = reading; }
+    void reset_to(ValueType reading) override {
+        _value = reading;
+        _has_value = true;
+    }
 
 protected:
     void update_limits() {
@@ -105,6 +108,7 @@ private:
     const Config _cfg;
 
     ValueType _value = DefaultValue;
+    bool _has_value = false;
     ValueType _lower;
     ValueType _upper;
     int _rejections = 0;
-- 
2.43.0


From 5f3d36cab155ffd25dd46952db6a694e762c3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 58/60] fix: moving a pool into a new one transfers its objects

There was no move constructor, so the copy constructor was taken: the new pool only referred to the storage of the
old one, which took the objects and the storage with it when it was destroyed.
---
 src/spine/structure/pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spine/structure/pool.hpp b/src/spine/structure/pool.hpp
index 97f6a03..e050189 100644
--- a/src/spine/structure/pool.hpp
+++ b/src/spine/structure/pool.hpp
@@ -21,6 +21,7 @@ public:
         spn_assert(_pointers.empty());
     }
     Pool(const Pool& other) : _pointers(other._pointers), _lookup_index(other._lookup_index) {}
+    Pool(Pool&& other) noexcept : _pointers(std::move(other._pointers)), _lookup_index(other._lookup_index) {}
     Pool& operator=(const Pool& other) {
         if (&other == this) return *this;
         _pointers = other._pointers;
-- 
2.43.0


From fabc89c893d71b40ff29aa1a71d97bdcd2e0580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:37 +0000
Subject: [PATCH 59/60] fix: dividing a negative integral unit by an unsigned
 scalar in place yields a huge value

---
 src/spine/structure/units/primitives/unit.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spine/structure/units/primitives/unit.hpp b/src/spine/structure/units/primitives/unit.hpp
index 043d0b2..a8c2e66 100644
--- a/src/spine/structure/units/primitives/unit.hpp
+++ b/src/spine/structure/units/primitives/unit.hpp
@@ -98,7 +98,10 @@ public:
     template<typename AT>
     std::enable_if_t<std::is_arithmetic_v<AT>, Unit&> operator/=(const AT& scalar) {
         if (scalar == 0) spn::throw_exception(runtime_exception("tried to divide by zero"));
-        _value /= scalar;
+        if constexpr (std::is_integral_v<VT> && std::is_integral_v<AT>)
+            _value /= static_cast<VT>(scalar); // an unsigned scalar must not turn a negative value into an unsigned one
+        else
+            _value /= scalar;
         return *this;
     }
 
-- 
2.43.0


From b06efaf6022ffa24a4d21173f3c6caa15d419ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:20 +0000
Subject: [PATCH 60/60] fix: a transaction assigned over while still open never
 consumes its line

---
 src/spine/io/stream/transaction.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spine/io/stream/transaction.hpp b/src/spine/io/stream/transaction.hpp
index 6c39eac..40f72e9 100644
--- a/src/spine/io/stream/transaction.hpp
+++ b/src/spine/io/stream/transaction.hpp
@@ -20,6 +20,8 @@ public:
     Transaction& operator=(const Transaction& other) = delete;
     Transaction& operator=(Transaction&& other) noexcept {
         if (this == &other) return *this;
+        // ends as if it had gone out of scope, unless the other one goes on with the very same line
+        if (!is_finalized() && (other.is_finalized() || other._stream != _stream)) finalize();
         _stream = other._stream;
         other._stream = nullptr;
         _incoming_line = std::move(other._incoming_line);
-- 
2.43.0

