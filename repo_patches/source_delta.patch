From 58e285bfe1d079cbbce9be1d5ed69e673912db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 01/50] fix: ArrVec converting constructor takes the size, not
 the capacity, of its source

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..bbd5f50 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -306,8 +306,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From dbae86265e384a6cae175a66152bcb1ee2e95b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 02/50] fix: ArrVec move destroys the moved-from elements of
 its source

---
 include/efp/sequence.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index bbd5f50..a5a7013 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,11 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+        // The moved-from elements are still alive and have to be destroyed
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -292,8 +293,8 @@ public:
                 new (_data + i) Element {efp::move(other._data[i])};
             }
 
-            // Reset the source object
-            other._size = 0;
+            // Destroy the moved-from elements and reset the source object
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From 97476da5ba5dbe68114d65d5705efe619e4ffd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 03/50] fix: ArrVec::insert of one of its own elements

---
 include/efp/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a5a7013..6985734 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -394,12 +394,15 @@ public:
             );
         }
 
+        // value may refer to an element of this ArrVec
+        Element copy(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copy));
 
         ++_size;
     }
-- 
2.43.0


From ab4cd8d61400b759167ea3c10e28297369178553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 04/50] fix: ArrVec and Vector resize construct and destroy
 elements

---
 include/efp/sequence.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 6985734..1172631 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -361,6 +361,15 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        // Elements beyond the new size have to be destroyed, new ones have to be constructed
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
         _size = length;
     }
 
@@ -714,6 +723,15 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            // Elements beyond the new size have to be destroyed, new ones have to be constructed
+            for (size_t i = new_size; i < _size; ++i) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
+            for (size_t i = _size; i < new_size; ++i) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i);
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From 3880b87681a1c34b89346d7ce77ec8b173aae4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 05/50] fix: Vector copy assignment updates size and never
 moves destroyed elements

---
 include/efp/sequence.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 1172631..9e80ab5 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -590,15 +590,18 @@ namespace detail {
                     // _allocator.destroy(_data + i);
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
+                // No element is alive at this point
+                _size = 0;
 
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 549f8ecfe946f979d6bd3cebe0cfaff7fba1c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 06/50] fix: Copy of a Vector without storage leaves no
 uninitialised pointer

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 9e80ab5..971800e 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -570,7 +570,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 986a01e21385f6f1fb3ab97824b9ab801a9c548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 07/50] fix: Vector push_back and emplace_back of one of its
 own elements

---
 include/efp/sequence.hpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 971800e..8e71846 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -797,36 +797,49 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                // value may refer to an element of this vector
+                Element copy(value);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
+            } else {
+                // _allocator.construct(_data + _size, value);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             }
-
-            // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             ++_size;
         }
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                // value may refer to an element of this vector
+                Element moved(efp::move(value));
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(moved));
+            } else {
+                // _allocator.construct(_data + _size, efp::move(value));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             }
-
-            // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             ++_size;
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // args may refer to an element of this vector
+                Element element(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(element)
+                );
+            } else {
+                // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::forward<Args>(args)...
+                );
             }
-
-            // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-            AllocatorTraits<Allocator>::construct(
-                _allocator,
-                _data + _size,
-                efp::forward<Args>(args)...
-            );
             ++_size;
         }
 
-- 
2.43.0


From 97f985386cfd1c2a10b2c38926b08fc8e556065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 08/50] fix: Vector insert and erase respect element lifetimes
 and aliasing

---
 include/efp/sequence.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8e71846..8686b0f 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -857,16 +857,24 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // value may refer to an element of this vector
+            Element copy(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
             // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copy));
             ++_size;
         }
 
@@ -879,7 +887,12 @@ namespace detail {
             AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
 
             for (size_t i = index; i < _size - 1; ++i) {
-                _data[i] = efp::move(_data[i + 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i + 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i + 1);
             }
 
             --_size;
-- 
2.43.0


From 1b25f192bb9b56dbbafc4b0434c1aa7a0ef387f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:19 +0000
Subject: [PATCH 09/50] fix: VectorView conversion initialises its capacity

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8686b0f..f10fc7d 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1349,12 +1349,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 2b202ab784e2c0923df2699e86af29eb4dfb91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 10/50] fix: Copy of a Vcq whose contents do not start at the
 first slot

---
 include/efp/cyclic.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..d59627e 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -183,8 +183,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._read[i]);
+            new (_buffer + ct_capacity + j) A(other._read[i]);
         }
 
         _size = other._size;
@@ -206,8 +206,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._read[i]);
+            new (_buffer + ct_capacity + j) A(other._read[i]);
         }
 
         _size = other._size;
-- 
2.43.0


From 5747df295f6636683d7988c88bc2050fddb9c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 11/50] fix: Move of a Vcq moves every element once and from
 the right slot

---
 include/efp/cyclic.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index d59627e..9e6627e 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -222,8 +222,9 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            // Both copies have to be valid, and an element can be moved only once
+            new (_buffer + j) A(efp::move(other._read[i]));
+            new (_buffer + ct_capacity + j) A(_buffer[j]);
         }
 
         _size = other._size;
@@ -245,8 +246,9 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            // Both copies have to be valid, and an element can be moved only once
+            new (_buffer + j) A(efp::move(other._read[i]));
+            new (_buffer + ct_capacity + j) A(_buffer[j]);
         }
 
         _size = other._size;
-- 
2.43.0


From e97dec7f32d3608ae8fda1d5c45f1c3414e5c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 12/50] fix: Vcq::end of an empty queue

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 9e6627e..e3fc078 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -335,11 +335,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From c47848b79a611989479b7aa966601231e2acb9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 13/50] fix: Self-assignment of Vcb and Vcq

---
 include/efp/cyclic.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index e3fc078..405c6c0 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -233,6 +245,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 897e606edbf997cacb52070b73e3d12281de907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 14/50] fix: Vcq::push_back of its own oldest element on a full
 queue

---
 include/efp/cyclic.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 405c6c0..50c838a 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -292,13 +292,16 @@ class Vcq {
     }
 
     void push_back(const A& value) {
+        // value may refer to the element to be destroyed
+        const A copy(value);
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A {copy};
+        new (_write + ct_capacity) A {copy};
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From 0fee85fb1db926eeda50f7328ff7477c55ccc57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 15/50] fix: String fill constructor allocates with its
 allocator and leaves room for the terminator

---
 include/efp/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..900374d 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,9 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        // Always allocate one extra space for the null terminator
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 3a2ce53c0aa357c4f65550db9a2b454a2e244bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 16/50] fix: c_str of a String without storage

---
 include/efp/string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 900374d..eb3268e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -247,6 +247,12 @@ public:
     }
 
     const Char* c_str() const {
+        // An empty string may not have any storage
+        if (Base::_data == nullptr) {
+            static const Char empty[1] = {};
+            return empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From a4c36bea2a15f2b2cb39ba3b9042b76b4c5f609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 17/50] fix: String::insert leaves room for the terminator

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index eb3268e..5ce7569 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -161,7 +161,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
+        // Always reserve one extra space for the null character
+        Base::reserve(Base::_size + len + 1);
 
         for (size_t i = Base::_size; i > pos; --i) {
             Base::_data[i + len - 1] = Base::_data[i - 1];
-- 
2.43.0


From f5acb7df487fa7546a4230067fdb7db31e3529f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 18/50] fix: String::compare takes the lengths into account

---
 include/efp/string.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 5ce7569..1d719ce 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -232,7 +232,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -244,7 +244,15 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const size_t common_len = len < other.size() ? len : other.size();
+        const int result = Traits::compare(Base::_data + pos, other.data(), common_len);
+
+        if (result != 0 || len == other.size()) {
+            return result;
+        }
+
+        // One is a proper prefix of the other
+        return len < other.size() ? -1 : 1;
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 830b1bb7304981abdb9f2f033e402f47c370c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 19/50] fix: Append and insert of a String into itself

---
 include/efp/string.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 1d719ce..eca46be 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -120,7 +120,10 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        // other may be this string itself
+        const size_t len = other.size();
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
@@ -128,6 +131,10 @@ public:
     }
 
     Vector& append(const Char* c_str) {
+        if (_owns(c_str)) {
+            return append(Vector(c_str).c_str());
+        }
+
         const size_t len = Traits::length(c_str);
 
         for (size_t i = 0; i < len; ++i) {
@@ -160,6 +167,10 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        if (_owns(c_str)) {
+            return insert(pos, Vector(c_str).c_str());
+        }
+
         const size_t len = Traits::length(c_str);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
@@ -182,6 +193,10 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        if (_owns(c_str)) {
+            return insert(pos, Vector(c_str, n).c_str(), n);
+        }
+
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -275,6 +290,13 @@ public:
         return std::string(Base::_data, Base::_size);
     }
 #endif
+
+private:
+    // Whether the pointer refers to the storage of this string
+    bool _owns(const Char* c_str) const {
+        return Base::_data != nullptr && Base::_data <= c_str
+            && c_str < Base::_data + Base::_capacity;
+    }
 };  // class Vector
 
 template<
-- 
2.43.0


From 2511ad5f4f6aec2390882205129f18c16d847a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 20/50] fix: Empty String equals the empty C string

---
 include/efp/string.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index eca46be..c0be6bb 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -87,12 +87,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
@@ -344,12 +340,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
-- 
2.43.0


From 8258aa4d8ce34de14915f410bc6411b1fb919767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 21/50] fix: String iterator range constructor compiles

---
 include/efp/string.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index c0be6bb..d7bfa8b 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -63,21 +63,22 @@ public:
     // Not using iterator
     template<typename InputIt>
     Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+    {
+        Base::_allocator = alloc;
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        // Base::_data = Base::_allocator.allocate(Base::_capacity);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From 141ddaee6bf20bfc4276864d5c946a8651872b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 22/50] fix: StringView conversions initialise the capacity

---
 include/efp/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index d7bfa8b..84593bc 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -327,12 +327,14 @@ public:
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
         Base::_data = c_str;
+        Base::_capacity = Base::_size;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
         Base::_data = s.data();
+        Base::_capacity = Base::_size;
     }
 
     bool operator==(const VectorView& other) const {
-- 
2.43.0


From 0544cf2935d6d747b2cda921ed65cc64cd2da18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 23/50] fix: Moving a File carries its mode and assignment
 closes the old handle

---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From ce5647263a42bd0afd0c667e0a0c162baeb543c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 24/50] fix: File writes Strings with null characters in text
 mode

---
 include/efp/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..2be2ca1 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -133,7 +133,8 @@ public:
             size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
             return written == data.size();
         } else {
-            return std::fputs(data.c_str(), _file) != EOF;
+            // Not std::fputs, which stops at the first null character
+            return write(data.data(), data.size());
         }
     }
 
-- 
2.43.0


From 398545eae9dcfadb44b25277d7adea063eb1c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 25/50] fix: Operations on a closed File fail without effect,
 and a failed close releases the handle

---
 include/efp/io.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 2be2ca1..76d6e48 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -139,21 +139,23 @@ public:
     }
 
     int flush() {
-        return std::fflush(_file);
+        return _file ? std::fflush(_file) : EOF;
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
-        return std::ftell(_file);
+        return _file ? std::ftell(_file) : -1;
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
+        if (_file) {
+            // The handle is gone even if std::fclose reports a failure
+            FILE* file = _file;
             _file = nullptr;
-            return true;
+            return std::fclose(file) != EOF;
         }
 
         return false;
-- 
2.43.0


From 40d486db134db7f41b096a9d3e743d3788d79943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:22 +0000
Subject: [PATCH 26/50] fix: NonBlockingQ::is_empty takes the lock

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 4aab34118247efc750240f14942bacdd99c8afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 27/50] fix: append keeps the order of its arguments

---
 include/efp/prelude.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..80dc9a2 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,12 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Only the elements of a braced list are guaranteed to be evaluated in order
+    const Unit units[] = {
+        detail::append_impl(idx, res, as),
+        detail::append_impl(idx, res, ass)...
+    };
+    (void)units;
 
     return res;
 }
-- 
2.43.0


From 7693047a35fbacc40c16c58dad9766db98f3cdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 28/50] fix: slice never leaves its source

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 80dc9a2..7fadc7e 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -867,12 +867,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    // Safeguarding against end > length(as) and start > end
+    const size_t bound_end = min(static_cast<size_t>(end), static_cast<size_t>(length(as)));
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    // Safeguarding against end > length(as) and start > end
+    const size_t bound_end = min(static_cast<size_t>(end), static_cast<size_t>(length(as)));
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From 2cb4dde20149da4da4979a84102c084a184771cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 29/50] fix: take_while and drop_while compile

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 7fadc7e..70457f3 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -900,7 +900,7 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
         ++i;
     }
 
-    return take(i, as);
+    return TakeWhileReturn<As>(data(as), i);
 }
 
 // drop_while
@@ -920,7 +920,7 @@ auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
         ++i;
     }
 
-    return drop(i, as);
+    return DropWhileReturn<As>(data(as) + i, as_len - i);
 }
 
 // elem
-- 
2.43.0


From 3a8b188708a6f841d7f5461b25017b03e6748cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 30/50] fix: cartesian_for_each_mut can change its outer
 sequences

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 70457f3..77c724e 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -430,7 +430,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From 990558f8dd6343ce5b9e087342474e541a3af383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 31/50] fix: timsort merges runs that are out of order

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From c62c5fc14d79d5640effee7cdb0d9090a3ad98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 32/50] fix: max_elem of negative floating-point sequences

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From cf05cd27db21e6383a3e45b8806f93b0b3793f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 33/50] fix: Enum with more than 128 alternatives

---
 include/efp/enum.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..edc5667 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,7 +8,7 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, uint8_t power = 2) {
+    constexpr size_t power_2_ceiling(size_t n, size_t power = 2) {
         return (power >= n) ? power - 1 : power_2_ceiling(n, power << 1);
     }
 
@@ -28,10 +28,10 @@ namespace detail {
 
     // clang-format on
 
-    template<uint8_t stamp_n, uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t stamp_n, size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch {};
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<2 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -43,7 +43,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<4 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -55,7 +55,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<8 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -67,7 +67,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<16 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -79,7 +79,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<32 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -91,7 +91,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<64 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -103,7 +103,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<128 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -115,7 +115,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<256 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -138,7 +138,7 @@ namespace detail {
 #undef EFP_STAMP128
 #undef EFP_STAMP256
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     using EnumSwitch = _EnumSwitch<power_2_ceiling(alt_num), alt_num, Case, Args...>;
 
     // todo Maybe support more than 256 alternatives
@@ -237,7 +237,7 @@ namespace detail {
     template<typename A, typename... As>
     class EnumBase {
     public:
-        constexpr static uint8_t alt_num = sizeof...(As) + 1;
+        constexpr static size_t alt_num = sizeof...(As) + 1;
 
         // Default constructor initializes the first alternative with default constructor
         EnumBase() : _index {0} {
-- 
2.43.0


From 9c578ab5c15b2e1538e0d3e053b161c51ff26057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 34/50] fix: move of a const Enum compiles

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index edc5667..354c991 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -358,7 +358,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<Alt*>(&_storage));
+            return efp::move(*reinterpret_cast<const Alt*>(&_storage));
         }
 
         template<typename Alt>
@@ -376,7 +376,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<PackAt<i, A, As...>*>(&_storage));
+            return efp::move(*reinterpret_cast<const PackAt<i, A, As...>*>(&_storage));
         }
 
         template<uint8_t i>
-- 
2.43.0


From 65eff93ffee0ad784168b83c2e5a3b9e006cdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 35/50] fix: Maybe fmap, ap and bind of a const Maybe compile

---
 include/efp/maybe.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..1977792 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -59,7 +59,7 @@ public:
     }
 
     template<typename F>
-    auto fmap(const F& f) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -67,7 +67,7 @@ public:
     }
 
     template<typename F>
-    auto ap(const Enum<Nothing, F>& mf) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto ap(const Enum<Nothing, F>& mf) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value() && mf.has_value())
             return mf.value()(value());
         else
@@ -75,8 +75,8 @@ public:
     }
 
     template<typename F>
-    auto bind(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto bind(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -84,8 +84,8 @@ public:
     }
 
     template<typename F>
-    auto operator>>=(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto operator>>=(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
-- 
2.43.0


From 1326b6d714721a465b1fdd0092e64af8b3127ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 36/50] fix: linear_regression_with_index of long sequences
 overflows

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..7ab8874 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From e8a0bf9f4fb118355ca5e873e996a88a678931b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 37/50] fix: filter compiles on views of const elements

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 77c724e..b00c711 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -123,8 +123,8 @@ auto map(const F& f, const Ass&... ass) -> MapReturn<F, Ass...> {
 template<typename As>
 using FilterReturn = Conditional<
     CtCapacity<As>::value != dyn,
-    ArrVec<Element<As>, CtCapacity<As>::value>,
-    Vector<Element<As>>>;
+    ArrVec<CVRefRemoved<Element<As>>, CtCapacity<As>::value>,
+    Vector<CVRefRemoved<Element<As>>>>;
 
 // filter :: (A -> Bool) -> [A] -> [A]
 template<typename As, typename F = bool (*)(const Element<As>&)>
-- 
2.43.0


From e8dcd9410ae2056c0f32d7ff38b8a70a17b3edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:10 +0000
Subject: [PATCH 38/50] fix: slice with a reversed compile-time range is empty

---
 include/efp/prelude.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index b00c711..cf13cbb 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -856,9 +856,22 @@ auto slice_unsafe(S start, E end, As& as) -> SliceUnsafeReturn<S, E, As, false>
 
 // SliceReturn
 
+namespace detail {
+    template<typename S, typename E>
+    struct SliceLengthImpl {
+        using Type = decltype(efp::declval<E>() - efp::declval<S>());
+    };
+
+    // A reversed range is empty
+    template<size_t s, size_t e>
+    struct SliceLengthImpl<Size<s>, Size<e>> {
+        using Type = Size<(e > s) ? (e - s) : 0>;
+    };
+}  // namespace detail
+
 template<typename S, typename E, typename As, bool is_const>
 using SliceReturn = TakeReturn<
-    decltype(efp::declval<E>() - efp::declval<S>()),
+    typename detail::SliceLengthImpl<S, E>::Type,
     DropReturn<S, As, is_const>,
     is_const>;
 
-- 
2.43.0


From ac81549c7975a66caa84cfaee748829f78dbd4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:42 +0000
Subject: [PATCH 39/50] fix: quicksort_by bounds its recursion depth

---
 include/efp/sort.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..d3ea1bf 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -132,11 +132,19 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
 template<typename A, typename F = bool (*)(const A&, const A&)>
 
 void quicksort_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
-    if (low < high) {
+    // Recurse into the smaller part only, so that the depth stays logarithmic
+    while (low < high) {
         size_t pi = partition_by(arr, low, high, comp);
-        if (pi != 0)
-            quicksort_by(arr, low, pi - 1, comp);
-        quicksort_by(arr, pi + 1, high, comp);
+        if (pi - low < high - pi) {
+            if (pi != low)
+                quicksort_by(arr, low, pi - 1, comp);
+            low = pi + 1;
+        } else {
+            quicksort_by(arr, pi + 1, high, comp);
+            if (pi == low)
+                return;
+            high = pi - 1;
+        }
     }
 }
 
-- 
2.43.0


From 7d8e12e7f4338cb1fc61418cfb42ffe1cc3c7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 40/50] fix: linear_regression_with_index and detrend did not
 compile for result types other than double

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 7ab8874..739629d 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -157,7 +157,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
 
-    return tuple(beta_1, beta_2);
+    return tuple(static_cast<R>(beta_1), static_cast<R>(beta_2));
 }
 
 template<typename R, typename As>
-- 
2.43.0


From 422a8ae6227355b60a9f61a9b7ee591ded6b4546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:07 +0000
Subject: [PATCH 41/50] fix: detrend converted indices to the element type

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 739629d..fd3b795 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -166,7 +166,7 @@ NAryReturn<R, As> detrend(const As& as) {
     const auto beta_1 = get<0>(betas);
     const auto beta_2 = get<1>(betas);
 
-    const auto detrend_elem = [&](const Element<As>& i, const Element<As>& x) {
+    const auto detrend_elem = [&](const int& i, const Element<As>& x) {
         return (R)x - (beta_1 * (R)i + beta_2);
     };
 
-- 
2.43.0


From 9cdf576973eb4369b067b25da70ce2cd5c617877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:02 +0000
Subject: [PATCH 42/50] fix: mean, rms, sse and mse overflowed the element type

---
 include/efp/scientific.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index fd3b795..59ce840 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -10,18 +10,18 @@
 namespace efp {
 template<typename R, typename As>
 constexpr R mean(const As& as) {
-    return sum(as) / (R)length(as);
+    return foldl(op_add<R>, static_cast<R>(0), as) / (R)length(as);
 }
 
 template<typename R, typename As>
 constexpr R rms(const As& as) {
-    return sqrt<R>(mean<R>(map(square<Element<As>>, as)));
+    return sqrt<R>(mean<R>(map(square<R>, as)));
 }
 
 template<typename R, typename As, typename Bs>
 R sse(const As& as, const Bs& bs) {
     const auto square_error = [](const Element<As>& a, const Element<Bs>& b) {
-        return square(a - b);
+        return square(static_cast<R>(a) - static_cast<R>(b));
     };
 
     return sum(map(square_error, as, bs));
@@ -30,7 +30,7 @@ R sse(const As& as, const Bs& bs) {
 template<typename R, typename As, typename Bs>
 R mse(const As& as, const Bs& bs) {
     const auto square_error = [](const Element<As>& a, const Element<Bs>& b) {
-        return square(a - b);
+        return square(static_cast<R>(a) - static_cast<R>(b));
     };
 
     return mean<R>(map(square_error, as, bs));
-- 
2.43.0


From b52949165b9f98b7f536b01eed42f8f0a14b7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 43/50] fix: fixed-point text of a long double far below the
 precision was rounded up

---
 include/efp/fmt/format.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 4e3c797..c37fee3 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3446,8 +3446,11 @@ EFP_FMT_CONSTEXPR20 inline void format_dragon(
     // Generate the given number of digits.
     exp10 -= num_digits - 1;
     if (num_digits <= 0) {
-        denominator *= 10;
-        auto digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        auto digit = '0';
+        if (num_digits == 0) {
+            denominator *= 10;
+            digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        }
         buf.push_back(digit);
         return;
     }
-- 
2.43.0


From fae76c9f012ec0c0334dd0c699673794ef7a457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:27 +0000
Subject: [PATCH 44/50] fix: zeros after the last digit were missing from long
 fixed-point and '#' texts

---
 include/efp/fmt/format.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index c37fee3..53d8c6b 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -2940,7 +2940,9 @@ EFP_FMT_CONSTEXPR20 auto do_write_float(
         });
     } else if (exp > 0) {
         // 1234e-2 -> 12.34[0+]
-        int num_zeros = fspecs.showpoint ? fspecs.precision - significand_size : 0;
+        // The precision counts digits after the point in fixed notation, all of them otherwise.
+        const int num_digits = fspecs.format == float_format::fixed ? -f.exponent : significand_size;
+        int num_zeros = fspecs.showpoint ? fspecs.precision - num_digits : 0;
         size += 1 + to_unsigned(num_zeros > 0 ? num_zeros : 0);
         auto grouping = Grouping(loc, fspecs.locale);
         size += to_unsigned(grouping.count_separators(exp));
@@ -2957,7 +2959,15 @@ EFP_FMT_CONSTEXPR20 auto do_write_float(
         num_zeros = fspecs.precision;
     }
     bool pointy = num_zeros != 0 || significand_size != 0 || fspecs.showpoint;
-    size += 1 + (pointy ? 1 : 0) + to_unsigned(num_zeros);
+    // Zeros after the significand, which holds no more digits than a double can need.
+    int num_tail = 0;
+    if (fspecs.format == float_format::fixed)
+        num_tail = fspecs.precision - num_zeros - significand_size;
+    else if (fspecs.showpoint)
+        num_tail = fspecs.precision - significand_size;
+    if (num_tail < 0)
+        num_tail = 0;
+    size += 1 + (pointy ? 1 : 0) + to_unsigned(num_zeros) + to_unsigned(num_tail);
     return write_padded<align::right>(out, specs, size, [&](iterator it) {
         if (sign)
             *it++ = detail::sign<Char>(sign);
@@ -2966,7 +2976,8 @@ EFP_FMT_CONSTEXPR20 auto do_write_float(
             return it;
         *it++ = decimal_point;
         it = detail::fill_n(it, num_zeros, zero);
-        return write_significand<Char>(it, significand, significand_size);
+        it = write_significand<Char>(it, significand, significand_size);
+        return detail::fill_n(it, num_tail, zero);
     });
 }
 
-- 
2.43.0


From 1d6a58d473476b4f453e24f206c96b55ecc10a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 45/50] fix: a format specification with a point but no
 precision was accepted

---
 include/efp/fmt/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 75db77d..5383c10 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -2564,7 +2564,7 @@ EFP_FMT_CONSTEXPR auto parse_precision(
     basic_format_parse_context<Char>& ctx
 ) -> const Char* {
     ++begin;
-    if (begin == end || *begin == '}') {
+    if (begin == end || (*begin != '{' && !('0' <= *begin && *begin <= '9'))) {
         throw_format_error("invalid precision");
         return begin;
     }
-- 
2.43.0


From 66c67788003f7fada9e31ee4b5788dcd5cdc41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 46/50] fix: _maximum, _sum and _product started from values of
 the wrong type or sign

---
 include/efp/meta.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..46c0453 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,7 +798,7 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, NumericLimits<A>::lowest(), as);
 }
 
 // _minimum :: [A] -> A
@@ -810,13 +810,13 @@ constexpr A _minimum(const A (&as)[n]) {
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, static_cast<A>(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, static_cast<A>(1), as);
 }
 
 // All
-- 
2.43.0


From f5a0da959c2b98b58ebb26f5c859c100de866481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:48 +0000
Subject: [PATCH 47/50] fix: IsInvocableR was false for every call before C++17

---
 include/efp/meta.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 46c0453..a0d3225 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,9 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> decltype(std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-                        type());
+        -> Bool<
+            std::is_void<R>::value
+            || std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::value>;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From 551509384cb1c7ec44aa43a3e85d1030b99c7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 48/50] fix: Allocator::construct takes any arguments, so
 Vector works in freestanding mode

---
 include/efp/allocator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index 76c90f4..cc638cd 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -77,8 +77,9 @@ public:
         return size_type(-1) / sizeof(T);
     }
 
-    void construct(pointer p, const T& t) {
-        new (p) T(t);
+    template<typename U, typename... Args>
+    void construct(U* p, Args&&... args) {
+        new (static_cast<void*>(p)) U(std::forward<Args>(args)...);
     }
 
     void destroy(pointer p) {
-- 
2.43.0


From 72b3651ac1dffba3bfbc9c683debc2859338151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 49/50] fix: Allocator returns storage aligned for over-aligned
 types

---
 include/efp/allocator.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index cc638cd..9bb5bd2 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -66,10 +66,23 @@ public:
     Allocator(const Allocator<U>&) noexcept {}
 
     pointer allocate(size_type n) {
+#if defined(__cpp_aligned_new)
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<pointer>(
+                ::operator new(n * sizeof(T), static_cast<std::align_val_t>(alignof(T)))
+            );
+        }
+#endif
         return static_cast<pointer>(::operator new(n * sizeof(T)));
     }
 
     void deallocate(pointer p, size_type) {
+#if defined(__cpp_aligned_new)
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(p, static_cast<std::align_val_t>(alignof(T)));
+            return;
+        }
+#endif
         ::operator delete(p);
     }
 
-- 
2.43.0


From 4e40aa2260cad183cb921ecd2cfb7e990d1c5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:51 +0000
Subject: [PATCH 50/50] fix: capacity of intercalate over an outer sequence
 that can hold nothing

---
 include/efp/prelude.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index cf13cbb..0cae278 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -310,7 +310,10 @@ using IntercalateReturn = Conditional<
     _all({IsStaticSize<As>::value, IsStaticSize<Ass>::value, IsStaticSize<Element<Ass>>::value}),
     Array<
         Element<Element<Ass>>,
-        CtSize<Ass>::value*(CtSize<Element<Ass>>::value + CtSize<As>::value) - CtSize<As>::value>,
+        CtSize<Ass>::value == 0
+            ? 0
+            : CtSize<Ass>::value*(CtSize<Element<Ass>>::value + CtSize<As>::value)
+                - CtSize<As>::value>,
     Conditional<
         _all(
             {IsStaticCapacity<As>::value,
@@ -319,8 +322,10 @@ using IntercalateReturn = Conditional<
         ),
         ArrVec<
             Element<Element<Ass>>,
-            CtCapacity<Ass>::value*(CtCapacity<Element<Ass>>::value + CtCapacity<As>::value)
-                - CtCapacity<As>::value>,
+            CtCapacity<Ass>::value == 0
+                ? 0
+                : CtCapacity<Ass>::value*(CtCapacity<Element<Ass>>::value + CtCapacity<As>::value)
+                    - CtCapacity<As>::value>,
         Vector<Element<Element<Ass>>>>>;
 
 // intercalate :: [A] -> [[A]] -> [A]
-- 
2.43.0

