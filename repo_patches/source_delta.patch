From c9006aa061ffa19abea04846a4685da912c6768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:57 +0000
Subject: [PATCH 01/43] fix: Test runner lost check and failure counts of the
 last thread when switching to nonconcurrent tests

---
 src/archon/check/noinst/thread_context_impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 27d96bf..8f5bb3c 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,8 +79,8 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
-    clear_counters();
-
+    // Counters must not be cleared here, because they still hold the counts from the
+    // concurrent tests that were executed by run().
     std::unique_lock lock(m_root_context.mutex); // Throws
 
     for (auto entry : m_root_context.nonconcur_execs)
-- 
2.43.0


From 7fad8149d530c246c278b5a00d4f88c67985f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:57 +0000
Subject: [PATCH 02/43] fix: Test runner reported the end of its single thread
 twice when there were only concurrent tests

---
 src/archon/check/noinst/thread_context_impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 8f5bb3c..0c9b32a 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -83,6 +83,10 @@ void ThreadContextImpl::nonconcur_run()
     // concurrent tests that were executed by run().
     std::unique_lock lock(m_root_context.mutex); // Throws
 
+    // If there are no nonconcurrent tests, this thread was already ended by run().
+    if (m_root_context.nonconcur_execs.empty())
+        return;
+
     for (auto entry : m_root_context.nonconcur_execs)
         run(entry, lock); // Throws
 
-- 
2.43.0


From c6faac3fb830d256d8e59efd1e3ec0a38c849353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:57 +0000
Subject: [PATCH 03/43] fix: Deque accessed memory out of bounds when erasing
 elements away from the wrap-around point

---
 src/archon/core/deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..77777ac 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1191,8 +1191,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1237,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 449d642e2ce42c521bfdd082cd5051349ab44300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:34 +0000
Subject: [PATCH 04/43] fix: Deque was emptied when assigned to itself

---
 src/archon/core/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 77777ac..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
-- 
2.43.0


From 4251623399fefa881ce8af66ae809d9636aeb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:34 +0000
Subject: [PATCH 05/43] fix: Vector created too many elements, beyond its
 memory, when a nonempty vector was enlarged by resize()

---
 src/archon/core/impl/vector_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..ad03680 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(std::size_t(size - m_size), data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(std::size_t(size - m_size), value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 34e677cc6ba3b623036b60c7d0452bd52779a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:17 +0000
Subject: [PATCH 06/43] fix: Handle null characters in text when codec output
 buffer becomes full

---
 src/archon/core/impl/char_codec.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index f77cdec..06cf010 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -404,6 +404,12 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
 
     switch (result) {
         case std::codecvt_base::ok:
+            if constexpr (impl::codecvt_quirk_ok_result_on_zero_size_buffer) {
+                // The quirk also shows when the output buffer becomes full right before, or
+                // right after a null character.
+                if (ARCHON_UNLIKELY(to_next == to_end && from_next < from_end))
+                    goto full;
+            }
             goto ok;
         case std::codecvt_base::partial:
             if constexpr (impl::codecvt_quirk_partial_result_on_partial_char) {
@@ -414,6 +420,7 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
                 if (to_next < to_end)
                     goto error;
             }
+          full:
             state = state_2;
             data_offset   = std::size_t(from_next - data.data());
             buffer_offset = std::size_t(to_next - buffer.data());
@@ -515,6 +522,14 @@ bool CharCodec2<C, T>::encode(std::mbstate_t& state, core::Span<const char_type>
 
     switch (result) {
         case std::codecvt_base::ok:
+            if constexpr (impl::codecvt_quirk_ok_result_on_zero_size_buffer) {
+                // The quirk also shows when the output buffer becomes full right before, or
+                // right after a null character.
+                if (ARCHON_UNLIKELY(data_offset < data.size())) {
+                    error = false;
+                    return false;
+                }
+            }
             ARCHON_ASSERT(data_offset == data.size());
             return true;
         case std::codecvt_base::partial:
-- 
2.43.0


From 5417a8f755ccb164b2f60ef7a6d89ee8b26d4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:00 +0000
Subject: [PATCH 07/43] fix: Forget read/write mode of text file when it is
 reopened

---
 src/archon/core/text_file.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/archon/core/text_file.hpp b/src/archon/core/text_file.hpp
index ed10f7a..8f51667 100644
--- a/src/archon/core/text_file.hpp
+++ b/src/archon/core/text_file.hpp
@@ -387,6 +387,8 @@ inline void GenericTextFile<I>::open(core::File file, state_type state) noexcept
 {
     m_file = std::move(file);
     m_impl.reset(state);
+    m_reading = false;
+    m_writing = false;
 }
 
 
@@ -503,6 +505,8 @@ inline bool GenericTextFile<I>::try_open(core::FilesystemPathRef path, Mode mode
     if (ARCHON_LIKELY(m_file.try_open(path, mode, ec))) { // Throws
         state_type state = {};
         m_impl.reset(state);
+        m_reading = false;
+        m_writing = false;
         return true; // Success
     }
     return false; // Failure
@@ -516,6 +520,8 @@ inline bool GenericTextFile<I>::try_open(core::FilesystemPathRef path, AccessMod
     if (ARCHON_LIKELY(m_file.try_open(path, access_mode, create_mode, write_mode, ec))) { // Throws
         state_type state = {};
         m_impl.reset(state);
+        m_reading = false;
+        m_writing = false;
         return true; // Success
     }
     return false; // Failure
-- 
2.43.0


From c7aa139cf55cbab50e53fb5c38dd85ae9d501d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 08/43] fix: pixel boxes: handle distances between positions
 that exceed the integer type

---
 src/archon/util/pixel_box.hpp | 48 +++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/archon/util/pixel_box.hpp b/src/archon/util/pixel_box.hpp
index 0ef5fa1..4d5165a 100644
--- a/src/archon/util/pixel_box.hpp
+++ b/src/archon/util/pixel_box.hpp
@@ -28,6 +28,7 @@
 #include <ostream>
 
 #include <archon/core/features.h>
+#include <archon/core/integer.hpp>
 #include <archon/core/format.hpp>
 #include <archon/util/pixel_size.hpp>
 #include <archon/util/pixel_pos.hpp>
@@ -182,6 +183,25 @@ auto splice(const pixel::Box& x, const pixel::Box& y) noexcept -> pixel::Box;
 // Implementation
 
 
+namespace impl {
+
+
+// Whether the distance from `a` to `b`, which must not be less than `a`, is less than, or at
+// most equal to the specified limit. The distance need not be representable.
+constexpr bool dist_less(int a, int b, int limit) noexcept
+{
+    return core::try_int_sub(b, a) && b < limit;
+}
+
+constexpr bool dist_at_most(int a, int b, int limit) noexcept
+{
+    return core::try_int_sub(b, a) && b <= limit;
+}
+
+
+} // namespace impl
+
+
 constexpr Box::Box(pixel::Size size) noexcept
     : Box({}, size)
 {
@@ -209,10 +229,10 @@ constexpr bool Box::is_empty() const noexcept
 
 constexpr bool Box::intersects(const Box& other) const noexcept
 {
-    bool horz = (pos.x < other.pos.x ? size.width > other.pos.x - pos.x && other.size.width > 0 :
-                 other.size.width > pos.x - other.pos.x && size.width > 0);
-    bool vert = (pos.y < other.pos.y ? size.height > other.pos.y - pos.y && other.size.height > 0 :
-                 other.size.height > pos.y - other.pos.y && size.height > 0);
+    bool horz = (pos.x < other.pos.x ? impl::dist_less(pos.x, other.pos.x, size.width) && other.size.width > 0 :
+                 impl::dist_less(other.pos.x, pos.x, other.size.width) && size.width > 0);
+    bool vert = (pos.y < other.pos.y ? impl::dist_less(pos.y, other.pos.y, size.height) && other.size.height > 0 :
+                 impl::dist_less(other.pos.y, pos.y, other.size.height) && size.height > 0);
     return (horz && vert);
 }
 
@@ -220,9 +240,9 @@ constexpr bool Box::intersects(const Box& other) const noexcept
 constexpr bool Box::contains(const Box& other) const noexcept
 {
     bool horz = (other.pos.x >= pos.x && other.size.width <= size.width &&
-                 other.pos.x - pos.x <= size.width - other.size.width);
+                 impl::dist_at_most(pos.x, other.pos.x, size.width - other.size.width));
     bool vert = (other.pos.y >= pos.y && other.size.height <= size.height &&
-                 other.pos.y - pos.y <= size.height - other.size.height);
+                 impl::dist_at_most(pos.y, other.pos.y, size.height - other.size.height));
     return (horz && vert);
 }
 
@@ -245,29 +265,29 @@ constexpr bool Box::clip(Box& other) const noexcept
     pixel::Size size_2 = other.size;
 
     if (ARCHON_LIKELY(pos_2.x >= pos.x)) {
-        int discr = size.width - (pos_2.x - pos.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.width <= 0))
+        if (ARCHON_UNLIKELY(!impl::dist_less(pos.x, pos_2.x, size.width) || size_2.width <= 0))
             return false;
+        int discr = size.width - (pos_2.x - pos.x);
         size_2.width = std::min(size_2.width, discr);
     }
     else {
-        int discr = size_2.width - (pos.x - pos_2.x);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.width <= 0))
+        if (ARCHON_UNLIKELY(!impl::dist_less(pos_2.x, pos.x, size_2.width) || size.width <= 0))
             return false;
+        int discr = size_2.width - (pos.x - pos_2.x);
         pos_2.x = pos.x;
         size_2.width = std::min(size.width, discr);
     }
 
     if (ARCHON_LIKELY(pos_2.y >= pos.y)) {
-        int discr = size.height - (pos_2.y - pos.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size_2.height <= 0))
+        if (ARCHON_UNLIKELY(!impl::dist_less(pos.y, pos_2.y, size.height) || size_2.height <= 0))
             return false;
+        int discr = size.height - (pos_2.y - pos.y);
         size_2.height = std::min(size_2.height, discr);
     }
     else {
-        int discr = size_2.height - (pos.y - pos_2.y);
-        if (ARCHON_UNLIKELY(discr <= 0 || size.height <= 0))
+        if (ARCHON_UNLIKELY(!impl::dist_less(pos_2.y, pos.y, size_2.height) || size.height <= 0))
             return false;
+        int discr = size_2.height - (pos.y - pos_2.y);
         pos_2.y = pos.y;
         size_2.height = std::min(size.height, discr);
     }
-- 
2.43.0


From 9699d758c09e84e8f051cf4d84a709ec9ec7de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:58 +0000
Subject: [PATCH 09/43] fix: RectanglePacker: allow for packing to be repeated,
 also after a failed packing

---
 src/archon/util/rectangle_packer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index d6c0379..eac19f4 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -277,6 +277,10 @@ void RectanglePacker<T>::get_rect_pos(std::size_t rect_index, std::size_t& bin_i
 template<class T>
 bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std::size_t max_bins)
 {
+    // Discard result of previous packing
+    m_bins.clear();
+    m_nodes.clear();
+
     if (ARCHON_UNLIKELY(m_margin > bin_width  || m_margin > bin_width  - m_margin ||
                         m_margin > bin_height || m_margin > bin_height - m_margin))
         return false;
@@ -296,8 +300,6 @@ bool RectanglePacker<T>::do_pack(comp_type bin_width, comp_type bin_height, std:
     });
 
     // Place rectangles
-    ARCHON_ASSERT(m_nodes.empty());
-    ARCHON_ASSERT(m_bins.empty());
     auto add_node = [&](comp_type x, comp_type y, comp_type w, comp_type h) {
         bool occupied = false;
         std::size_t right_node = std::size_t(-1);
-- 
2.43.0


From bda81a3735ec11b76925b24ef515dffbfb2fb040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:47 +0000
Subject: [PATCH 10/43] fix: RectanglePacker: suggested bin width: account for
 spacing below rectangles, and do not fail when total area is large

---
 src/archon/util/rectangle_packer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/util/rectangle_packer.hpp b/src/archon/util/rectangle_packer.hpp
index eac19f4..ea2ed63 100644
--- a/src/archon/util/rectangle_packer.hpp
+++ b/src/archon/util/rectangle_packer.hpp
@@ -166,7 +166,7 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
             part_type w = part_type(rect.w);
             part_type h = part_type(rect.h);
             if (ARCHON_LIKELY(core::try_int_add(w, m_spacing) &&
-                              core::try_int_add(w, m_spacing))) {
+                              core::try_int_add(h, m_spacing))) {
                 part_type a = w;
                 if (ARCHON_LIKELY(core::try_int_mul(a, h) && core::try_int_add(area, a)))
                     continue;
@@ -194,8 +194,8 @@ auto RectanglePacker<T>::suggest_bin_width() const noexcept -> comp_type
         // Need to be able to hold area of a rectangle whose sides lengths are
         // max_image_wisth + spacing and max_image_height + spacing.
         constexpr int bits = 2 * (core::num_value_bits<comp_type>() + 1);
-        constexpr int num_parts = bits / core::int_width<part_type>();
-        ARCHON_ASSERT(num_parts > 1); // Otherwise the attempt above would have succeeded
+        constexpr int part_width = core::int_width<part_type>();
+        constexpr int num_parts = (bits + part_width - 1) / part_width;
         constexpr bool is_signed = false;
         using mul_prec_type = core::MulPrecInt<part_type, num_parts, is_signed>;
         mul_prec_type spacing = mul_prec_type(m_spacing);
-- 
2.43.0


From a46421c3e744ef07753ca1d762b6498bdd5bdef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 11/43] fix: Image reader: do not divide by zero when the
 palette has no colors

---
 src/archon/image/reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/image/reader.cpp b/src/archon/image/reader.cpp
index d240c37..1cbe0b3 100644
--- a/src/archon/image/reader.cpp
+++ b/src/archon/image/reader.cpp
@@ -320,7 +320,8 @@ void Reader::instantiate_palette_cache()
         constexpr image::CompRepr repr = tag.comp_repr;
         using comp_type = image::comp_type<repr>;
         std::unique_ptr<comp_type[]> palette_entries = std::make_unique<comp_type[]>(buffer_size); // Throws
-        int num_full_rows = int(m_palette_size / palette_image_size.width);
+        // Note that the palette image can have zero width when the palette is empty
+        int num_full_rows = (m_palette_size > 0 ? int(m_palette_size / palette_image_size.width) : 0);
         std::ptrdiff_t horz_stride = m_num_channels_ext;
         std::ptrdiff_t vert_stride = palette_image_size.width * m_num_channels_ext;
         image::Iter iter = { palette_entries.get(), horz_stride, vert_stride };
-- 
2.43.0


From c45dae42d2a09b6299517c98c01795cfd88629e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 12/43] fix: avoid shift by full type width when reading
 single-word integer components

When a component occupies a single word whose width is that of the unpacked
component type (e.g. 32-bit and 64-bit integer formats), read_comp() shifted
by the full width of the type, which is undefined behavior.
---
 src/archon/image/integer_pixel_format.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/integer_pixel_format.hpp b/src/archon/image/integer_pixel_format.hpp
index f129b0f..3a12be4 100644
--- a/src/archon/image/integer_pixel_format.hpp
+++ b/src/archon/image/integer_pixel_format.hpp
@@ -417,8 +417,9 @@ auto IntegerPixelFormat<C, W, B, S, D, E, F, G>::read_comp(const word_type* pixe
         return *channel_ptr;
     }
     else {
-        unpacked_comp_type comp = 0;
-        for (int i = 0; i < words_per_channel; ++i) {
+        // Avoid shifting by the full width of the type when there is only one word
+        unpacked_comp_type comp = image::unpack_int<bits_per_word>(channel_ptr[map_word_index(0)]);
+        for (int i = 1; i < words_per_channel; ++i) {
             int j = map_word_index(i);
             comp <<= bits_per_word;
             comp |= image::unpack_int<bits_per_word>(channel_ptr[j]);
-- 
2.43.0


From 75b0e0bee01923c6f4c1b7193687bcadc557c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 13/43] fix: channel order and words per channel when casting
 to integer buffer formats

In a packed format with big-endian word order, the first word is the most
significant one, so channels occur in memory in the order of the bit fields.
They are reversed with little-endian word order, not the other way around.

When a subword format is cast to a byte-based integer format, the number of
bytes per channel is the channel width, and not the word width, in bytes.
---
 src/archon/image/buffer_format.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/buffer_format.cpp b/src/archon/image/buffer_format.cpp
index f1396e6..a053c0e 100644
--- a/src/archon/image/buffer_format.cpp
+++ b/src/archon/image/buffer_format.cpp
@@ -165,7 +165,9 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                 word_order,
                 packed.channel_conf,
             };
-            if (word_order == core::Endianness::big)
+            // When the first word of a bit compound is the least significant one, the
+            // channels occur in reverse order in memory.
+            if (packed.word_order == core::Endianness::little)
                 format.channel_conf.reverse();
             return true;
         }
@@ -206,7 +208,7 @@ bool BufferFormat::try_cast_to(IntegerFormat& format, IntegerType word_type) con
                             return false;
                     }
                     int bits_per_word_2 = bits_per_byte;
-                    int words_per_channel = bytes_per_word;
+                    int words_per_channel = subword.bits_per_channel / bits_per_byte;
                     core::Endianness word_order = byte_order;
                     ChannelConf channel_conf = subword.channel_conf;
                     if (byte_order == core::Endianness::little)
-- 
2.43.0


From 669ceb1f1f70f348fbbdc34d5abddca8ca6c723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:47 +0000
Subject: [PATCH 14/43] fix: two's complement casts between types narrower than
 int

The expected sign extension was computed in the promoted type, so negative
values could not be cast from, e.g., unsigned short to unsigned char.
---
 src/archon/core/integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/integer.hpp b/src/archon/core/integer.hpp
index 7418368..f8cd7f9 100644
--- a/src/archon/core/integer.hpp
+++ b/src/archon/core/integer.hpp
@@ -1478,7 +1478,7 @@ template<class T, class F> constexpr bool can_twos_compl_cast(F val) noexcept
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(val) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = F(~((sign_bit << 1) - 1));
             auto actual_sign_extension = core::promote(val) & (core::promote(F(-1)) << width_t);
             return (actual_sign_extension == expected_sign_extension);
         }
@@ -1503,7 +1503,7 @@ template<class T, class F> constexpr bool try_twos_compl_cast(F from, T& to) noe
         else {
             static_assert(width_t < width_f);
             auto sign_bit = core::promote(from) & (core::promote(F(1)) << (width_t - 1));
-            auto expected_sign_extension = ~((sign_bit << 1) - 1);
+            auto expected_sign_extension = F(~((sign_bit << 1) - 1));
             auto actual_sign_extension = core::promote(from) & (core::promote(F(-1)) << width_t);
             if (ARCHON_LIKELY(actual_sign_extension == expected_sign_extension)) {
                 to = T(from);
-- 
2.43.0


From 861dfdc46a3b69320748469eab47be45ab4a931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:32 +0000
Subject: [PATCH 15/43] fix: lenient Unicode conversions place the replacement
 character after the output so far

They passed the caller's buffer offset, which is only updated at the end, so a
replacement overwrote earlier output and was itself lost.
---
 src/archon/core/unicode.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/archon/core/unicode.hpp b/src/archon/core/unicode.hpp
index 87a6c2e..08173ce 100644
--- a/src/archon/core/unicode.hpp
+++ b/src/archon/core/unicode.hpp
@@ -1392,7 +1392,7 @@ void encode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1449,7 +1449,7 @@ void decode_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::siz
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1502,7 +1502,7 @@ void encode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1559,7 +1559,7 @@ void decode_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::si
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1613,7 +1613,7 @@ void utf8_to_utf16_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
         char_type replacement[] = {
             traits_type::to_char_type(0xFFFD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
@@ -1669,7 +1669,7 @@ void utf16_to_utf8_l(core::StringSpan<C> string, core::Buffer<D>& buffer, std::s
             traits_type::to_char_type(0xBF),
             traits_type::to_char_type(0xBD),
         };
-        buffer.append(replacement, buffer_offset); // Throws
+        buffer.append(replacement, buffer_offset_2); // Throws
     }
 }
 
-- 
2.43.0


From 39c1ffcd0d53d03b5d08f974a86844265e86f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:32 +0000
Subject: [PATCH 16/43] fix: utf8_to_native_mb_transcoder appends at the
 specified buffer offset

It always started at the beginning of the buffer.
---
 src/archon/core/unicode_bridge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index 28fc774..99cb81e 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -149,7 +149,7 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
     std::size_t string_size = string.size();
     core::WideCharCodec codec(m_locale); // Throws
     std::mbstate_t state = {};
-    std::size_t buffer_offset_3 = 0;
+    std::size_t buffer_offset_3 = buffer_offset;
     while (string_offset < string_size) {
         std::size_t buffer_offset_2 = 0;
         for (;;) {
-- 
2.43.0


From b01e4e20e223d076f7545ce7c15c969fc1c3c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 17/43] fix: utf8_to_native_mb_transcoder copes with
 unencodable characters and small buffers

It neither expanded the buffer when it was full nor handled characters that the
locale cannot express, and failed an assertion in both cases.
---
 src/archon/core/unicode_bridge.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index 99cb81e..c56d915 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -147,7 +147,9 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
     std::array<wchar_t, 64> buffer_2;
     std::size_t string_offset = 0;
     std::size_t string_size = string.size();
-    core::WideCharCodec codec(m_locale); // Throws
+    core::WideCharCodec::Config config;
+    config.lenient = true; // Automatically produce replacement characters for unencodable input
+    core::WideCharCodec codec(m_locale, config); // Throws
     std::mbstate_t state = {};
     std::size_t buffer_offset_3 = buffer_offset;
     while (string_offset < string_size) {
@@ -170,8 +172,14 @@ void utf8_to_native_mb_transcoder::transcode_l(core::StringSpan<char> string, co
         if (ARCHON_LIKELY(m_is_unicode_locale && !force_fallback)) {
             std::size_t string_offset_2 = 0;
             bool error_2 = {};
-            bool complete = codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3, error_2); // Throws
-            ARCHON_ASSERT(complete);
+            for (;;) {
+                bool complete = codec.encode(state, string_2, string_offset_2, buffer, buffer_offset_3,
+                                             error_2); // Throws
+                if (ARCHON_LIKELY(complete))
+                    break;
+                ARCHON_ASSERT(!error_2); // Because lenient mode is used
+                buffer.expand(buffer_offset_3); // Throws
+            }
             ARCHON_ASSERT(string_offset_2 == string_2.size());
         }
         else {
-- 
2.43.0


From a28031cfa661a3a852027639e5d4bdf3e1055f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:07 +0000
Subject: [PATCH 18/43] fix: native_mb_to_utf8_transcoder is lenient about
 non-character code points

It threw when the native text contained U+FFFE or U+FFFF.
---
 src/archon/core/unicode_bridge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/unicode_bridge.cpp b/src/archon/core/unicode_bridge.cpp
index c56d915..ed2f078 100644
--- a/src/archon/core/unicode_bridge.cpp
+++ b/src/archon/core/unicode_bridge.cpp
@@ -88,7 +88,7 @@ void native_mb_to_utf8_transcoder::transcode_l(core::StringSpan<char> string, co
         ARCHON_ASSERT(!error); // Because lenient mode is used
         std::wstring_view string_2 = { buffer_2.data(), buffer_offset_3 };
         if (ARCHON_LIKELY(m_is_unicode_locale && !force_fallback)) {
-            core::encode_utf8<wchar_t>(string_2, buffer, buffer_offset_2); // Throws
+            core::encode_utf8_l<wchar_t>(string_2, buffer, buffer_offset_2); // Throws
         }
         else {
             m_char_mapper.narrow(string_2, '\0', buffer_3.data()); // Throws
-- 
2.43.0


From b5e1e8bf991c823f273b5d63f2400762c5e428cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:30 +0000
Subject: [PATCH 19/43] fix: Base64 decoder accepts padding

It did not advance past padding characters, and took the end of padded input for
a premature end, so no padded text could be decoded.
---
 src/archon/core/base64.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/base64.cpp b/src/archon/core/base64.cpp
index 7a95f2c..6737cbb 100644
--- a/src/archon/core/base64.cpp
+++ b/src/archon/core/base64.cpp
@@ -424,6 +424,7 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         if (ARCHON_LIKELY(is_padding)) {
             bool allow_padding = (m_config.padding != DecodeConfig::Padding::reject);
             if (ARCHON_LIKELY(allow_padding && valid_partial())) {
+                ++data_begin;
                 ++m_padding_size;
                 if (ARCHON_LIKELY(m_holding_size + m_padding_size < 4))
                     goto input;
@@ -439,9 +440,9 @@ bool IncrementalDecoder::decode(const char*& data_begin, const char* data_end, b
         bool require_padding = (m_config.padding == DecodeConfig::Padding::require);
         if (ARCHON_LIKELY(!require_padding && valid_partial()))
             goto partial;
-        if (ARCHON_LIKELY(m_holding_size == 0))
-            return true;
     }
+    if (ARCHON_LIKELY(m_holding_size == 0))
+        return true;
     return false; // Prematute end of input
 
   batch:
-- 
2.43.0


From 38624d5f2649202ca0515b5d8a8b4a2d0612c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:30 +0000
Subject: [PATCH 20/43] fix: Base64 decoding of bad input is not mistaken for
 lack of buffer space

When the buffer happened to be exactly full (or empty) at the point of the bad
input, a lack of space was reported, and core::base64::decode() into a
core::Buffer failed an assertion instead of throwing.
---
 src/archon/core/base64.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..ff2abbf 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -201,6 +201,13 @@ public:
     bool decode(const char*& data_begin, const char* data_end, bool end_of_input,
                 char*& buffer_begin, char* buffer_end) noexcept;
 
+    /// \brief Whether there is output waiting for buffer space.
+    ///
+    /// After an unsuccessful decode operation, this function returns true when, and only
+    /// when the operation stopped due to lack of buffer space.
+    ///
+    bool is_holding_output() const noexcept;
+
 private:
     DecodeConfig m_config;
     bool m_holding_output = false;
@@ -288,7 +295,7 @@ inline bool decode(std::string_view data, core::Span<char> buffer, std::size_t&
         size = std::size_t(buffer_begin - buffer.data());
         return true;
     }
-    insufficient_buffer_space = (buffer_begin == buffer_end);
+    insufficient_buffer_space = decoder.is_holding_output();
     return false;
 }
 
@@ -459,6 +466,12 @@ inline IncrementalDecoder::IncrementalDecoder(DecodeConfig config) noexcept
 }
 
 
+inline bool IncrementalDecoder::is_holding_output() const noexcept
+{
+    return m_holding_output;
+}
+
+
 } // namespace archon::core::base64
 
 #endif // ARCHON_X_CORE_X_BASE64_HPP
-- 
2.43.0


From b647eb4d5ae8adb500faadc4cec52739cf4bd16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:23 +0000
Subject: [PATCH 21/43] fix: KnuthWrapper::wrap() left the badness of an
 earlier invocation in place when there were fewer than two words

---
 src/archon/core/word_wrap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/word_wrap.cpp b/src/archon/core/word_wrap.cpp
index 3647a4e..2b5d201 100644
--- a/src/archon/core/word_wrap.cpp
+++ b/src/archon/core/word_wrap.cpp
@@ -108,6 +108,7 @@ void KnuthWrapper::wrap(core::Span<const word_wrap::Word> words, std::size_t tra
     // To "move down" means to "break onto a new output line".
 
     breakpoints.clear();
+    m_badness = 0;
 
     std::size_t num_words = words.size();
     if (ARCHON_UNLIKELY(num_words < 2))
-- 
2.43.0


From c3bdd9a80a194b79c0da76adf505fef1b0e3f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 22/43] fix: StringTemplate parser keeps a copy of the locale
 rather than a reference that may dangle

---
 src/archon/core/string_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/string_template.hpp b/src/archon/core/string_template.hpp
index 187a6bf..9a4c3dc 100644
--- a/src/archon/core/string_template.hpp
+++ b/src/archon/core/string_template.hpp
@@ -337,7 +337,7 @@ private:
     template<class F> class FuncCallErrorHandler;
 
     core::BasicStringFormatter<char_type, traits_type> m_string_formatter;
-    const std::locale& m_locale;
+    std::locale m_locale;
     core::ArraySeededBuffer<Substitution, 8> m_buffer;
 
     void do_parse(const char* c_str, const Parameters&, BasicStringTemplate&);
-- 
2.43.0


From 0b0836d4df95264bfb18e9cee35f1959b5614b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:09 +0000
Subject: [PATCH 23/43] fix: CSS color name yellowgreen was missing

---
 src/archon/util/colors.hpp    | 1 +
 src/archon/util/css_color.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/util/colors.hpp b/src/archon/util/colors.hpp
index 9afca3e..ff96caa 100644
--- a/src/archon/util/colors.hpp
+++ b/src/archon/util/colors.hpp
@@ -184,6 +184,7 @@ inline constexpr auto wheat                = util::Color::from_trgb(0x00F5DEB3);
 inline constexpr auto white                = util::Color::from_trgb(0x00FFFFFF);
 inline constexpr auto whitesmoke           = util::Color::from_trgb(0x00F5F5F5);
 inline constexpr auto yellow               = util::Color::from_trgb(0x00FFFF00);
+inline constexpr auto yellowgreen          = util::Color::from_trgb(0x009ACD32);
 
 
 } // namespace archon::util::colors
diff --git a/src/archon/util/css_color.cpp b/src/archon/util/css_color.cpp
index 321cb0c..ceb7b1e 100644
--- a/src/archon/util/css_color.cpp
+++ b/src/archon/util/css_color.cpp
@@ -270,6 +270,7 @@ constexpr NamedColorEntry g_named_colors[] = {
     { "white",                colors::white,                true  },
     { "whitesmoke",           colors::whitesmoke,           false },
     { "yellow",               colors::yellow,               true  },
+    { "yellowgreen",          colors::yellowgreen,          false },
 };
 
 
-- 
2.43.0


From a34434eebd3ef0a1cc047dc6c169409a9b036252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 24/43] fix: as_list() with loose spacing wrote two spaces
 inside the brackets of an empty list

---
 src/archon/core/as_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index 01315cf..c987659 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -307,7 +307,7 @@ auto format_as_list(std::basic_ostream<C, T>& out, I begin, I end, F&& func,
             space_after_separator = true;
             break;
         case core::AsListSpace::loose:
-            space_inside_brackets = true;
+            space_inside_brackets = (begin != end);
             space_after_separator = true;
             break;
     }
-- 
2.43.0


From fb2d857dbaa28f495a215c7eea8412d94cf3f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 25/43] fix: empty bracketed list did not parse

---
 src/archon/core/as_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index c987659..d47c02c 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -416,7 +416,7 @@ bool parse_as_list(core::BasicValueParserSource<C, T>& src, I begin, I end, I& r
             return false; // Error
         }
     }
-    if (ARCHON_LIKELY(str.empty())) {
+    if (ARCHON_LIKELY(begin_2 == end_2)) {
         reached = end;
         return true; // Trivial success
     }
-- 
2.43.0


From b6df75bf4d10b22e587a2bb6a518529abc3dadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 26/43] fix: parsing of list with elision ignored the minimum
 number of elements

---
 src/archon/core/as_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/core/as_list.hpp b/src/archon/core/as_list.hpp
index d47c02c..e3e0412 100644
--- a/src/archon/core/as_list.hpp
+++ b/src/archon/core/as_list.hpp
@@ -528,6 +528,8 @@ bool parse_value(core::BasicValueParserSource<C, T>& src, const impl::AsListA<V>
         if (ARCHON_LIKELY(!pod.seq.empty())) {
             std::size_t elision_offset = std::size_t(reached - begin);
             ARCHON_ASSERT(elision_offset > 0);
+            if (ARCHON_UNLIKELY(elision_offset < std::min(pod.min_elems, pod.seq.size())))
+                return false; // Failure
             V fill_val = {}; // Throws
             if (ARCHON_UNLIKELY(pod.copy_last))
                 fill_val = pod.seq[elision_offset - 1]; // Throws
@@ -578,6 +580,8 @@ bool parse_value(core::BasicValueParserSource<C, T>& src, const impl::AsListFunc
         if (ARCHON_LIKELY(!pod.seq.empty())) {
             std::size_t elision_offset = std::size_t(reached - begin);
             ARCHON_ASSERT(elision_offset > 0);
+            if (ARCHON_UNLIKELY(elision_offset < std::min(pod.min_elems, pod.seq.size())))
+                return false; // Failure
             V fill_val = {}; // Throws
             if (ARCHON_UNLIKELY(pod.copy_last))
                 fill_val = pod.seq[elision_offset - 1]; // Throws
-- 
2.43.0


From a54ed74b690309e63b751d4a5572afab6ab113cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 27/43] fix: failed parsing of value could modify the target
 variable

---
 src/archon/core/value_parser.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/value_parser.hpp b/src/archon/core/value_parser.hpp
index 1e51812..e1fa175 100644
--- a/src/archon/core/value_parser.hpp
+++ b/src/archon/core/value_parser.hpp
@@ -328,8 +328,20 @@ template<class V> bool BasicValueParserSource<C, T>::do_parse(V& var)
     goto parse;
   parse:
     m_in.reset(m_string); // Throws
-    m_in >> var; // Throws
-    return (m_in && m_in.peek() == T::eof()); // Throws
+    if constexpr (std::is_scalar_v<type>) {
+        // Leave target untouched when parsing fails
+        type val = {};
+        m_in >> val; // Throws
+        if (ARCHON_LIKELY(m_in && m_in.peek() == T::eof())) { // Throws
+            var = val;
+            return true;
+        }
+        return false;
+    }
+    else {
+        m_in >> var; // Throws
+        return (m_in && m_in.peek() == T::eof()); // Throws
+    }
 }
 
 
-- 
2.43.0


From c6aaa0a74757e1e5a71c520a956c2e368ae8ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 28/43] fix: structural ambiguity in pattern was reported as
 bad syntax

---
 src/archon/cli/impl/spec_parser.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/archon/cli/impl/spec_parser.hpp b/src/archon/cli/impl/spec_parser.hpp
index 5d0716d..56e21b8 100644
--- a/src/archon/cli/impl/spec_parser.hpp
+++ b/src/archon/cli/impl/spec_parser.hpp
@@ -126,7 +126,7 @@ private:
     void extract_next_token();
 
     template<class... P> [[noreturn]] void parse_error(const char* message, const P&... params) const;
-    template<class... P> [[noreturn]] void error(const char* message, const P&... params) const;
+    template<class... P> [[noreturn]] void error(cli::SpecError code, const char* message, const P&... params) const;
     template<class... P> auto format_except(const char* message, const P&... params) const -> std::string;
 
     bool get_option_forms(std::size_t node_index, core::BufferContents<OptionForm>&) const;
@@ -495,7 +495,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // not be clear whether the std::optional object associated with the
                 // outer-most optionality construct should have a value.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Optionality construct with nullable sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::opt;
@@ -515,7 +516,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // clear how many elements should be in the std::vector object associated
                 // with the repetition construct.
                 if (ARCHON_UNLIKELY(level.seq.nullable)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Repetition construct with nullable sub-pattern"); // Throws
                 }
                 // This repetition construct has internal ambiguity if there is some
@@ -528,7 +530,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                 // should have one and two elements respectively, or whether it should be
                 // the other way around (2 elements in the outer-most std::vector object).
                 if (ARCHON_UNLIKELY(level.seq.repeating)) {
-                    parser.error("Pattern-internal structural ambiguity: "
+                    parser.error(cli::SpecError::structural_ambiguity,
+                                 "Pattern-internal structural ambiguity: "
                                  "Repetition construct with repeating sub-pattern"); // Throws
                 }
                 typename Elem::Type type = Elem::Type::rep;
@@ -564,7 +567,8 @@ auto SpecParser<C, T>::PatternStructureRecorder::record(std::size_t node_index,
                         // alternatives construct should have its first or second
                         // alternative materialized.
                         if (ARCHON_UNLIKELY(level.alt.multiple_nullable_seqs)) {
-                            parser.error("Pattern-internal structural ambiguity: "
+                            parser.error(cli::SpecError::structural_ambiguity,
+                                         "Pattern-internal structural ambiguity: "
                                          "Alternatives construct with multiple nullable branches"); // Throws
                         }
                         typename Elem::Type type = Elem::Type::alt;
@@ -874,18 +878,18 @@ void SpecParser<C, T>::extract_next_token()
 template<class C, class T>
 template<class... P> inline void SpecParser<C, T>::parse_error(const char* message, const P&... params) const
 {
-    error("Failed to parse %s specification: %s", m_error_qualifier.component,
+    error(m_error_qualifier.code, "Failed to parse %s specification: %s", m_error_qualifier.component,
           core::formatted(message, params...)); // Throws
 }
 
 
 template<class C, class T>
-template<class... P> void SpecParser<C, T>::error(const char* message, const P&... params) const
+template<class... P> void SpecParser<C, T>::error(cli::SpecError code, const char* message, const P&... params) const
 {
     std::string message_2 = format_except("Error in %s %s specification: %s",
                                           core::as_ordinal(1 + m_error_qualifier.index), m_error_qualifier.entity,
                                           core::formatted(message, params...)); // Throws
-    throw cli::BadSpec(m_error_qualifier.code, std::move(message_2));
+    throw cli::BadSpec(code, std::move(message_2));
 }
 
 
-- 
2.43.0


From 53b21b03eaf9711184df3831a53a41628f981bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 29/43] fix: failure of pattern function was not reported by
 cli::process()

---
 src/archon/cli/processor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/cli/processor.hpp b/src/archon/cli/processor.hpp
index 273b52c..5856f85 100644
--- a/src/archon/cli/processor.hpp
+++ b/src/archon/cli/processor.hpp
@@ -437,7 +437,7 @@ bool BasicProcessor<C, T>::process(int& exit_status) const
                                                       error_accum, exit_status_2); // Throws
                 if (ARCHON_LIKELY(success)) {
                     bool completing = ((pattern->attr & cli::completing) != 0);
-                    if (ARCHON_LIKELY(!completing))
+                    if (ARCHON_LIKELY(!completing && exit_status_2 == EXIT_SUCCESS))
                         return false;
                     exit_status = exit_status_2;
                     return true;
-- 
2.43.0


From 8495be7ac2e8ca18ea601adf7059187fc1fabb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 30/43] fix: assertion failure when branch index is passed for
 alternatives

---
 src/archon/cli/impl/pattern_args_parser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/cli/impl/pattern_args_parser.hpp b/src/archon/cli/impl/pattern_args_parser.hpp
index c5600b3..9bcc019 100644
--- a/src/archon/cli/impl/pattern_args_parser.hpp
+++ b/src/archon/cli/impl/pattern_args_parser.hpp
@@ -400,7 +400,7 @@ private:
         }
         else if constexpr (std::is_same_v<U, std::size_t>) {
             if (ARCHON_LIKELY(desc.elem->type != Elem::Type::opt)) {
-                if (ARCHON_LIKELY(desc.elem->type != Elem::Type::rep))
+                if (ARCHON_LIKELY(desc.elem->type != Elem::Type::rep && desc.elem->type != Elem::Type::alt))
                     goto regular;
             }
             else {
@@ -413,8 +413,8 @@ private:
                 ARCHON_ASSERT(desc.elem->type == Elem::Type::rep);
             }
             ARCHON_ASSERT(desc.elem->collapsible);
-            std::size_t num_repetitions = desc.value;
-            elem = num_repetitions;
+            // Number of repetitions, or index of branch in alternatives construct
+            elem = desc.value;
             return true;
         }
         goto regular;
-- 
2.43.0


From 7534c98b3dbaa0fd2b196132bb590aad18717968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 31/43] fix: option without argument was accepted for action
 that requires one

---
 src/archon/cli/impl/spec.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/archon/cli/impl/spec.hpp b/src/archon/cli/impl/spec.hpp
index 3d78dfe..06a04ae 100644
--- a/src/archon/cli/impl/spec.hpp
+++ b/src/archon/cli/impl/spec.hpp
@@ -322,10 +322,10 @@ void Spec<C, T>::add_option(core::IndexRange forms, ArgSpec arg, int attr, strin
             error(cli::SpecError::option_func_mismatch,
                   "Option action does not accept an option argument"); // Throws
         }
-        if (ARCHON_UNLIKELY(!arg.require && action.require_arg())) {
-            error(cli::SpecError::option_func_mismatch,
-                  "Option action does not allow for option argument to be optional"); // Throws
-        }
+    }
+    if (ARCHON_UNLIKELY(!arg.require && action.require_arg())) {
+        error(cli::SpecError::option_func_mismatch,
+              "Option action does not allow for option argument to be absent"); // Throws
     }
 
     // Verify that no option form is used in previously added option
-- 
2.43.0


From d18f2765723cd1b93a5fefc9fd8b7270ea1bec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 32/43] fix: conditional assign option action with default
 could not be used

---
 src/archon/cli/option_actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/cli/option_actions.hpp b/src/archon/cli/option_actions.hpp
index 95ce51e..38479aa 100644
--- a/src/archon/cli/option_actions.hpp
+++ b/src/archon/cli/option_actions.hpp
@@ -47,7 +47,7 @@ auto lower_flag(bool& flag);
 template<class R> auto assign(R&& ref);
 template<class R, class D> auto assign(R&& ref, D&& default_arg);
 template<class R, class E> auto assign_c(R&& ref, E&& cond);
-template<class R, class E, class D> auto assign_c(R& ref, E&& cond, D&& default_arg);
+template<class R, class E, class D> auto assign_c(R&& ref, E&& cond, D&& default_arg);
 template<class F> auto exec(F&& func);
 template<class F, class D> auto exec(F&& func, D&& default_arg);
 template<class F, class E> auto exec_c(F&& func, E&& cond);
-- 
2.43.0


From 7730f70b52b6bf9c5da8dbc938cbcff21f9be403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 33/43] fix: jail logger did not compile

---
 src/archon/log/jail_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/jail_logger.hpp b/src/archon/log/jail_logger.hpp
index 6560568..8da1d90 100644
--- a/src/archon/log/jail_logger.hpp
+++ b/src/archon/log/jail_logger.hpp
@@ -51,7 +51,7 @@ namespace archon::log {
 /// connected to any channel in the target logger.
 ///
 template<class C, class T = std::char_traits<C>> class BasicJailLogger final
-    : private log::BasicCannelMap<C, T>
+    : private log::BasicChannelMap<C, T>
     , public log::BasicLogger<C, T> {
 public:
     using prefix_type  = log::BasicPrefix<C, T>;
@@ -69,7 +69,7 @@ private:
 
     BasicJailLogger(logger_type& target_logger, channel_type& target_channel) noexcept;
 
-    // Overriding functions from log::BasicCannelMap<C, T>
+    // Overriding functions from log::BasicChannelMap<C, T>
     auto do_get_channels() const noexcept -> core::Span<const channel_type> override;
 };
 
-- 
2.43.0


From 4ec4cd9b3665a6867c489b9fdb67ecb78bac96fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 34/43] fix: changing limit of logger with variable limit
 failed on assertion

---
 src/archon/log/limit_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index a7ade20..f398f57 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -102,7 +102,7 @@ public:
 
     void set(LogLevel limit) noexcept
     {
-        ARCHON_ASSERT(m_fixed_limit != std::numeric_limits<int>::max());
+        ARCHON_ASSERT(m_fixed_limit == std::numeric_limits<int>::max());
         m_variable_limit.store(limit, std::memory_order_relaxed);
     }
 
-- 
2.43.0


From e01527ff021a689e8e35d64636c0b0450240086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 35/43] fix: limit applied to selected channel even when it
 does not match pattern

---
 src/archon/log/limit_logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archon/log/limit_logger.hpp b/src/archon/log/limit_logger.hpp
index f398f57..dca8e74 100644
--- a/src/archon/log/limit_logger.hpp
+++ b/src/archon/log/limit_logger.hpp
@@ -224,7 +224,8 @@ inline void BasicLimitLogger<C, T>::set_log_level_limit(log::LogLevel limit) noe
 
 template<class C, class T>
 inline BasicLimitLogger<C, T>::BasicLimitLogger(Interm&& i, int fixed_limit) noexcept
-    : logger_type(fixed_limit, m_limit, i.prefix, *i.channel, *this)
+    : logger_type(&i.channel->get_limit() == &m_limit ? fixed_limit : i.channel->get_limit().get_fixed_limit(),
+                  i.channel->get_limit(), i.prefix, *i.channel, *this)
     , m_limit(fixed_limit)
     , m_sinks(std::move(i.sinks))
     , m_channels(std::move(i.channels))
-- 
2.43.0


From 6cdda2ccf43c181c79c6c5af23879e92356e28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:11 +0000
Subject: [PATCH 36/43] fix: prefix of base logger misplaced by encoding logger

---
 src/archon/log/impl/encoding_logger_impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/impl/encoding_logger_impl.hpp b/src/archon/log/impl/encoding_logger_impl.hpp
index 48931a7..b028356 100644
--- a/src/archon/log/impl/encoding_logger_impl.hpp
+++ b/src/archon/log/impl/encoding_logger_impl.hpp
@@ -244,8 +244,10 @@ inline void EncodingLoggerImpl2<C, T>::SinkImpl::sink_log(log::LogLevel log_leve
                                                           const prefix_type& message_prefix, string_view_type message)
 {
     core::ArraySeededBuffer<char, channel_type::format_seed_memory_size> buffer;
-    BridgingPrefix channel_prefix_2(m_base_channel_prefix, channel_prefix);
-    BridgingPrefix message_prefix_2(m_base_message_prefix, message_prefix);
+    log::CompoundPrefix base_prefix(m_base_channel_prefix, m_base_message_prefix);
+    BridgingPrefix channel_prefix_2(base_prefix, channel_prefix);
+    log::NullPrefix null_prefix;
+    BridgingPrefix message_prefix_2(null_prefix, message_prefix);
     std::string_view message_2 = m_string_codec.encode(message, buffer); // Throws
     m_base_sink.sink_log(log_level, channel_prefix_2, message_prefix_2, message_2); // Throws
 }
-- 
2.43.0


From 4a2b58db0ff0ea88460d01de5cc994a8c8a24593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:08 +0000
Subject: [PATCH 37/43] fix: identify types across translation units

A constant variable template may get internal linkage (it does with GCC 13), in which case
the identifier of a type differed from one translation unit to the next, and objects
registered by type, such as the PNG-specific save parameters, were not found.
---
 src/archon/core/impl/type_ident_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/impl/type_ident_impl.hpp b/src/archon/core/impl/type_ident_impl.hpp
index fa7df37..082cf98 100644
--- a/src/archon/core/impl/type_ident_impl.hpp
+++ b/src/archon/core/impl/type_ident_impl.hpp
@@ -43,7 +43,7 @@ using type_ident_type = std::uintptr_t;
 struct TypeIdentHelper {};
 
 
-template<class> constexpr impl::TypeIdentHelper type_ident_helper;
+template<class> inline constexpr impl::TypeIdentHelper type_ident_helper;
 
 
 template<class T> inline bool try_get_type_ident(impl::type_ident_type& ident) noexcept
-- 
2.43.0


From 829aeef407f83fe9c402e04ac9a3599c72153097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:08 +0000
Subject: [PATCH 38/43] fix: do not interlace with swapped bits when saving PNG

libpng extracts the pixels of each interlacing pass before it swaps the bits, so an image
with little-endian bit order was saved with pixels in the wrong places.
---
 src/archon/image/file_format_png.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/file_format_png.cpp b/src/archon/image/file_format_png.cpp
index f2f08a5..619b7ee 100644
--- a/src/archon/image/file_format_png.cpp
+++ b/src/archon/image/file_format_png.cpp
@@ -1070,8 +1070,12 @@ bool save(const image::Image& image, core::Sink& sink, const std::locale& loc, l
         if (ARCHON_LIKELY(image.try_get_buffer(buffer_format, buffer_2) &&
                           try_match_save_format(buffer_format, image_size, ctx.format, ctx.xforms,
                                                 ctx.bytes_per_row))) { // Throws
-            buffer = static_cast<const png_byte*>(buffer_2);
-            format_matched = true;
+            // libpng extracts the pixels of the interlacing passes before it swaps bits, so
+            // interlacing cannot be combined with bit swapping.
+            if (ARCHON_LIKELY(!ctx.xforms.swap_bits || !config.use_adam7_interlacing)) {
+                buffer = static_cast<const png_byte*>(buffer_2);
+                format_matched = true;
+            }
         }
     }
     if (!format_matched) {
-- 
2.43.0


From db6c13785b3ea03e62eba04ba83a8313441499bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:08 +0000
Subject: [PATCH 39/43] fix: reject file format with identifier that is already
 registered

The returned iterator was taken for the insertion flag.
---
 src/archon/image/file_format_registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/file_format_registry.cpp b/src/archon/image/file_format_registry.cpp
index 8d04d10..8a877d2 100644
--- a/src/archon/image/file_format_registry.cpp
+++ b/src/archon/image/file_format_registry.cpp
@@ -148,7 +148,7 @@ void FileFormatRegistry::register_file_format(const image::FileFormat& format)
     std::string_view ident = format.get_ident();
     std::size_t format_index = m_formats.size();
     auto p = m_format_map.emplace(ident, format_index);
-    bool was_inserted = p.first;
+    bool was_inserted = p.second;
     if (!was_inserted)
         throw std::invalid_argument("File format already registered");
 
-- 
2.43.0


From 28f2e0f538074eefd0b048b9093186a335bd76a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:14 +0000
Subject: [PATCH 40/43] fix: carry over the mark against implicit closing when
 a file handle is moved

---
 src/archon/core/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.hpp b/src/archon/core/file.hpp
index 57a2ad0..895aaeb 100644
--- a/src/archon/core/file.hpp
+++ b/src/archon/core/file.hpp
@@ -1084,6 +1084,7 @@ inline void File::implicit_close() noexcept
 inline void File::steal_from(File& other) noexcept
 {
     m_handle = other.m_handle;
+    m_no_implicit_close = other.m_no_implicit_close;
 #if ARCHON_WINDOWS
     m_holds_lock = other.m_holds_lock;
 #endif
-- 
2.43.0


From dbe5925ab7e1be624e824b0744c673f2d226f617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:14 +0000
Subject: [PATCH 41/43] fix: keep and escape file paths of failed checks in XML
 report

---
 src/archon/check/xml_reporter.cpp | 4 ++--
 src/archon/check/xml_reporter.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/check/xml_reporter.cpp b/src/archon/check/xml_reporter.cpp
index 57e60a9..c8c3eef 100644
--- a/src/archon/check/xml_reporter.cpp
+++ b/src/archon/check/xml_reporter.cpp
@@ -87,7 +87,7 @@ void XmlReporter::begin(const check::TestContext& context, log::Logger&)
 void XmlReporter::fail(const check::FailContext& context, std::string_view message, log::Logger&)
 {
     Failure f;
-    f.file_path = context.mapped_file_path;
+    f.file_path = std::string(context.mapped_file_path); // Throws
     f.line_number = context.location.line_number;
     f.message = std::string(message); // Throws
     const check::TestContext& test_context = context.test_context;
@@ -137,7 +137,7 @@ void XmlReporter::root_end(const check::RootContext& context, const check::Summa
         m_out << ">\n"; // Throws
 
         for (auto& i_2 : t.failures) {
-            m_out << "    <failure message=\"" << i_2.file_path << "(" << i_2.line_number << ") : "
+            m_out << "    <failure message=\"" << as_xml_escaped(i_2.file_path) << "(" << i_2.line_number << ") : "
                 "" << as_xml_escaped(i_2.message) << "\"/>\n"; // Throws
         }
         m_out << "  </test>\n"; // Throws
diff --git a/src/archon/check/xml_reporter.hpp b/src/archon/check/xml_reporter.hpp
index d965a44..f01669d 100644
--- a/src/archon/check/xml_reporter.hpp
+++ b/src/archon/check/xml_reporter.hpp
@@ -56,7 +56,7 @@ public:
 
 protected:
     struct Failure {
-        std::string_view file_path;
+        std::string file_path;
         long line_number;
         std::string message;
     };
-- 
2.43.0


From 67cad2f2ccbf8c022d722d090ea26765b7aa3d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:14 +0000
Subject: [PATCH 42/43] fix: look up file path of failed check while holding
 the lock

---
 .../check/noinst/thread_context_impl.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 0c9b32a..0df9953 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -181,21 +181,21 @@ void ThreadContextImpl::check_failed(const check::TestContext& test_context, che
         ++m_num_failed_checks;
         m_errors_seen = true;
     }
-    std::string_view mapped_file_path;
-    check::Location test_location = test_context.test_details.location;
-    if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
-        mapped_file_path = test_context.mapped_file_path;
-    }
-    else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
-    else {
-        m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
-        m_mapped_file_path_cache_key = location.file_path;
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
     {
         std::lock_guard lock(m_root_context.mutex); // Throws
+        std::string_view mapped_file_path;
+        check::Location test_location = test_context.test_details.location;
+        if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
+            mapped_file_path = test_context.mapped_file_path;
+        }
+        else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
+        else {
+            m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
+            m_mapped_file_path_cache_key = location.file_path;
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
         m_test_level_report_logger.file_path   = mapped_file_path;
         m_test_level_report_logger.line_number = location.line_number;
         check::FailContext fail_context(test_context, location, mapped_file_path);
-- 
2.43.0


From addcab9be655293d251ba476e3563ba2733a1bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:14 +0000
Subject: [PATCH 43/43] fix: keep shift state when decoding stops part way
 through the input

---
 src/archon/core/impl/char_codec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/char_codec.hpp b/src/archon/core/impl/char_codec.hpp
index 06cf010..af2264c 100644
--- a/src/archon/core/impl/char_codec.hpp
+++ b/src/archon/core/impl/char_codec.hpp
@@ -418,22 +418,26 @@ bool CharCodec2<C, T>::decode(std::mbstate_t& state, core::Span<const char> data
             }
             else if constexpr (impl::codecvt_quirk_partial_result_on_invalid_byte_seq) {
                 if (to_next < to_end)
-                    goto error;
+                    goto invalid;
             }
           full:
-            state = state_2;
+            state = state_3;
             data_offset   = std::size_t(from_next - data.data());
             buffer_offset = std::size_t(to_next - buffer.data());
             ARCHON_ASSERT(buffer_offset == buffer.size());
             error = false;
             return false;
         case std::codecvt_base::error:
+          invalid:
             ARCHON_ASSERT(from_next < from_end);
             // Assumption: So long as the state passed to std::codecvt::in() is the
             // zero-initialized state or is the result of decoding a number of complete and
             // valid input sequences, std::codecvt::in() will never have consumed part of an
             // input sequence when it reports an error, so, in this case, what lies between
             // `from` and `from_next` is zero or more complete and valid input sequences.
+            //
+            // Advance shift state past those sequences.
+            m_codecvt->length(state_2, from, from_next, std::size_t(to_next - to)); // Throws
             goto error;
         case std::codecvt_base::noconv:
             // Since std::codecvt_base::noconv implies that the internal character type is
-- 
2.43.0

