From 3e83f32ae80d0f651bdcce55cb3e35d3f422f7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 1/5] fix: let exceptions thrown by the function given to
 transform() propagate

The noexcept specification only considered the construction of the payload, not
the invocation of the function. So a throwing function terminated the program.
---
 include/tiny/optional.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..335fbfb 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1091,8 +1092,10 @@ namespace impl
       // the warning.
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
-      // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      // In analogy to ConstructPayload(). But note that here also the function itself might throw.
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From b65dd5552ef062029178a44877ecf4f47e89c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 2/5] fix: destroy the empty flag when an empty optional is
 destroyed

The flag object created by init_empty_flag() was never handed to
invalidate_empty_flag() when an empty optional got destroyed, or when the
construction of the payload threw in a constructor, contrary to the readme.
---
 include/tiny/optional.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 335fbfb..dd05422 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,18 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Delegating ensures that the
+      // flag gets destroyed if the construction of the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // See constructor above.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +981,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the flag object that was created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 485b227dba528840a3ff638a3f5c2a0dbe0beed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 3/5] fix: let swap(tiny::optional&, tiny::optional&) call the
 member swap

Unqualified swap() preferred std::swap() over the overload for the base class,
so that the payload's own swap() was not used.
---
 include/tiny/optional.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index dd05422..8ad8a70 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2279,6 +2279,20 @@ public:
 };
 
 
+// The overload for impl::TinyOptionalImpl is not sufficient: For two tiny::optional, std::swap() would be a better match.
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<std::is_move_constructible_v<PayloadType> && std::is_swappable_v<PayloadType>, int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs) noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+
+
 // Deduction guide.
 template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
-- 
2.43.0


From 53a341792ef8f49b4e50cbd778eb28ad0502c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:52 +0000
Subject: [PATCH 4/5] fix: do not use an overloaded operator& of the payload

---
 include/tiny/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 8ad8a70..44d2d58 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (static_cast<void *>(std::addressof(uninitializedPayloadMemory))) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
@@ -834,7 +834,7 @@ namespace impl
       // static_assert: Because tiny::optional requires init_empty_flag() to be noexcept; otherwise, it could not
       // give the same noexcept guarantees as std::optional.
       static_assert(
-          noexcept(*const_cast<std::remove_cv_t<FlagType> *>(&uninitializedIsEmptyFlagMemory) = valueToIndicateEmpty),
+          noexcept(const_cast<std::remove_cv_t<FlagType> &>(uninitializedIsEmptyFlagMemory) = valueToIndicateEmpty),
           "The assignment operator of the flag type must be noexcept.");
       // Regarding the cast: https://stackoverflow.com/q/63325244/3740047
       ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(uninitializedIsEmptyFlagMemory))))
-- 
2.43.0


From 3511b92b150b061e7541a99e4911e2f41647a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:23 +0000
Subject: [PATCH 5/5] fix: extended floating point types (std::float16_t etc.,
 __float128) as payload did not compile

std::is_floating_point is also true for the extended floating point types, for which no sentinel is known.
---
 include/tiny/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 44d2d58..3db7da3 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -864,7 +864,8 @@ namespace impl
   template <class PayloadType>
   inline constexpr bool SentinelForExploitingUnusedBitsIsKnown =
 #ifndef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS
-      (std::is_floating_point_v<PayloadType> && !std::is_same_v<std::remove_cv_t<PayloadType>, long double>)
+      // Not std::is_floating_point because it includes long double and the extended floating point types.
+      std::is_same_v<std::remove_cv_t<PayloadType>, double> || std::is_same_v<std::remove_cv_t<PayloadType>, float>
       || std::is_same_v<std::remove_cv_t<PayloadType>, bool>
       || std::is_pointer_v<PayloadType>; // Pointers and function pointers, but not member pointers or member
                                          // function pointers.
-- 
2.43.0

