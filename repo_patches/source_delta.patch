From feaa65a1940fe54c908d88d01bf74631ef2ebd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 01/25] fix: continuation::resume_with with an lvalue callable

The tuple passed to the target stores a copy (std::make_tuple decays), but it was read back as a tuple of references.
---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..544cdf5 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, typename std::tuple_element< 0, decltype(p) >::type >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From c1749c0d6aa5ed6d3ea5e1867ec6326a8565a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 02/25] fix: run an on-top function only once if it throws or
 switches contexts

The pending on-top function was reset only after it had returned (ucontext, WinFiber).
---
 include/boost/context/continuation_ucontext.hpp | 8 ++++++--
 include/boost/context/continuation_winfib.hpp   | 8 ++++++--
 include/boost/context/fiber_ucontext.hpp        | 8 ++++++--
 include/boost/context/fiber_winfib.hpp          | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..2b660a9 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -436,8 +436,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -459,8 +461,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..c0ed514 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -370,8 +372,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..e8925c2 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -490,8 +490,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -509,8 +511,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..e0ba9f9 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -373,8 +375,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the on-top function might throw or switch to other contexts, it must not be found again
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 5b3281e60db046896e75fa16fdf44d6022f6217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 03/25] fix: destructors may resume contexts while a context is
 unwound

force_unwind stayed set during unwinding, so a resume() in a destructor threw forced_unwind again (ucontext, WinFiber).
---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/continuation_winfib.hpp   | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 include/boost/context/fiber_winfib.hpp          | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 2b660a9..242671d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
@@ -459,6 +461,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index c0ed514..8bf84ad 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
@@ -370,6 +372,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index e8925c2..338294c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -488,6 +488,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
@@ -509,6 +511,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index e0ba9f9..8a6eea6 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -352,6 +352,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
@@ -373,6 +375,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors might resume other contexts while the stack is unwound
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the on-top function might throw or switch to other contexts, it must not be found again
-- 
2.43.0


From 9e7182baaababa531abbad387dcea12aa71a1658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 04/25] fix: never resumed fibers honour destruction and
 resume_with()

With ucontext and WinFiber, destroying a fiber that was never resumed executed its context-function, and the on-top
function of the first resume was not executed.
---
 include/boost/context/fiber_ucontext.hpp | 19 +++++++++++++++----
 include/boost/context/fiber_winfib.hpp   | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 338294c..6e53a41 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,12 +284,23 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a fiber destroyed before it was resumed does not enter its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed for the first time by resume_with()
+                    auto fn = std::move( ontop);
+                    ontop = nullptr;
+                    fiber_activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c.ptr_ = fn( ptr);
+                }
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 8a6eea6..d24fa7d 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,12 +221,23 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a fiber destroyed before it was resumed does not enter its context-function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                    // resumed for the first time by resume_with()
+                    auto fn = std::move( ontop);
+                    ontop = nullptr;
+                    fiber_activation_record * ptr = c.ptr_;
+                    c.ptr_ = nullptr;
+                    c.ptr_ = fn( ptr);
+                }
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 3a429c12ae08d5b56535963180c3b23d0813db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 05/25] fix: a throwing on-top callable leaves the handle and
 the running context intact

---
 .../boost/context/continuation_ucontext.hpp   | 25 ++++++++-----------
 include/boost/context/continuation_winfib.hpp | 25 ++++++++-----------
 include/boost/context/fiber_ucontext.hpp      | 25 ++++++++-----------
 include/boost/context/fiber_winfib.hpp        | 25 ++++++++-----------
 4 files changed, 44 insertions(+), 56 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 242671d..0c48606 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -149,14 +149,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( Fn && fn, activation_record *& owner) {
+        // might throw, ownership is given up afterwards
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -172,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,6 +181,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        owner = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -453,13 +455,8 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors might resume other contexts while the stack is unwound
             detail::activation_record::current()->force_unwind = false;
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 8bf84ad..d308ec7 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -130,14 +130,10 @@ struct BOOST_CONTEXT_DECL activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    activation_record * resume_with( Fn && fn, activation_record *& owner) {
+        // might throw, ownership is given up afterwards
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -153,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -166,6 +162,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+        owner = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -364,13 +366,8 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< continuation >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors might resume other contexts while the stack is unwound
             detail::activation_record::current()->force_unwind = false;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 6e53a41..8c0e62f 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -171,14 +171,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& owner) {
+        // might throw, ownership is given up afterwards
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -194,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,6 +203,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        owner = nullptr;
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -514,13 +516,8 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors might resume other contexts while the stack is unwound
             detail::fiber_activation_record::current()->force_unwind = false;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index d24fa7d..9c7cb95 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -129,14 +129,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     }
 
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& owner) {
+        // might throw, ownership is given up afterwards
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -152,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,6 +161,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+        owner = nullptr;
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -378,13 +380,8 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
-#endif
+            ptr_->resume_with< fiber >( std::forward< Fn >( fn), ptr_);
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors might resume other contexts while the stack is unwound
             detail::fiber_activation_record::current()->force_unwind = false;
-- 
2.43.0


From c6c2a71a1a971432f4431fa2503efccd609ff8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 06/25] fix: a failing getcontext() releases the stack through
 the allocator that provided it

---
 .../boost/context/continuation_ucontext.hpp    | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp       | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 0c48606..b5d6248 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -297,10 +297,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int error = errno;
+        // the allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( error, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -340,10 +342,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int error = errno;
+        // the allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( error, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 8c0e62f..9519dd5 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -124,7 +124,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
 #if defined(BOOST_USE_TSAN)
-        if (destroy_tsan_fiber)
+        if (destroy_tsan_fiber && nullptr != tsan_fiber)
             __tsan_destroy_fiber(tsan_fiber);
 #endif
 	}
@@ -333,10 +333,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int error = errno;
+        // the allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( error, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -384,10 +386,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int error = errno;
+        // the allocator might have been moved into the control structure
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( error, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From 616c6974280d174dea723b268906d0bab9097560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 07/25] fix: protected stacks report an unrepresentable size
 and a failing guard page

---
 .../boost/context/posix/protected_fixedsize_stack.hpp  |  8 +++++---
 .../context/windows/protected_fixedsize_stack.hpp      | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..16aad48 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -54,6 +54,7 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        if ( size__ < size_) throw std::bad_alloc();
 
 #if defined(BOOST_CONTEXT_USE_MAP_STACK)
         void * vp = ::mmap( 0, size__, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_STACK, -1, 0);
@@ -65,9 +66,10 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..e80192c 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -47,15 +47,17 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        if ( size__ < size_) throw std::bad_alloc();
 
         void * vp = ::VirtualAlloc( 0, size__, MEM_COMMIT, PAGE_READWRITE);
         if ( ! vp) throw std::bad_alloc();
 
         DWORD old_options;
-        const BOOL result = ::VirtualProtect(
-            vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == ::VirtualProtect(
+            vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options) ) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From d7a45625f3243dafde7e8af84868d55c7640ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 08/25] fix: a failing CreateFiber() is reported and releases
 the stack

---
 include/boost/context/continuation_winfib.hpp | 18 +++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 18 +++++++++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index d308ec7..dfb9d6c 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -258,6 +258,14 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD error = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( error), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -275,6 +283,14 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD error = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( error), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 9c7cb95..4ad8904 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -101,7 +101,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -268,6 +268,14 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD error = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( error), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -285,6 +293,14 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD error = ::GetLastError();
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( error), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 7576bfd3dc7412f71aeb26f03660cb678c22338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 09/25] fix: a thread that already was a Windows fiber is not
 converted back to a thread

---
 include/boost/context/continuation_winfib.hpp | 9 ++++++++-
 include/boost/context/fiber_winfib.hpp        | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index dfb9d6c..68ead13 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -66,6 +66,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     LPVOID                                                      fiber{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
+    bool                                                        converted{ false };
     activation_record                                       *   from{ nullptr };
     std::function< activation_record*(activation_record*&) >    ontop{};
     bool                                                        terminated{ false };
@@ -81,6 +82,7 @@ struct BOOST_CONTEXT_DECL activation_record {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
@@ -90,6 +92,8 @@ struct BOOST_CONTEXT_DECL activation_record {
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
+        } else {
+            converted = true;
         }
 #endif
     }
@@ -101,7 +105,10 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
-            ::ConvertFiberToThread();
+            // a thread that was a fiber before stays one
+            if ( converted) {
+                ::ConvertFiberToThread();
+            }
         } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 4ad8904..395d471 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -66,6 +66,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     LPVOID                                                      fiber{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
+    bool                                                        converted{ false };
     fiber_activation_record                                       *   from{ nullptr };
     std::function< fiber_activation_record*(fiber_activation_record*&) >    ontop{};
     bool                                                        terminated{ false };
@@ -81,6 +82,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
@@ -89,6 +91,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
+        } else {
+            converted = true;
         }
 #endif
     }
@@ -100,7 +104,10 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
-            ::ConvertFiberToThread();
+            // a thread that was a fiber before stays one
+            if ( converted) {
+                ::ConvertFiberToThread();
+            }
         } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
-- 
2.43.0


From 517515575c8841edbf1326fef103e4927c43cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 10/25] fix: an on-top callable is moved, not copied, into the
 resumed context

resume_with() already keeps its own copy; copying it again in the target means
that a throwing copy is raised inside the resumed context after the caller's
handle is gone, and that move-only callables do not compile.
---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 include/boost/context/fiber_fcontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 544cdf5..b2f0de7 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -108,7 +108,7 @@ template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
     auto p = static_cast< std::tuple< Fn > * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    typename std::decay< Fn >::type fn = std::get< 0 >( * p);
+    typename std::decay< Fn >::type fn = std::move( std::get< 0 >( * p) );
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..7e8587a 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -107,7 +107,7 @@ void fiber_entry( transfer_t t) noexcept {
 template< typename Ctx, typename Fn >
 transfer_t fiber_ontop( transfer_t t) {
     BOOST_ASSERT( nullptr != t.data);
-    auto p = *static_cast< Fn * >( t.data);
+    auto p = std::move( * static_cast< Fn * >( t.data) );
     t.data = nullptr;
     // execute function, pass fiber via reference
     Ctx c = p( Ctx{ t.fctx } );
-- 
2.43.0


From f9e43d57235389c5c2cddca7fa1e1ee2186ca74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 11/25] fix: make_fcontext() stores the stack guard in the new
 context (x86-64)

With BOOST_CONTEXT_TLS_STACK_PROTECTOR the guard was written above the return
address on the caller's stack: it corrupted the caller's frame and the new
context started with whatever its uninitialized slot contained.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From d40a1387c7f193aebf9a12843c1a649eeccb1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 12/25] fix: a finished ucontext context gives up its
 AddressSanitizer fake stack

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index b5d6248..dcf1364 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 9519dd5..bdf0872 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From af0aa21fe131014d3b6c67962c32c31aa6841e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 13/25] fix: a shadow stack that cannot be mapped is reported
 and the stack released

---
 include/boost/context/continuation_fcontext.hpp | 12 ++++++++++--
 include/boost/context/fiber_fcontext.hpp        | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index b2f0de7..2219271 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -47,6 +48,7 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -194,7 +196,10 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -235,7 +240,10 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 7e8587a..0f1f758 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -47,6 +48,7 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -191,7 +193,10 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -232,7 +237,10 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From 2a8b3bb3b22e282f9cbe70af4fad1b667e6cb38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 14/25] fix: the restore token of a shadow stack is 8 byte
 aligned for every stack size

---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 include/boost/context/fiber_fcontext.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 2219271..8f4aef4 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -193,7 +193,7 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
@@ -237,7 +237,7 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 0f1f758..50b3a80 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -190,7 +190,7 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
@@ -234,7 +234,7 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    ss_size = (ss_size > 4096) ? (size + 7) & ~static_cast< std::size_t >( 7) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
-- 
2.43.0


From 74b1e8bf305caaa45386f978fe60e451f19393a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:08 +0000
Subject: [PATCH 15/25] fix: make_fcontext() with shadow stacks keeps the
 address of finish

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..b364035 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -108,7 +108,7 @@ make_fcontext:
 1:
     /* save address of "jmp trampoline" as return-address */
     /* for context-function */
-    pop 0x38(%rax)
+    pop 0x40(%rax)
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From 46f5c69c81c74dca8edd96bf41ab32f9ce9d1bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 16/25] fix: make_sparc64: align the context stack with -0x10
 (the mask -0xf left bit 0 of the stack top)

---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 224ea9ae1214f301a96cd26b668db6e296eaac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:05 +0000
Subject: [PATCH 17/25] fix: ppc64 ELF: save and restore the non-volatile
 floating-point registers F14 - F31 across a switch

---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 64 +++++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_elf_gas.S  | 20 +++++++---
 src/asm/ontop_ppc64_sysv_elf_gas.S | 64 +++++++++++++++++++++++++++---
 3 files changed, 133 insertions(+), 15 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..89d9283 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -47,19 +47,29 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                192 ... 324                    |  *
+ *  -------------------------------------------------  *
+ *  |                F15 ... F31                    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                    328                        |  *
+ *  -------------------------------------------------  *
+ *  |                 back-chain                    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  | 336 | 340 | 344 | 348 | 352 | 356 | 360 | 364 |  *
  *  -------------------------------------------------  *
  *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  | 368 | 372 | 376 | 380 | 384 | 388 | 392 | 396 |  *
  *  -------------------------------------------------  *
  *  | TOC saved |    FCTX   |    DATA   |           |  *
  *  -------------------------------------------------  *
@@ -98,7 +108,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +131,28 @@ jump_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+
+#ifndef __NO_FPRS__
+    # save F14 - F31
+    stfd  %f14, 184(%r1)
+    stfd  %f15, 192(%r1)
+    stfd  %f16, 200(%r1)
+    stfd  %f17, 208(%r1)
+    stfd  %f18, 216(%r1)
+    stfd  %f19, 224(%r1)
+    stfd  %f20, 232(%r1)
+    stfd  %f21, 240(%r1)
+    stfd  %f22, 248(%r1)
+    stfd  %f23, 256(%r1)
+    stfd  %f24, 264(%r1)
+    stfd  %f25, 272(%r1)
+    stfd  %f26, 280(%r1)
+    stfd  %f27, 288(%r1)
+    stfd  %f28, 296(%r1)
+    stfd  %f29, 304(%r1)
+    stfd  %f30, 312(%r1)
+    stfd  %f31, 320(%r1)
+#endif
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -164,6 +196,28 @@ jump_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+
+#ifndef __NO_FPRS__
+    # restore F14 - F31
+    lfd   %f14, 184(%r1)
+    lfd   %f15, 192(%r1)
+    lfd   %f16, 200(%r1)
+    lfd   %f17, 208(%r1)
+    lfd   %f18, 216(%r1)
+    lfd   %f19, 224(%r1)
+    lfd   %f20, 232(%r1)
+    lfd   %f21, 240(%r1)
+    lfd   %f22, 248(%r1)
+    lfd   %f23, 256(%r1)
+    lfd   %f24, 264(%r1)
+    lfd   %f25, 272(%r1)
+    lfd   %f26, 280(%r1)
+    lfd   %f27, 288(%r1)
+    lfd   %f28, 296(%r1)
+    lfd   %f29, 304(%r1)
+    lfd   %f30, 312(%r1)
+    lfd   %f31, 320(%r1)
+#endif
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -181,7 +235,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..50f6599 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -47,19 +47,29 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                192 ... 324                    |  *
+ *  -------------------------------------------------  *
+ *  |                F15 ... F31                    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                    328                        |  *
+ *  -------------------------------------------------  *
+ *  |                 back-chain                    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  | 336 | 340 | 344 | 348 | 352 | 356 | 360 | 364 |  *
  *  -------------------------------------------------  *
  *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  | 368 | 372 | 376 | 380 | 384 | 388 | 392 | 396 |  *
  *  -------------------------------------------------  *
  *  | TOC saved |    FCTX   |    DATA   |           |  *
  *  -------------------------------------------------  *
@@ -106,7 +116,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +134,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..c78d15b 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -47,19 +47,29 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                192 ... 324                    |  *
+ *  -------------------------------------------------  *
+ *  |                F15 ... F31                    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |                    328                        |  *
+ *  -------------------------------------------------  *
+ *  |                 back-chain                    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
- *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
+ *  | 336 | 340 | 344 | 348 | 352 | 356 | 360 | 364 |  *
  *  -------------------------------------------------  *
  *  |  cr saved |  lr saved |  compiler |   linker  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
- *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
+ *  | 368 | 372 | 376 | 380 | 384 | 388 | 392 | 396 |  *
  *  -------------------------------------------------  *
  *  | TOC saved |    FCTX   |    DATA   |           |  *
  *  -------------------------------------------------  *
@@ -98,7 +108,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -121,6 +131,28 @@ ontop_fcontext:
     std  %r29, 128(%r1)  # save R29
     std  %r30, 136(%r1)  # save R30
     std  %r31, 144(%r1)  # save R31
+
+#ifndef __NO_FPRS__
+    # save F14 - F31
+    stfd  %f14, 184(%r1)
+    stfd  %f15, 192(%r1)
+    stfd  %f16, 200(%r1)
+    stfd  %f17, 208(%r1)
+    stfd  %f18, 216(%r1)
+    stfd  %f19, 224(%r1)
+    stfd  %f20, 232(%r1)
+    stfd  %f21, 240(%r1)
+    stfd  %f22, 248(%r1)
+    stfd  %f23, 256(%r1)
+    stfd  %f24, 264(%r1)
+    stfd  %f25, 272(%r1)
+    stfd  %f26, 280(%r1)
+    stfd  %f27, 288(%r1)
+    stfd  %f28, 296(%r1)
+    stfd  %f29, 304(%r1)
+    stfd  %f30, 312(%r1)
+    stfd  %f31, 320(%r1)
+#endif
 #if _CALL_ELF != 2
     std  %r3,  152(%r1)  # save hidden
 #endif
@@ -163,6 +195,28 @@ ontop_fcontext:
     ld  %r29, 128(%r1)  # restore R29
     ld  %r30, 136(%r1)  # restore R30
     ld  %r31, 144(%r1)  # restore R31
+
+#ifndef __NO_FPRS__
+    # restore F14 - F31
+    lfd   %f14, 184(%r1)
+    lfd   %f15, 192(%r1)
+    lfd   %f16, 200(%r1)
+    lfd   %f17, 208(%r1)
+    lfd   %f18, 216(%r1)
+    lfd   %f19, 224(%r1)
+    lfd   %f20, 232(%r1)
+    lfd   %f21, 240(%r1)
+    lfd   %f22, 248(%r1)
+    lfd   %f23, 256(%r1)
+    lfd   %f24, 264(%r1)
+    lfd   %f25, 272(%r1)
+    lfd   %f26, 280(%r1)
+    lfd   %f27, 288(%r1)
+    lfd   %f28, 296(%r1)
+    lfd   %f29, 304(%r1)
+    lfd   %f30, 312(%r1)
+    lfd   %f31, 320(%r1)
+#endif
 #if _CALL_ELF != 2
     ld  %r3,  152(%r1)  # restore hidden
 #endif
@@ -204,7 +258,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From d72936413e07e522c83f9a371636353feb73002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 18/25] fix: mips64 N64: keep the callee-saved $gp across a
 switch, and its copy for finish out of the context function's frame

---
 src/asm/jump_mips64_n64_elf_gas.S  | 2 ++
 src/asm/make_mips64_n64_elf_gas.S  | 7 ++++---
 src/asm/ontop_mips64_n64_elf_gas.S | 2 ++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/asm/jump_mips64_n64_elf_gas.S b/src/asm/jump_mips64_n64_elf_gas.S
index 60027fe..7dd1017 100644
--- a/src/asm/jump_mips64_n64_elf_gas.S
+++ b/src/asm/jump_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ jump_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP (callee-saved in N64)
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ jump_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RAa
 
     # load PC
diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..d4dd3f1 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -63,12 +63,14 @@ make_fcontext:
     and $v0, $v1, $a0
 
     # reserve space for context-data on context-stack
-    daddiu $v0, $v0, -160
+    daddiu $v0, $v0, -176
 
     # third arg of make_fcontext() == address of context-function
     sd  $a2, 152($v0)
     # save global pointer in context-data
     sd  $gp, 136($v0)
+    # and above the frame of the context-function for finish
+    sd  $gp, 160($v0)
 
     # psudo instruction compute abs address of label finish based on GP
     dla  $t9, finish
@@ -81,8 +83,7 @@ make_fcontext:
 
 finish:
     # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    ld $gp, 0($sp)
 
     # call _exit(0)
     #  the previous function should have left the 16 bytes incoming argument
diff --git a/src/asm/ontop_mips64_n64_elf_gas.S b/src/asm/ontop_mips64_n64_elf_gas.S
index e73e039..ca8b6d3 100644
--- a/src/asm/ontop_mips64_n64_elf_gas.S
+++ b/src/asm/ontop_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ ontop_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP (callee-saved in N64)
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ ontop_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RA
 
     # load PC
-- 
2.43.0


From 04dbe53be967685c1f244ebb3b5b2e062fff62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 19/25] fix: arm64 PE: ontop_fcontext releases the whole
 context-data (0xd0, not 0xc0 bytes)

---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 12390c49c2d8f0bcfc9938cebf309a6814ffd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:38 +0000
Subject: [PATCH 20/25] fix: make_i386_sysv_macho: enter the context-function
 with a 16 byte aligned stack

---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 8869de2c4bb47e150172ac95abbd0b58dfe4df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 21/25] fix: a throwing copy of the context-function or stack
 allocator is reported, not std::terminate()

---
 .../boost/context/continuation_fcontext.hpp   | 42 +++++++++++++++----
 .../boost/context/continuation_ucontext.hpp   | 42 +++++++++++++++----
 include/boost/context/continuation_winfib.hpp | 42 +++++++++++++++----
 include/boost/context/fiber_fcontext.hpp      | 42 +++++++++++++++----
 include/boost/context/fiber_ucontext.hpp      | 42 +++++++++++++++----
 include/boost/context/fiber_winfib.hpp        | 42 +++++++++++++++----
 6 files changed, 204 insertions(+), 48 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 8f4aef4..e2deb54 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -19,6 +19,7 @@
 #include <new>
 #include <ostream>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -126,8 +127,9 @@ template< typename Ctx, typename StackAlloc, typename Fn >
 class record {
 private:
     stack_context                                       sctx_;
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -140,10 +142,10 @@ private:
 
 public:
     record( stack_context sctx, StackAlloc && salloc,
-            Fn && fn) noexcept :
+            Fn && fn) :
         sctx_( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     record( record const&) = delete;
@@ -177,8 +179,20 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    Record * record = new ( storage) Record{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     // should be 16byte aligned
     void * stack_top = reinterpret_cast< void * >(
@@ -222,8 +236,20 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context-stack
-    Record * record = new ( storage) Record{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     void * stack_top = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( storage) - static_cast< uintptr_t >( 64) );
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index dcf1364..214291b 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -29,6 +29,7 @@ extern "C" {
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -229,8 +230,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -242,10 +244,10 @@ private:
     }
 
 public:
-    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         activation_record{ sctx },
-        salloc_{ std::forward< StackAlloc >( salloc) },
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_{ std::forward< StackAlloc >( salloc) } {
     }
 
     void deallocate() noexcept override final {
@@ -290,8 +292,20 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
@@ -335,8 +349,20 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 68ead13..c0d15b3 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -204,8 +205,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -217,10 +219,10 @@ private:
     }
 
 public:
-    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         activation_record( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     void deallocate() noexcept override final {
@@ -261,8 +263,20 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
@@ -286,8 +300,20 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 50b3a80..3ce4de5 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -19,6 +19,7 @@
 #include <new>
 #include <ostream>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -124,8 +125,9 @@ template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_record {
 private:
     stack_context                                       sctx_;
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -138,10 +140,10 @@ private:
 
 public:
     fiber_record( stack_context sctx, StackAlloc && salloc,
-            Fn && fn) noexcept :
+            Fn && fn) :
         sctx_( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     fiber_record( fiber_record const&) = delete;
@@ -174,8 +176,20 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    Record * record = new ( storage) Record{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     // should be 16byte aligned
     void * stack_top = reinterpret_cast< void * >(
@@ -219,8 +233,20 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context-stack
-    Record * record = new ( storage) Record{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    Record * record = nullptr;
+    try {
+        record = new ( storage) Record{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // 64byte gab between control structure and stack top
     void * stack_top = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( storage) - static_cast< uintptr_t >( 64) );
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index bdf0872..a19d94e 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -29,6 +29,7 @@ extern "C" {
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -254,8 +255,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -267,10 +269,10 @@ private:
     }
 
 public:
-    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         fiber_activation_record{ sctx },
-        salloc_{ std::forward< StackAlloc >( salloc) },
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_{ std::forward< StackAlloc >( salloc) } {
     }
 
     void deallocate() noexcept override final {
@@ -326,8 +328,20 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
@@ -379,8 +393,20 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // stack bottom
     void * stack_bottom = reinterpret_cast< void * >(
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 395d471..0be53c6 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -203,8 +204,9 @@ struct forced_unwind {
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
-    typename std::decay< StackAlloc >::type             salloc_;
+    // last, a moved allocator could not release the stack if something else fails
     typename std::decay< Fn >::type                     fn_;
+    typename std::decay< StackAlloc >::type             salloc_;
 
     static void destroy( fiber_capture_record * p) noexcept {
         typename std::decay< StackAlloc >::type salloc = std::move( p->salloc_);
@@ -216,10 +218,10 @@ private:
     }
 
 public:
-    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) noexcept :
+    fiber_capture_record( stack_context sctx, StackAlloc && salloc, Fn && fn) :
         fiber_activation_record( sctx),
-        salloc_( std::forward< StackAlloc >( salloc)),
-        fn_( std::forward< Fn >( fn) ) {
+        fn_( std::forward< Fn >( fn) ),
+        salloc_( std::forward< StackAlloc >( salloc)) {
     }
 
     void deallocate() noexcept override final {
@@ -271,8 +273,20 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
@@ -296,8 +310,20 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
             & ~ static_cast< uintptr_t >( 0xff) );
     // placment new for control structure on context stack
-    capture_t * record = new ( storage) capture_t{
-            palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    capture_t * record = nullptr;
+    try {
+        record = new ( storage) capture_t{
+                palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
+    } catch (...) {
+        // copying the context-function or the stack allocator failed
+        typename std::conditional<
+            std::is_const< typename std::remove_reference< StackAlloc >::type >::value,
+            typename std::decay< StackAlloc >::type,
+            StackAlloc &
+        >::type alloc( salloc);
+        alloc.deallocate( palloc.sctx);
+        throw;
+    }
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
     if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
-- 
2.43.0


From 54f4d2bbc928def45b2a9c874b81872cafa52dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:11 +0000
Subject: [PATCH 22/25] fix: ucontext, winfib: report a failing set-up of the
 thread's own context instead of std::terminate()

---
 .../boost/context/continuation_ucontext.hpp   | 12 ++++++---
 include/boost/context/continuation_winfib.hpp | 27 ++++++++++++++-----
 include/boost/context/fiber_ucontext.hpp      |  8 +++---
 include/boost/context/fiber_winfib.hpp        | 22 +++++++++++----
 src/continuation.cpp                          |  7 ++---
 src/fiber.cpp                                 |  7 ++---
 6 files changed, 60 insertions(+), 23 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 214291b..cdb4d0b 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -91,7 +91,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     std::size_t                                                 stack_size{ 0 };
 #endif
 
-    static activation_record *& current() noexcept;
+    static activation_record *& current();
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
@@ -152,6 +152,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     template< typename Ctx, typename Fn >
     activation_record * resume_with( Fn && fn, activation_record *& owner) {
         // might throw, ownership is given up afterwards
+        from = current();
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
@@ -183,7 +184,6 @@ struct BOOST_CONTEXT_DECL activation_record {
         };
 #endif
         owner = nullptr;
-		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by continuation::current()
@@ -215,7 +215,7 @@ struct BOOST_CONTEXT_DECL activation_record {
 };
 
 struct BOOST_CONTEXT_DECL activation_record_initializer {
-    activation_record_initializer() noexcept;
+    activation_record_initializer();
     ~activation_record_initializer();
 };
 
@@ -284,6 +284,8 @@ public:
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
+    // the toplevel-context of this thread, might throw
+    activation_record::current();
     typedef capture_record< Ctx, StackAlloc, Fn >  capture_t;
 
     auto sctx = salloc.allocate();
@@ -342,6 +344,8 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 static activation_record * create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
+    // the toplevel-context of this thread, might throw
+    activation_record::current();
     typedef capture_record< Ctx, StackAlloc, Fn >  capture_t; 
 
     // reserve space for control structure
@@ -460,6 +464,8 @@ public:
     }
 
     continuation resume() && {
+        // might throw, ownership is given up afterwards
+        detail::activation_record::current();
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index c0d15b3..1ec5e45 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -73,23 +73,32 @@ struct BOOST_CONTEXT_DECL activation_record {
     bool                                                        terminated{ false };
     bool                                                        force_unwind{ false };
 
-    static activation_record *& current() noexcept;
+    static activation_record *& current();
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
-    activation_record() noexcept {
+    activation_record() {
 #if ( _WIN32_WINNT > 0x0600)
         if ( ::IsThreadAFiber() ) {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            if ( BOOST_UNLIKELY( nullptr == fiber) ) {
+                throw std::system_error(
+                        std::error_code( static_cast< int >( ::GetLastError() ), std::system_category() ),
+                        "ConvertThreadToFiber() failed");
+            }
             converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
         if ( BOOST_UNLIKELY( nullptr == fiber) ) {
-            DWORD err = ::GetLastError();
-            BOOST_ASSERT( ERROR_ALREADY_FIBER == err);
+            const DWORD error = ::GetLastError();
+            if ( BOOST_UNLIKELY( ERROR_ALREADY_FIBER != error) ) {
+                throw std::system_error(
+                        std::error_code( static_cast< int >( error), std::system_category() ),
+                        "ConvertThreadToFiber() failed");
+            }
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
@@ -140,6 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     template< typename Ctx, typename Fn >
     activation_record * resume_with( Fn && fn, activation_record *& owner) {
         // might throw, ownership is given up afterwards
+        from = current();
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
@@ -171,7 +181,6 @@ struct BOOST_CONTEXT_DECL activation_record {
         };
 #endif
         owner = nullptr;
-        from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by continuation::current()
@@ -190,7 +199,7 @@ struct BOOST_CONTEXT_DECL activation_record {
 };
 
 struct BOOST_CONTEXT_DECL activation_record_initializer {
-    activation_record_initializer() noexcept;
+    activation_record_initializer();
     ~activation_record_initializer();
 };
 
@@ -254,6 +263,8 @@ public:
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
+    // the toplevel-context of this thread, might throw
+    activation_record::current();
     typedef capture_record< Ctx, StackAlloc, Fn >  capture_t;
 
     auto sctx = salloc.allocate();
@@ -292,6 +303,8 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
 
 template< typename Ctx, typename StackAlloc, typename Fn >
 static activation_record * create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
+    // the toplevel-context of this thread, might throw
+    activation_record::current();
     typedef capture_record< Ctx, StackAlloc, Fn >  capture_t; 
 
     BOOST_ASSERT( ( sizeof( capture_t) ) < palloc.size);
@@ -390,6 +403,8 @@ public:
     }
 
     continuation resume() && {
+        // might throw, ownership is given up afterwards
+        detail::activation_record::current();
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index a19d94e..c5bec13 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -101,7 +101,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     bool destroy_tsan_fiber{ true };
 #endif
 
-    static fiber_activation_record *& current() noexcept;
+    static fiber_activation_record *& current();
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
@@ -174,6 +174,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     template< typename Ctx, typename Fn >
     fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& owner) {
         // might throw, ownership is given up afterwards
+        from = current();
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
@@ -205,7 +206,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         };
 #endif
         owner = nullptr;
-		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by fiber::current()
@@ -240,7 +240,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 };
 
 struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
-    fiber_activation_record_initializer() noexcept;
+    fiber_activation_record_initializer();
     ~fiber_activation_record_initializer();
 };
 
@@ -525,6 +525,8 @@ public:
 
     fiber resume() && {
         BOOST_ASSERT( nullptr != ptr_);
+        // might throw, ownership is given up afterwards
+        detail::fiber_activation_record::current();
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 0be53c6..bf86b09 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -73,22 +73,32 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     bool                                                        terminated{ false };
     bool                                                        force_unwind{ false };
 
-    static fiber_activation_record *& current() noexcept;
+    static fiber_activation_record *& current();
 
     // used for toplevel-context
     // (e.g. main context, thread-entry context)
-    fiber_activation_record() noexcept {
+    fiber_activation_record() {
 #if ( _WIN32_WINNT > 0x0600)
         if ( ::IsThreadAFiber() ) {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            if ( BOOST_UNLIKELY( nullptr == fiber) ) {
+                throw std::system_error(
+                        std::error_code( static_cast< int >( ::GetLastError() ), std::system_category() ),
+                        "ConvertThreadToFiber() failed");
+            }
             converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
         if ( BOOST_UNLIKELY( nullptr == fiber) ) {
-            BOOST_ASSERT( ERROR_ALREADY_FIBER == ::GetLastError());
+            const DWORD error = ::GetLastError();
+            if ( BOOST_UNLIKELY( ERROR_ALREADY_FIBER != error) ) {
+                throw std::system_error(
+                        std::error_code( static_cast< int >( error), std::system_category() ),
+                        "ConvertThreadToFiber() failed");
+            }
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
@@ -139,6 +149,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     template< typename Ctx, typename Fn >
     fiber_activation_record * resume_with( Fn && fn, fiber_activation_record *& owner) {
         // might throw, ownership is given up afterwards
+        from = current();
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
         ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
@@ -170,7 +181,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         };
 #endif
         owner = nullptr;
-        from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by fiber::current()
@@ -189,7 +199,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 };
 
 struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
-    fiber_activation_record_initializer() noexcept;
+    fiber_activation_record_initializer();
     ~fiber_activation_record_initializer();
 };
 
@@ -408,6 +418,8 @@ public:
 
     fiber resume() && {
         BOOST_ASSERT( nullptr != ptr_);
+        // might throw, ownership is given up afterwards
+        detail::fiber_activation_record::current();
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..c3af70a 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -25,10 +25,11 @@ thread_local activation_record * current_rec;
 thread_local static std::size_t counter;
 
 // schwarz counter
-activation_record_initializer::activation_record_initializer() noexcept {
-    if ( 0 == counter++) {
+activation_record_initializer::activation_record_initializer() {
+    if ( 0 == counter) {
         current_rec = new activation_record();
     }
+    ++counter;
 }
 
 activation_record_initializer::~activation_record_initializer() {
@@ -43,7 +44,7 @@ activation_record_initializer::~activation_record_initializer() {
 namespace detail {
 
 activation_record *&
-activation_record::current() noexcept {
+activation_record::current() {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
     return current_rec;
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..864814b 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -25,10 +25,11 @@ thread_local fiber_activation_record * fib_current_rec;
 thread_local static std::size_t counter;
 
 // schwarz counter
-fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
-    if ( 0 == counter++) {
+fiber_activation_record_initializer::fiber_activation_record_initializer() {
+    if ( 0 == counter) {
         fib_current_rec = new fiber_activation_record();
     }
+    ++counter;
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
@@ -43,7 +44,7 @@ fiber_activation_record_initializer::~fiber_activation_record_initializer() {
 namespace detail {
 
 fiber_activation_record *&
-fiber_activation_record::current() noexcept {
+fiber_activation_record::current() {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
     return fib_current_rec;
-- 
2.43.0


From 156e130a631f1f5caf1c6cf8f4a67ca81fcda9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 23/25] fix: an exception leaving a context-function terminates
 without unwinding other contexts

---
 include/boost/context/continuation_fcontext.hpp |  2 +-
 include/boost/context/continuation_ucontext.hpp |  4 ++--
 include/boost/context/continuation_winfib.hpp   |  2 +-
 include/boost/context/detail/config.hpp         | 10 ++++++++++
 include/boost/context/fiber_fcontext.hpp        |  2 +-
 include/boost/context/fiber_ucontext.hpp        |  4 ++--
 include/boost/context/fiber_winfib.hpp          |  2 +-
 7 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index e2deb54..51f1d81 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -88,7 +88,7 @@ transfer_t context_exit( transfer_t t) noexcept {
 }
 
 template< typename Rec >
-void context_entry( transfer_t t) noexcept {
+void context_entry( transfer_t t) BOOST_CONTEXT_ENTRY_NOEXCEPT {
     // transfer control structure to the context-stack
     Rec * rec = static_cast< Rec * >( t.data);
     BOOST_ASSERT( nullptr != t.fctx);
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index cdb4d0b..6d76b6b 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -65,11 +65,11 @@ namespace detail {
 template <typename Record>
 #if BOOST_OS_MACOS
 static void entry_func(std::uint32_t data_high,
-                       std::uint32_t data_low) noexcept {
+                       std::uint32_t data_low) BOOST_CONTEXT_ENTRY_NOEXCEPT {
   auto data =
       reinterpret_cast<void *>(std::uint64_t(data_high) << 32 | data_low);
 #else
-static void entry_func(void *data) noexcept {
+static void entry_func(void *data) BOOST_CONTEXT_ENTRY_NOEXCEPT {
 #endif
   Record *record = static_cast<Record *>(data);
   BOOST_ASSERT(nullptr != record);
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 1ec5e45..9edc810 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -56,7 +56,7 @@ namespace detail {
 // entered if the execution context
 // is resumed for the first time
 template< typename Record >
-static VOID WINAPI entry_func( LPVOID data) noexcept {
+static VOID WINAPI entry_func( LPVOID data) BOOST_CONTEXT_ENTRY_NOEXCEPT {
     Record * record = static_cast< Record * >( data);
     BOOST_ASSERT( nullptr != record);
     // start execution of toplevel context-function
diff --git a/include/boost/context/detail/config.hpp b/include/boost/context/detail/config.hpp
index 06737fd..95fc075 100644
--- a/include/boost/context/detail/config.hpp
+++ b/include/boost/context/detail/config.hpp
@@ -133,4 +133,14 @@ static constexpr std::size_t prefetch_stride{ 4 * cacheline_length };
 # define BOOST_CONTEXT_USE_MAP_STACK
 #endif
 
+// an exception that leaves a context-function has to call std::terminate() without
+// unwinding the stack, because that would destroy the handles living there, i.e. unwind
+// other contexts. GCC and Clang might unwind up to a function that is `noexcept`; without
+// it the search for a handler stops at the end of the context's stack
+#if defined(_MSC_VER) || defined(__USING_SJLJ_EXCEPTIONS__)
+# define BOOST_CONTEXT_ENTRY_NOEXCEPT noexcept
+#else
+# define BOOST_CONTEXT_ENTRY_NOEXCEPT
+#endif
+
 #endif // BOOST_CONTEXT_DETAIL_CONFIG_H
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 3ce4de5..43c45dd 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -88,7 +88,7 @@ transfer_t fiber_exit( transfer_t t) noexcept {
 }
 
 template< typename Rec >
-void fiber_entry( transfer_t t) noexcept {
+void fiber_entry( transfer_t t) BOOST_CONTEXT_ENTRY_NOEXCEPT {
     // transfer control structure to the context-stack
     Rec * rec = static_cast< Rec * >( t.data);
     BOOST_ASSERT( nullptr != t.fctx);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index c5bec13..d989949 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -70,11 +70,11 @@ namespace detail {
 template <typename Record>
 #if BOOST_OS_MACOS
 static void fiber_entry_func(std::uint32_t data_high,
-                             std::uint32_t data_low) noexcept {
+                             std::uint32_t data_low) BOOST_CONTEXT_ENTRY_NOEXCEPT {
   auto data =
       reinterpret_cast<void *>(std::uint64_t(data_high) << 32 | data_low);
 #else
-static void fiber_entry_func(void *data) noexcept {
+static void fiber_entry_func(void *data) BOOST_CONTEXT_ENTRY_NOEXCEPT {
 #endif
   Record *record = static_cast<Record *>(data);
   BOOST_ASSERT(nullptr != record);
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index bf86b09..fe2ed0a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -56,7 +56,7 @@ namespace detail {
 // entered if the execution context
 // is resumed for the first time
 template< typename Record >
-static VOID WINAPI fiber_entry_func( LPVOID data) noexcept {
+static VOID WINAPI fiber_entry_func( LPVOID data) BOOST_CONTEXT_ENTRY_NOEXCEPT {
     Record * record = static_cast< Record * >( data);
     BOOST_ASSERT( nullptr != record);
     // start execution of toplevel context-function
-- 
2.43.0


From e40132a03b527c4c353f76338a2e541e8b240fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:56 +0000
Subject: [PATCH 24/25] fix: ucontext, winfib: contexts may be used and exit()
 called while the thread ends

---
 src/continuation.cpp | 17 +++++++++++++++--
 src/fiber.cpp        | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index c3af70a..4b9aa06 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,10 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -34,8 +38,11 @@ activation_record_initializer::activation_record_initializer() {
 
 activation_record_initializer::~activation_record_initializer() {
     if ( 0 == --counter) {
-        BOOST_ASSERT( current_rec->is_main_context() );
-        delete current_rec;
+        // a context might have called std::exit()
+        if ( BOOST_LIKELY( current_rec->is_main_context() ) ) {
+            delete current_rec;
+            current_rec = nullptr;
+        }
     }
 }
 
@@ -47,6 +54,12 @@ activation_record *&
 activation_record::current() {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // control passes after `initializer` was destroyed, for instance in
+        // the destructor of an object with static or thread storage duration
+        thread_local static std::aligned_storage< sizeof( activation_record), alignof( activation_record) >::type storage;
+        current_rec = new ( & storage) activation_record();
+    }
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 864814b..f2d1033 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,10 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -34,8 +38,11 @@ fiber_activation_record_initializer::fiber_activation_record_initializer() {
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
     if ( 0 == --counter) {
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
-        delete fib_current_rec;
+        // a context might have called std::exit()
+        if ( BOOST_LIKELY( fib_current_rec->is_main_context() ) ) {
+            delete fib_current_rec;
+            fib_current_rec = nullptr;
+        }
     }
 }
 
@@ -47,6 +54,12 @@ fiber_activation_record *&
 fiber_activation_record::current() {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // control passes after `initializer` was destroyed, for instance in
+        // the destructor of an object with static or thread storage duration
+        thread_local static std::aligned_storage< sizeof( fiber_activation_record), alignof( fiber_activation_record) >::type storage;
+        fib_current_rec = new ( & storage) fiber_activation_record();
+    }
     return fib_current_rec;
 }
 
-- 
2.43.0


From 3b060baffe443535ff84940755564a598aecbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:15 +0000
Subject: [PATCH 25/25] fix: pooled stacks with MAP_STACK: the mapping does not
 replace memory behind the block

---
 include/boost/context/pooled_fixedsize_stack.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..563adbb 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -47,11 +47,17 @@ struct map_stack_allocator {
     typedef std::ptrdiff_t difference_type;
 
     static char * malloc( const size_type bytes) {
+        // the mapping replaces whole pages, all of them have to belong to the block
+        const size_type page_size = traitsT::page_size();
+        const size_type size = ( bytes + page_size - 1) & ~( page_size - 1);
+        if ( size < bytes) {
+            return 0;
+        }
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page_size, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0

