From fc233d4a4f9e0875e8f6de70d06736bfdc082822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 01/50] fix: continuation::resume_with() with an lvalue
 function object

The tuple built by resume_with() holds a decayed copy of the function, but
context_ontop() was instantiated with the reference type and read the tuple
as a tuple of references, i.e. called through a garbage address.  Pass the
decayed copy itself, as fiber::resume_with() already does.
---
 include/boost/context/continuation_fcontext.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..4fc825a 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -106,9 +106,9 @@ void context_entry( transfer_t t) noexcept {
 
 template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
-    auto p = static_cast< std::tuple< Fn > * >( t.data);
+    auto p = static_cast< Fn * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    typename std::decay< Fn >::type fn = std::get< 0 >( * p);
+    auto fn = * p;
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
@@ -330,7 +330,7 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::make_tuple( std::forward< Fn >( fn) );
+        auto p = std::forward< Fn >( fn);
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, decltype(p) >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From e26d1be67aba90909d3bd2c843c1a6880513ccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 02/50] fix: ucontext: do not run the function of a context
 destroyed before its first resume

Destroying a never started fiber switched into its entry function, which
ignored force_unwind and executed the context-function; the stack was then
released while the function was still suspended on it.
---
 include/boost/context/continuation_ucontext.hpp | 9 ++++++---
 include/boost/context/fiber_ucontext.hpp        | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..2e869df 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -259,12 +259,15 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was started does not execute its function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..aa9f175 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,12 +284,15 @@ public:
 #endif
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was started does not execute its function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
+                c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 86e0870ae9b1d923f3f6314df7a3b4f024af5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 03/50] fix: ucontext: execute a function passed to
 resume_with() exactly once

The function was only cleared after it returned, so a function that threw
or that itself switched contexts was executed again by the next resumption.
---
 include/boost/context/continuation_ucontext.hpp | 8 ++++++--
 include/boost/context/fiber_ucontext.hpp        | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 2e869df..e973fd8 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -439,8 +439,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
@@ -462,8 +464,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index aa9f175..9a7902b 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -493,8 +493,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
@@ -512,8 +514,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 278e71b148a80305c688757961fc67120addc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 04/50] fix: ucontext: execute resume_with()'s function on a
 not yet started context

The entry function ignored a pending on-top function; it ran only when the
context was resumed for the second time.
---
 include/boost/context/continuation_ucontext.hpp | 10 +++++++++-
 include/boost/context/fiber_ucontext.hpp        | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index e973fd8..16014ac 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -257,8 +257,16 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        activation_record * ptr = from;
+        Ctx c;
         try {
+            // function to be executed on top of a not yet started context
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // a context destroyed before it was started does not execute its function
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 // invoke context-function
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 9a7902b..603e63c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -282,8 +282,16 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        fiber_activation_record * ptr = from;
+        Ctx c;
         try {
+            // function to be executed on top of a not yet started context
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // a context destroyed before it was started does not execute its function
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 // invoke context-function
-- 
2.43.0


From 7765cc438e045f6fac7109e08c0f0b1fb7b75cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/50] fix: ucontext: allow destructors to resume contexts
 during forced unwinding

force_unwind stayed set while the stack was unwound, so each resume() in a
destructor threw forced_unwind again and terminated the program.
---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 16014ac..072c95a 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -445,6 +445,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
@@ -470,6 +472,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 603e63c..f622346 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -499,6 +499,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
@@ -520,6 +522,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
-- 
2.43.0


From 0f72d680137d456a251b4140729cc4ddb6abb793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 06/50] fix: ucontext: resume_with() accepts any copyable
 function object

In C++14 and later the function was stored in a non-mutable lambda, so
function objects with a non-const operator() were rejected; in C++11 it was
stored in a std::bind expression, which unwraps reference wrappers and
evaluates nested bind expressions. Store it in a plain function object, as the
fcontext implementation effectively does.
---
 .../boost/context/continuation_ucontext.hpp   | 42 +++++++------------
 include/boost/context/fiber_ucontext.hpp      | 42 +++++++------------
 2 files changed, 32 insertions(+), 52 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 072c95a..0906afb 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -148,31 +148,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // function to be executed on top of the resumed context
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
-#if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
-#else
-                    return std::exchange( c.ptr_, nullptr);
-#endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
-#else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+    struct ontop_function {
+        Fn  fn;
+
+        activation_record * operator()( activation_record *& ptr) {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -183,8 +164,17 @@ struct BOOST_CONTEXT_DECL activation_record {
 #else
             return std::exchange( c.ptr_, nullptr);
 #endif
-        };
-#endif
+        }
+    };
+
+    template< typename Ctx, typename Fn >
+    activation_record * resume_with( Fn && fn) {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
+        current()->ontop = ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index f622346..d569a43 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -170,31 +170,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // function to be executed on top of the resumed context
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
-#if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
-#else
-                    return std::exchange( c.ptr_, nullptr);
-#endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
-#else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+    struct ontop_function {
+        Fn  fn;
+
+        fiber_activation_record * operator()( fiber_activation_record *& ptr) {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -205,8 +186,17 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #else
             return std::exchange( c.ptr_, nullptr);
 #endif
-        };
-#endif
+        }
+    };
+
+    template< typename Ctx, typename Fn >
+    fiber_activation_record * resume_with( Fn && fn) {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
+        current()->ontop = ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
-- 
2.43.0


From 929a0e738af08a1b6dad330230a0953f8ac0c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 07/50] fix: ucontext: resume_with() keeps the state intact if
 copying the function throws

The handle was emptied, the target marked as the running context and its
resumer recorded before the function was copied and stored (which might
allocate). An exception thrown by that copy or bad_alloc left the thread with a
wrong current context and lost the target. Store the function first.
---
 include/boost/context/continuation_ucontext.hpp | 14 ++++++++++----
 include/boost/context/fiber_ucontext.hpp        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 0906afb..4b78f31 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -167,14 +167,19 @@ struct BOOST_CONTEXT_DECL activation_record {
         }
     };
 
+    // might throw, must be called before the state of a context is modified
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
+    static std::function< activation_record*(activation_record*&) > make_ontop( Fn && fn) {
+        return ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+    }
+
+    activation_record * resume_with( std::function< activation_record*(activation_record*&) > && fn) {
 		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by continuation::current()
         current() = this;
-        current()->ontop = ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+        current()->ontop = std::move( fn);
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -454,12 +459,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        auto ontop = detail::activation_record::make_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index d569a43..fe8e2da 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -189,14 +189,19 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         }
     };
 
+    // might throw, must be called before the state of a context is modified
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop( Fn && fn) {
+        return ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+    }
+
+    fiber_activation_record * resume_with( std::function< fiber_activation_record*(fiber_activation_record*&) > && fn) {
 		from = current();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by fiber::current()
         current() = this;
-        current()->ontop = ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+        current()->ontop = std::move( fn);
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -504,12 +509,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        auto ontop = detail::fiber_activation_record::make_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
-- 
2.43.0


From 171bf6b004d144ae67255dfde878398776c4533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 08/50] fix: fcontext: do not copy resume_with()'s function on
 the target context

resume_with() already copied the function in the calling context. If the second
copy, made on the target, throws then the exception surfaces in the target and
the context which called resume_with() is lost. Move the function instead.
---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 include/boost/context/fiber_fcontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 4fc825a..a26fe64 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -108,7 +108,7 @@ template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
     auto p = static_cast< Fn * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    auto fn = * p;
+    Fn fn = std::move( * p);
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..2211da7 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -107,7 +107,7 @@ void fiber_entry( transfer_t t) noexcept {
 template< typename Ctx, typename Fn >
 transfer_t fiber_ontop( transfer_t t) {
     BOOST_ASSERT( nullptr != t.data);
-    auto p = *static_cast< Fn * >( t.data);
+    Fn p = std::move( *static_cast< Fn * >( t.data) );
     t.data = nullptr;
     // execute function, pass fiber via reference
     Ctx c = p( Ctx{ t.fctx } );
-- 
2.43.0


From 3371a90ac548c2989d2a7ac9fd34453912262a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 09/50] fix: ucontext: clean up correctly if getcontext() fails
 on creation

The stack was deallocated with the stack allocator passed to the constructor
although it might have been moved into the destroyed record, and errno was read
only after the clean-up.
---
 include/boost/context/continuation_ucontext.hpp | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp        | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 4b78f31..bf74175 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -301,10 +301,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -344,10 +346,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index fe8e2da..c814a81 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -326,10 +326,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -377,10 +379,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From c2e72c5e9e16e815045f7325de3975b0ceb98d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 10/50] fix: ucontext: release the ASAN fake stack of a
 finished context

The fake stack has to be destroyed if the context switched from has terminated;
the context switched to never has.
---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index bf74175..84a578b 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index c814a81..7afdd9e 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From ea7e97974f93b7c62adc1669cae95424d7bf1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 11/50] fix: ucontext: unpoison the stack of a finished context
 under ASAN

The last frames of a finished (or unwound) context are never left, so
their redzones stay poisoned in the shadow memory. An allocator that
reuses the memory (pooled_fixedsize_stack) got false reports.
---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/detail/externc.hpp        | 1 +
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 84a578b..53f514e 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -230,6 +230,10 @@ private:
         stack_context sctx = p->sctx;
         // deallocate activation record
         p->~capture_record();
+#if defined(BOOST_USE_ASAN)
+        // the last frames of the finished context have never been left
+        __asan_unpoison_memory_region( static_cast< char * >( sctx.sp) - sctx.size, sctx.size);
+#endif
         // destroy stack with stack allocator
         salloc.deallocate( sctx);
     }
diff --git a/include/boost/context/detail/externc.hpp b/include/boost/context/detail/externc.hpp
index 850bc1a..5d7ef6d 100644
--- a/include/boost/context/detail/externc.hpp
+++ b/include/boost/context/detail/externc.hpp
@@ -12,6 +12,7 @@
 extern "C" {
 void __sanitizer_start_switch_fiber( void **, const void *, size_t);
 void __sanitizer_finish_switch_fiber( void *, const void **, size_t *);
+void __asan_unpoison_memory_region( void const volatile *, size_t);
 }
 #endif
 
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 7afdd9e..ad4377c 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -255,6 +255,10 @@ private:
         stack_context sctx = p->sctx;
         // deallocate activation record
         p->~fiber_capture_record();
+#if defined(BOOST_USE_ASAN)
+        // the last frames of the finished context have never been left
+        __asan_unpoison_memory_region( static_cast< char * >( sctx.sp) - sctx.size, sctx.size);
+#endif
         // destroy stack with stack allocator
         salloc.deallocate( sctx);
     }
-- 
2.43.0


From 473744d8522f44cb2ba61bb8989488616b0a9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 12/50] fix: x86_64: store the stack guard in the new context,
 not in the caller's frame

With BOOST_CONTEXT_TLS_STACK_PROTECTOR make_fcontext() wrote the guard
value to 0x8(%rsp), overwriting the caller's stack, and left the slot of
the new context uninitialised.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From ae4b74ff05fbedde0f85fa0816d4b1bfc7a180b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 13/50] fix: protected_fixedsize_stack: report sizes that
 overflow as bad_alloc

Adding the guard page to a size close to SIZE_MAX wrapped around and
allocate() returned a stack consisting of the guard page only.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..c7f2f4d 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -16,6 +16,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -50,6 +51,8 @@ public:
     }
 
     stack_context allocate() {
+        // the size including the guard-page must be representable
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From f2b4b3e2f09608204c27d69e6f99f855949a5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:38 +0000
Subject: [PATCH 14/50] fix: i386 Mach-O: align the stack at the entry of the
 context-function

The context-function was entered with a stack pointer of 16*n+4, the ABI
demands 16*n+12 (argument area 16 byte aligned).
---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 1385ad36e4c70827f2a40e570929375ee2dc5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 15/50] fix: x86_64 MS ABI: preserve XMM6-XMM15 also with
 BOOST_USE_TSX

The option skips the floating point control state; the XMM registers are
non-volatile in the Microsoft ABI and must be preserved by every call.
---
 src/asm/jump_x86_64_ms_pe_clang_gas.S  | 4 ++--
 src/asm/jump_x86_64_ms_pe_gas.asm      | 4 ++--
 src/asm/jump_x86_64_ms_pe_masm.asm     | 4 ++--
 src/asm/ontop_x86_64_ms_pe_clang_gas.S | 4 ++--
 src/asm/ontop_x86_64_ms_pe_gas.asm     | 4 ++--
 src/asm/ontop_x86_64_ms_pe_masm.asm    | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/asm/jump_x86_64_ms_pe_clang_gas.S b/src/asm/jump_x86_64_ms_pe_clang_gas.S
index 1f633f7..3260f32 100644
--- a/src/asm/jump_x86_64_ms_pe_clang_gas.S
+++ b/src/asm/jump_x86_64_ms_pe_clang_gas.S
@@ -97,7 +97,6 @@ jump_fcontext:
 
     leaq  -0x118(%rsp), %rsp /* prepare stack */
 
-#if !defined(BOOST_USE_TSX)
     /* save XMM storage */
     movaps  %xmm6, 0x0(%rsp)
     movaps  %xmm7, 0x10(%rsp)
@@ -109,6 +108,7 @@ jump_fcontext:
     movaps  %xmm13, 0x70(%rsp)
     movaps  %xmm14, 0x80(%rsp)
     movaps  %xmm15, 0x90(%rsp)
+#if !defined(BOOST_USE_TSX)
     stmxcsr  0xa0(%rsp)  /* save MMX control- and status-word */
     fnstcw   0xa4(%rsp)  /* save x87 control-word */
 #endif
@@ -145,7 +145,6 @@ jump_fcontext:
     /* restore RSP (pointing to context-data) from RDX */
     movq  %rdx, %rsp
 
-#if !defined(BOOST_USE_TSX)
     /* restore XMM storage */
     movaps  0x0(%rsp), %xmm6
     movaps  0x10(%rsp), %xmm7
@@ -157,6 +156,7 @@ jump_fcontext:
     movaps  0x70(%rsp), %xmm13
     movaps  0x80(%rsp), %xmm14
     movaps  0x90(%rsp), %xmm15
+#if !defined(BOOST_USE_TSX)
  	ldmxcsr 0xa0(%rsp) /* restore MMX control- and status-word */
  	fldcw   0xa4(%rsp) /* restore x87 control-word */
 #endif
diff --git a/src/asm/jump_x86_64_ms_pe_gas.asm b/src/asm/jump_x86_64_ms_pe_gas.asm
index ec4ecfe..3ddfe13 100644
--- a/src/asm/jump_x86_64_ms_pe_gas.asm
+++ b/src/asm/jump_x86_64_ms_pe_gas.asm
@@ -97,7 +97,6 @@ jump_fcontext:
 
     leaq  -0x118(%rsp), %rsp /* prepare stack */
 
-#if !defined(BOOST_USE_TSX)
     /* save XMM storage */
     movaps  %xmm6, 0x0(%rsp)
     movaps  %xmm7, 0x10(%rsp)
@@ -109,6 +108,7 @@ jump_fcontext:
     movaps  %xmm13, 0x70(%rsp)
     movaps  %xmm14, 0x80(%rsp)
     movaps  %xmm15, 0x90(%rsp)
+#if !defined(BOOST_USE_TSX)
     stmxcsr  0xa0(%rsp)  /* save MMX control- and status-word */
     fnstcw   0xa4(%rsp)  /* save x87 control-word */
 #endif
@@ -145,7 +145,6 @@ jump_fcontext:
     /* restore RSP (pointing to context-data) from RDX */
     movq  %rdx, %rsp
 
-#if !defined(BOOST_USE_TSX)
     /* restore XMM storage */
     movaps  0x0(%rsp), %xmm6
     movaps  0x10(%rsp), %xmm7
@@ -157,6 +156,7 @@ jump_fcontext:
     movaps  0x70(%rsp), %xmm13
     movaps  0x80(%rsp), %xmm14
     movaps  0x90(%rsp), %xmm15
+#if !defined(BOOST_USE_TSX)
  	ldmxcsr 0xa0(%rsp) /* restore MMX control- and status-word */
  	fldcw   0xa4(%rsp) /* restore x87 control-word */
 #endif
diff --git a/src/asm/jump_x86_64_ms_pe_masm.asm b/src/asm/jump_x86_64_ms_pe_masm.asm
index c8a28a5..b50ad8a 100644
--- a/src/asm/jump_x86_64_ms_pe_masm.asm
+++ b/src/asm/jump_x86_64_ms_pe_masm.asm
@@ -90,7 +90,6 @@ jump_fcontext PROC BOOST_CONTEXT_EXPORT FRAME
     ; prepare stack
     lea rsp, [rsp-0118h]
 
-IFNDEF BOOST_USE_TSX
     ; save XMM storage
     movaps  [rsp], xmm6
     movaps  [rsp+010h], xmm7
@@ -102,6 +101,7 @@ IFNDEF BOOST_USE_TSX
     movaps  [rsp+070h], xmm13
     movaps  [rsp+080h], xmm14
     movaps  [rsp+090h], xmm15
+IFNDEF BOOST_USE_TSX
     ; save MMX control- and status-word
     stmxcsr  [rsp+0a0h]
     ; save x87 control-word
@@ -140,7 +140,6 @@ ENDIF
     ; restore RSP (pointing to context-data) from RDX
     mov  rsp, rdx
 
-IFNDEF BOOST_USE_TSX
     ; restore XMM storage
     movaps  xmm6, [rsp]
     movaps  xmm7, [rsp+010h]
@@ -152,6 +151,7 @@ IFNDEF BOOST_USE_TSX
     movaps  xmm13, [rsp+070h]
     movaps  xmm14, [rsp+080h]
     movaps  xmm15, [rsp+090h]
+IFNDEF BOOST_USE_TSX
     ; restore MMX control- and status-word
     ldmxcsr  [rsp+0a0h]
     ; save x87 control-word
diff --git a/src/asm/ontop_x86_64_ms_pe_clang_gas.S b/src/asm/ontop_x86_64_ms_pe_clang_gas.S
index 162c1f4..112a7c2 100644
--- a/src/asm/ontop_x86_64_ms_pe_clang_gas.S
+++ b/src/asm/ontop_x86_64_ms_pe_clang_gas.S
@@ -97,7 +97,6 @@ ontop_fcontext:
 
     leaq  -0x118(%rsp), %rsp /* prepare stack */
 
-#if !defined(BOOST_USE_TSX)
     /* save XMM storage */
     movaps  %xmm6, 0x0(%rsp)
     movaps  %xmm7, 0x10(%rsp)
@@ -109,6 +108,7 @@ ontop_fcontext:
     movaps  %xmm13, 0x70(%rsp)
     movaps  %xmm14, 0x80(%rsp)
     movaps  %xmm15, 0x90(%rsp)
+#if !defined(BOOST_USE_TSX)
     stmxcsr  0xa0(%rsp)  /* save MMX control- and status-word */
     fnstcw   0xa4(%rsp)  /* save x87 control-word */
 #endif
@@ -145,7 +145,6 @@ ontop_fcontext:
     /* restore RSP (pointing to context-data) from RDX */
     movq  %rdx, %rsp
 
-#if !defined(BOOST_USE_TSX)
     /* restore XMM storage */
     movaps  0x0(%rsp), %xmm6
     movaps  0x10(%rsp), %xmm7
@@ -157,6 +156,7 @@ ontop_fcontext:
     movaps  0x70(%rsp), %xmm13
     movaps  0x80(%rsp), %xmm14
     movaps  0x90(%rsp), %xmm15
+#if !defined(BOOST_USE_TSX)
  	ldmxcsr 0xa0(%rsp) /* restore MMX control- and status-word */
  	fldcw   0xa4(%rsp) /* restore x87 control-word */
 #endif
diff --git a/src/asm/ontop_x86_64_ms_pe_gas.asm b/src/asm/ontop_x86_64_ms_pe_gas.asm
index 02e040c..2cef366 100644
--- a/src/asm/ontop_x86_64_ms_pe_gas.asm
+++ b/src/asm/ontop_x86_64_ms_pe_gas.asm
@@ -97,7 +97,6 @@ ontop_fcontext:
 
     leaq  -0x118(%rsp), %rsp /* prepare stack */
 
-#if !defined(BOOST_USE_TSX)
     /* save XMM storage */
     movaps  %xmm6, 0x0(%rsp)
     movaps  %xmm7, 0x10(%rsp)
@@ -109,6 +108,7 @@ ontop_fcontext:
     movaps  %xmm13, 0x70(%rsp)
     movaps  %xmm14, 0x80(%rsp)
     movaps  %xmm15, 0x90(%rsp)
+#if !defined(BOOST_USE_TSX)
     stmxcsr  0xa0(%rsp)  /* save MMX control- and status-word */
     fnstcw   0xa4(%rsp)  /* save x87 control-word */
 #endif
@@ -145,7 +145,6 @@ ontop_fcontext:
     /* restore RSP (pointing to context-data) from RDX */
     movq  %rdx, %rsp
 
-#if !defined(BOOST_USE_TSX)
     /* restore XMM storage */
     movaps  0x0(%rsp), %xmm6
     movaps  0x10(%rsp), %xmm7
@@ -157,6 +156,7 @@ ontop_fcontext:
     movaps  0x70(%rsp), %xmm13
     movaps  0x80(%rsp), %xmm14
     movaps  0x90(%rsp), %xmm15
+#if !defined(BOOST_USE_TSX)
  	ldmxcsr 0xa0(%rsp) /* restore MMX control- and status-word */
  	fldcw   0xa4(%rsp) /* restore x87 control-word */
 #endif
diff --git a/src/asm/ontop_x86_64_ms_pe_masm.asm b/src/asm/ontop_x86_64_ms_pe_masm.asm
index b57dd15..2481dd1 100644
--- a/src/asm/ontop_x86_64_ms_pe_masm.asm
+++ b/src/asm/ontop_x86_64_ms_pe_masm.asm
@@ -90,7 +90,6 @@ ontop_fcontext PROC BOOST_CONTEXT_EXPORT FRAME
     ; prepare stack
     lea rsp, [rsp-0118h]
 
-IFNDEF BOOST_USE_TSX
     ; save XMM storage
     movaps  [rsp], xmm6
     movaps  [rsp+010h], xmm7
@@ -102,6 +101,7 @@ IFNDEF BOOST_USE_TSX
     movaps  [rsp+070h], xmm13
     movaps  [rsp+080h], xmm14
     movaps  [rsp+090h], xmm15
+IFNDEF BOOST_USE_TSX
     ; save MMX control- and status-word
     stmxcsr  [rsp+0a0h]
     ; save x87 control-word
@@ -140,7 +140,6 @@ ENDIF
     ; restore RSP (pointing to context-data) from RDX
     mov  rsp, rdx
 
-IFNDEF BOOST_USE_TSX
     ; restore XMM storage
     movaps  xmm6, [rsp]
     movaps  xmm7, [rsp+010h]
@@ -152,6 +151,7 @@ IFNDEF BOOST_USE_TSX
     movaps  xmm13, [rsp+070h]
     movaps  xmm14, [rsp+080h]
     movaps  xmm15, [rsp+090h]
+IFNDEF BOOST_USE_TSX
     ; restore MMX control- and status-word
     ldmxcsr  [rsp+0a0h]
     ; save x87 control-word
-- 
2.43.0


From 8ca35bc887230bae2c01de40a0569b1fc24b91cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 16/50] fix: pooled_fixedsize_stack: map whole pages with
 BOOST_CONTEXT_USE_MAP_STACK

The last page of a block was shared with other objects on the heap, which
were overwritten with zeros by mmap(MAP_FIXED).
---
 include/boost/context/pooled_fixedsize_stack.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..5c5962f 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -46,9 +46,16 @@ struct map_stack_allocator {
     typedef std::size_t size_type;
     typedef std::ptrdiff_t difference_type;
 
-    static char * malloc( const size_type bytes) {
+    static char * malloc( const size_type n) {
+        // the mapping replaces whole pages, thus the block must not share its
+        // last page with other objects on the heap
+        const size_type page_size = traitsT::page_size();
+        if ( n > ~static_cast< size_type >( 0) - ( page_size - 1) ) {
+            return 0;
+        }
+        const size_type bytes = ( ( n + page_size - 1) / page_size) * page_size;
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page_size, bytes) != 0) {
             return 0;
         }
         if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
-- 
2.43.0


From 27c2280aaaf6013f93b021f57302956d06366314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 17/50] fix: pooled_fixedsize_stack: the constructor may throw
 bad_alloc

It allocates the shared storage; exhaustion of the memory called std::terminate.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index 5c5962f..a714955 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -135,7 +135,7 @@ public:
 
     basic_pooled_fixedsize_stack( std::size_t stack_size = traits_type::default_size(),
                            std::size_t next_size = 32,
-                           std::size_t max_size = 0) BOOST_NOEXCEPT_OR_NOTHROW :
+                           std::size_t max_size = 0) :
         storage_( new storage( stack_size, next_size, max_size) ) {
     }
 
-- 
2.43.0


From 0f6b3c7e2c422e5968ca8c58b5b8c8f46e33b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:12 +0000
Subject: [PATCH 18/50] fix: protected_fixedsize_stack: throw bad_alloc if the
 guard-page can not be set up

A failing mprotect() was ignored and a stack without guard-page was handed out.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index c7f2f4d..b788cde 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -68,9 +68,11 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        // do not hand out a stack without guard-page
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From aed140013af8fe2997dbc55a01c1105f82b14336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:06 +0000
Subject: [PATCH 19/50] fix: fcontext: do not throw on the target if moving
 resume_with()'s function fails

Functions whose move might throw (e.g. because they can only be copied) were
moved on the target context; an exception surfaced there and the context which
called resume_with() was lost. Keep such a function on the heap.
---
 .../boost/context/continuation_fcontext.hpp   |  4 +-
 .../boost/context/detail/ontop_function.hpp   | 70 +++++++++++++++++++
 include/boost/context/fiber_fcontext.hpp      |  4 +-
 3 files changed, 76 insertions(+), 2 deletions(-)
 create mode 100644 include/boost/context/detail/ontop_function.hpp

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index a26fe64..aed84e7 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -33,6 +33,7 @@
 #include <boost/context/detail/disable_overload.hpp>
 #include <boost/context/detail/exception.hpp>
 #include <boost/context/detail/fcontext.hpp>
+#include <boost/context/detail/ontop_function.hpp>
 #include <boost/context/detail/tuple.hpp>
 #include <boost/context/fixedsize_stack.hpp>
 #include <boost/context/flags.hpp>
@@ -330,7 +331,8 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::forward< Fn >( fn);
+        detail::ontop_function< typename std::decay< Fn >::type > p{
+            std::forward< Fn >( fn) };
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
diff --git a/include/boost/context/detail/ontop_function.hpp b/include/boost/context/detail/ontop_function.hpp
new file mode 100644
index 0000000..f8f43a1
--- /dev/null
+++ b/include/boost/context/detail/ontop_function.hpp
@@ -0,0 +1,70 @@
+
+//          Copyright Oliver Kowalke 2014.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#ifndef BOOST_CONTEXT_DETAIL_ONTOP_FUNCTION_H
+#define BOOST_CONTEXT_DETAIL_ONTOP_FUNCTION_H
+
+#include <memory>
+#include <type_traits>
+#include <utility>
+
+#include <boost/config.hpp>
+
+#include <boost/context/detail/config.hpp>
+#include <boost/context/detail/disable_overload.hpp>
+
+#ifdef BOOST_HAS_ABI_HEADERS
+# include BOOST_ABI_PREFIX
+#endif
+
+namespace boost {
+namespace context {
+namespace detail {
+
+// function passed to `resume_with()`, copied in the calling context
+// and moved to the stack of the resumed context
+template< typename Fn, bool = std::is_nothrow_move_constructible< Fn >::value >
+class ontop_function {
+private:
+    Fn  fn_;
+
+public:
+    template< typename Arg, typename = disable_overload< ontop_function, Arg > >
+    explicit ontop_function( Arg && arg) :
+        fn_( std::forward< Arg >( arg) ) {
+    }
+
+    template< typename Ctx >
+    Ctx operator()( Ctx && c) {
+        return fn_( std::move( c) );
+    }
+};
+
+// moving the function might throw
+template< typename Fn >
+class ontop_function< Fn, false > {
+private:
+    std::unique_ptr< Fn >   fn_;
+
+public:
+    template< typename Arg, typename = disable_overload< ontop_function, Arg > >
+    explicit ontop_function( Arg && arg) :
+        fn_( new Fn( std::forward< Arg >( arg) ) ) {
+    }
+
+    template< typename Ctx >
+    Ctx operator()( Ctx && c) {
+        return ( * fn_)( std::move( c) );
+    }
+};
+
+}}}
+
+#ifdef BOOST_HAS_ABI_HEADERS
+#include BOOST_ABI_SUFFIX
+#endif
+
+#endif // BOOST_CONTEXT_DETAIL_ONTOP_FUNCTION_H
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 2211da7..4e712ac 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -33,6 +33,7 @@
 #include <boost/context/detail/disable_overload.hpp>
 #include <boost/context/detail/exception.hpp>
 #include <boost/context/detail/fcontext.hpp>
+#include <boost/context/detail/ontop_function.hpp>
 #include <boost/context/detail/tuple.hpp>
 #include <boost/context/fixedsize_stack.hpp>
 #include <boost/context/flags.hpp>
@@ -335,7 +336,8 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::forward< Fn >( fn);
+        detail::ontop_function< typename std::decay< Fn >::type > p{
+            std::forward< Fn >( fn) };
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
-- 
2.43.0


From 4677c4a18d6cdc5e24c133b7f9b178f9d4bb7f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 20/50] fix: honour the alignment of over-aligned function
 objects

The control structure, which contains the function object, was aligned to
256 bytes only.
---
 include/boost/context/continuation_fcontext.hpp | 4 ++--
 include/boost/context/continuation_ucontext.hpp | 4 ++--
 include/boost/context/fiber_fcontext.hpp        | 4 ++--
 include/boost/context/fiber_ucontext.hpp        | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index aed84e7..82b06c7 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -174,7 +174,7 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
 	void * storage = reinterpret_cast< void * >(
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 256 ? alignof( Record) : 256) - 1) );
     // placment new for control structure on context stack
     Record * record = new ( storage) Record{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -216,7 +216,7 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 256 ? alignof( Record) : 256) - 1) );
     // placment new for control structure on context-stack
     Record * record = new ( storage) Record{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 53f514e..33cb9fc 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -296,7 +296,7 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -341,7 +341,7 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 4e712ac..3b1a47a 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -171,7 +171,7 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
 	void * storage = reinterpret_cast< void * >(
 			( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 256 ? alignof( Record) : 256) - 1) );
     // placment new for control structure on context stack
     Record * record = new ( storage) Record{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -213,7 +213,7 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( Record) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( Record) > 256 ? alignof( Record) : 256) - 1) );
     // placment new for control structure on context-stack
     Record * record = new ( storage) Record{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index ad4377c..d516fd5 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -321,7 +321,7 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -374,7 +374,7 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
-- 
2.43.0


From d1fbdef3a68f76a67ab634e895a56e2349a4283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 21/50] fix: accept move-only functions in resume_with() with
 ucontext

---
 .../boost/context/continuation_ucontext.hpp   | 25 ++++++++++++++++++-
 include/boost/context/fiber_ucontext.hpp      | 25 ++++++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 33cb9fc..67944c6 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -29,6 +29,7 @@ extern "C" {
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -167,10 +168,32 @@ struct BOOST_CONTEXT_DECL activation_record {
         }
     };
 
+    template< typename Ctx, typename Fn >
+    struct shared_function {
+        std::shared_ptr< Fn >   fn;
+
+        Ctx operator()( Ctx && c) {
+            return ( * fn)( std::move( c) );
+        }
+    };
+
     // might throw, must be called before the state of a context is modified
     template< typename Ctx, typename Fn >
     static std::function< activation_record*(activation_record*&) > make_ontop( Fn && fn) {
-        return ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+        typedef typename std::decay< Fn >::type fn_t;
+        return make_ontop_impl< Ctx, fn_t >( std::forward< Fn >( fn), std::is_copy_constructible< fn_t >{} );
+    }
+
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< activation_record*(activation_record*&) > make_ontop_impl( Arg && fn, std::true_type) {
+        return ontop_function< Ctx, Fn >{ std::forward< Arg >( fn) };
+    }
+
+    // std::function requires a copyable function
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< activation_record*(activation_record*&) > make_ontop_impl( Arg && fn, std::false_type) {
+        return ontop_function< Ctx, shared_function< Ctx, Fn > >{
+                { std::shared_ptr< Fn >( new Fn( std::forward< Arg >( fn) ) ) } };
     }
 
     activation_record * resume_with( std::function< activation_record*(activation_record*&) > && fn) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index d516fd5..603a848 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -29,6 +29,7 @@ extern "C" {
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -189,10 +190,32 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         }
     };
 
+    template< typename Ctx, typename Fn >
+    struct shared_function {
+        std::shared_ptr< Fn >   fn;
+
+        Ctx operator()( Ctx && c) {
+            return ( * fn)( std::move( c) );
+        }
+    };
+
     // might throw, must be called before the state of a context is modified
     template< typename Ctx, typename Fn >
     static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop( Fn && fn) {
-        return ontop_function< Ctx, typename std::decay< Fn >::type >{ std::forward< Fn >( fn) };
+        typedef typename std::decay< Fn >::type fn_t;
+        return make_ontop_impl< Ctx, fn_t >( std::forward< Fn >( fn), std::is_copy_constructible< fn_t >{} );
+    }
+
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop_impl( Arg && fn, std::true_type) {
+        return ontop_function< Ctx, Fn >{ std::forward< Arg >( fn) };
+    }
+
+    // std::function requires a copyable function
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop_impl( Arg && fn, std::false_type) {
+        return ontop_function< Ctx, shared_function< Ctx, Fn > >{
+                { std::shared_ptr< Fn >( new Fn( std::forward< Arg >( fn) ) ) } };
     }
 
     fiber_activation_record * resume_with( std::function< fiber_activation_record*(fiber_activation_record*&) > && fn) {
-- 
2.43.0


From e64d836efb689de22f2e8d1e70da7cc8764553d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:30 +0000
Subject: [PATCH 22/50] fix: ucontext operator<< printed a finished context as
 if it existed

---
 include/boost/context/continuation_ucontext.hpp | 4 ++--
 include/boost/context/fiber_ucontext.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 67944c6..466bdd2 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -528,7 +528,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -553,7 +553,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 603a848..6140c1f 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -578,7 +578,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -603,7 +603,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
-- 
2.43.0


From 13b1b74fc763bbd80bd2d82b47415e11c8b2351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 23/50] fix: pooled_fixedsize_stack: tell valgrind that a
 released stack is accessible again

---
 include/boost/context/pooled_fixedsize_stack.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index a714955..ba8621b 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -29,7 +29,7 @@ extern "C" {
 #endif
 
 #if defined(BOOST_USE_VALGRIND)
-#include <valgrind/valgrind.h>
+#include <valgrind/memcheck.h>
 #endif
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -114,6 +114,10 @@ private:
             VALGRIND_STACK_DEREGISTER( sctx.valgrind_stack_id);
 #endif
             void * vp = static_cast< char * >( sctx.sp) - sctx.size;
+#if defined(BOOST_USE_VALGRIND)
+            // the memory is used again, but everything popped from the stack is inaccessible
+            VALGRIND_MAKE_MEM_UNDEFINED( vp, sctx.size);
+#endif
             storage_.free( vp);
         }
 
-- 
2.43.0


From 2395281e2731ecfae70b50733c430a844672e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:22 +0000
Subject: [PATCH 24/50] fix: preallocated.hpp: include the definition of
 stack_context

---
 include/boost/context/preallocated.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/context/preallocated.hpp b/include/boost/context/preallocated.hpp
index 862a6a5..fd641c0 100644
--- a/include/boost/context/preallocated.hpp
+++ b/include/boost/context/preallocated.hpp
@@ -12,6 +12,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/config.hpp>
+#include <boost/context/stack_context.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 # include BOOST_ABI_PREFIX
-- 
2.43.0


From 92c4e66a16ef10b6253b8e9260f61364d6796edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 25/50] fix: ucontext: allow fiber.hpp and continuation.hpp in
 the same program

---
 include/boost/context/continuation_ucontext.hpp | 11 ++---------
 include/boost/context/detail/exception.hpp      | 11 +++++++++++
 include/boost/context/fiber_ucontext.hpp        | 11 ++---------
 3 files changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 466bdd2..4def168 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -36,6 +36,7 @@ extern "C" {
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -234,14 +235,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    forced_unwind( activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -299,7 +292,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/detail/exception.hpp b/include/boost/context/detail/exception.hpp
index 801201d..d18b7e6 100644
--- a/include/boost/context/detail/exception.hpp
+++ b/include/boost/context/detail/exception.hpp
@@ -20,6 +20,16 @@ namespace boost {
 namespace context {
 namespace detail {
 
+#if defined(BOOST_USE_UCONTEXT)
+// shared by fiber and continuation
+struct forced_unwind {
+    void    *   from{ nullptr };
+
+    forced_unwind( void * from_) noexcept :
+        from{ from_ } {
+    }
+};
+#else
 struct forced_unwind {
     fcontext_t  fctx{ nullptr };
 
@@ -29,6 +39,7 @@ struct forced_unwind {
         fctx( fctx_) {
     }
 };
+#endif
 
 }}}
 
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 6140c1f..fcce7ca 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -37,6 +37,7 @@ extern "C" {
 #include <boost/predef.h>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -259,14 +260,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    forced_unwind( fiber_activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -324,7 +317,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
-- 
2.43.0


From c30e6bf8855b8b0b9f6245bcf885bf8cf23cf976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 26/50] fix: arm64 PE ontop_fcontext released 16 bytes too
 little of the suspended context's stack frame

---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 3b1a06585c0beb60628be1d31dfdde38e90c4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 27/50] fix: mips64 n64: preserve $gp across a switch and do
 not reload it from below the stack pointer in finish

---
 src/asm/jump_mips64_n64_elf_gas.S  | 2 ++
 src/asm/make_mips64_n64_elf_gas.S  | 5 ++---
 src/asm/ontop_mips64_n64_elf_gas.S | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asm/jump_mips64_n64_elf_gas.S b/src/asm/jump_mips64_n64_elf_gas.S
index 60027fe..aa87680 100644
--- a/src/asm/jump_mips64_n64_elf_gas.S
+++ b/src/asm/jump_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ jump_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ jump_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RAa
 
     # load PC
diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..99c0762 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -80,9 +80,8 @@ make_fcontext:
     jr  $ra # return pointer to context-data
 
 finish:
-    # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    # gp still holds the global pointer saved by make_fcontext():
+    # it was restored when the context was entered and is callee-saved (n64)
 
     # call _exit(0)
     #  the previous function should have left the 16 bytes incoming argument
diff --git a/src/asm/ontop_mips64_n64_elf_gas.S b/src/asm/ontop_mips64_n64_elf_gas.S
index e73e039..b00aeb9 100644
--- a/src/asm/ontop_mips64_n64_elf_gas.S
+++ b/src/asm/ontop_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ ontop_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ ontop_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RA
 
     # load PC
-- 
2.43.0


From 583570889a2bcfcb8cb7703f4a58b473f50792f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 28/50] fix: ppc64 ELF: preserve the callee-saved
 floating-point registers f14-f31 across a switch

---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 89 +++++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_elf_gas.S  | 51 ++++++++++++++---
 src/asm/ontop_ppc64_sysv_elf_gas.S | 89 +++++++++++++++++++++++++++---
 3 files changed, 205 insertions(+), 24 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..a3a7e8e 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ jump_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -168,6 +222,25 @@ jump_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -181,7 +254,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..76922d0 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -106,7 +141,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +159,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..1c7db3e 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ ontop_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -167,6 +221,25 @@ ontop_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -204,7 +277,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From fe14b2abca9c304f57891b2be5c32a64e286f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:06 +0000
Subject: [PATCH 29/50] fix: ppc64 XCOFF: preserve the callee-saved
 floating-point registers f14-f31 across a switch

---
 src/asm/jump_ppc64_sysv_xcoff_gas.S  | 89 +++++++++++++++++++++++++---
 src/asm/make_ppc64_sysv_xcoff_gas.S  | 51 +++++++++++++---
 src/asm/ontop_ppc64_sysv_xcoff_gas.S | 89 +++++++++++++++++++++++++---
 3 files changed, 205 insertions(+), 24 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_xcoff_gas.S b/src/asm/jump_ppc64_sysv_xcoff_gas.S
index f835d2a..73e65a3 100644
--- a/src/asm/jump_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc64_sysv_xcoff_gas.S
@@ -44,25 +44,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -79,7 +114,7 @@ jump_fcontext:
     .csect .text[PR], 5
 .jump_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -102,6 +137,25 @@ jump_fcontext:
     std  31, 144(1)  # save R31
     std  3,  152(1)  # save hidden
 
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
+
     # save CR
     mfcr  0
     std  0, 160(1)
@@ -138,6 +192,25 @@ jump_fcontext:
     ld  31, 144(1)  # restore R31
     ld  3,  152(1)  # restore hidden
 
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
+
     # restore CR
     ld  0, 160(1)
     mtcr  0
@@ -151,7 +224,7 @@ jump_fcontext:
     mtctr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # zero in r3 indicates first jump to context-function
     cmpdi 3, 0
diff --git a/src/asm/make_ppc64_sysv_xcoff_gas.S b/src/asm/make_ppc64_sysv_xcoff_gas.S
index 2374b50..cde99cd 100644
--- a/src/asm/make_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc64_sysv_xcoff_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -86,7 +121,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  3, 3, 248
+    subi  3, 3, 392
 
     # third arg of make_fcontext() == address of context-function descriptor
     ld   4, 0(5)
@@ -97,7 +132,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   0, 0
-    std  0, 184(3)
+    std  0, 328(3)
 
     # zero in r3 indicates first jump to context-function
     std  0, 152(3)
diff --git a/src/asm/ontop_ppc64_sysv_xcoff_gas.S b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
index 546b1b2..cb9f566 100644
--- a/src/asm/ontop_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
@@ -43,25 +43,60 @@
  *  |    R29    |    R30    |    R31    |   hidden  |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  40 |  41 |  42 |  43 |  44 |  45 |  46 |  47 |  *
+ *  | 40  | 41  | 42  | 43  | 44  | 45  | 46  | 47  |  *
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
+ *  | 48  | 49  | 50  | 51  | 52  | 53  | 54  | 55  |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
- *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
+ *  | 56  | 57  | 58  | 59  | 60  | 61  | 62  | 63  |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 64  | 65  | 66  | 67  | 68  | 69  | 70  | 71  |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 72  | 73  | 74  | 75  | 76  | 77  | 78  | 79  |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 80  | 81  | 82  | 83  | 84  | 85  | 86  | 87  |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 88  | 89  | 90  | 91  | 92  | 93  | 94  | 95  |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  | 96  | 97  | 98  | 99  | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -78,7 +113,7 @@ ontop_fcontext:
     .csect .text[PR], 5
 .ontop_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -101,6 +136,25 @@ ontop_fcontext:
     std  31, 144(1)  # save R31
     std  3,  152(1)  # save hidden
 
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
+
     # save CR
     mfcr  0
     std  0, 160(1)
@@ -136,6 +190,25 @@ ontop_fcontext:
     ld  31, 144(1)  # restore R31
     ld  3,  152(1)  # restore hidden
 
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
+
     # restore CR
     ld  0, 160(1)
     mtcr  0
@@ -161,7 +234,7 @@ return_to_ctx:
     mtlr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From 5d5e6f49076a20daaa000b6ba6f0874939542e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 30/50] fix: ppc32 XCOFF: preserve r13, start new contexts with
 the creator's FPSCR instead of uninitialized memory

---
 src/asm/jump_ppc32_sysv_xcoff_gas.S  | 8 +++++---
 src/asm/make_ppc32_sysv_xcoff_gas.S  | 7 +++++--
 src/asm/ontop_ppc32_sysv_xcoff_gas.S | 8 +++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/asm/jump_ppc32_sysv_xcoff_gas.S b/src/asm/jump_ppc32_sysv_xcoff_gas.S
index 1854613..6f7f9d6 100644
--- a/src/asm/jump_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  |compl| R13 | TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -79,7 +79,8 @@ jump_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 16(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -147,7 +148,8 @@ jump_fcontext:
     # restore TOC
     lwz   2, 20(1)
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 16(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
diff --git a/src/asm/make_ppc32_sysv_xcoff_gas.S b/src/asm/make_ppc32_sysv_xcoff_gas.S
index e803757..a8ddba9 100644
--- a/src/asm/make_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  |compl| R13 | TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -88,7 +88,10 @@ make_fcontext:
     stw  0, 256(3)
 
     # zero in r3 indicates first jump to context-function
-    std  0, 244(3)
+    stw  0, 244(3)
+
+    mffs  0  # load FPSCR
+    stfd  0, 248(3)  # save FPSCR
 
     # load LR
     mflr  0
diff --git a/src/asm/ontop_ppc32_sysv_xcoff_gas.S b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
index 9dfb492..c4c1743 100644
--- a/src/asm/ontop_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  |compl| R13 | TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -80,7 +80,8 @@ ontop_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 16(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -138,7 +139,8 @@ ontop_fcontext:
     lwz   0, 4(1)
     mtcr  0
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 16(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
-- 
2.43.0


From 3db3084ee508cd15696d7284abd44d39c884f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:59 +0000
Subject: [PATCH 31/50] fix: ppc32 Mach-O make_fcontext entered the
 context-function with a misaligned stack

---
 src/asm/make_ppc32_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_ppc32_sysv_macho_gas.S b/src/asm/make_ppc32_sysv_macho_gas.S
index e7b0c7a..9b4fa3a 100644
--- a/src/asm/make_ppc32_sysv_macho_gas.S
+++ b/src/asm/make_ppc32_sysv_macho_gas.S
@@ -87,7 +87,7 @@ _make_fcontext:
 
     ; reserve space for context-data on context-stack
     ; including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  r3, r3, 336
+    subi  r3, r3, 340
 
     ; third arg of make_fcontext() == address of context-function
     ; store as trampoline's R31
-- 
2.43.0


From 212bb03cb32987b07a9416d580e7c5323259e873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 32/50] fix: sparc64 make_fcontext: align the stack top to 16
 bytes (the mask kept bit 0)

---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From b0763984da2f88938615b993d55aca6bd3cef4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 33/50] fix: shadow stacks: map_shadow_stack is system call
 453, 451 is cachestat

---
 doc/stack.qbk                                   | 2 +-
 include/boost/context/continuation_fcontext.hpp | 6 +++++-
 include/boost/context/fiber_fcontext.hpp        | 6 +++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/doc/stack.qbk b/doc/stack.qbk
index 171a796..816e0aa 100644
--- a/doc/stack.qbk
+++ b/doc/stack.qbk
@@ -375,7 +375,7 @@ Boost.Context headers if stack protection is enabled.
 [section:shadow_stack Support for shadow stack protection]
 
 Shadow stack is part of Intel's Control-Flow Enforcement Technology. Users must
-check if syscall 'map_shadow_stack' exists, which is no.451 and then define
+check if syscall 'map_shadow_stack' exists, which is no.453 and then define
 `SHADOW_STACK_SYSCALL` before including any Boost.Context headers
 if shadow stack protection is enabled.
 
diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 82b06c7..80089cd 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -48,9 +48,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 3b1a47a..71717fc 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -48,9 +48,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
-- 
2.43.0


From bfa7b995aec5493c97054c368d9352669794e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 34/50] fix: shadow stacks: report a failing map_shadow_stack
 as std::bad_alloc (the assertion on it did not compile)

---
 include/boost/context/continuation_fcontext.hpp | 11 +++++++++--
 include/boost/context/fiber_fcontext.hpp        | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 80089cd..0c811ce 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -199,7 +200,10 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( MAP_FAILED == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -240,7 +244,10 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( MAP_FAILED == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 71717fc..2281632 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -16,6 +16,7 @@
 #include <exception>
 #include <functional>
 #include <memory>
+#include <new>
 #include <ostream>
 #include <tuple>
 #include <utility>
@@ -196,7 +197,10 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( MAP_FAILED == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -237,7 +241,10 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( MAP_FAILED == ss_base) {
+        record->deallocate();
+        throw std::bad_alloc();
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From 09e24b4949293f5793aba123c415b967c566c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 35/50] fix: shadow stacks: contexts with up to 128KB of stack
 overflowed their shadow stack of 512 entries

---
 include/boost/context/continuation_fcontext.hpp | 16 ++++++----------
 include/boost/context/fiber_fcontext.hpp        | 16 ++++++----------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0c811ce..3c5eda1 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -193,11 +193,9 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
-    // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // one entry for each return address that fits on the context stack,
+    // aligned to 8 bytes.
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( MAP_FAILED == ss_base) {
@@ -237,11 +235,9 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
-    // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // one entry for each return address that fits on the context stack,
+    // aligned to 8 bytes.
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( MAP_FAILED == ss_base) {
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 2281632..da2b04e 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -190,11 +190,9 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
-    // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // one entry for each return address that fits on the context stack,
+    // aligned to 8 bytes.
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( MAP_FAILED == ss_base) {
@@ -234,11 +232,9 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     const std::size_t size = reinterpret_cast< uintptr_t >( stack_top) - reinterpret_cast< uintptr_t >( stack_bottom);
 
 #if BOOST_CONTEXT_SHADOW_STACK
-    std::size_t ss_size = size >> 5;
-    // align shadow stack to 8 bytes.
-	ss_size = (ss_size + 7) & ~7;
-    // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // one entry for each return address that fits on the context stack,
+    // aligned to 8 bytes.
+    std::size_t ss_size = (size + 7) & ~static_cast< std::size_t >( 7);
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     if ( MAP_FAILED == ss_base) {
-- 
2.43.0


From e8e56c92397732fdff6a5a5be40fcd8c7c468ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:06 +0000
Subject: [PATCH 36/50] fix: shadow stacks: returning from a context-function
 entered it again instead of finish

---
 src/asm/make_x86_64_sysv_elf_gas.S | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..b5df468 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -106,9 +106,9 @@ make_fcontext:
     call  1f
     jmp  trampoline
 1:
-    /* save address of "jmp trampoline" as return-address */
-    /* for context-function */
-    pop 0x38(%rax)
+    /* the copy on the stack is not needed: the context-function */
+    /* returns to "jmp *%rbp" (see trampoline), i.e. to finish */
+    pop  %rcx
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From 2facecead86930497268408d073aff7b9cc51a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 37/50] fix: winfib: execute a function passed to resume_with()
 exactly once

---
 include/boost/context/continuation_winfib.hpp | 8 ++++++--
 include/boost/context/fiber_winfib.hpp        | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..7360b8a 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
@@ -370,8 +372,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..c1e83f5 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
@@ -373,8 +375,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function must not be executed again if it throws or resumes another context
+            auto fn = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = fn( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 9ff5f73646d2aeb99e3573c54da6b4ff5d37d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 38/50] fix: winfib: allow destructors to resume contexts
 during forced unwinding

---
 include/boost/context/continuation_winfib.hpp | 4 ++++
 include/boost/context/fiber_winfib.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 7360b8a..5977cf1 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
@@ -370,6 +372,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index c1e83f5..c3c77d3 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -352,6 +352,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
@@ -373,6 +375,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed while unwinding might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function must not be executed again if it throws or resumes another context
-- 
2.43.0


From ebe0aeaaf6dd45d2dcd731d17da5146a099f6aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 39/50] fix: winfib: do not run the function of a context
 destroyed before its first resume

---
 include/boost/context/continuation_winfib.hpp | 11 +++++++----
 include/boost/context/fiber_winfib.hpp        | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 5977cf1..75cdbe2 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -222,12 +222,15 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was started does not execute its function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index c3c77d3..3296e27 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,12 +221,15 @@ public:
     void run() {
         Ctx c{ from };
         try {
-            // invoke context-function
+            // a context destroyed before it was started does not execute its function
+            if ( BOOST_LIKELY( ! force_unwind) ) {
+                // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
-            c = boost::context::detail::invoke( fn_, std::move( c) );
+                c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
-            c = std::invoke( fn_, std::move( c) );
-#endif  
+                c = std::invoke( fn_, std::move( c) );
+#endif
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 4f6f1ad78a3493b034a7821a18160983d0852897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 40/50] fix: winfib: execute resume_with()'s function on a not
 yet started context

---
 include/boost/context/continuation_winfib.hpp | 10 +++++++++-
 include/boost/context/fiber_winfib.hpp        | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 75cdbe2..9690418 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -220,8 +220,16 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        activation_record * ptr = from;
+        Ctx c;
         try {
+            // function to be executed on top of a not yet started context
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // a context destroyed before it was started does not execute its function
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 // invoke context-function
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 3296e27..8d6a546 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -219,8 +219,16 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        fiber_activation_record * ptr = from;
+        Ctx c;
         try {
+            // function to be executed on top of a not yet started context
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // a context destroyed before it was started does not execute its function
             if ( BOOST_LIKELY( ! force_unwind) ) {
                 // invoke context-function
-- 
2.43.0


From c7e5b20d6bbadba7a0619f89700517cdd22a304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 41/50] fix: winfib: resume_with() accepts any function object
 and keeps the state intact if copying it throws

---
 include/boost/context/continuation_winfib.hpp | 75 ++++++++++++-------
 include/boost/context/fiber_winfib.hpp        | 75 ++++++++++++-------
 2 files changed, 94 insertions(+), 56 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 9690418..99828e5 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -129,31 +130,12 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // function to be executed on top of the resumed context
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
-#if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
-#else
-                    return std::exchange( c.ptr_, nullptr);
-#endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
-#else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+    struct ontop_function {
+        Fn  fn;
+
+        activation_record * operator()( activation_record *& ptr) {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -164,8 +146,44 @@ struct BOOST_CONTEXT_DECL activation_record {
 #else
             return std::exchange( c.ptr_, nullptr);
 #endif
-        };
-#endif
+        }
+    };
+
+    template< typename Ctx, typename Fn >
+    struct shared_function {
+        std::shared_ptr< Fn >   fn;
+
+        Ctx operator()( Ctx && c) {
+            return ( * fn)( std::move( c) );
+        }
+    };
+
+    // might throw, must be called before the state of a context is modified
+    template< typename Ctx, typename Fn >
+    static std::function< activation_record*(activation_record*&) > make_ontop( Fn && fn) {
+        typedef typename std::decay< Fn >::type fn_t;
+        return make_ontop_impl< Ctx, fn_t >( std::forward< Fn >( fn), std::is_copy_constructible< fn_t >{} );
+    }
+
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< activation_record*(activation_record*&) > make_ontop_impl( Arg && fn, std::true_type) {
+        return ontop_function< Ctx, Fn >{ std::forward< Arg >( fn) };
+    }
+
+    // std::function requires a copyable function
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< activation_record*(activation_record*&) > make_ontop_impl( Arg && fn, std::false_type) {
+        return ontop_function< Ctx, shared_function< Ctx, Fn > >{
+                { std::shared_ptr< Fn >( new Fn( std::forward< Arg >( fn) ) ) } };
+    }
+
+    activation_record * resume_with( std::function< activation_record*(activation_record*&) > && fn) {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
+        current()->ontop = std::move( fn);
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -375,12 +393,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        auto ontop = detail::activation_record::make_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 8d6a546..024d8fa 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -21,6 +21,7 @@
 #include <ostream>
 #include <system_error>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -128,31 +129,12 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // function to be executed on top of the resumed context
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
-#if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
-#else
-                    return std::exchange( c.ptr_, nullptr);
-#endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
-#else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+    struct ontop_function {
+        Fn  fn;
+
+        fiber_activation_record * operator()( fiber_activation_record *& ptr) {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -163,8 +145,44 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #else
             return std::exchange( c.ptr_, nullptr);
 #endif
-        };
-#endif
+        }
+    };
+
+    template< typename Ctx, typename Fn >
+    struct shared_function {
+        std::shared_ptr< Fn >   fn;
+
+        Ctx operator()( Ctx && c) {
+            return ( * fn)( std::move( c) );
+        }
+    };
+
+    // might throw, must be called before the state of a context is modified
+    template< typename Ctx, typename Fn >
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop( Fn && fn) {
+        typedef typename std::decay< Fn >::type fn_t;
+        return make_ontop_impl< Ctx, fn_t >( std::forward< Fn >( fn), std::is_copy_constructible< fn_t >{} );
+    }
+
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop_impl( Arg && fn, std::true_type) {
+        return ontop_function< Ctx, Fn >{ std::forward< Arg >( fn) };
+    }
+
+    // std::function requires a copyable function
+    template< typename Ctx, typename Fn, typename Arg >
+    static std::function< fiber_activation_record*(fiber_activation_record*&) > make_ontop_impl( Arg && fn, std::false_type) {
+        return ontop_function< Ctx, shared_function< Ctx, Fn > >{
+                { std::shared_ptr< Fn >( new Fn( std::forward< Arg >( fn) ) ) } };
+    }
+
+    fiber_activation_record * resume_with( std::function< fiber_activation_record*(fiber_activation_record*&) > && fn) {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
+        current()->ontop = std::move( fn);
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -378,12 +396,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        auto ontop = detail::fiber_activation_record::make_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with( std::move( ontop) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed while unwinding might resume other contexts
-- 
2.43.0


From 54886efdb1eb05d30c41a0a24a3fd15f3be6e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 42/50] fix: winfib: honour the alignment of over-aligned
 function objects

---
 include/boost/context/continuation_winfib.hpp | 4 ++--
 include/boost/context/fiber_winfib.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 99828e5..2d7ce7f 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -279,7 +279,7 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -296,7 +296,7 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 024d8fa..0286b38 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -278,7 +278,7 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
@@ -295,7 +295,7 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
     // reserve space for control structure
     void * storage = reinterpret_cast< void * >(
             ( reinterpret_cast< uintptr_t >( palloc.sp) - static_cast< uintptr_t >( sizeof( capture_t) ) )
-            & ~ static_cast< uintptr_t >( 0xff) );
+            & ~static_cast< uintptr_t >( ( alignof( capture_t) > 256 ? alignof( capture_t) : 256) - 1) );
     // placment new for control structure on context stack
     capture_t * record = new ( storage) capture_t{
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
-- 
2.43.0


From 3fd2f087b4967a14d2d7ac3b61e9f07cd8819fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 43/50] fix: winfib: throw std::system_error if CreateFiber()
 fails

---
 include/boost/context/continuation_winfib.hpp | 20 ++++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 20 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 2d7ce7f..cc94e36 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -103,7 +103,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -285,6 +285,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -302,6 +311,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 0286b38..959cb71 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -284,6 +284,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -301,6 +310,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 7033829780aca051fd8c79e60edaefd8ff3e30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 44/50] fix: winfib: operator<< printed a finished context as
 if it existed

---
 include/boost/context/continuation_winfib.hpp | 4 ++--
 include/boost/context/fiber_winfib.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index cc94e36..c8dc43d 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -449,7 +449,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -474,7 +474,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 959cb71..72705fc 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -452,7 +452,7 @@ public:
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
@@ -477,7 +477,7 @@ public:
     template< typename charT, class traitsT >
     inline std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, fiber const& other) {
-        if ( nullptr != other.ptr_) {
+        if ( other) {
             return os << other.ptr_;
         } else {
             return os << "{not-a-context}";
-- 
2.43.0


From f5b3a2949384a374dfea2dc84d93840c5fe26bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 45/50] fix: winfib: allow fiber.hpp and continuation.hpp in
 the same program

---
 include/boost/context/continuation_winfib.hpp | 11 ++---------
 include/boost/context/detail/exception.hpp    |  2 +-
 include/boost/context/fiber_winfib.hpp        | 11 ++---------
 3 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index c8dc43d..8aca952 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -28,6 +28,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -202,14 +203,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    explicit forced_unwind( activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -258,7 +251,7 @@ public:
 #endif
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/detail/exception.hpp b/include/boost/context/detail/exception.hpp
index d18b7e6..cb0546f 100644
--- a/include/boost/context/detail/exception.hpp
+++ b/include/boost/context/detail/exception.hpp
@@ -20,7 +20,7 @@ namespace boost {
 namespace context {
 namespace detail {
 
-#if defined(BOOST_USE_UCONTEXT)
+#if defined(BOOST_USE_UCONTEXT) || defined(BOOST_USE_WINFIB)
 // shared by fiber and continuation
 struct forced_unwind {
     void    *   from{ nullptr };
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 72705fc..f172c9d 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -28,6 +28,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -201,14 +202,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    explicit forced_unwind( fiber_activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -257,7 +250,7 @@ public:
 #endif
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0


From 4ab8b4511727b7943934796dc561d17ce12bcdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 46/50] fix: winfib: contexts left from another fiber than they
 were created with

A context was always resumed by switching to the fiber it was created
with (or, for the toplevel context of a thread, the fiber that was
running when the library was first used). If it was left from another
fiber, e.g. because fiber.hpp and continuation.hpp are used together or
the application uses several fibers of its own, control was transferred
to the wrong fiber.
---
 include/boost/context/continuation_winfib.hpp | 9 +++++++--
 include/boost/context/fiber_winfib.hpp        | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 8aca952..fdef12d 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -66,6 +66,9 @@ static VOID WINAPI entry_func( LPVOID data) noexcept {
 
 struct BOOST_CONTEXT_DECL activation_record {
     LPVOID                                                      fiber{ nullptr };
+    // fiber from which this context was left; `fiber` unless the context has
+    // switched fibers by other means (e.g. fibers of the application)
+    LPVOID                                                      left{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
     activation_record                                       *   from{ nullptr };
@@ -118,12 +121,13 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     activation_record * resume() {
         from = current();
+        from->left = ::GetCurrentFiber();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         current() = this;
         // context switch from parent context to `this`-context
         // context switch
-        ::SwitchToFiber( fiber);
+        ::SwitchToFiber( nullptr == left ? fiber : left);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
 #else
@@ -180,13 +184,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     activation_record * resume_with( std::function< activation_record*(activation_record*&) > && fn) {
         from = current();
+        from->left = ::GetCurrentFiber();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by continuation::current()
         current() = this;
         current()->ontop = std::move( fn);
         // context switch
-        ::SwitchToFiber( fiber);
+        ::SwitchToFiber( nullptr == left ? fiber : left);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
 #else
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index f172c9d..fd6cda2 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -66,6 +66,9 @@ static VOID WINAPI fiber_entry_func( LPVOID data) noexcept {
 
 struct BOOST_CONTEXT_DECL fiber_activation_record {
     LPVOID                                                      fiber{ nullptr };
+    // fiber from which this context was left; `fiber` unless the context has
+    // switched fibers by other means (e.g. fibers of the application)
+    LPVOID                                                      left{ nullptr };
     stack_context                                               sctx{};
     bool                                                        main_ctx{ true };
     fiber_activation_record                                       *   from{ nullptr };
@@ -117,12 +120,13 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     fiber_activation_record * resume() {
         from = current();
+        from->left = ::GetCurrentFiber();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         current() = this;
         // context switch from parent context to `this`-context
         // context switch
-        ::SwitchToFiber( fiber);
+        ::SwitchToFiber( nullptr == left ? fiber : left);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
 #else
@@ -179,13 +183,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     fiber_activation_record * resume_with( std::function< fiber_activation_record*(fiber_activation_record*&) > && fn) {
         from = current();
+        from->left = ::GetCurrentFiber();
         // store `this` in static, thread local pointer
         // `this` will become the active (running) context
         // returned by fiber::current()
         current() = this;
         current()->ontop = std::move( fn);
         // context switch
-        ::SwitchToFiber( fiber);
+        ::SwitchToFiber( nullptr == left ? fiber : left);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         return detail::exchange( current()->from, nullptr);
 #else
-- 
2.43.0


From 3f27751b5a183adab9a2f3f18b77bfc0515dcdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 47/50] fix: windows: protected_fixedsize_stack handed out tiny
 stacks for huge sizes

The size including the guard-page overflowed.
---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..ee4e883 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -13,6 +13,7 @@ extern "C" {
 
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 #include <boost/assert.hpp>
@@ -43,6 +44,9 @@ public:
     }
 
     stack_context allocate() {
+        // the size including the guard-page must be representable
+        // (max is put in parentheses because windows.h might define a macro)
+        if ( size_ > (std::numeric_limits< std::size_t >::max)() - 2 * traits_type::page_size() ) throw std::bad_alloc();
         // calculate how many pages are required
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
-- 
2.43.0


From bfb7d4d36e5c946a959428dafd45c98c9435fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 48/50] fix: windows: protected_fixedsize_stack might hand out
 stacks without guard-page

A failing VirtualProtect() was only asserted.
---
 .../context/windows/protected_fixedsize_stack.hpp     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index ee4e883..e62bbce 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -18,7 +18,6 @@ extern "C" {
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
-#include <boost/core/ignore_unused.hpp>
 
 #include <boost/context/detail/config.hpp>
 #include <boost/context/stack_context.hpp>
@@ -56,10 +55,12 @@ public:
         if ( ! vp) throw std::bad_alloc();
 
         DWORD old_options;
-        const BOOL result = ::VirtualProtect(
-            vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        // do not hand out a stack without guard-page
+        if ( FALSE == ::VirtualProtect(
+                vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options) ) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 87d44a44c3694114e6224c31dfe457e7bc4924b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:37 +0000
Subject: [PATCH 49/50] fix: ucontext, winfib: std::exit() called inside of a
 context deleted the running context

---
 src/continuation.cpp | 6 ++++--
 src/fiber.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..fde2bed 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -33,8 +33,10 @@ activation_record_initializer::activation_record_initializer() noexcept {
 
 activation_record_initializer::~activation_record_initializer() {
     if ( 0 == --counter) {
-        BOOST_ASSERT( current_rec->is_main_context() );
-        delete current_rec;
+        // not the main-context if `std::exit()` was called inside of another context
+        if ( current_rec->is_main_context() ) {
+            delete current_rec;
+        }
     }
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..3f6e032 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -33,8 +33,10 @@ fiber_activation_record_initializer::fiber_activation_record_initializer() noexc
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
     if ( 0 == --counter) {
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
-        delete fib_current_rec;
+        // not the main-context if `std::exit()` was called inside of another context
+        if ( fib_current_rec->is_main_context() ) {
+            delete fib_current_rec;
+        }
     }
 }
 
-- 
2.43.0


From 0e4dd1b156d49aa7418ffba24fb7412ad2722763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 50/50] fix: ucontext, winfib: contexts destroyed after the
 thread-local initializer used a released record of the main-context

---
 src/continuation.cpp | 16 ++++++++++++++--
 src/fiber.cpp        | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index fde2bed..9d24287 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,10 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -23,11 +27,14 @@ namespace detail {
 // zero-initialization
 thread_local activation_record * current_rec;
 thread_local static std::size_t counter;
+// memory of the record of the main-context: still required by contexts owned by objects
+// with static or thread storage duration, if those are destroyed after the initializer
+thread_local static std::aligned_storage< sizeof( activation_record), alignof( activation_record) >::type main_rec;
 
 // schwarz counter
 activation_record_initializer::activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-        current_rec = new activation_record();
+        current_rec = new ( & main_rec) activation_record();
     }
 }
 
@@ -35,7 +42,8 @@ activation_record_initializer::~activation_record_initializer() {
     if ( 0 == --counter) {
         // not the main-context if `std::exit()` was called inside of another context
         if ( current_rec->is_main_context() ) {
-            delete current_rec;
+            current_rec->~activation_record();
+            current_rec = nullptr;
         }
     }
 }
@@ -48,6 +56,10 @@ activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // the initializer was already destroyed
+        current_rec = new ( & main_rec) activation_record();
+    }
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 3f6e032..b9baedd 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,10 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+#include <type_traits>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -23,11 +27,14 @@ namespace detail {
 // zero-initialization
 thread_local fiber_activation_record * fib_current_rec;
 thread_local static std::size_t counter;
+// memory of the record of the main-context: still required by contexts owned by objects
+// with static or thread storage duration, if those are destroyed after the initializer
+thread_local static std::aligned_storage< sizeof( fiber_activation_record), alignof( fiber_activation_record) >::type main_rec;
 
 // schwarz counter
 fiber_activation_record_initializer::fiber_activation_record_initializer() noexcept {
     if ( 0 == counter++) {
-        fib_current_rec = new fiber_activation_record();
+        fib_current_rec = new ( & main_rec) fiber_activation_record();
     }
 }
 
@@ -35,7 +42,8 @@ fiber_activation_record_initializer::~fiber_activation_record_initializer() {
     if ( 0 == --counter) {
         // not the main-context if `std::exit()` was called inside of another context
         if ( fib_current_rec->is_main_context() ) {
-            delete fib_current_rec;
+            fib_current_rec->~fiber_activation_record();
+            fib_current_rec = nullptr;
         }
     }
 }
@@ -48,6 +56,10 @@ fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // the initializer was already destroyed
+        fib_current_rec = new ( & main_rec) fiber_activation_record();
+    }
     return fib_current_rec;
 }
 
-- 
2.43.0

