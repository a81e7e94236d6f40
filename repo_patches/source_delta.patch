From e7ae2e267bb0b111b879db24fe5d3482b7da21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 1/4] fix: initiate() must not start from a machine whose
 termination was intercepted

terminate() returns normally while states are still active when an exit
action fails and the resulting exception event is handled by a transition.
initiate() then constructed a second outermost state on top of the running
one (assertion failure, leaked state objects).
---
 include/boost/statechart/state_machine.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..573811e 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -245,6 +245,13 @@ class state_machine : noncopyable
     {
       terminate();
 
+      if ( !terminated() )
+      {
+        // An exit action failed and the resulting exception event has been
+        // handled such that the machine is still running
+        terminate_impl( false );
+      }
+
       {
         terminator guard( *this, 0 );
         detail::result_utility::get_result( translator_(
-- 
2.43.0


From 0e8978999b3dd96fc602c5a59ec9a1f2d57389ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:21 +0000
Subject: [PATCH 2/4] fix: context< Self >() on a const state did not compile

The const overload of simple_state::context() hands a const reference to
context_impl_this_context, which tried to cast away the const.
---
 include/boost/statechart/simple_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..56ec648 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -692,6 +692,12 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       {
         return *polymorphic_downcast< MostDerived * >( &stt );
       }
+
+      template< class OtherContext, class State >
+      static const OtherContext & context_impl( const State & stt )
+      {
+        return *polymorphic_downcast< const MostDerived * >( &stt );
+      }
     };
     friend struct context_impl_this_context;
 
-- 
2.43.0


From 5a7bd996acbd8743006f5035dab4d0d5cc5477e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 3/4] fix: a processor whose constructor throws must not leave
 a null holder behind

---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From a73c2e0afee493b14ebc32603e3cb3d0d1f78c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 4/4] fix: a relaxed transition action of the transition source
 itself must compile

---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 56ec648..9e28bea 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -774,7 +774,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext( &context< real_transition_context_type >() );
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0

