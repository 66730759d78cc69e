From 760c5018071cde395559efc128fc82963ef88b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:02 +0000
Subject: [PATCH 1/3] fix: do not keep a processor holder whose processor
 failed to be constructed

create_processor_impl*() put the holder into the set before constructing the
processor. When the constructor threw, the handle stayed valid and referred to
an empty holder, so that a later initiate, terminate or event request
dereferenced a null pointer. The processor is now constructed first.
---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From 94da35b4c041126a0b23054428f22618b8fe179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 2/3] fix: accept the transition source as transition context
 in the relaxed mode

With BOOST_STATECHART_RELAX_TRANSITION_CONTEXT a transition action is documented
to be allowed as a member of the transition source itself, but such a transition
did not compile because the source has no context pointer to itself.
---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..93153b1 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -768,7 +768,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext( &context< real_transition_context_type >() );
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From 257a1405c8491c322637fc85d5b1a92f576f7a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 3/3] fix: leave states entered while handling a termination
 exception before initiating

---
 include/boost/statechart/state_machine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..16f9f4c 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -247,6 +247,10 @@ class state_machine : noncopyable
 
       {
         terminator guard( *this, 0 );
+        // An exception thrown by an exit function during the termination might
+        // have been handled with a transition. The machine must not have any
+        // active states when the initial state is constructed.
+        terminate_impl( false );
         detail::result_utility::get_result( translator_(
           initial_construct_function( *this ),
           exception_event_handler( *this ) ) );
-- 
2.43.0

