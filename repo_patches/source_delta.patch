From e8edb057efa89ced6cc2bbc8b457db54ec7b6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 1/9] fix: stack: pushing an empty range must not read or push
 anything

---
 include/boost/lockfree/stack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..c8f50ee 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,8 +284,13 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
-        ConstIterator it       = begin;
-        node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
+        ConstIterator it = begin;
+        if ( it == end ) {
+            ret = end;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
+        node* end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
             ret = begin;
             return make_tuple< node*, node* >( NULL, NULL );
-- 
2.43.0


From 9f7b3c8ecbe451cdb1fe9a73ace0d9d5764b54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 2/9] fix: stack: range push for fixed-size and compile-time
 sized stacks

---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index c8f50ee..d526193 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -297,7 +297,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -306,14 +306,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From 49d247a30626f2346dc12fca4e1aaea5237fe22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 3/9] fix: queue: unsynchronized_push for fixed-size and
 compile-time sized queues

---
 include/boost/lockfree/queue.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..94b3854 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -382,16 +382,18 @@ public:
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                handle_type node_handle = pool.get_handle( n );
+                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ), memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 5174ba742a091b9c0c06692c3a8e263bd11c6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 4/9] fix: return the node to the pool when the constructor of
 an element throws

---
 include/boost/lockfree/detail/freelist.hpp | 76 +++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..3ac48a3 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -78,8 +79,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -87,8 +98,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -96,8 +117,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -443,7 +474,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -455,7 +495,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -467,7 +516,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From 5e79b7ea692446f5a43bdef0523a503dc5072992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 5/9] fix: release the nodes when the allocator throws in the
 constructor of the node pool

---
 include/boost/lockfree/detail/freelist.hpp | 40 +++++++++++++++-------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 3ac48a3..9889965 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -54,15 +54,24 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            release_nodes(); // the destructor will not run
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -149,14 +158,7 @@ public:
 
     ~freelist_stack( void )
     {
-        tagged_node_ptr current = pool_.load();
-
-        while ( current ) {
-            freelist_node* current_ptr = current.get_ptr();
-            if ( current_ptr )
-                current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
-        }
+        release_nodes();
     }
 
     bool is_lock_free( void ) const
@@ -200,6 +202,18 @@ protected: // allow use from subclasses
     }
 
 private:
+    void release_nodes( void )
+    {
+        tagged_node_ptr current = pool_.load();
+
+        while ( current ) {
+            freelist_node* current_ptr = current.get_ptr();
+            if ( current_ptr )
+                current = current_ptr->next;
+            Alloc::deallocate( (T*)current_ptr, 1 );
+        }
+    }
+
     template < bool Bounded >
     T* allocate_impl( void )
     {
-- 
2.43.0


From fbe3c8fd189989a892f7578de0eec4aee4c9c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:33 +0000
Subject: [PATCH 6/9] fix: destroy the first part of a wrapped batch when
 copying the second one throws

---
 include/boost/lockfree/spsc_queue.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..1d83a3b 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,17 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                for ( T* it = internal_buffer + write_index; it != internal_buffer + max_size; ++it )
+                    it->~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 1764d23892c4df13f054a9dbbe3541cc5b72bdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 7/9] fix: release the nodes when a functor or an assignment
 throws while elements are taken from the stack

---
 include/boost/lockfree/stack.hpp | 78 +++++++++++++++++++++++++++++---
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index d526193..6e5865f 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -281,6 +281,16 @@ private:
         tos.store( new_tos, memory_order_relaxed );
     }
 
+    // releases the nodes of a private list
+    void destruct_nodes( node* first )
+    {
+        while ( first ) {
+            node* next = pool.get_pointer( first->next );
+            pool.template destruct< true >( first );
+            first = next;
+        }
+    }
+
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
@@ -518,8 +528,8 @@ public:
         node*              new_tos_ptr = pool.get_pointer( old_tos_pointer->next );
         tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );
 
-        tos.store( new_tos, memory_order_relaxed );
         detail::copy_payload( old_tos_pointer->v, ret );
+        tos.store( new_tos, memory_order_relaxed );
         pool.template destruct< false >( old_tos );
         return true;
     }
@@ -545,7 +555,16 @@ public:
             tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );
 
             if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
-                f( old_tos_pointer->v );
+                BOOST_TRY
+                {
+                    f( old_tos_pointer->v );
+                }
+                BOOST_CATCH( ... )
+                {
+                    pool.template destruct< true >( old_tos );
+                    BOOST_RETHROW;
+                }
+                BOOST_CATCH_END
                 pool.template destruct< true >( old_tos );
                 return true;
             }
@@ -566,7 +585,16 @@ public:
             tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );
 
             if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
-                f( old_tos_pointer->v );
+                BOOST_TRY
+                {
+                    f( old_tos_pointer->v );
+                }
+                BOOST_CATCH( ... )
+                {
+                    pool.template destruct< true >( old_tos );
+                    BOOST_RETHROW;
+                }
+                BOOST_CATCH_END
                 pool.template destruct< true >( old_tos );
                 return true;
             }
@@ -631,7 +659,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_to_consume );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -671,7 +708,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_to_consume );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -736,7 +782,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_in_reversed_order );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -794,7 +849,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_in_reversed_order );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
-- 
2.43.0


From f6a3876e5727ac6a05b3e5fd2342dba593aac6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 8/9] fix: do not leave destroyed elements in the spsc_queue
 when a functor or an assignment throws

---
 include/boost/lockfree/spsc_queue.hpp | 79 +++++++++++++++++++--------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 1d83a3b..a1d85d5 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -224,12 +224,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
-            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor, internal_buffer );
+            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor, internal_buffer );
 
             if ( new_read_index == max_size )
                 new_read_index = 0;
@@ -259,12 +259,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
-            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor, internal_buffer );
+            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor, internal_buffer );
 
             if ( new_read_index == max_size )
                 new_read_index = 0;
@@ -293,12 +293,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer );
-            copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0 );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer, internal_buffer );
+            copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, output_buffer );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, output_buffer, internal_buffer );
             if ( new_read_index == max_size )
                 new_read_index = 0;
         }
@@ -324,12 +324,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = avail - count0;
 
-            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );
-            copy_and_delete( internal_buffer, internal_buffer + count1, it );
+            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it, internal_buffer );
+            copy_and_delete( internal_buffer, internal_buffer + count1, it, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it, internal_buffer );
             if ( new_read_index == max_size )
                 new_read_index = 0;
         }
@@ -396,35 +396,66 @@ private:
     }
 
     template < class OutputIterator >
-    OutputIterator copy_and_delete( T* first, T* last, OutputIterator out )
+    OutputIterator copy_and_delete( T* first, T* last, OutputIterator out, T* internal_buffer )
     {
         if ( boost::has_trivial_destructor< T >::value ) {
             return std::copy( first, last, out ); // will use memcpy if possible
         } else {
-            for ( ; first != last; ++first, ++out ) {
-                *out = *first;
-                first->~T();
+            BOOST_TRY
+            {
+                for ( ; first != last; ++first ) {
+                    *out = *first;
+                    ++out;
+                    first->~T();
+                }
+            }
+            BOOST_CATCH( ... )
+            {
+                // the elements before first are gone
+                read_index_.store( first - internal_buffer, memory_order_release );
+                BOOST_RETHROW;
             }
+            BOOST_CATCH_END
             return out;
         }
     }
 
     template < class Functor >
-    void run_functor_and_delete( T* first, T* last, Functor& functor )
+    void run_functor_and_delete( T* first, T* last, Functor& functor, T* internal_buffer )
     {
-        for ( ; first != last; ++first ) {
-            functor( *first );
-            first->~T();
+        BOOST_TRY
+        {
+            for ( ; first != last; ++first ) {
+                functor( *first );
+                first->~T();
+            }
+        }
+        BOOST_CATCH( ... )
+        {
+            // the elements before first are gone
+            read_index_.store( first - internal_buffer, memory_order_release );
+            BOOST_RETHROW;
         }
+        BOOST_CATCH_END
     }
 
     template < class Functor >
-    void run_functor_and_delete( T* first, T* last, Functor const& functor )
+    void run_functor_and_delete( T* first, T* last, Functor const& functor, T* internal_buffer )
     {
-        for ( ; first != last; ++first ) {
-            functor( *first );
-            first->~T();
+        BOOST_TRY
+        {
+            for ( ; first != last; ++first ) {
+                functor( *first );
+                first->~T();
+            }
+        }
+        BOOST_CATCH( ... )
+        {
+            // the elements before first are gone
+            read_index_.store( first - internal_buffer, memory_order_release );
+            BOOST_RETHROW;
         }
+        BOOST_CATCH_END
     }
 };
 
-- 
2.43.0


From 1536a62cddd2a0e21cd4c81114a8c6b6fa64eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 9/9] fix: align over-aligned elements in compile-time sized
 containers

---
 include/boost/lockfree/detail/freelist.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 9889965..641e4b5 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -22,6 +22,7 @@
 
 #include <boost/align/align_up.hpp>
 #include <boost/align/aligned_allocator_adaptor.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 
 #include <boost/lockfree/detail/atomic.hpp>
 #include <boost/lockfree/detail/parameter.hpp>
@@ -381,7 +382,12 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     // array-based freelists only support a 16bit address space.
     BOOST_STATIC_ASSERT( size < 65536 );
 
-    boost::array< char, size * sizeof( T ) + 64 > data;
+    // elements may ask for more than the alignment of a cache line
+    static const std::size_t node_alignment = boost::alignment_of< T >::value > BOOST_LOCKFREE_CACHELINE_BYTES
+                                                  ? boost::alignment_of< T >::value
+                                                  : BOOST_LOCKFREE_CACHELINE_BYTES;
+
+    boost::array< char, size * sizeof( T ) + node_alignment > data;
 
     // unused ... only for API purposes
     template < typename Allocator >
@@ -393,7 +399,7 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     T* nodes( void ) const
     {
         char* data_pointer = const_cast< char* >( data.data() );
-        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );
+        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, node_alignment ) );
     }
 
     std::size_t node_count( void ) const
-- 
2.43.0

