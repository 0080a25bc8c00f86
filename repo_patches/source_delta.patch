From bef9d1c7e356122763715d0d875293fff650e3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 01/15] fix: set_combiner during an invocation must not share
 the connection list

set_combiner() called while the signal is being invoked made a new
invocation_state which shared its connection list with the old one.  The
new state was unique, so a following connect() or cleanup modified the
list the running invocation was iterating over.
---
 include/boost/signals2/detail/signal_template.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 61e486b..073ff76 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -310,7 +310,12 @@ namespace boost
           if(_shared_state.unique())
             _shared_state->combiner() = combiner_arg;
           else
+          {
+            // the connection list must not be shared with the state which is in use
+            // elsewhere, since a unique _shared_state has its list modified in place
             _shared_state = boost::make_shared<invocation_state>(*_shared_state, combiner_arg);
+            _garbage_collector_it = _shared_state->connection_bodies().end();
+          }
         }
       private:
         typedef Mutex mutex_type;
@@ -392,7 +397,7 @@ namespace boost
             _combiner(other._combiner)
           {}
           invocation_state(const invocation_state &other, const combiner_type &combiner_in):
-            _connection_bodies(other._connection_bodies),
+            _connection_bodies(new connection_list_type(*other._connection_bodies)),
             _combiner(new combiner_type(combiner_in))
           {}
           connection_list_type & connection_bodies() { return *_connection_bodies; }
-- 
2.43.0


From 6f3fce67a51d3de00c3aa8d5c89e4c9b999dcfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 02/15] fix: don't assign to a combiner which a running
 invocation may be using

After a connect() during an invocation, the new invocation_state shares its
combiner with the old one.  A following set_combiner() found the new state
unique and assigned over the combiner of the running invocation.
---
 include/boost/signals2/detail/signal_template.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 073ff76..88ba0c3 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -308,7 +308,7 @@ namespace boost
         {
           unique_lock<mutex_type> lock(*_mutex);
           if(_shared_state.unique())
-            _shared_state->combiner() = combiner_arg;
+            _shared_state->reset_combiner(combiner_arg);
           else
           {
             // the connection list must not be shared with the state which is in use
@@ -404,6 +404,12 @@ namespace boost
           const connection_list_type & connection_bodies() const { return *_connection_bodies; }
           combiner_type & combiner() { return *_combiner; }
           const combiner_type & combiner() const { return *_combiner; }
+          // doesn't assign to the old combiner, which may be shared with
+          // another invocation_state that is in use by a running invocation
+          void reset_combiner(const combiner_type &combiner_in)
+          {
+            _combiner.reset(new combiner_type(combiner_in));
+          }
         private:
           invocation_state(const invocation_state &);
 
-- 
2.43.0


From 3f04587ebc71f7683b1a6ed06da025bf8c2d03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 03/15] fix: use the group compare object passed to the
 signal's constructor

It was not passed on to the map which holds the groups, which used a
default constructed compare object instead.
---
 include/boost/signals2/detail/slot_groups.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 5e1853a..118a4ae 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -64,7 +64,7 @@ namespace boost {
         typedef typename group_key<Group>::type group_key_type;
 
         grouped_list(const group_key_compare_type &group_key_compare):
-          _group_key_compare(group_key_compare)
+          _group_map(group_key_compare), _group_key_compare(group_key_compare)
         {}
         grouped_list(const grouped_list &other): _list(other._list),
           _group_map(other._group_map), _group_key_compare(other._group_key_compare)
-- 
2.43.0


From d577b1368354bc259057bcd682d05fbc01bee0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 04/15] fix: connection::blocked() is true for a disconnected
 connection

As documented, and as it already is once the connection has expired.
Also read the blocker while holding the mutex, since another thread might
be setting it.
---
 include/boost/signals2/connection.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 6449735..0c26665 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -89,13 +89,10 @@ namespace boost
           }
           return blocker;
         }
-        bool blocked() const
-        {
-          return !_weak_blocker.expired();
-        }
+        virtual bool blocked() const = 0;
         bool nolock_nograb_blocked() const
         {
-          return nolock_nograb_connected() == false || blocked();
+          return nolock_nograb_connected() == false || _weak_blocker.expired() == false;
         }
         bool nolock_nograb_connected() const {return _connected;}
         // expose part of Lockable concept of mutex
@@ -153,6 +150,12 @@ namespace boost
           nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
           return nolock_nograb_connected();
         }
+        virtual bool blocked() const
+        {
+          garbage_collecting_lock<mutex_type> local_lock(*_mutex);
+          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          return nolock_nograb_blocked();
+        }
         const GroupKey& group_key() const {return _group_key;}
         void set_group_key(const GroupKey &key) {_group_key = key;}
         template<typename M>
-- 
2.43.0


From 6fe378306752aa274bc9d424eaa8c9684f95c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 05/15] fix: keep signal implementation alive during an
 invocation

If a slot destroyed the signal, the cleanup of disconnected slots at the
end of the invocation used the freed signal implementation.
---
 include/boost/signals2/detail/signal_template.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 88ba0c3..de31994 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -741,11 +741,15 @@ namespace boost
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS))
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        // keep the implementation alive in case a slot destroys this signal
+        const shared_ptr<impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       result_type operator ()(BOOST_SIGNALS2_SIGNATURE_FULL_ARGS(BOOST_SIGNALS2_NUM_ARGS)) const
       {
-        return (*_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
+        // keep the implementation alive in case a slot destroys this signal
+        const shared_ptr<impl_class> local_pimpl(_pimpl);
+        return (*local_pimpl)(BOOST_SIGNALS2_SIGNATURE_ARG_NAMES(BOOST_SIGNALS2_NUM_ARGS));
       }
       std::size_t num_slots() const
       {
-- 
2.43.0


From fa83f6ae2ffd622c0246e8a4cd48196aa9dd7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 06/15] fix: don't release tracked objects while holding the
 signal's mutex

connected() may hold the last reference to a tracked object, whose
destructor then ran with the mutex locked.
---
 include/boost/signals2/connection.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index 0c26665..a953961 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -20,10 +20,10 @@
 #include <boost/mpl/bool.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/signals2/detail/auto_buffer.hpp>
-#include <boost/signals2/detail/null_output_iterator.hpp>
 #include <boost/signals2/detail/unique_lock.hpp>
 #include <boost/signals2/slot.hpp>
 #include <boost/weak_ptr.hpp>
+#include <iterator>
 
 namespace boost
 {
@@ -146,14 +146,20 @@ namespace boost
         virtual ~connection_body() {}
         virtual bool connected() const
         {
+          // locked_objects must be declared before local_lock, so the tracked
+          // objects are only released after the mutex is unlocked
+          auto_buffer<void_shared_ptr_variant, store_n_objects<10> > locked_objects;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          nolock_grab_tracked_objects(local_lock, std::back_inserter(locked_objects));
           return nolock_nograb_connected();
         }
         virtual bool blocked() const
         {
+          // locked_objects must be declared before local_lock, so the tracked
+          // objects are only released after the mutex is unlocked
+          auto_buffer<void_shared_ptr_variant, store_n_objects<10> > locked_objects;
           garbage_collecting_lock<mutex_type> local_lock(*_mutex);
-          nolock_grab_tracked_objects(local_lock, detail::null_output_iterator());
+          nolock_grab_tracked_objects(local_lock, std::back_inserter(locked_objects));
           return nolock_nograb_blocked();
         }
         const GroupKey& group_key() const {return _group_key;}
-- 
2.43.0


From 36195d41ade2eb79484c5cd9f842028909412b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 07/15] fix: connect() has no effect if inserting into the
 group map throws

The slot was left in the list, connected, and its group inconsistent.
---
 include/boost/signals2/detail/slot_groups.hpp | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/boost/signals2/detail/slot_groups.hpp b/include/boost/signals2/detail/slot_groups.hpp
index 118a4ae..0ffb60e 100644
--- a/include/boost/signals2/detail/slot_groups.hpp
+++ b/include/boost/signals2/detail/slot_groups.hpp
@@ -12,6 +12,7 @@
 #define BOOST_SIGNALS2_SLOT_GROUPS_HPP
 
 #include <boost/signals2/connection.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/optional.hpp>
 #include <list>
 #include <map>
@@ -182,20 +183,36 @@ namespace boost {
         void m_insert(const map_iterator &map_it, const group_key_type &key, const ValueType &value)
         {
           iterator list_it = get_list_iterator(map_it);
-          iterator new_it = _list.insert(list_it, value);
           if(map_it != _group_map.end() && weakly_equivalent(key, map_it->first))
           {
-            _group_map.erase(map_it);
+            // new first item in an existing group
+            iterator new_it = _list.insert(list_it, value);
+            map_it->second = new_it;
+            return;
           }
           map_iterator lower_bound_it = _group_map.lower_bound(key);
-          if(lower_bound_it == _group_map.end() ||
-            weakly_equivalent(lower_bound_it->first, key) == false)
+          if(lower_bound_it != _group_map.end() &&
+            weakly_equivalent(lower_bound_it->first, key))
+          {
+            // new last item in an existing group
+            _list.insert(list_it, value);
+            return;
+          }
+          iterator new_it = _list.insert(list_it, value);
+          BOOST_TRY
           {
             /* doing the following instead of just
               _group_map[key] = new_it;
               to avoid bogus error when enabling checked iterators with g++ */
             _group_map.insert(typename map_type::value_type(key, new_it));
           }
+          BOOST_CATCH(...)
+          {
+            // don't leave behind a list item without a group
+            _list.erase(new_it);
+            BOOST_RETHROW
+          }
+          BOOST_CATCH_END
         }
         iterator get_list_iterator(const const_map_iterator &map_it)
         {
-- 
2.43.0


From 1dc7b9fffaf666700a37c4c44475f201cdd1f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 08/15] fix: don't destroy slot function copies under lock in
 connect_extended

---
 include/boost/signals2/detail/signal_template.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index de31994..55d8658 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -176,9 +176,11 @@ namespace boost
         // connect extended slot
         connection connect_extended(const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<mutex_type> lock(*_mutex);
+          // bound_slot and slot are created before locking, so copies of the user's
+          // slot function are not destroyed while the mutex is held
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<mutex_type> lock(*_mutex);
           connection conn = nolock_connect(lock, slot, position);
           bound_slot.set_connection(conn);
           return conn;
@@ -186,9 +188,11 @@ namespace boost
         connection connect_extended(const group_type &group,
           const extended_slot_type &ext_slot, connect_position position = at_back)
         {
-          garbage_collecting_lock<Mutex> lock(*_mutex);
+          // bound_slot and slot are created before locking, so copies of the user's
+          // slot function are not destroyed while the mutex is held
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          garbage_collecting_lock<Mutex> lock(*_mutex);
           connection conn = nolock_connect(lock, group, slot, position);
           bound_slot.set_connection(conn);
           return conn;
-- 
2.43.0


From 5a9de0b707e9f74a8a80ea62b18aa59cacde2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 09/15] fix: don't leave a stale garbage collector iterator
 after an exception

An exception during the cleanup of disconnected slots left it pointing
to an erased list item, or into a list which is no longer in use.
---
 include/boost/signals2/detail/signal_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 55d8658..6175d52 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -455,6 +455,8 @@ namespace boost
           BOOST_ASSERT(_shared_state.unique());
           typename connection_list_type::iterator it;
           unsigned i;
+          // don't leave a stale iterator behind if an exception is thrown
+          _garbage_collector_it = _shared_state->connection_bodies().end();
           for(it = begin, i = 0;
             it != _shared_state->connection_bodies().end() && (count == 0 || i < count);
             ++i)
-- 
2.43.0


From ed338dbabc06e822d6869e91c1e44da35ce55b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 10/15] fix: don't terminate if the cleanup after an invocation
 throws

---
 include/boost/signals2/detail/signal_template.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 6175d52..e04e31f 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -438,7 +438,16 @@ namespace boost
             // force a full cleanup of disconnected slots if there are too many
             if(_cache.disconnected_slot_count > _cache.connected_slot_count)
             {
-              _sig.force_cleanup_connections(_connection_bodies);
+              BOOST_TRY
+              {
+                _sig.force_cleanup_connections(_connection_bodies);
+              }
+              BOOST_CATCH(...)
+              {
+                // the cleanup is only an optimization, don't let it
+                // throw out of the destructor
+              }
+              BOOST_CATCH_END
             }
           }
         private:
-- 
2.43.0


From 78227de4d2486ded7092137ad1bff07fb3d5418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 11/15] fix: don't create or destroy a slot's connection body
 while holding the mutex

If connecting failed (out of memory) the new connection body, and with it
the copy of the user's slot function, was destroyed with the signal's mutex
held, so a destructor using the signal deadlocked.
---
 .../boost/signals2/detail/signal_template.hpp | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index e04e31f..cd20199 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -162,16 +162,20 @@ namespace boost
           _mutex(new mutex_type())
         {}
         // connect slot
+        // The connection body is created before locking, so the user's slot function is
+        // neither copied nor, should connecting fail, destroyed while the mutex is held.
         connection connect(const slot_type &slot, connect_position position = at_back)
         {
+          connection_body_type newConnectionBody = create_new_connection(slot);
           garbage_collecting_lock<mutex_type> lock(*_mutex);
-          return nolock_connect(lock, slot, position);
+          return nolock_connect(lock, newConnectionBody, position);
         }
         connection connect(const group_type &group,
           const slot_type &slot, connect_position position = at_back)
         {
+          connection_body_type newConnectionBody = create_new_connection(slot);
           garbage_collecting_lock<mutex_type> lock(*_mutex);
-          return nolock_connect(lock, group, slot, position);
+          return nolock_connect(lock, group, newConnectionBody, position);
         }
         // connect extended slot
         connection connect_extended(const extended_slot_type &ext_slot, connect_position position = at_back)
@@ -180,8 +184,9 @@ namespace boost
           // slot function are not destroyed while the mutex is held
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          connection_body_type newConnectionBody = create_new_connection(slot);
           garbage_collecting_lock<mutex_type> lock(*_mutex);
-          connection conn = nolock_connect(lock, slot, position);
+          connection conn = nolock_connect(lock, newConnectionBody, position);
           bound_slot.set_connection(conn);
           return conn;
         }
@@ -192,8 +197,9 @@ namespace boost
           // slot function are not destroyed while the mutex is held
           bound_extended_slot_function_type bound_slot(ext_slot.slot_function());
           slot_type slot = replace_slot_function<slot_type>(ext_slot, bound_slot);
+          connection_body_type newConnectionBody = create_new_connection(slot);
           garbage_collecting_lock<Mutex> lock(*_mutex);
-          connection conn = nolock_connect(lock, group, slot, position);
+          connection conn = nolock_connect(lock, group, newConnectionBody, position);
           bound_slot.set_connection(conn);
           return conn;
         }
@@ -536,10 +542,8 @@ namespace boost
           unique_lock<mutex_type> list_lock(*_mutex);
           return _shared_state;
         }
-        connection_body_type create_new_connection(garbage_collecting_lock<mutex_type> &lock,
-          const slot_type &slot)
+        connection_body_type create_new_connection(const slot_type &slot)
         {
-          nolock_force_unique_connection_list(lock);
           return boost::make_shared<connection_body<group_key_type, slot_type, Mutex> >(slot, _mutex);
         }
         void do_disconnect(const group_type &group, mpl::bool_<true> /* is_group */)
@@ -581,10 +585,9 @@ namespace boost
         }
         // connect slot
         connection nolock_connect(garbage_collecting_lock<mutex_type> &lock,
-          const slot_type &slot, connect_position position)
+          const connection_body_type &newConnectionBody, connect_position position)
         {
-          connection_body_type newConnectionBody =
-            create_new_connection(lock, slot);
+          nolock_force_unique_connection_list(lock);
           group_key_type group_key;
           if(position == at_back)
           {
@@ -600,10 +603,9 @@ namespace boost
         }
         connection nolock_connect(garbage_collecting_lock<mutex_type> &lock,
           const group_type &group,
-          const slot_type &slot, connect_position position)
+          const connection_body_type &newConnectionBody, connect_position position)
         {
-          connection_body_type newConnectionBody =
-            create_new_connection(lock, slot);
+          nolock_force_unique_connection_list(lock);
           // update map to first connection body in group if needed
           group_key_type group_key(grouped_slots, group);
           newConnectionBody->set_group_key(group_key);
-- 
2.43.0


From a2e6735f79191c0982e060de0a6866c9ae72e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 12/15] fix: disconnect(signal) had no effect with the
 non-variadic implementation

boost::signals2::signal derives from signalN there, so the overload of
weak_signalN::contains taking any type was the better match.
---
 .../boost/signals2/detail/signal_template.hpp   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index cd20199..6da8b30 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -869,11 +869,24 @@ namespace boost
           return _weak_pimpl.lock().get() == signal._pimpl.get(); 
         }
         template <typename T>
-        bool contains(const T&) const
+        bool contains(const T &slot) const
         {
-          return false;
+          // a signal may be given as an object of a derived class
+          return contains_base(slot, mpl::bool_<is_base_of<
+            BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+            <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION>, T>::value>());
         }
       private:
+        bool contains_base(const BOOST_SIGNALS2_SIGNAL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
+          <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> &signal, mpl::bool_<true>) const
+        {
+          return contains(signal);
+        }
+        template <typename T>
+        bool contains_base(const T &, mpl::bool_<false>) const
+        {
+          return false;
+        }
         boost::weak_ptr<detail::BOOST_SIGNALS2_SIGNAL_IMPL_CLASS_NAME(BOOST_SIGNALS2_NUM_ARGS)
           <BOOST_SIGNALS2_SIGNAL_TEMPLATE_INSTANTIATION> > _weak_pimpl;
       };
-- 
2.43.0


From 339905d637f5b8895820fa6250ba527c4fa1a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 13/15] fix: slot list could grow without limit when connecting
 next to the garbage collector's position

---
 include/boost/signals2/detail/signal_template.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 6da8b30..2151d77 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -517,8 +517,10 @@ namespace boost
           {
             /* We need to try and check more than just 1 connection here to avoid corner
             cases where certain repeated connect/disconnect patterns cause the slot
-            list to grow without limit. */
-            nolock_cleanup_connections(lock, true, 2);
+            list to grow without limit.  Checking 2 is not enough either: if the new
+            connection is always inserted where it will be checked next, only one of
+            the older connections is checked for each one added. */
+            nolock_cleanup_connections(lock, true, 3);
           }
         }
         // force a full cleanup of the connection list
-- 
2.43.0


From 4df982745bffdf9c0bd4d024f9c948432462c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 14/15] fix: invocations never cleaned up expired slots which
 the combiner did not reach

---
 include/boost/signals2/detail/signal_template.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/signals2/detail/signal_template.hpp b/include/boost/signals2/detail/signal_template.hpp
index 2151d77..632cbc1 100644
--- a/include/boost/signals2/detail/signal_template.hpp
+++ b/include/boost/signals2/detail/signal_template.hpp
@@ -244,7 +244,7 @@ namespace boost
             garbage_collecting_lock<mutex_type> list_lock(*_mutex);
             // only clean up if it is safe to do so
             if(_shared_state.unique())
-              nolock_cleanup_connections(list_lock, false, 1);
+              nolock_cleanup_connections(list_lock, true, 1);
             /* Make a local copy of _shared_state while holding mutex, so we are
             thread safe against the combiner or connection list getting modified
             during invocation. */
@@ -268,7 +268,7 @@ namespace boost
             garbage_collecting_lock<mutex_type> list_lock(*_mutex);
             // only clean up if it is safe to do so
             if(_shared_state.unique())
-              nolock_cleanup_connections(list_lock, false, 1);
+              nolock_cleanup_connections(list_lock, true, 1);
             /* Make a local copy of _shared_state while holding mutex, so we are
             thread safe against the combiner or connection list getting modified
             during invocation. */
-- 
2.43.0


From e5d972eedf1d4840faf4ac1740a5a7db9363e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 15/15] fix: don't destroy a slot under lock when there is no
 memory for the list of things to destroy

---
 include/boost/signals2/connection.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/boost/signals2/connection.hpp b/include/boost/signals2/connection.hpp
index a953961..f602361 100644
--- a/include/boost/signals2/connection.hpp
+++ b/include/boost/signals2/connection.hpp
@@ -47,6 +47,12 @@ namespace boost
         {
           garbage.push_back(piece_of_trash);
         }
+        // makes room for one more piece of trash, so
+        // the next call to add_trash() will not throw.
+        void reserve_trash()
+        {
+          garbage.reserve(garbage.size() + 1);
+        }
       private:
         // garbage must be declared before lock
         // to insure it is destroyed after lock is
@@ -73,8 +79,9 @@ namespace boost
         {
           if(_connected)
           {
-            _connected = false;
+            // may throw, in which case we are still connected
             dec_slot_refcount(lock_arg);
+            _connected = false;
           }
         }
         virtual bool connected() const = 0;
@@ -119,6 +126,13 @@ namespace boost
         void dec_slot_refcount(garbage_collecting_lock<Mutex> &lock_arg) const
         {
           BOOST_ASSERT(m_slot_refcount != 0);
+          // A slot which has been released has to go into the trash,
+          // since it would be destroyed under lock otherwise.  So make sure
+          // there is room for it before changing anything.
+          if(m_slot_refcount == 1)
+          {
+            lock_arg.reserve_trash();
+          }
           if(--m_slot_refcount == 0)
           {
             lock_arg.add_trash(release_slot());
-- 
2.43.0

