From df6d165f989650c93cc85a101dbb04ba595af85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 01/13] fix: a notified timed waiter must not report a timeout
 (lost wakeup)

scheduler::wait_until() decided by the clock whether the deadline had resumed
the context. A context notified before its deadline but resumed after it
reported a timeout and so swallowed the notification. timed_mutex and
recursive_timed_mutex dropped it too, as they tested the clock before the lock.
---
 src/recursive_timed_mutex.cpp |  6 +++---
 src/scheduler.cpp             | 19 +++++++++++++------
 src/timed_mutex.cpp           |  6 +++---
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3d01236 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..63e28c7 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -84,9 +84,14 @@ scheduler::sleep2ready_() noexcept {
         if ( ctx->tp_ <= now) {
             // remove context from sleep-queue
             i = sleep_queue_.erase( i);
-            // reset sleep-tp
+            // reset sleep-tp, tells scheduler::wait_until() that the deadline
+            // (and not another waker) has resumed the context
+            std::chrono::steady_clock::time_point tp = ctx->tp_;
             ctx->tp_ = (std::chrono::steady_clock::time_point::max)();
-            ctx->sleep_waker_.wake();
+            if ( ! ctx->sleep_waker_.wake() ) {
+                // context has already been signaled from a remote thread
+                ctx->tp_ = tp;
+            }
         } else {
             break; // first context with now < deadline
         }
@@ -272,8 +277,9 @@ scheduler::wait_until( context * ctx,
     // resume another context
     algo_->pick_next()->resume();
     // context has been resumed
-    // check if deadline has reached
-    return std::chrono::steady_clock::now() < sleep_tp;
+    // check if resumed because the deadline has been reached; a context that was
+    // notified must not report a timeout, even if it gets resumed belatedly
+    return ctx->tp_ == sleep_tp;
 }
 
 bool
@@ -297,8 +303,9 @@ scheduler::wait_until( context * ctx,
     // resume another context
     algo_->pick_next()->resume( lk);
     // context has been resumed
-    // check if deadline has reached
-    return std::chrono::steady_clock::now() < sleep_tp;
+    // check if resumed because the deadline has been reached; a context that was
+    // notified must not report a timeout, even if it gets resumed belatedly
+    return ctx->tp_ == sleep_tp;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..fa98514 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
-- 
2.43.0


From 8fea458511311a65c62ce46fdf90328a28cb3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 02/13] fix: work_stealing must not search for a victim forever
 if it is alone

With a single scheduler (or a single logical cpu of the local NUMA node) the
search for an id different from the own one never ended.
---
 src/algo/work_stealing.cpp      | 2 +-
 src/numa/algo/work_stealing.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..9435ab9 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,7 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) { // there is another scheduler to steal from
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..8bfe768 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // steal only if another logical cpu belongs to the local NUMA node
+        if ( 1 < size) do {
             do {
                 ++count;
                 // random selection of one logical cpu
-- 
2.43.0


From 75f156a53b59bae82b84764ca7b46afb340d8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 03/13] fix: fiber_specific_ptr must not register a null
 pointer for clean-up

release(), reset( nullptr) and the destructor of a fiber_specific_ptr without a
value inserted an entry with a null pointer, for which the clean-up function
was called at the termination of the fiber.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From abf4e2ce3d9006fde28465d21012d10633a52538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 04/13] fix: packaged_task::reset() has to abandon the previous
 shared state

A future of the previous shared state waited forever instead of getting
broken_promise.
---
 include/boost/fiber/future/packaged_task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..4bf8c0f 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -128,6 +128,8 @@ public:
         packaged_task tmp;
         tmp.task_ = task_;
         task_ = tmp.task_->reset();
+        // abandon the previous shared state
+        tmp.obtained_ = obtained_;
         obtained_ = false;
     }
 };
-- 
2.43.0


From 6dd05558e608ea3ea709e432a1a6984a47f0c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 05/13] fix: unlock() of the futex based spinlocks needs
 release semantics

The uncontended unlock() decremented with memory_order_acquire only, hence the
critical section was not ordered before the next owner's.
---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..0f7cb71 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_acq_rel) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..1205037 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_acq_rel) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From af1547b58603667bbd5d6f8654b98e346036703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 06/13] fix: schedule_from_remote() must not use the scheduler
 after the lock is released

The signaled context might run to its end and its thread might destroy the
scheduler and its algorithm before notify() is called.
---
 src/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 63e28c7..84ff529 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -213,9 +213,12 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
+    // as soon as the lock is released ctx might be resumed, the thread of this
+    // scheduler might end and this scheduler might be destroyed
+    algo::algorithm::ptr_t algo{ algo_ };
     lk.unlock();
     // notify scheduler
-    algo_->notify();
+    algo->notify();
 }
 #endif
 
-- 
2.43.0


From ac0867d073539db3ef457b2ba61d5233adabbbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/13] fix: unbuffered_channel lost values, hung and used
 dangling slots

- push() decided by is_closed() after it was resumed: a value that was consumed
  before the channel was closed was reported as closed
- push_wait_until() reported a timeout although a consumer had already taken the
  slot, and left the slot while the consumer was still using it
- a producer that timed out did not hand the free slot to a waiting producer
- close() woke a producer without removing its slot (dangling pointer for the
  next pop) and accessed slots owned by a consumer
- push() racing with close() could suspend forever

The fiber which removes the slot (consumer, closing fiber or the producer) now
owns it and settles its status; the producer waits for this before it returns.
---
 include/boost/fiber/unbuffered_channel.hpp | 117 +++++++++++++--------
 1 file changed, 71 insertions(+), 46 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..aa0ed32 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -40,9 +40,18 @@ public:
     using value_type = typename std::remove_reference<T>::type;
 
 private:
+    // a slot belongs to the fiber which has removed it from slot_: the consumer,
+    // the fiber which closes the channel or the producer itself (timeout)
+    enum class slot_status {
+        pending,    // not consumed
+        consumed,   // a consumer has got the value
+        closed      // the channel was closed before the value was consumed
+    };
+
     struct slot {
-        value_type  value;
-        waker       w;
+        value_type                      value;
+        waker                           w;
+        std::atomic< slot_status >      status{ slot_status::pending };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -94,6 +103,30 @@ private:
         }
     }
 
+    // producer: take back the own slot, fails if it is already owned by another fiber
+    bool retract_( slot * own_slot) {
+        slot * nil_slot = nullptr;
+        return slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+    }
+
+    // owner of the slot: resume the producer
+    // the slot must not be accessed after its status has been changed
+    void release_( slot * s, slot_status status) {
+        s->w.wake();
+        s->status.store( status, std::memory_order_release);
+    }
+
+    // producer: resumed, but the slot is owned by another fiber
+    channel_op_status wait_released_( slot * own_slot) {
+        slot_status status;
+        while ( slot_status::pending == ( status = own_slot->status.load( std::memory_order_acquire) ) ) {
+            context::active()->yield();
+        }
+        return slot_status::consumed == status
+            ? channel_op_status::success
+            : channel_op_status::closed;
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -110,18 +143,18 @@ public:
 
     void close() noexcept {
         // set flag
-        if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                // notify context
-                s->w.wake();
-            }
+        if ( ! closed_.exchange( true, std::memory_order_acq_rel) ) {
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
             detail::spinlock_lock lk2{ splk_consumers_ };
             waiting_consumers_.notify_all();
+            // a value that was not consumed is discarded
+            slot * s = try_pop_();
+            if ( nullptr != s) {
+                // notify context
+                release_( s, slot_status::closed);
+            }
         }
     }
 
@@ -135,16 +168,14 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && retract_( & s) ) {
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
-                // suspend till value has been consumed
+                // suspend till value has been consumed or channel was closed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return wait_released_( & s);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -169,16 +200,14 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && retract_( & s) ) {
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
-                // suspend till value has been consumed
+                // suspend till value has been consumed or channel was closed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return wait_released_( & s);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -219,22 +248,20 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && retract_( & s) ) {
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && retract_( & s) ) {
                     // resumed, value has not been consumed
+                    // slot is free for another producer
+                    detail::spinlock_lock lk2{ splk_producers_ };
+                    waiting_producers_.notify_one();
                     return channel_op_status::timeout;
                 }
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return wait_released_( & s);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -265,22 +292,20 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && retract_( & s) ) {
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
+                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w)) && retract_( & s) ) {
                     // resumed, value has not been consumed
+                    // slot is free for another producer
+                    detail::spinlock_lock lk2{ splk_producers_ };
+                    waiting_producers_.notify_one();
                     return channel_op_status::timeout;
                 }
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
-                }
-                // value has been consumed
-                return channel_op_status::success;
+                return wait_released_( & s);
             }
             detail::spinlock_lock lk{ splk_producers_ };
             if ( BOOST_UNLIKELY( is_closed() ) ) {
@@ -308,7 +333,7 @@ public:
                 }
                 value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_status::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -335,7 +360,7 @@ public:
                 // consume value
                 value_type value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_status::consumed);
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -374,7 +399,7 @@ public:
                 // consume value
                 value = std::move( s->value);
                 // notify context
-                s->w.wake();
+                release_( s, slot_status::consumed);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From fa65443a8b3cc41ad2baeb0f9f2901566f62177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 08/13] fix: channel iterators must destroy their value exactly
 once

The iterators of buffered_channel and unbuffered_channel destroyed the
current value twice in operator++(), never destroyed the value if the
iteration was left early and copied only the pointer to the channel.
---
 include/boost/fiber/buffered_channel.hpp   | 60 +++++++++++++++------
 include/boost/fiber/unbuffered_channel.hpp | 63 ++++++++++++++++------
 2 files changed, 90 insertions(+), 33 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..40737bd 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -361,15 +361,24 @@ public:
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        // the storage contains a value as long as chan_ is not a nullptr
+        void release_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        void increment_( buffered_channel * chan) {
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
+                // channel closed
             }
         }
 
@@ -384,19 +393,36 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( buffered_channel< T > * chan) {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ * const_cast< iterator & >( other).value_() };
+                chan_ = other.chan_;
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( BOOST_LIKELY( this != & other) ) {
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ std::move( * other.value_() ) };
                 chan_ = other.chan_;
             }
+        }
+
+        ~iterator() {
+            release_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                release_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ * const_cast< iterator & >( other).value_() };
+                    chan_ = other.chan_;
+                }
+            }
             return * this;
         }
 
@@ -409,8 +435,10 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            buffered_channel * chan = chan_;
+            BOOST_ASSERT( nullptr != chan);
+            release_();
+            increment_( chan);
             return * this;
         }
 
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index aa0ed32..e7f341f 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -422,15 +422,24 @@ public:
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        // the storage contains a value as long as chan_ is not a nullptr
+        void release_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        void increment_( unbuffered_channel * chan) {
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
+                // channel closed
             }
         }
 
@@ -445,18 +454,36 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( unbuffered_channel< T > * chan) {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ * const_cast< iterator & >( other).value_() };
+                chan_ = other.chan_;
+            }
+        }
+
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ std::move( * other.value_() ) };
+                chan_ = other.chan_;
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( this == & other) return * this;
-            chan_ = other.chan_;
+        ~iterator() {
+            release_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                release_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ * const_cast< iterator & >( other).value_() };
+                    chan_ = other.chan_;
+                }
+            }
             return * this;
         }
 
@@ -469,8 +496,10 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-            increment_();
+            unbuffered_channel * chan = chan_;
+            BOOST_ASSERT( nullptr != chan);
+            release_();
+            increment_( chan);
             return * this;
         }
 
-- 
2.43.0


From 2a4de5e00f32c022d86053b7c786c6c9d2838668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 09/13] fix: context_spmc_queue::steal() must not access a
 context it does not own

A thief tested the pinned flag of the context before it became its owner:
the context might already be dequeued and destroyed by another thread and
the slot is empty (nullptr) if the array was resized after top_ was read.
---
 .../boost/fiber/detail/context_spmc_queue.hpp | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..36ff619 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -43,7 +43,8 @@ class context_spmc_queue {
 private:
     class array {
     private:
-        typedef std::atomic< context * >                atomic_type;
+        // address of the context, the lowest bit is set if the context is pinned
+        typedef std::atomic< std::uintptr_t >           atomic_type;
         typedef atomic_type                             storage_type; 
 
         std::size_t         capacity_;
@@ -54,7 +55,7 @@ private:
             capacity_{ capacity },
             storage_{ new storage_type[capacity_] } {
             for ( std::size_t i = 0; i < capacity_; ++i) {
-                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ nullptr };
+                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ 0 };
             }
         }
 
@@ -69,13 +70,13 @@ private:
             return capacity_;
         }
 
-        void push( std::size_t bottom, context * ctx) noexcept {
+        void push( std::size_t bottom, std::uintptr_t slot) noexcept {
             reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[bottom % capacity_]) )
-                    ->store( ctx, std::memory_order_relaxed);
+                    ->store( slot, std::memory_order_relaxed);
         }
 
-        context * pop( std::size_t top) noexcept {
+        std::uintptr_t pop( std::size_t top) noexcept {
             return reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[top % capacity_]) )
                     ->load( std::memory_order_relaxed);
@@ -96,6 +97,17 @@ private:
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
 
+    static constexpr std::uintptr_t pinned_bit = 1;
+
+    static std::uintptr_t to_slot( context * ctx) noexcept {
+        std::uintptr_t slot = reinterpret_cast< std::uintptr_t >( ctx);
+        return ctx->is_context( type::pinned_context) ? slot | pinned_bit : slot;
+    }
+
+    static context * to_context( std::uintptr_t slot) noexcept {
+        return reinterpret_cast< context * >( slot & ~pinned_bit);
+    }
+
 public:
     context_spmc_queue( std::size_t capacity = 4096) :
         array_{ new array{ capacity } } {
@@ -130,7 +142,7 @@ public:
             std::swap( a, tmp);
             array_.store( a, std::memory_order_relaxed);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, to_slot( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -144,7 +156,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = to_context( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -171,10 +183,12 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
-            ctx = a->pop( top);
-            BOOST_ASSERT( nullptr != ctx);
+            // the context is not owned till top_ has been incremented: it
+            // might already be dequeued (and destroyed) by another thread and
+            // the slot is empty if top is outdated, hence do not access it
+            std::uintptr_t slot = a->pop( top);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( 0 != ( slot & pinned_bit) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
@@ -183,6 +197,8 @@ public:
                 // lose the race
                 return nullptr;
             }
+            ctx = to_context( slot);
+            BOOST_ASSERT( nullptr != ctx);
         }
         return ctx;
     }
-- 
2.43.0


From d868f07872663ac15ccfa4e0609585b592473ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 10/13] fix: a fiber running while its thread ends must not
 initialize the thread again

The counter of context_initializer was already zero while the fibers that
outlive the main fiber were run, use_scheduling_algorithm() called by one of
those created a second main context and scheduler.
---
 src/context.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 474a495..1681340 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -82,9 +82,13 @@ struct context_initializer {
     }
 
     ~context_initializer() {
-        if ( 0 == --counter_) {
+        // fibers that are still pending are run by deinitialize(); the thread
+        // must not be initialized again if one of those calls
+        // initialize_thread(), thus counter_ is decremented afterwards
+        if ( 1 == counter_) {
             deinitialize();
         }
+        --counter_;
     }
 
     void initialize()
-- 
2.43.0


From d00dff77afe875720cb84d5c186769a8acb5da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 11/13] fix: scheduler::set_algo() raced with
 schedule_from_remote()

The algorithm was replaced (and destroyed) without holding the lock that
protects the remote ready-queue while another thread copied or notified it.
---
 src/scheduler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 84ff529..b26d94b 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -334,7 +334,11 @@ scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     while ( algo_->has_ready_fibers() ) {
         algo->awakened( algo_->pick_next() );
     }
-    algo_ = std::move( algo);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
+    // protect for concurrent access, see schedule_from_remote()
+    detail::spinlock_lock lk{ remote_ready_splk_ };
+#endif
+    algo_.swap( algo);
 }
 
 void
-- 
2.43.0


From 3d1aaa4c0772ee76c61b7ce750d827b590ab11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 12/13] fix: a timeout given in another clock must not fire
 early when clocks are read in the wrong order

---
 include/boost/fiber/detail/convert.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/convert.hpp b/include/boost/fiber/detail/convert.hpp
index ba3bbbd..a527ad1 100644
--- a/include/boost/fiber/detail/convert.hpp
+++ b/include/boost/fiber/detail/convert.hpp
@@ -31,7 +31,10 @@ std::chrono::steady_clock::time_point convert(
 template< typename Clock, typename Duration >
 std::chrono::steady_clock::time_point convert(
         std::chrono::time_point< Clock, Duration > const& timeout_time) {
-    return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );
+    // read Clock first: the order in which both clocks are read decides
+    // if a delay between the reads makes the timeout late or premature
+    auto const remaining = timeout_time - Clock::now();
+    return std::chrono::steady_clock::now() + remaining;
 }
 
 }}}
-- 
2.43.0


From 666cb8a08aa4bbab02df18ee43cb6787ebc0ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 13/13] fix: store a task's exception outside of the exception
 handler

set_exception() locks a fiber mutex and might suspend the fiber.  Inside the
handler the caught exception belongs to the thread: a fiber resumed by another
thread left the handler there, and the exception object was never destroyed.
---
 .../boost/fiber/future/detail/task_object.hpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/future/detail/task_object.hpp b/include/boost/fiber/future/detail/task_object.hpp
index 47bbf3c..a8a6569 100644
--- a/include/boost/fiber/future/detail/task_object.hpp
+++ b/include/boost/fiber/future/detail/task_object.hpp
@@ -54,6 +54,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except{};
         try {
             this->set_value(
 #if defined(BOOST_NO_CXX17_STD_APPLY)
@@ -69,7 +70,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // might suspend (and migrate) this fiber: not inside the handler,
+        // which belongs to the thread
+        if ( except) {
+            this->set_exception( std::move( except) );
         }
     }
 
@@ -129,6 +135,7 @@ public:
     }
 
     void run( Args && ... args) override final {
+        std::exception_ptr except{};
         try {
 #if defined(BOOST_NO_CXX17_STD_APPLY)
             boost::context::detail::apply(
@@ -143,7 +150,12 @@ public:
             throw;
 #endif
         } catch (...) {
-            this->set_exception( std::current_exception() );
+            except = std::current_exception();
+        }
+        // might suspend (and migrate) this fiber: not inside the handler,
+        // which belongs to the thread
+        if ( except) {
+            this->set_exception( std::move( except) );
         }
     }
 
-- 
2.43.0

