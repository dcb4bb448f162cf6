From 149746f3b71a0f47a5b8e39cba87bf3b162f6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 01/11] fix: give every slot its own copy of arguments passed
 by value

The slot iterator forwarded the stored arguments as rvalues, so the first
slot taking e.g. a std::string by value moved it away and every later slot
of the same emission received an empty string.
---
 signals.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..9456349 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,29 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // The arguments of an emission are stored once and delivered to every
+        // slot. References (and arguments that cannot be copied) are forwarded,
+        // but each slot gets its own copy of an argument passed by value:
+        // forwarding it would let the first slot move the value away from the
+        // slots that follow.
+        template<typename Arg, bool = !std::is_reference<Arg>::value && std::is_copy_constructible<Arg>::value>
+        struct slot_argument
+        {
+            static Arg get(const Arg& arg)
+            {
+                return arg;
+            }
+        };
+
+        template<typename Arg>
+        struct slot_argument<Arg, false>
+        {
+            static Arg&& get(traits::remove_reference_t<Arg>& arg)
+            {
+                return std::forward<Arg>(arg);
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1162,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_argument<Args>::get(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1226,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_argument<Args>::get(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From 05de3de64182d1a32c49aed20cda9a0dad2216b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:57 +0000
Subject: [PATCH 02/11] fix: make slots copyable and allow empty slots to be
 copied and connected

Copying a non-const slot selected the callable constructor, which recursed
until the stack overflowed; copy assignment did not compile; copying or
connecting an empty slot dereferenced a null pointer.
---
 signals.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 9456349..bcf81ab 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1282,7 +1282,9 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        // Slots of the same type are copied or moved instead of being wrapped.
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_base_of<slot, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
@@ -1305,7 +1307,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1328,7 +1330,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
@@ -1709,8 +1711,11 @@ namespace sig
         }
 
         // Connect a previously created slot
+        // Connecting an empty slot results in a disconnected connection.
         connection connect(const slot_type& slot)
         {
+            if (!slot) return connection();
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From 2d00db78adad9f4c6d5f9d5be17efab2ffe28a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:04 +0000
Subject: [PATCH 03/11] fix: signal::disconnect disconnects the slots it erases

Erased slots kept reporting that they were connected: an emission in
progress still invoked them, and disconnecting them through their
connection removed whichever slot had taken over their index.
---
 signals.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index bcf81ab..eda8f53 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1839,7 +1839,9 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may already have been erased from the signal in which
+            // case its index refers to another slot.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1863,10 +1865,14 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    // Slots that are already being disconnected through their
+                    // connection are not counted again.
+                    if (s.state().disconnect())
+                        ++count;
+
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-                    ++count;
                 }
                 else
                 {
-- 
2.43.0


From 54c0da255a9d11dfd45293abacb0b64b37088a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:11 +0000
Subject: [PATCH 04/11] fix: destroy erased slots after releasing the signal's
 mutex

signal::disconnect destroyed the callables while it held the mutex. A
callable that owns a scoped_connection to the same signal (or uses the
signal in its destructor) dead-locked.
---
 signals.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index eda8f53..68130b4 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1855,6 +1855,7 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            list_type erased;        // Destroyed after the mutex is unlocked.
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
 
@@ -1865,6 +1866,8 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    erased.push_back(slots[i]);
+
                     // Slots that are already being disconnected through their
                     // connection are not counted again.
                     if (s.state().disconnect())
-- 
2.43.0


From af464c5b1600fe5efe3c2099e0dc8bede4041a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:18 +0000
Subject: [PATCH 05/11] fix: disconnect the slots of a signal that is destroyed

Slots that are kept alive by an emission in progress (or while the slot
list is being destroyed) still referred to the destroyed signal, so
disconnecting them accessed freed memory.
---
 signals.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 68130b4..d85d2e0 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1684,7 +1684,16 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            // Slots can outlive the signal during an emission. Connections must
+            // not refer to the signal anymore.
+            const auto slots = read_slots();
+            for (const auto& s : slots.read())
+            {
+                s->state().disconnect();
+            }
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
-- 
2.43.0


From a82c760c6a6abc01646cd6673d9570052bcb02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:24 +0000
Subject: [PATCH 06/11] fix: make moving a signal keep its connections working

Slots kept referring to the signal they were moved from, so disconnecting
them dereferenced its empty slot list (or freed memory); using a signal
after it was moved from crashed; move assignment did not return a value
and dead-locked on self-assignment.
---
 signals.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index d85d2e0..bc0eba6 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1702,21 +1702,30 @@ namespace sig
 
         // Moveable.
         signal(signal&& other) noexcept
-            : m_Blocked(other.m_Blocked.load())
+            : m_Slots(new list_type())
+            , m_Blocked(other.m_Blocked.load())
         {
             lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            std::swap(m_Slots, other.m_Slots);
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // Disconnects and destroys the previous slots of this signal
+                // after the mutex is unlocked.
+                signal tmp(std::move(other));
+
+                lock_type lock(m_SlotMutex);
+                std::swap(m_Slots, tmp.m_Slots);
+                m_Blocked = tmp.m_Blocked.load();
+                adopt_slots();
+            }
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1841,6 +1850,15 @@ namespace sig
             slots.push_back(std::move(s));
         }
 
+        // Slots refer to the signal they are connected to.
+        void adopt_slots()
+        {
+            for (const auto& s : m_Slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         // Remove a slot at the given index.
         virtual void remove_slot(detail::slot_base& slot) override
         {
-- 
2.43.0


From d3d2061c36e2fee5d37d2e5035f7ef6960511cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:31 +0000
Subject: [PATCH 07/11] fix: compare slots independently of how their callable
 was passed

The slot implementation type contained the deduced reference type of the
callable, so a slot connected with an lvalue (or with a function instead of
a pointer to it) never compared equal to the same callable passed as an
rvalue and signal::disconnect did not find it.
---
 signals.hpp | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index bc0eba6..f39831e 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -773,8 +773,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -810,8 +811,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -849,9 +851,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -892,9 +895,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -936,9 +940,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -997,9 +1002,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1286,7 +1292,7 @@ namespace sig
         template<typename Func,
             typename = detail::traits::enable_if_t<!std::is_base_of<slot, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
         {}
 
@@ -1294,14 +1300,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, detail::traits::decay_t<decltype(to_weak(std::forward<Ptr>(ptr)))>, Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 7b8362895fa344bc1ede4a55ad765d76d600fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 08/11] fix: synchronize with former owners before writing to a
 cow_ptr in place

The use count was read without synchronization, so connecting or
disconnecting a slot could modify the slot list while, as far as the memory
model is concerned, an emission on another thread was still reading it.
ThreadSanitizer reports the data race.
---
 signals.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index f39831e..c015427 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -652,6 +652,14 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // use_count does not synchronize with other threads giving
+                    // up their reference. Acquiring and releasing a reference
+                    // does, so what they read is not overwritten before they are
+                    // done with it.
+                    pointer_type sync(m_Ptr);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From a45a307da98f63dfdb087ff8ca0f19f7ffd75b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 09/11] fix: keep a slot blocked until all of its
 connection_blockers are gone

Blockers shared one flag, so destroying (or re-assigning) one of several
blockers of the same slot, or a blocker of a slot that was blocked with
connection::block, unblocked the slot while another one still blocked it.
---
 signals.hpp | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index c015427..164fc1a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -689,6 +689,7 @@ namespace sig
                 : m_Index(0)
                 , m_Connected(true)
                 , m_Blocked(false)
+                , m_Blockers(0)
             {}
 
             // Atomic variables are not CopyConstructible.
@@ -697,12 +698,14 @@ namespace sig
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0) // Blockers refer to the original slot.
             {}
 
             slot_state(slot_state&& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
                 , m_Blocked(s.m_Blocked.load())
+                , m_Blockers(0) // Blockers refer to the original slot.
             {}
 
             virtual ~slot_state() = default;
@@ -737,7 +740,7 @@ namespace sig
 
             bool blocked() const noexcept
             {
-                return m_Blocked;
+                return m_Blocked || m_Blockers != 0;
             }
 
             void block() noexcept
@@ -750,6 +753,17 @@ namespace sig
                 m_Blocked = false;
             }
 
+            // Number of connection_blocker objects that block the slot.
+            void add_blocker() noexcept
+            {
+                ++m_Blockers;
+            }
+
+            void remove_blocker() noexcept
+            {
+                --m_Blockers;
+            }
+
             std::size_t& index()
             {
                 return m_Index;
@@ -759,6 +773,7 @@ namespace sig
             std::size_t m_Index;
             std::atomic_bool m_Connected;
             std::atomic_bool m_Blocked;
+            std::atomic_size_t m_Blockers;
         };
 
         // Base class for slot implementations.
@@ -1261,6 +1276,8 @@ namespace sig
         public:
             virtual void block() = 0;
             virtual void unblock() = 0;
+            virtual void add_blocker() = 0;
+            virtual void remove_blocker() = 0;
             virtual bool connected() const noexcept = 0;
             virtual bool blocked() const noexcept = 0;
             virtual bool disconnect() = 0;
@@ -1416,6 +1433,18 @@ namespace sig
                 m_pImpl->unblock();
         }
 
+        void add_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->add_blocker();
+        }
+
+        void remove_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->remove_blocker();
+        }
+
         // Invoke the slot.
         opt::optional<R> operator()(Args&&... args)
         {
@@ -1475,8 +1504,11 @@ namespace sig
         connection_blocker& operator=(const connection_blocker&) = delete;
         connection_blocker& operator=(connection_blocker&& c) noexcept
         {
-            release();
-            m_Slot = std::move(c.m_Slot);
+            if (this != &c)
+            {
+                release();
+                m_Slot = std::move(c.m_Slot);
+            }
             return *this;
         }
 
@@ -1493,7 +1525,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->block();
+                s->add_blocker();
             }
         }
 
@@ -1501,7 +1533,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->unblock();
+                s->remove_blocker();
             }
         }
 
-- 
2.43.0


From 7930df9331b0ce6aaf853464d6d4f2e6bf65e192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 10/11] fix: do not terminate if memory runs out while
 disconnecting a slot

Disconnecting is noexcept (and is done by destructors) but copies the slot
list while it is shared with an emission. If the copy could not be allocated
the program was terminated although the slot was already disconnected.
---
 signals.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 164fc1a..3e67e98 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1409,7 +1409,15 @@ namespace sig
         {
             if (m_pImpl && m_pSignal && m_pImpl->disconnect() )
             {
-                m_pSignal->remove_slot(*this);
+                try
+                {
+                    m_pSignal->remove_slot(*this);
+                }
+                catch (...)
+                {
+                    // Copying the slot list failed. The slot stays in the list
+                    // but it is disconnected and will not be invoked anymore.
+                }
                 return true;
             }
 
-- 
2.43.0


From 38c0f907fff83d305b2f6ddeafab36afdea030a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 11/11] fix: cow_ptr construction from a pointer is not
 noexcept

Allocating the control block of the shared pointer can fail. Connecting a
slot during an emission when memory runs out terminated the program instead
of throwing std::bad_alloc.
---
 signals.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 3e67e98..f149b86 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,8 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            // Can throw if memory for sharing the object cannot be allocated.
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +550,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0

