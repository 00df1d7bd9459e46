From b9b8d8cc3165f6c58279593b5d0fc0281159ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 001/170] fix: remove the stop event of a run that halts before
 its bound

A bounded Scheduler::run() that ended early (no continuing events left, or
stopRunning) left its stop event queued, which then cut a later run short.
---
 sparta/sparta/kernel/Scheduler.hpp |  3 ++
 sparta/src/Scheduler.cpp           | 51 ++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index 24d7d84..a4c9c7b 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -914,6 +914,9 @@ private:
         startup_events_.emplace_back(event_del);
     }
 
+    //! Remove the stop event queued for the given tick if it has not fired
+    void removeStopEvent_(Tick stop_tick);
+
     //! Moved to source to avoid circular header include issues with
     //! Scheduleable
     void throwPrecedenceIssue_(const Scheduleable * scheduleable, const uint32_t firing_group) const;
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index e1af41d..48d2cee 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -478,6 +478,7 @@ void Scheduler::run(Tick num_ticks,
     }
 
     // Schedule a stop event if a stop time was specified.
+    Tick stop_event_tick = INDEFINITE;
     if(num_ticks != INDEFINITE)
     {
         // Check to see if we need to run the Scheduler to the given
@@ -518,6 +519,7 @@ void Scheduler::run(Tick num_ticks,
             // user wants to run exactly num_ticks or just wants an
             // upper limit on a run.
             scheduleEvent(stop_event_.get(), num_ticks - 1, 0, exacting_run);
+            stop_event_tick = current_tick_ + num_ticks - 1;
         }
     }
 
@@ -652,6 +654,13 @@ void Scheduler::run(Tick num_ticks,
         }
     }// End run loop.
 
+    // If the run halted before reaching its bound, the stop event for
+    // that bound is still queued.  Remove it so that it cannot cut a
+    // later run short.
+    if(stop_event_tick != INDEFINITE) {
+        removeStopEvent_(stop_event_tick);
+    }
+
     // Reset the current group
     current_group_firing_ = 0;
 
@@ -678,6 +687,48 @@ void Scheduler::run(Tick num_ticks,
     }
 }
 
+void Scheduler::removeStopEvent_(Tick stop_tick)
+{
+    TickQuantum * prev_tq = nullptr;
+    TickQuantum * tq = current_tick_quantum_;
+    while((tq != nullptr) && (tq->tick < stop_tick)) {
+        prev_tq = tq;
+        tq = tq->next;
+    }
+    if((tq == nullptr) || (tq->tick != stop_tick)) {
+        return; // The stop event was fired
+    }
+
+    size_t num_events = 0;
+    for(const auto & group : tq->groups) {
+        num_events += group.size();
+    }
+
+    TickQuantum::ScheduleableGroup & events = tq->groups[group_zero_];
+    for(uint32_t i = 0; i < events.size(); ++i)
+    {
+        if(events[i] == stop_event_.get()) {
+            if(num_events == 1) {
+                // Nothing else is to be done on that tick
+                if(prev_tq == nullptr) {
+                    current_tick_quantum_ = tq->next;
+                }
+                else {
+                    prev_tq->next = tq->next;
+                }
+                events.clear();
+                tq->next = nullptr;
+                tick_quantum_allocator_.free(tq);
+                is_finished_ |= (current_tick_quantum_ == nullptr);
+            }
+            else {
+                events[i] = cancelled_event_.get();
+            }
+            return;
+        }
+    }
+}
+
 bool Scheduler::isScheduled(const Scheduleable * scheduleable, Tick rel_time) const
 {
     const uint32_t dag_group =
-- 
2.43.0


From 21c765ee81992fe4356416329dc061996105691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 002/170] fix: fire GlobalEvents of every scheduling phase

The proxy of a GlobalEvent was always constructed for the Update phase, so an
event of any other phase threw when it fired.
---
 sparta/sparta/events/GlobalEvent.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/events/GlobalEvent.hpp b/sparta/sparta/events/GlobalEvent.hpp
index effb6d2..fd1da3c 100644
--- a/sparta/sparta/events/GlobalEvent.hpp
+++ b/sparta/sparta/events/GlobalEvent.hpp
@@ -36,9 +36,9 @@ namespace sparta
         GlobalEventProxy(const GlobalEventProxy&) = default;
         GlobalEventProxy & operator=(const GlobalEventProxy&) = default;
 
-        template<SchedulingPhase sched_phase_T = SchedulingPhase::Update>
-        GlobalEventProxy(const utils::LifeTracker<SpartaHandler> & handler) :
-            phase_(sched_phase_T),
+        GlobalEventProxy(const utils::LifeTracker<SpartaHandler> & handler,
+                         SchedulingPhase sched_phase = SchedulingPhase::Update) :
+            phase_(sched_phase),
             ev_handler_(handler)
         {}
 
@@ -147,14 +147,14 @@ namespace sparta
             sparta_assert(ev_sched_ptr_ != nullptr);
             sparta_assert(ev_sched_ptr_->getSchedulingPhase() == sched_phase_T);
 
-            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_))->schedule(delay, clk);
+            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_, sched_phase_T))->schedule(delay, clk);
         }
 
         void schedule(const Clock::Cycle & delay) {
             sparta_assert(ev_sched_ptr_ != nullptr);
             sparta_assert(ev_sched_ptr_->getSchedulingPhase() == sched_phase_T);
 
-            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_))->schedule(delay, local_clk_);
+            ev_sched_ptr_->preparePayload(GlobalEventProxy(ev_handler_lifetime_, sched_phase_T))->schedule(delay, local_clk_);
         }
 
         void resetHandler(const SpartaHandler & event_handler) {
-- 
2.43.0


From ab920bd8be43d219bf299ab773e84172f7bacfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 003/170] fix: keep PhasedSingleCycleUniqueEvent's bookkeeping
 right at tick 0 and after cancel

An event cancelled could not be scheduled again for the same cycle, and one
scheduled for the next cycle at tick 0 could not be scheduled for tick 0.
---
 .../events/PhasedSingleCycleUniqueEvent.hpp   | 64 ++++++++++---------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
index 3653b09..9026094 100644
--- a/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
+++ b/sparta/sparta/events/PhasedSingleCycleUniqueEvent.hpp
@@ -58,7 +58,9 @@ namespace sparta
             EventNode(event_set, name, sched_phase),
             local_clk_(getClock()),
             fancy_name_(name + "[" + consumer_event_handler.getName() + "]"),
-            single_cycle_event_scheduleable_(consumer_event_handler, 1 /*HARD CODED*/, sched_phase)
+            single_cycle_event_scheduleable_(CREATE_SPARTA_HANDLER(PhasedSingleCycleUniqueEvent, deliverEvent_),
+                                             1 /*HARD CODED*/, sched_phase),
+            consumer_event_handler_(consumer_event_handler)
         {
             single_cycle_event_scheduleable_.setScheduleableClock(getClock());
             single_cycle_event_scheduleable_.setLabel(fancy_name_.c_str());
@@ -89,6 +91,7 @@ namespace sparta
          */
         void cancel() {
             single_cycle_event_scheduleable_.cancel();
+            prev_scheduled_tick_ = next_scheduled_tick_ = last_tick_fired_;
         }
 
         /*!
@@ -129,35 +132,29 @@ namespace sparta
             const auto to_be_scheduled_abs_tick =
                 local_scheduler_->calcIndexTime(to_be_scheduled_relative_tick);
 
-            if(SPARTA_EXPECT_TRUE(next_scheduled_tick_ < to_be_scheduled_abs_tick || is_init_tick_))
-            {
+            // Already scheduled (or even fired) on that tick
+            if((to_be_scheduled_abs_tick == next_scheduled_tick_) ||
+               (to_be_scheduled_abs_tick == prev_scheduled_tick_)) {
+                return;
+            }
+
 #ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
+            // This is a handy debug assertion to see if
+            // SingleCycleUniqueEvent is actually only scheduled once.
+            //
+            sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
+                          "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
 #endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+            single_cycle_event_scheduleable_.
+                scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+
+            if(SPARTA_EXPECT_TRUE((next_scheduled_tick_ == Scheduler::INDEFINITE) ||
+                                  (next_scheduled_tick_ < to_be_scheduled_abs_tick)))
+            {
                 prev_scheduled_tick_ = next_scheduled_tick_;
                 next_scheduled_tick_ = to_be_scheduled_abs_tick;
-                is_init_tick_ = false; //only allow one event in tick 0
             }
-            else if((to_be_scheduled_abs_tick < next_scheduled_tick_) &&
-                    (prev_scheduled_tick_ != to_be_scheduled_abs_tick))
-            {
-#ifndef NDEBUG
-                // This is a handy debug assertion to see if
-                // SingleCycleUniqueEvent is actually only scheduled once.
-                //
-                sparta_assert(single_cycle_event_scheduleable_.isScheduled(rel_cycle) == false,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue");
-                sparta_assert(prev_scheduled_tick_ < to_be_scheduled_abs_tick,
-                              "Bummer!  You found a bug in PhasedSingleCycleUniqueEvent.  Please file a GitHub Issue")
-#endif
-                single_cycle_event_scheduleable_.
-                    scheduleRelativeTick(to_be_scheduled_relative_tick, local_scheduler_);
+            else {
                 prev_scheduled_tick_ = to_be_scheduled_abs_tick;
             }
         }
@@ -184,6 +181,12 @@ namespace sparta
 #endif
 
     private:
+        //! Fire the event
+        void deliverEvent_() {
+            last_tick_fired_ = local_scheduler_->getCurrentTick();
+            consumer_event_handler_();
+        }
+
         //! Called by the framework on all TreeNodes
         void createResource_() override {
             local_clk_ = getClock();
@@ -198,8 +201,11 @@ namespace sparta
 
         //! The last time this PhasedSingleCycleUniqueEvent was scheduled (rel cycle == [0,1])
         //std::array<Scheduler::Tick, 2> next_scheduled_tick_ = {0, 0};
-        Scheduler::Tick next_scheduled_tick_ = 0;
-        Scheduler::Tick prev_scheduled_tick_ = 0;
+        Scheduler::Tick next_scheduled_tick_ = Scheduler::INDEFINITE;
+        Scheduler::Tick prev_scheduled_tick_ = Scheduler::INDEFINITE;
+
+        //! The last time this PhasedSingleCycleUniqueEvent fired
+        Scheduler::Tick last_tick_fired_ = Scheduler::INDEFINITE;
 
         //! A fancy name for the event handler
         std::string fancy_name_;
@@ -207,8 +213,8 @@ namespace sparta
         //! The actual scheduled item on the scheduler
         Scheduleable single_cycle_event_scheduleable_;
 
-        //! Track if is in the initial tick = tick 0
-        bool is_init_tick_ = true;
+        //! The handler given by the user
+        SpartaHandler consumer_event_handler_;
     };
 
 }
-- 
2.43.0


From e739801a86abb6d8f57d7c219b7a899d3162d320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 004/170] fix: PayloadEvent cancel/isScheduled by cycle must
 not confuse reused proxies

cancel(rel_cycle) returned the number of payloads in flight, and a proxy reused
within the tick of its previous delivery was found (and cancelled) at that tick.
---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 22 ++++++++++++++++++---
 sparta/src/Scheduler.cpp                    |  7 ++++++-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index 79b7149..d01ceb9 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -60,6 +60,7 @@ namespace sparta
                             "To schedule again, you must create a new one");
                 Scheduleable::scheduleRelativeTick(rel_tick, scheduler);
                 scheduled_ = true;
+                scheduled_tick_ = scheduler->calcIndexTime(rel_tick);
             }
 
 
@@ -121,6 +122,15 @@ namespace sparta
 
             // Set the location in the inflight list of the parent for
             // quick removal
+            // Is the delivery of this payload pending at the given
+            // relative cycle?  A proxy reused within the tick in which
+            // it delivered its previous payload still appears on the
+            // Scheduler for that tick, so the Scheduler cannot tell.
+            bool isScheduledOn_(Clock::Cycle rel_cycle) const {
+                return scheduled_ &&
+                    (scheduled_tick_ == getScheduler()->calcIndexTime(local_clk_->getTick(rel_cycle)));
+            }
+
             void setInFlightLocation_(const typename ProxyInflightList::iterator & loc) {
                 loc_ = loc;
             }
@@ -144,6 +154,9 @@ namespace sparta
             typename ProxyInflightList::iterator loc_;
             bool scheduled_ = false;
             bool cancelled_ = false;
+
+            // The absolute tick of the pending delivery (if scheduled_)
+            Scheduler::Tick scheduled_tick_ = 0;
         };
 
 
@@ -295,7 +308,7 @@ namespace sparta
         //! \return true if driven at the given cycle (data not yet delivered)
         bool isScheduled(Clock::Cycle rel_cycle) const {
             for(auto * proxy : inflight_pl_) {
-                if(proxy->isScheduled(rel_cycle)) {
+                if(proxy->isScheduledOn_(rel_cycle)) {
                     return true;
                 }
             }
@@ -334,14 +347,17 @@ namespace sparta
          * This will cancel all instances of this event at the given cycle.
          */
         uint32_t cancel(Clock::Cycle rel_cycle) {
-            const uint32_t cancel_cnt = inflight_pl_.size();
+            uint32_t cancel_cnt = 0;
             auto bit = inflight_pl_.begin();
             while(bit != inflight_pl_.end()) {
                 auto proxy = *bit;
                 ++bit;
                 // Cancelling the event will change the inflight_pl_
                 // list, hence we cannot use a range for loop
-                proxy->cancel(rel_cycle);
+                if(proxy->isScheduledOn_(rel_cycle)) {
+                    proxy->cancel();
+                    ++cancel_cnt;
+                }
             }
             return cancel_cnt;
         }
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 48d2cee..b546a41 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -826,7 +826,12 @@ void Scheduler::cancelEvent(const Scheduleable * scheduleable, Tick rel_time)
         if(rit->tick == index_time)
         {
             TickQuantum::ScheduleableGroup & scheduleables = rit->groups[dag_group];
-            for(uint32_t i = 0; i < scheduleables.size(); ++i)
+
+            // Events of the group being fired that were already fired
+            // cannot be cancelled anymore
+            const bool firing = running_ && (index_time == current_tick_) &&
+                (dag_group == current_group_firing_);
+            for(uint32_t i = (firing ? current_event_firing_ + 1 : 0); i < scheduleables.size(); ++i)
             {
                 if(scheduleables[i] == scheduleable) {
                     scheduleables[i]->eventCancelled_();
-- 
2.43.0


From 941ba7b1de9a32da65af69edd0c3dfde05b0be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 005/170] fix: count references right when a ScheduleableHandle
 is moved or self-assigned

A moved-from handle still released its reference, reclaiming a payload that the
moved-to handle still referred to.
---
 sparta/sparta/events/Scheduleable.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/events/Scheduleable.hpp b/sparta/sparta/events/Scheduleable.hpp
index 9271852..9186f62 100644
--- a/sparta/sparta/events/Scheduleable.hpp
+++ b/sparta/sparta/events/Scheduleable.hpp
@@ -547,8 +547,12 @@ namespace sparta
         //! Create an empty Handle
         ScheduleableHandle() = default;
 
-        // Default move
-        ScheduleableHandle(ScheduleableHandle &&) = default;
+        // Move the reference: the moved-from handle no longer refers to anything
+        ScheduleableHandle(ScheduleableHandle && orig) noexcept :
+            scheduleable_(orig.scheduleable_)
+        {
+            orig.scheduleable_ = nullptr;
+        }
 
         //! Copy a Handle, increment the count
         ScheduleableHandle(const ScheduleableHandle & orig)
@@ -610,6 +614,9 @@ namespace sparta
 
         //! Assignment
         ScheduleableHandle & operator=(const ScheduleableHandle & rhs) {
+            if(this == &rhs) {
+                return *this;
+            }
             disconnect_();
             scheduleable_ = rhs.scheduleable_;
             connect_();
-- 
2.43.0


From da044d4d1efa96099c0b3c9a1a5beef3fdf21bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 006/170] fix: let async events of delay 0 use any group of the
 tick and read the async hint atomically

---
 sparta/sparta/kernel/Scheduler.hpp | 3 ++-
 sparta/src/Scheduler.cpp           | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index a4c9c7b..ddf0ee8 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -21,6 +21,7 @@
 #include <array>
 #include <memory>
 #include <algorithm>
+#include <atomic>
 #include <limits>
 #include <list>
 #include <ostream>
@@ -1109,7 +1110,7 @@ private:
     };
 
     //! Hint that there are events on async_event_list_ ready to be scheduled
-    volatile bool async_event_list_empty_hint_ = true;
+    std::atomic<bool> async_event_list_empty_hint_ = true;
 
     //! Queue of asynchronous events that have not yet been scheduled
     std::list<AsyncEventInfo> async_event_list_;
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index b546a41..125e992 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -544,8 +544,9 @@ void Scheduler::run(Tick num_ticks,
         // elapsed tick count > current_tick
         elapsed_ticks_             += std::llabs(int64_t(current_tick_) - int64_t(elapsed_ticks_));
 
-        // Optimization -- start at the first group with events
-        current_group_firing_       = quantum->first_group_idx;
+        // No group of this tick has fired yet.  Asynchronous events
+        // scheduled below are free to use any of them.
+        current_group_firing_       = 0;
 
         for(auto clk : registered_clocks_) {
             clk->updateElapsedCycles(elapsed_ticks_);
@@ -581,6 +582,9 @@ void Scheduler::run(Tick num_ticks,
             }
         }
 
+        // Optimization -- start at the first group with events
+        current_group_firing_       = quantum->first_group_idx;
+
         const uint32_t grp_cnt = firing_group_count_;
         while(current_group_firing_ < grp_cnt)
         {
-- 
2.43.0


From cd055562d5b155baff40be6366db2183714f0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 007/170] fix: keep port delays of 2^32 cycles and more

---
 sparta/sparta/ports/DataPort.hpp   | 2 +-
 sparta/sparta/ports/SignalPort.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/DataPort.hpp b/sparta/sparta/ports/DataPort.hpp
index 5e2c364..4b089c5 100644
--- a/sparta/sparta/ports/DataPort.hpp
+++ b/sparta/sparta/ports/DataPort.hpp
@@ -503,7 +503,7 @@ namespace sparta
          */
         void send_(const DataT & dat, sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const Clock::Cycle total_delay = rel_time + port_delay_;
 
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
diff --git a/sparta/sparta/ports/SignalPort.hpp b/sparta/sparta/ports/SignalPort.hpp
index 5957dad..e1a1ac3 100644
--- a/sparta/sparta/ports/SignalPort.hpp
+++ b/sparta/sparta/ports/SignalPort.hpp
@@ -282,7 +282,7 @@ namespace sparta
          */
         void send_(sparta::Clock::Cycle rel_time)
         {
-            const uint32_t total_delay = rel_time + port_delay_;
+            const Clock::Cycle total_delay = rel_time + port_delay_;
             // Most of the time there is a delay.
             if(SPARTA_EXPECT_FALSE(total_delay == 0))
             {
-- 
2.43.0


From 36589ac676f83ac99c43db2cc5ae84857e64572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 008/170] fix: keep a payload alive while its delivery handler
 runs

---
 sparta/sparta/events/PhasedPayloadEvent.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/events/PhasedPayloadEvent.hpp b/sparta/sparta/events/PhasedPayloadEvent.hpp
index d01ceb9..0073e51 100644
--- a/sparta/sparta/events/PhasedPayloadEvent.hpp
+++ b/sparta/sparta/events/PhasedPayloadEvent.hpp
@@ -85,10 +85,10 @@ namespace sparta
             // If this Scheduleable is managed by a
             // ScheduleableHandle, then this method is called when the
             // Handle goes out of scope.  The proxy is only reclaimed
-            // if it's not on the Scheduler and there are not handles
-            // pointing to it.
+            // if it's not on the Scheduler, there are not handles
+            // pointing to it and its payload is not being delivered.
             void reclaim_() override {
-                if(!scheduled_ && (getScheduleableHandleCount_() == 0)) {
+                if(!scheduled_ && !delivering_ && (getScheduleableHandleCount_() == 0)) {
                     parent_->reclaimProxy_(loc_);
                     cancelled_ = false;
                 }
@@ -143,7 +143,11 @@ namespace sparta
                             << parent_->name_ << " to handler: "
                             << target_consumer_event_handler_.getName());
                 scheduled_ = false;
+                // The handler might cancel this event or drop its
+                // last handle, but it still uses the payload.
+                delivering_ = true;
                 target_consumer_event_handler_((const void*)payload_);
+                delivering_ = false;
                 reclaim_();
             }
 
@@ -154,6 +158,7 @@ namespace sparta
             typename ProxyInflightList::iterator loc_;
             bool scheduled_ = false;
             bool cancelled_ = false;
+            bool delivering_ = false;
 
             // The absolute tick of the pending delivery (if scheduled_)
             Scheduler::Tick scheduled_tick_ = 0;
-- 
2.43.0


From 426aa09e29c17e2f1af5e203e2d8a654d88d375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 009/170] fix: retry a not-ready SyncPort delivery on the
 receiver's next cycle

The recirculated data was sent again through the port's delay, so every
refused delivery waited 1 + port delay cycles instead of 1.
---
 sparta/sparta/ports/SyncPort.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 3a64f08..8a48d64 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -792,10 +792,11 @@ namespace sparta
                                  << "(" << num_in_flight_ << ") "
                                  << " # " << dat;
                 }
-                bool allow_slide = false;
+                // The data already went through the port's delay: try
+                // again on the receiver's next cycle
                 bool is_fwd_progress = false;
 
-                send_(dat, receiver_clock_, sparta::Clock::Cycle(1), allow_slide, is_fwd_progress);
+                schedule_(dat, receiver_clock_->getPeriod(), is_fwd_progress);
                 sparta_assert(num_in_flight_ > 0);
             }
 
@@ -994,6 +995,18 @@ namespace sparta
             Scheduler::Tick num_delay_ticks =
                 computeSendToReceiveTickDelay_(send_clk, send_delay_cycles, allow_slide, prev_data_arrival_tick_);
 
+            return schedule_(dat, num_delay_ticks, is_fwd_progress);
+        }
+
+        /*!
+         * \brief Schedule the delivery of data
+         * \param dat The Data to deliver
+         * \param num_delay_ticks The ticks from now until the delivery
+         * \param is_fwd_progress Whether this call should be considered forward progress
+         * \return The delay in ticks
+         */
+        uint64_t schedule_(const DataT & dat, const Scheduler::Tick num_delay_ticks, const bool is_fwd_progress)
+        {
             sparta::Scheduler::Tick current_tick = scheduler_->getCurrentTick();
             sparta::Scheduler::Tick abs_scheduled_tick = num_delay_ticks + current_tick;
 
-- 
2.43.0


From 466b6bd32cbc8ee30a8ce8ca7afd7b08877c3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 010/170] fix: SyncPort readiness takes this cycle's send into
 account

couldAccept_ passed the current tick where the crossing computation
expects the sender's extra delay, so past tick 0 a port that had already
been sent to in this cycle still reported itself ready.
---
 sparta/sparta/ports/SyncPort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/ports/SyncPort.hpp b/sparta/sparta/ports/SyncPort.hpp
index 8a48d64..3ed3979 100644
--- a/sparta/sparta/ports/SyncPort.hpp
+++ b/sparta/sparta/ports/SyncPort.hpp
@@ -857,7 +857,7 @@ namespace sparta
         bool couldAccept_(const Clock *send_clk) const {
 
             Scheduler::Tick num_delay_ticks =
-                calculateClockCrossingDelay(send_clk->currentTick(), send_clk, receive_delay_ticks_, receiver_clock_);
+                calculateClockCrossingDelay(0, send_clk, receive_delay_ticks_, receiver_clock_);
 
             sparta::Scheduler::Tick cur_tick =
                 scheduler_->getCurrentTick();
-- 
2.43.0


From 48e6f73b5c9e79e3ab1ecae98126f42452f20039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 011/170] fix: FrontArray reads the nth valid entry, moves
 pushed values; Array iterators compare ages when const

readValid() tested the validity of the running count instead of the slot,
push_front/push_back of an rvalue and const_iterator's age comparisons
did not compile.
---
 sparta/sparta/resources/Array.hpp      | 4 ++--
 sparta/sparta/resources/FrontArray.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index 15e0432..b20d6e0 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -818,7 +818,7 @@ namespace sparta
          * \param rhs an index to compare.
          * \return true if lhs was written more recently than rhs to the array.
          */
-        bool isYounger(uint32_t lhs, uint32_t rhs)
+        bool isYounger(uint32_t lhs, uint32_t rhs) const
         {
             sparta_assert(lhs != rhs);
             sparta_assert(lhs < num_entries_ && rhs < num_entries_,
@@ -833,7 +833,7 @@ namespace sparta
          * \param rhs an index to compare.
          * \return true if lhs was written at less recently than rhs was written at.
          */
-        bool isOlder(uint32_t lhs, uint32_t rhs)
+        bool isOlder(uint32_t lhs, uint32_t rhs) const
         {
             sparta_assert(lhs != rhs);
             sparta_assert(lhs < num_entries_ && rhs < num_entries_,
diff --git a/sparta/sparta/resources/FrontArray.hpp b/sparta/sparta/resources/FrontArray.hpp
index e7b9121..ee4319f 100644
--- a/sparta/sparta/resources/FrontArray.hpp
+++ b/sparta/sparta/resources/FrontArray.hpp
@@ -57,7 +57,7 @@ namespace sparta{
             uint32_t i = 0;
             while(n <= nth)
             {
-                if(BaseArray::isValid(n))
+                if(BaseArray::isValid(i))
                 {
                     ++n;
                 }
@@ -132,7 +132,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_front(DataT&& dat) { return writeFront(std::forward(dat)); }
+        uint32_t push_front(DataT&& dat) { return writeFront(std::move(dat)); }
 
         /**
          * \brief Push the first available index in the Array starting from the back
@@ -146,7 +146,7 @@ namespace sparta{
          * \param dat The data to push
          * \return The index it was inserted
          */
-        uint32_t push_back(DataT && dat) { return writeBack(std::forward(dat)); }
+        uint32_t push_back(DataT && dat) { return writeBack(std::move(dat)); }
 
     private:
         template<typename U>
-- 
2.43.0


From f9e40ec60087aff73d9a785db9f559ccf965d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 012/170] fix: move, don't memcpy, the elements when an
 infinite Buffer grows

Growing copied elements bytewise (breaking types that hold pointers to
themselves, such as std::string) and forgot their index, so iteration
over the buffer never ended.
---
 sparta/sparta/resources/Buffer.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 9c7adc8..b95900c 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -101,9 +101,14 @@ namespace sparta
             DataPointer() { }
             ~DataPointer() { }
 
-            DataPointer(DataPointer &&orig) noexcept {
-                ::memcpy(&object_memory_, &orig.object_memory_, sizeof(object_memory_));
-                data = reinterpret_cast<value_type*>(&object_memory_);
+            // Used when the data pool of an infinite Buffer grows
+            DataPointer(DataPointer &&orig) noexcept :
+                physical_idx(orig.physical_idx)
+            {
+                if(orig.data != nullptr) {
+                    allocate(std::move(*orig.data));
+                    orig.deallocate();
+                }
             }
 
             // No copies, only moves
@@ -114,6 +119,11 @@ namespace sparta
                 data = new (&object_memory_) value_type(std::forward<U>(dat));
             }
 
+            void deallocate() {
+                data->~value_type();
+                data = nullptr;
+            }
+
             value_type * data         = nullptr;
             DataPointer* next_free    = nullptr;
             uint32_t     physical_idx = 0; /*!< What index does this data currently reside */
@@ -633,7 +643,7 @@ namespace sparta
             // 3. Set the current free space pointer's next to the old free position
             DataPointer* oldFree = free_position_;
             free_position_ = buffer_map_[idx];
-            free_position_->data->~value_type();
+            free_position_->deallocate();
             free_position_->next_free = oldFree;
 
             // Mark DataPointer as invalid
@@ -698,7 +708,7 @@ namespace sparta
                           [] (auto map_entry)
                           {
                               if(map_entry) {
-                                  map_entry->data->~value_type();
+                                  map_entry->deallocate();
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-- 
2.43.0


From 664ec38b8079eb06848f96cc99ef4fd490dbced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 013/170] fix: clearing or destroying a Buffer without entries
 stays within its pool

A Buffer of zero entries, or one moved from, wrote before its empty data
pool.
---
 sparta/sparta/resources/Buffer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index b95900c..d85b8a5 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -712,12 +712,15 @@ namespace sparta
                               }
                           });
             std::fill(buffer_map_.begin(), buffer_map_.end(), nullptr);
-            for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
-                data_pool_[i].next_free = &data_pool_[i + 1];
+            // The pool is empty in a Buffer of no entries or one moved from
+            if(data_pool_size_ > 0) {
+                for(uint32_t i = 0; i < data_pool_size_ - 1; ++i) {
+                    data_pool_[i].next_free = &data_pool_[i + 1];
+                }
+                data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
+                free_position_ = &data_pool_[0];
+                first_position_ = &data_pool_[0];
             }
-            data_pool_[data_pool_size_ - 1].next_free = &data_pool_[data_pool_size_ - 1];
-            free_position_ = &data_pool_[0];
-            first_position_ = &data_pool_[0];
             validator_->clear();
             address_map_.clear();
             updateUtilizationCounters_();
-- 
2.43.0


From 6e741951562ed1fa3618b38888a31303e4c174ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 014/170] fix: record the pool position of an inserted Buffer
 element under its own index

After inserting into the middle of an infinite Buffer, growing it
permuted and duplicated its elements.
---
 sparta/sparta/resources/Buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index d85b8a5..1f9606d 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -1008,7 +1008,7 @@ namespace sparta
             // Store the index in the data_pool_ to which current
             // free_position_ points to. We need to relink all these
             // pointers once the data_pool_ resizes.
-            address_map_[num_valid_] =
+            address_map_[idx] =
                 static_cast<uint32_t>(free_position_ - &data_pool_[0]);
             ++num_valid_;
             free_position_ = free_position_->next_free;
-- 
2.43.0


From dced1fc119b535fd23d8959a62b222a6739ae14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 015/170] fix: Array::erase takes its index by value

erase(getAgedList().back()) freed the list node its reference lived in
and then erased with the dangling index.
---
 sparta/sparta/resources/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index b20d6e0..f09bde9 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -716,7 +716,7 @@ namespace sparta
          * \brief Invalidate the entry at a certain index.
          * \param idx The index to invalidate.
          */
-        void erase(const uint32_t& idx)
+        void erase(const uint32_t idx)
         {
             sparta_assert(isValid(idx), "Cannot invalidate a non valid index.");
             sparta_assert(num_valid_ > 0);
-- 
2.43.0


From f260bac4c3396acedd5a6d45bc52fe4cc76baee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:38 +0000
Subject: [PATCH 016/170] fix: Array::write over a valid entry destroys the old
 element

---
 sparta/sparta/resources/Array.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/resources/Array.hpp b/sparta/sparta/resources/Array.hpp
index f09bde9..dc1fa6f 100644
--- a/sparta/sparta/resources/Array.hpp
+++ b/sparta/sparta/resources/Array.hpp
@@ -940,11 +940,17 @@ namespace sparta
                 if constexpr (ArrayT == ArrayType::AGED) {
                     aged_list_.erase(array_[idx].list_pointer);
                 }
+                // The new data might be (part of) the old: take it
+                // before the old is destroyed
+                DataT new_dat(std::forward<U>(dat));
+                array_[idx].~ArrayPosition();
+                new (array_.get() + idx) ArrayPosition(std::move(new_dat));
+            }
+            else {
+                // Since we are not timed. Write the data and validate it,
+                // then do pipeline collection.
+                new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
             }
-
-            // Since we are not timed. Write the data and validate it,
-            // then do pipeline collection.
-            new (array_.get() + idx) ArrayPosition(std::forward<U>(dat));
             valid_index_set_.insert(idx);
 
             // Timestamp the entry in the array, for fast age comparison between two indexes.
-- 
2.43.0


From 20957b8dd5d3be51a68b8a9de941308c799fbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 017/170] fix: CircularBuffer insert honours the capacity and
 insert/erase update the utilization

Inserting into a full CircularBuffer grew it past its capacity for good
(numFree() wrapped around, the utilization counters were overrun), and
neither insert nor erase counted in the utilization. The validity window
of iterators was compared with 32 bits of the 64 bit index.
---
 sparta/sparta/resources/CircularBuffer.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/resources/CircularBuffer.hpp b/sparta/sparta/resources/CircularBuffer.hpp
index 3630fee..61a6ee5 100644
--- a/sparta/sparta/resources/CircularBuffer.hpp
+++ b/sparta/sparta/resources/CircularBuffer.hpp
@@ -689,7 +689,7 @@ namespace sparta
 
         // Used by the internal iterator type to see if it's still
         // valid
-        bool isValidIterator_(uint32_t window_idx) const {
+        bool isValidIterator_(uint64_t window_idx) const {
             return (window_idx >= start_idx_ && window_idx < end_idx_);
         }
 
@@ -700,6 +700,7 @@ namespace sparta
             circularbuffer_data_.erase(entry.getInternalBufferEntry_());
             --num_valid_;
             invalidateIndexes_();
+            updateUtilizationCounters_();
         }
 
         template<typename U>
@@ -732,10 +733,23 @@ namespace sparta
             }
             sparta_assert(entry.isValid(),
                         "Cannot insert into Circularbuffer at given iterator");
-            auto it = circularbuffer_data_.insert(entry.getInternalBufferEntry_(),
+            auto position = entry.getInternalBufferEntry_();
+            auto it = circularbuffer_data_.insert(position,
                                                   CircularBufferData(std::forward<U>(dat), end_idx_));
-            ++num_valid_;
+            if(num_valid_ == max_size_) {
+                // Full: the new data takes the place of the oldest
+                if(it == circularbuffer_data_.begin()) {
+                    circularbuffer_data_.erase(position);
+                }
+                else {
+                    circularbuffer_data_.pop_front();
+                }
+            }
+            else {
+                ++num_valid_;
+            }
             invalidateIndexes_();
+            updateUtilizationCounters_();
             return iterator(this, it, it->window_idx);
         }
 
-- 
2.43.0


From 1c4e2dab9ca62f97d3d215676b4b8def79441034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 018/170] fix: a Queue iterator keeps all 64 bits of its object
 id

---
 sparta/sparta/resources/Queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/Queue.hpp b/sparta/sparta/resources/Queue.hpp
index 28ea639..f8c6a3d 100644
--- a/sparta/sparta/resources/Queue.hpp
+++ b/sparta/sparta/resources/Queue.hpp
@@ -237,7 +237,7 @@ namespace sparta
              * \param q  a pointer to the underlaying queue.
              * \param begin_itr if true iterator points to tail (begin()), if false points to head (end())
              */
-            QueueIterator(QueuePointerType q, uint32_t physical_index, uint32_t obj_id) :
+            QueueIterator(QueuePointerType q, uint32_t physical_index, uint64_t obj_id) :
                 attached_queue_(q),
                 physical_index_(physical_index),
                 obj_id_(obj_id)
-- 
2.43.0


From 348ee184b31531df0f5aba1d00d94bf6c43eb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 019/170] fix: Buffer rejects iterators of erased entries

As documented, erase() (and read/access) with an iterator whose entry
was erased must throw; it hit whatever now had that index, and once the
slot was reused the stale iterator claimed to be valid.
---
 sparta/sparta/resources/Buffer.hpp | 46 +++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/sparta/sparta/resources/Buffer.hpp b/sparta/sparta/resources/Buffer.hpp
index 1f9606d..67fa889 100644
--- a/sparta/sparta/resources/Buffer.hpp
+++ b/sparta/sparta/resources/Buffer.hpp
@@ -117,6 +117,7 @@ namespace sparta
             template<typename U>
             void allocate(U && dat) {
                 data = new (&object_memory_) value_type(std::forward<U>(dat));
+                ++obj_id;
             }
 
             void deallocate() {
@@ -127,6 +128,7 @@ namespace sparta
             value_type * data         = nullptr;
             DataPointer* next_free    = nullptr;
             uint32_t     physical_idx = 0; /*!< What index does this data currently reside */
+            uint64_t     obj_id       = 0; /*!< Tells the objects that lived here apart */
         };
         //Forward Declaration
         struct DataPointerValidator;
@@ -174,6 +176,7 @@ namespace sparta
 
             //! The DataPointer
             DataPointerType   buffer_entry_ = nullptr;
+            uint64_t          obj_id_ = 0;
 
             /**
              * \brief construct.
@@ -182,9 +185,15 @@ namespace sparta
              */
             BufferIterator(BufferPointerType buffer, DataPointerType entry) :
                 attached_buffer_(buffer),
-                buffer_entry_(entry)
+                buffer_entry_(entry),
+                obj_id_(entry ? entry->obj_id : 0)
             {}
 
+            void setEntry_(DataPointerType entry) {
+                buffer_entry_ = entry;
+                obj_id_ = (entry ? entry->obj_id : 0);
+            }
+
 
         public:
 
@@ -199,7 +208,8 @@ namespace sparta
              */
             BufferIterator(const BufferIterator<false> & iter) :
                 attached_buffer_(iter.attached_buffer_),
-                buffer_entry_(iter.buffer_entry_)
+                buffer_entry_(iter.buffer_entry_),
+                obj_id_(iter.obj_id_)
             {}
 
             /**
@@ -208,7 +218,8 @@ namespace sparta
              */
             BufferIterator(const BufferIterator<true> & iter) :
                 attached_buffer_(iter.attached_buffer_),
-                buffer_entry_(iter.buffer_entry_)
+                buffer_entry_(iter.buffer_entry_),
+                obj_id_(iter.obj_id_)
             {}
 
             /**
@@ -237,7 +248,7 @@ namespace sparta
             {
                 sparta_assert(attached_buffer_ == rhs.attached_buffer_,
                               "Cannot compare BufferIterators created by different buffers.");
-                return (buffer_entry_ == rhs.buffer_entry_);
+                return (buffer_entry_ == rhs.buffer_entry_) && (obj_id_ == rhs.obj_id_);
             }
 
             /// override the not equal operator.
@@ -253,7 +264,8 @@ namespace sparta
             bool isValid() const
             {
                 if(buffer_entry_ != nullptr) {
-                    return attached_buffer_->validator_->isValid(buffer_entry_);
+                    return attached_buffer_->validator_->isValid(buffer_entry_) &&
+                        (buffer_entry_->obj_id == obj_id_);
                 }
                 return false;
             }
@@ -289,10 +301,10 @@ namespace sparta
                 sparta_assert(isValid(), "Incrementing an iterator that is not valid");
                 const uint32_t idx = buffer_entry_->physical_idx + 1;
                 if(attached_buffer_->isValid(idx)) {
-                    buffer_entry_ = attached_buffer_->buffer_map_[idx];
+                    setEntry_(attached_buffer_->buffer_map_[idx]);
                 }
                 else {
-                    buffer_entry_ = nullptr;
+                    setEntry_(nullptr);
                 }
                 return *this;
             }
@@ -312,15 +324,15 @@ namespace sparta
                     uint32_t idx = buffer_entry_->physical_idx;
                     --idx;
                     if(attached_buffer_->isValid(idx)) {
-                        buffer_entry_ = attached_buffer_->buffer_map_[idx];
+                        setEntry_(attached_buffer_->buffer_map_[idx]);
                     }
                     else {
                         sparta_assert(idx < attached_buffer_->capacity(), "Decrementing the iterator results in buffer underrun");
-                        buffer_entry_ = nullptr;
+                        setEntry_(nullptr);
                     }
                 }
                 else if (attached_buffer_->size()) {
-                    buffer_entry_ = attached_buffer_->buffer_map_[attached_buffer_->size()-1];
+                    setEntry_(attached_buffer_->buffer_map_[attached_buffer_->size()-1]);
                 }
                 return *this;
             }
@@ -444,7 +456,9 @@ namespace sparta
          */
         const value_type & read(const const_iterator & entry) const
         {
-            return read(entry.getIndex_());
+            const value_type & data = read(entry.getIndex_());
+            sparta_assert(entry.isValid(), "Cannot read an entry that is not valid");
+            return data;
         }
 
         /**
@@ -472,7 +486,9 @@ namespace sparta
          * \param entry the BufferIterator to read from.
          */
         value_type & access(const const_iterator & entry) {
-            return access(entry.getIndex_());
+            value_type & data = access(entry.getIndex_());
+            sparta_assert(entry.isValid(), "Cannot access an entry that is not valid");
+            return data;
         }
 
         /**
@@ -683,9 +699,11 @@ namespace sparta
         {
             sparta_assert(entry.attached_buffer_ == this,
                           "Cannot erase an entry created by another Buffer");
+            sparta_assert(entry.isValid(), "Cannot erase an entry that is not valid");
             // erase the index in the actual buffer.
-            erase(entry.getIndex_());
-            return {this, buffer_map_[entry.getIndex_()]};
+            const uint32_t idx = entry.getIndex_();
+            erase(idx);
+            return {this, buffer_map_[idx]};
         }
 
         /**
-- 
2.43.0


From 3e0beeb6268ec97e524eda4ca27a6f382186f50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:37 +0000
Subject: [PATCH 020/170] fix: an assigned LifeTracker tracks itself, not the
 temporary it was assigned from

Assigning a GlobalEvent (or a SharedData) left its events with a pointer
to a tracker that no longer existed.
---
 sparta/sparta/utils/LifeTracker.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sparta/sparta/utils/LifeTracker.hpp b/sparta/sparta/utils/LifeTracker.hpp
index 79f3ad3..4bea3c9 100644
--- a/sparta/sparta/utils/LifeTracker.hpp
+++ b/sparta/sparta/utils/LifeTracker.hpp
@@ -72,6 +72,19 @@ namespace sparta
                 tracked_object(obj)
             {}
 
+            //! A copy tracks the same object, but with a life of its own:
+            //! sharing rhs's would leave a pointer to rhs behind
+            LifeTracker(const LifeTracker & rhs) :
+                LifeTracker(rhs.tracked_object)
+            {}
+
+            //! \see copy constructor.  Whoever watched this tracker sees it expire
+            LifeTracker & operator=(const LifeTracker & rhs) {
+                this->reset(this, [] (LifeTracker<TrackedObjectT> *) {});
+                tracked_object = rhs.tracked_object;
+                return *this;
+            }
+
             TrackedObjectT * tracked_object;
         };
 
-- 
2.43.0


From 96eec606c2e055ec2f4e96edc1bfcf34bd235d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:01 +0000
Subject: [PATCH 021/170] fix: Pipe::flushIf does not count the appended data
 as an entry

---
 sparta/sparta/resources/Pipe.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipe.hpp b/sparta/sparta/resources/Pipe.hpp
index f041552..c4ebe32 100644
--- a/sparta/sparta/resources/Pipe.hpp
+++ b/sparta/sparta/resources/Pipe.hpp
@@ -385,7 +385,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(pe.data.getValue() == criteria){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
@@ -408,7 +408,7 @@ public:
             PipeEntry & pe = pipe_[getPhysicalStage_(i)];
             if(pe.data.isValid()) {
                 if(compare(pe.data.getValue())){
-                    if(pe.data.isValid()) {
+                    if(i >= 0) { // appended data is not counted yet
                         --num_valid_;
                     }
                     pe.data.clearValid();
-- 
2.43.0


From 39186124f92b76c9d5cb6db391781c359c556943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:01 +0000
Subject: [PATCH 022/170] fix: flushing a Pipeline stage cancels its events
 even if deactivated this cycle

---
 sparta/sparta/resources/Pipeline.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/resources/Pipeline.hpp b/sparta/sparta/resources/Pipeline.hpp
index b7f58f8..4bf0663 100644
--- a/sparta/sparta/resources/Pipeline.hpp
+++ b/sparta/sparta/resources/Pipeline.hpp
@@ -1026,8 +1026,9 @@ namespace sparta
         {
             sparta_assert(stage_id < num_stages_,
                           "Try to cancel events for invalid pipeline stage[" << stage_id << "]");
-            if (pipe_.isValid(stage_id) && events_valid_at_stage_[stage_id]) {
-                sparta_assert(event_list_at_stage_[stage_id].size());
+            // Events deactivated (by a stall, say) after the update of
+            // this cycle are scheduled all the same
+            if (pipe_.isValid(stage_id)) {
                 for (const auto & ev_ptr :  event_list_at_stage_[stage_id]) {
                     ev_ptr->cancel(sparta::Clock::Cycle(0));
                 }
-- 
2.43.0


From 35476011b7ac19c5939ff262f49dd5a0d729cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:01 +0000
Subject: [PATCH 023/170] fix: SharedData written twice in a cycle is updated
 once

The second update swapped the value just written away again.
---
 sparta/sparta/resources/SharedData.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/resources/SharedData.hpp b/sparta/sparta/resources/SharedData.hpp
index 8b23e9c..b2d20f1 100644
--- a/sparta/sparta/resources/SharedData.hpp
+++ b/sparta/sparta/resources/SharedData.hpp
@@ -91,6 +91,7 @@ namespace sparta
             ev_update_ = rhs.ev_update_;
             resetHandler_();
 
+            update_pending_ = false;
             current_state_ = rhs.current_state_;
             data_ = rhs.data_;
 
@@ -102,6 +103,7 @@ namespace sparta
             ev_update_ = std::move(rhs.ev_update_);
             resetHandler_();
 
+            update_pending_ = false;
             current_state_ = std::move(rhs.current_state_);
             data_ = std::move(rhs.data_);
 
@@ -233,12 +235,17 @@ namespace sparta
         void writeImpl_(U && dat) {
             data_[NState_()] = std::forward<U>(dat);
             if constexpr (!manual_update) {
-                ev_update_.schedule(1);
+                // One update per cycle, however often it's written
+                if(!update_pending_) {
+                    ev_update_.schedule(1);
+                    update_pending_ = true;
+                }
             }
         }
 
         void update_()
         {
+            update_pending_ = false;
             current_state_ = NState_();
             clearNS();
         }
@@ -246,6 +253,9 @@ namespace sparta
         // Global Event
         GlobalEvent<SchedulingPhase::Update> ev_update_;
 
+        // An update is scheduled.  Not copied: neither is the scheduled event
+        bool update_pending_ = false;
+
         // Current state
         uint32_t current_state_ = 0;
 
-- 
2.43.0


From 63619ef5ed745f36bde9b22a720dae272956b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 024/170] fix: Scoreboard: a ready callback fires once even if
 it changes the scoreboard or the callbacks

---
 sparta/src/Scoreboard.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 40d9061..f1e3bd4 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -259,15 +259,18 @@ namespace sparta
         // Setting local ready bits
         local_ready_mask_ |= bits;
 
+        // The callback may itself update the scoreboard, register
+        // another callback or clear callbacks.  Take it off the list
+        // before making the call and look at the list anew after it.
         auto cbit = ready_callbacks_.begin();
-        const auto eit = ready_callbacks_.end();
-        while(cbit != eit)
+        while(cbit != ready_callbacks_.end())
         {
-            const auto & cb_data = *cbit;
-            if (cb_data.needed_bits == (local_ready_mask_ & cb_data.needed_bits))
+            if (cbit->needed_bits == (local_ready_mask_ & cbit->needed_bits))
             {
-                cb_data.callback(bits);
-                cbit = ready_callbacks_.erase(cbit);
+                ReadinessCallbacks ready_callback;
+                ready_callback.splice(ready_callback.begin(), ready_callbacks_, cbit);
+                ready_callback.front().callback(bits);
+                cbit = ready_callbacks_.begin();
                 continue;
             }
             ++cbit;
-- 
2.43.0


From f4f2e63c1ab2cd3ae8f531b0226ce486272387b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 025/170] fix: Scoreboard: a new view starts with the registers
 that are ready, even if there are none

---
 sparta/src/Scoreboard.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index f1e3bd4..635745d 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -207,7 +207,12 @@ namespace sparta
                       "Ack!  Bug in Scoreboard registerView.  The unit_name_to_id_ map "
                       "is outta wack with with the unit_id_to_scoreboard_views_ vector");
         unit_id_to_scoreboard_views_[unit_id].emplace_back(view);
-        view->receiveScoreboardUpdate_(Scoreboard::RegisterBitMask({global_reg_ready_mask_}), INVALID_UNIT_ID);
+        // Bring the view up to date.  Registers that are not ready
+        // (anymore) cannot be ready in the new view
+        view->clearBits_(~global_reg_ready_mask_);
+        if(global_reg_ready_mask_.any()) {
+            view->receiveScoreboardUpdate_(global_reg_ready_mask_, INVALID_UNIT_ID);
+        }
         // Setup the mapping from other producers to this scoreboard view as consumer
         for(uint32_t producer = 0; producer < producer_to_consumer_scoreboard_views_.size(); ++producer)
         {
-- 
2.43.0


From 32eb2208315ffdc41df18342e2fbe45603e16805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 026/170] fix: Scoreboard: read the latencies the way they are
 validated

---
 sparta/src/Scoreboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index 635745d..edb6a14 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -133,7 +133,7 @@ namespace sparta
             {
                 try {
                     forwarding_latencies_[producer_id][consumer_column_idx - 1] =
-                        std::stol(producer_row[consumer_column_idx]);
+                        std::stol(producer_row[consumer_column_idx], nullptr, 0);
                 }
                 catch(...) {
                     sparta_assert(false, "Error while trying to convert " <<
-- 
2.43.0


From 910bb4f40ad9ab2ee526ea6cb97d2307826b1773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 027/170] fix: Scoreboard: print the end of a range that
 reaches the last register

---
 sparta/src/Scoreboard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/src/Scoreboard.cpp b/sparta/src/Scoreboard.cpp
index edb6a14..eea6aa4 100644
--- a/sparta/src/Scoreboard.cpp
+++ b/sparta/src/Scoreboard.cpp
@@ -380,9 +380,10 @@ namespace sparta
         bool print_comma = false;
         int32_t v = 0;
         int32_t range_start_v = -1;
-        while(v < int32_t(bits.size()))
+        // Go one past the last bit to close a range that ends there
+        while(v <= int32_t(bits.size()))
         {
-            if(bits.test(v))
+            if(v < int32_t(bits.size()) && bits.test(v))
             {
                 // Determine if this bit is in the current range
                 if(!in_range)
-- 
2.43.0


From 92eaa7197c4ed6f0461da5415d013e1a19361f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 028/170] fix: SpartaSharedPointer: let go of the old object
 only after taking over the new one

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index fcdc796..63dede2 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -11,6 +11,7 @@
 #include <cinttypes>
 #include <cassert>
 #include <type_traits>
+#include <utility>
 
 #include "sparta/utils/Utils.hpp"
 #include "sparta/utils/MetaStructs.hpp"
@@ -194,12 +195,9 @@ namespace sparta
          */
         SpartaSharedPointer & operator=(const SpartaSharedPointer & orig)
         {
-            sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            if(SPARTA_EXPECT_TRUE(ref_count_ != nullptr)) {
-                ++ref_count_->count;
-            }
+            // Let go of the current object last: orig might live in it
+            SpartaSharedPointer tmp(orig);
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -213,10 +211,9 @@ namespace sparta
          */
         SpartaSharedPointer & operator=(SpartaSharedPointer && orig)
         {
-            sparta_assert(&orig != this);
-            unlink_();
-            ref_count_ = orig.ref_count_;
-            orig.ref_count_ = nullptr;
+            // Let go of the current object last: orig might live in it
+            SpartaSharedPointer tmp(std::move(orig));
+            std::swap(ref_count_, tmp.ref_count_);
             return *this;
         }
 
@@ -277,8 +274,8 @@ namespace sparta
          * \param p The new pointer
          */
         void reset(PointerT * p = nullptr) {
-            unlink_();
-            ref_count_ = p == nullptr ? nullptr : new RefCount(p);
+            SpartaSharedPointer tmp(p);
+            std::swap(ref_count_, tmp.ref_count_);
         }
 
         /**
-- 
2.43.0


From b71586606b183ae8303f192dad3e02348f0f244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 029/170] fix: SpartaWeakPointer: lock of an expired pointer is
 null

---
 sparta/sparta/utils/SpartaSharedPointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointer.hpp b/sparta/sparta/utils/SpartaSharedPointer.hpp
index 63dede2..030b8b7 100644
--- a/sparta/sparta/utils/SpartaSharedPointer.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointer.hpp
@@ -511,7 +511,7 @@ namespace sparta
          * \return nullptr if the SpartaSharedPointer has expired; otherwise a locked version
          */
         SpartaSharedPointer<PointerT> lock() const noexcept {
-            return SpartaSharedPointer<PointerT>(wp_ref_cnt_, true);
+            return SpartaSharedPointer<PointerT>(expired() ? nullptr : wp_ref_cnt_, true);
         }
 
     private:
-- 
2.43.0


From 56e10fbf12f0c910b08a4022043865af642ff019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 030/170] fix: SpartaSharedPointerAllocator: a constructor may
 throw or allocate from the same allocator

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 851caab..258f91d 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -300,15 +300,15 @@ namespace sparta
 
             using PointerTAlignedStorage = AlignedStorage<PointerT>;
 
-            template<typename ...ObjArgs>
-            MemBlock(SpartaSharedPointerAllocator * alloc_in, ObjArgs&&...obj_args) :
+            explicit MemBlock(SpartaSharedPointerAllocator * alloc_in) :
                 MemBlockBase(alloc_in)
             {
-                // Build the new object using the inplacement new.
-                object = new (&object_storage) PointerT(std::forward<ObjArgs>(obj_args)...);
+                // Where the object is going to be built
+                object = reinterpret_cast<PointerT*>(&object_storage);
 
-                // Build the reference count using that object
+                // Build the reference count for that object.  There is no object yet
                 ref_count = new (&ref_count_storage) RefCountType(object, (void*)this);
+                ref_count->count = 0;
             }
 
             PointerT              * object = nullptr;
@@ -339,15 +339,14 @@ namespace sparta
                 data_(num_blocks)
             {}
 
-            // Allocate an object in aligned storage
-            template<typename ...Args>
-            MemBlock * allocate(SpartaSharedPointerAllocator * alloc, Args&&... args)
+            // Allocate a block in aligned storage
+            MemBlock * allocate(SpartaSharedPointerAllocator * alloc)
             {
                 sparta_assert(size_ < data_.size(), "Out of memory");
 
                 // construct value in memory of aligned storage
                 // using inplace operator new
-                auto block = new(&data_[size_]) MemBlock(alloc, std::forward<Args>(args)...);
+                auto block = new(&data_[size_]) MemBlock(alloc);
                 ++size_;
 
                 return block;
@@ -397,9 +396,6 @@ namespace sparta
                 block = free_blocks_[free_idx_];
                 sparta_assert(block->ref_count->p != nullptr);
                 block->ref_count->mem_block = (void*)block;
-                block->ref_count->count = 1;
-                // perform an in place new on the reused pointer
-                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
             }
             else {
                 if(SPARTA_EXPECT_FALSE(allocated_ > water_mark_)) {
@@ -420,9 +416,21 @@ namespace sparta
                         throw ex;
                     }
                 }
-                block = memory_blocks_.allocate(this, std::forward<PointerTArgs>(args)...);
+                block = memory_blocks_.allocate(this);
                 ++allocated_;
             }
+
+            // Perform an in place new in the block.  The block is
+            // taken at this point: the constructor might allocate
+            // from this allocator, too
+            try {
+                new (block->ref_count->p) PointerT(std::forward<PointerTArgs>(args)...);
+            }
+            catch(...) {
+                releaseBlock_(block);
+                throw;
+            }
+            block->ref_count->count = 1;
             return block->ref_count;
         }
 
-- 
2.43.0


From ffe31167ed5fa48dce3bc56c48dbf8a5d4fd1d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 031/170] fix: SpartaSharedPointerAllocator: call the over
 allocation callback for any watermark

---
 .../utils/SpartaSharedPointerAllocator.hpp    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
index 258f91d..e360b56 100644
--- a/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
+++ b/sparta/sparta/utils/SpartaSharedPointerAllocator.hpp
@@ -403,18 +403,18 @@ namespace sparta
                         watermark_warning_callback_(*this);
                         water_mark_warning_ = true;
                     }
+                }
 
-                    // Only need to check for overallocation if we've passed the watermark
-                    if(SPARTA_EXPECT_FALSE(allocated_ >= memory_blocks_.capacity())) {
-                        over_allocation_callback_(*this);
-                        SpartaException ex;
-                        ex << "This allocator has run out of memory: \n\n\t"
-                           << __PRETTY_FUNCTION__
-                           << "\n\n"
-                           << "\t\tNumber blocks preallocated: " << memory_blocks_.capacity()
-                           << "\n\t\tWatermark                 : " << water_mark_;
-                        throw ex;
-                    }
+                // The watermark might be the maximum number of blocks
+                if(SPARTA_EXPECT_FALSE(allocated_ >= memory_blocks_.capacity())) {
+                    over_allocation_callback_(*this);
+                    SpartaException ex;
+                    ex << "This allocator has run out of memory: \n\n\t"
+                       << __PRETTY_FUNCTION__
+                       << "\n\n"
+                       << "\t\tNumber blocks preallocated: " << memory_blocks_.capacity()
+                       << "\n\t\tWatermark                 : " << water_mark_;
+                    throw ex;
                 }
                 block = memory_blocks_.allocate(this);
                 ++allocated_;
-- 
2.43.0


From 2b3a8cf41ed7e298d616750c12f9cf4e286d7454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 032/170] fix: FastList: keep the node when the constructor of
 the element throws

---
 sparta/sparta/utils/FastList.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/utils/FastList.hpp b/sparta/sparta/utils/FastList.hpp
index d2ea3f7..5245681 100644
--- a/sparta/sparta/utils/FastList.hpp
+++ b/sparta/sparta/utils/FastList.hpp
@@ -306,8 +306,7 @@ namespace sparta::utils
             }
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            constructInFreeNode_(new_node, args...);
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
             new_node.prev = -1;
@@ -343,8 +342,7 @@ namespace sparta::utils
                           "FastList is out of element room");
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            constructInFreeNode_(new_node, args...);
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
@@ -375,8 +373,7 @@ namespace sparta::utils
                           "FastList is out of element room");
 
             auto & new_node = nodes_[free_head_];
-            free_head_ = new_node.next;
-            new (&new_node.type_storage) DataT(args...);
+            constructInFreeNode_(new_node, args...);
 
             // Update pointers.  Start with a clean slate
             new_node.next = -1;
@@ -419,6 +416,22 @@ namespace sparta::utils
 
     private:
 
+        // Take the given node (the head of the free list) and build
+        // the element in it.  The node stays free if that fails.
+        template<class ...ArgsT>
+        void constructInFreeNode_(Node & new_node, ArgsT&&...args)
+        {
+            free_head_ = new_node.next;
+            try {
+                new (&new_node.type_storage) DataT(args...);
+            }
+            catch(...) {
+                new_node.next = free_head_;
+                free_head_ = new_node.index;
+                throw;
+            }
+        }
+
         // Friendly printer
         friend std::ostream & operator<<(std::ostream & os, const FastList<DataT> & fl)
         {
-- 
2.43.0


From c487971101001ebc6b02d924ba1190113a369df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:19 +0000
Subject: [PATCH 033/170] fix: FastList: a copy holds copies of the elements

---
 sparta/sparta/utils/FastList.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sparta/sparta/utils/FastList.hpp b/sparta/sparta/utils/FastList.hpp
index 5245681..2e971c4 100644
--- a/sparta/sparta/utils/FastList.hpp
+++ b/sparta/sparta/utils/FastList.hpp
@@ -204,6 +204,18 @@ namespace sparta::utils
             nodes_.back().next = -1;
         }
 
+        /**
+         * \brief Construct a copy of another list
+         * \param orig The list to copy the elements from
+         */
+        FastList(const FastList & orig) :
+            FastList(orig.max_size())
+        {
+            for(const auto & elem : orig) {
+                emplace_back(elem);
+            }
+        }
+
         //! Destroy (clear) the list
         ~FastList() { clear(); }
 
-- 
2.43.0


From 42eab72ce42f60933fabb0b6cab532bf58ae3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 034/170] fix: MetaStruct's integral type traits exist in C++14
 and later, so that BoundedValue compiles

---
 sparta/sparta/utils/MetaStructs.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/utils/MetaStructs.hpp b/sparta/sparta/utils/MetaStructs.hpp
index d3208a0..5540f18 100644
--- a/sparta/sparta/utils/MetaStructs.hpp
+++ b/sparta/sparta/utils/MetaStructs.hpp
@@ -27,9 +27,6 @@
 #include "sparta/utils/Enum.hpp"
 
 namespace MetaStruct {
-    // If compiler is C++11 compliant, then use explicit aliases.
-    #if __cplusplus == 201103L
-
     /**
     * \brief This templated struct takes a parameter pack and
     * return a nested value to be true, if all the elements in
@@ -118,6 +115,9 @@ namespace MetaStruct {
                                      all_are_integral<Tail...>::value};
     };
 
+    // If compiler is C++11 compliant, then use explicit aliases.
+    #if __cplusplus == 201103L
+
     /** \brief Alias Template for std::enable_if.
     */
     template<bool B, typename T = void>
-- 
2.43.0


From 649f8957c31e971ecea03b8c514c3c31b274bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 035/170] fix: BitArray: assignment and moves own their
 storage; shifts by the whole width or more stay in bounds

---
 sparta/sparta/utils/BitArray.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/utils/BitArray.hpp b/sparta/sparta/utils/BitArray.hpp
index 583e0c7..05d8dd3 100644
--- a/sparta/sparta/utils/BitArray.hpp
+++ b/sparta/sparta/utils/BitArray.hpp
@@ -89,11 +89,18 @@ namespace sparta {
                 std::copy(other.data_, other.data_ + data_size_, data_);
             }
 
-            BitArray &operator=(const BitArray &other) = default;
-
-            BitArray(BitArray &&) = default;
-
-            BitArray &operator=(BitArray &&) = default;
+            // Storage is referred to by data_, so neither it nor the vector
+            // behind it can be copied or moved member by member
+            BitArray &operator=(const BitArray &other)
+            {
+                if (this != &other) {
+                    data_ = nullptr;
+                    data_size_ = 0;
+                    initializeStorage_(other.data_size_);
+                    std::copy(other.data_, other.data_ + data_size_, data_);
+                }
+                return *this;
+            }
 
             const void *getValue() const
             {
@@ -238,6 +245,7 @@ namespace sparta {
             static void shiftLeft_(BitArray &array, size_t amount)
             {
                 const auto bits_per_word = 8 * sizeof(data_type);
+                amount = std::min(amount, array.data_size_ * bits_per_word);
 
                 shiftLeftWords_(array, amount / bits_per_word);
                 shiftLeftBits_(array, amount % bits_per_word);
@@ -268,6 +276,7 @@ namespace sparta {
             static void shiftRight_(BitArray &array, size_t amount)
             {
                 const auto bits_per_word = 8 * sizeof(data_type);
+                amount = std::min(amount, array.data_size_ * bits_per_word);
 
                 shiftRightWords_(array, amount / bits_per_word);
                 shiftRightBits_(array, amount % bits_per_word);
-- 
2.43.0


From 0fc96bab2e37a848829b3bb4e09946ef18888498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 036/170] fix: byte_swap of a negative int16_t does not smear
 its sign over the other byte

---
 sparta/sparta/utils/ByteOrder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/ByteOrder.hpp b/sparta/sparta/utils/ByteOrder.hpp
index 4144b62..463092f 100644
--- a/sparta/sparta/utils/ByteOrder.hpp
+++ b/sparta/sparta/utils/ByteOrder.hpp
@@ -107,7 +107,7 @@ namespace sparta
     //! \overload byte_swap(T val)
     template <>
     inline int16_t byte_swap(int16_t val) {
-        return (val << 8 | val >> 8);
+        return static_cast<int16_t>(__builtin_bswap16(static_cast<uint16_t>(val)));
     }
 
     //! \overload byte_swap(T val)
-- 
2.43.0


From 24d4dbdb6650a65dfe2de1f91234e56162650fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 037/170] fix: MathUtils: results that do not fit, and
 arguments without a result, are rejected instead of undefined or wrong

---
 sparta/sparta/utils/MathUtils.hpp | 55 ++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/utils/MathUtils.hpp b/sparta/sparta/utils/MathUtils.hpp
index deb1b12..98e3722 100644
--- a/sparta/sparta/utils/MathUtils.hpp
+++ b/sparta/sparta/utils/MathUtils.hpp
@@ -9,6 +9,7 @@
 #include <typeinfo>
 #include <type_traits>
 #include <random>
+#include <limits>
 
 #include "sparta/utils/SpartaException.hpp"
 
@@ -80,6 +81,11 @@ namespace sparta {
             // (This is the old iterative version)
             // NOTE: This function returns 0 for log2(0), but mathematically, it should be undefined
             // throw SpartaException("floor_log2(0) is undefined");
+            if constexpr (std::is_signed<T>::value) {
+                if (x < 0) {
+                    throw SpartaException("floor_log2 of a negative value");
+                }
+            }
             uint64_t y = 0;
             while (x >>= 1) {
                 y++;
@@ -162,6 +168,9 @@ namespace sparta {
         }
 
         constexpr uint64_t pow2 (uint64_t x) {
+            if (x >= 64) {
+                throw SpartaException("pow2() overflowed!");
+            }
             const uint64_t y = static_cast<uint64_t>(1) << x;
             return y;
         }
@@ -176,10 +185,19 @@ namespace sparta {
             if(v < 2) {
                 return 1ull;
             }
+            if(v > (1ull << 63)) {
+                throw SpartaException("next_power_of_2() overflowed!");
+            }
             return 1ull << ((sizeof(uint64_t) * 8) - __builtin_clzll(v - 1ull));
         }
 
         constexpr uint64_t ones (uint64_t x) {
+            if (x >= 64) {
+                if (x > 64) {
+                    throw SpartaException("ones() overflowed!");
+                }
+                return ~static_cast<uint64_t>(0);
+            }
             const uint64_t y = (static_cast<uint64_t>(1) << x) - 1;
             return y;
         }
@@ -192,6 +210,11 @@ namespace sparta {
         template <class T>
         constexpr T abs(T x)
         {
+            if constexpr (std::is_integral<T>::value && std::is_signed<T>::value) {
+                if (x == std::numeric_limits<T>::min()) {
+                    throw SpartaException("abs() overflowed!");
+                }
+            }
             return (x < 0 ? -x : x);
         }
 
@@ -306,26 +329,38 @@ namespace sparta {
         template <>
         constexpr uint32_t lcm<uint32_t>(const uint32_t &u, const uint32_t &v)
         {
-            if (u == 1) {
+            if (u == 0 || v == 0) {
+                return 0;
+            } else if (u == 1) {
                 return v;
             } else if (v == 1) {
                 return u;
             } else {
                 // Do it this way to avoid potential overflows from large numbers
-                return  u / gcd(u, v) * v;
+                uint32_t result = 0;
+                if (__builtin_mul_overflow(u / gcd(u, v), v, &result)) {
+                    throw SpartaException("lcm() overflowed!");
+                }
+                return result;
             }
         }
 
         template <>
         constexpr uint64_t lcm<uint64_t>(const uint64_t &u, const uint64_t &v)
         {
-            if (u == 1) {
+            if (u == 0 || v == 0) {
+                return 0;
+            } else if (u == 1) {
                 return v;
             } else if (v == 1) {
                 return u;
             } else {
                 // Do it this way to avoid potential overflows from large numbers
-                return  u / gcd(u, v) * v;
+                uint64_t result = 0;
+                if (__builtin_mul_overflow(u / gcd(u, v), v, &result)) {
+                    throw SpartaException("lcm() overflowed!");
+                }
+                return result;
             }
         }
 
@@ -338,12 +373,16 @@ namespace sparta {
             if (e == 0)
                 return 1;
 
+            if constexpr (std::is_signed<T>::value) {
+                if (e < 0) {
+                    throw SpartaException("power() with a negative exponent is not an integer!");
+                }
+            }
+
             T result = n;
             for (T x = 1; x < e; x++)
             {
-                T old_result = result;
-                result *= n;
-                if (old_result > result)
+                if (__builtin_mul_overflow(result, n, &result))
                 {
                     throw SpartaException("power() overflowed!");
                 }
@@ -366,7 +405,7 @@ namespace sparta {
             const T fabs_b = std::fabs(b);
             const T fabs_diff = std::fabs(a - b);
 
-            return fabs_diff <= ((fabs_a < fabs_b ? fabs_b : fabs_a) * epsilon);
+            return (a == b) || fabs_diff <= ((fabs_a < fabs_b ? fabs_b : fabs_a) * epsilon);
         }
 
         //! Static/global random number generator
-- 
2.43.0


From 45b89447988ab8288daea42a71fc34b28c8c235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:22 +0000
Subject: [PATCH 038/170] fix: Rational: differences above half the range are
 right and overflow is rejected, not wrapped

---
 sparta/sparta/utils/Rational.hpp | 88 ++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/sparta/sparta/utils/Rational.hpp b/sparta/sparta/utils/Rational.hpp
index 63258f0..2473d15 100644
--- a/sparta/sparta/utils/Rational.hpp
+++ b/sparta/sparta/utils/Rational.hpp
@@ -105,57 +105,37 @@ namespace utils
 
         inline Rational<T> operator*(const Rational<T> &r) const
         {
-            return Rational<T>(n_ * r.n_, d_ * r.d_);
+            return product_(n_, d_, r.n_, r.d_);
         }
 
         inline Rational<T>& operator*=(const Rational<T> &r)
         {
-            n_ *= r.n_;
-            d_ *= r.d_;
-            simplify();
-            return *this;
+            return *this = product_(n_, d_, r.n_, r.d_);
         }
 
         inline Rational<T> operator/(const Rational<T> &r) const
         {
-            return Rational<T>(n_ * r.d_, d_ * r.n_);
+            return product_(n_, d_, r.d_, r.n_);
         }
 
         inline Rational<T>& operator/=(const Rational<T> &r)
         {
-            if (&r != this) {
-                n_ *= r.d_;
-                d_ *= r.n_;
-            } else {
-                T x = r.n_;
-                n_ *= r.d_;
-                d_ *= x;
-            }
-            simplify();
-            return *this;
+            return *this = product_(n_, d_, r.d_, r.n_);
         }
 
         inline Rational<T> operator+(const Rational<T> &r) const
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>((n_ * m / d_) + (r.n_ * m / r.d_), m);
+                return Rational<T>(add_(mul_(n_, m / d_), mul_(r.n_, m / r.d_)), m);
             } else {
-                return Rational<T>(n_ + r.n_, d_);
+                return Rational<T>(add_(n_, r.n_), d_);
             }
         }
 
         inline Rational<T>& operator+=(const Rational<T> &r)
         {
-            if (d_ != r.d_) {
-                T m = utils::lcm(d_, r.d_);
-                n_ = (n_ * m / d_) + (r.n_ * m / r.d_);
-                d_ = m;
-            } else {
-                n_ += r.n_;
-            }
-            simplify();
-            return *this;
+            return *this = *this + r;
         }
 
         // Computes absolute difference
@@ -163,23 +143,15 @@ namespace utils
         {
             if (d_ != r.d_) {
                 T m = utils::lcm(d_, r.d_);
-                return Rational<T>(utils::abs((n_ * m / d_) - (r.n_ * m / r.d_)), m);
+                return Rational<T>(difference_(mul_(n_, m / d_), mul_(r.n_, m / r.d_)), m);
             } else {
-                return Rational<T>(utils::abs(n_ - r.n_), d_);
+                return Rational<T>(difference_(n_, r.n_), d_);
             }
         }
 
         inline Rational<T>& operator-=(const Rational<T> &r)
         {
-            if (d_ != r.d_) {
-                T m = utils::lcm(d_, r.d_);
-                n_ = utils::abs((n_ * m / d_) - (r.n_ * m / r.d_));
-                d_ = m;
-            } else {
-                n_ = utils::abs(n_ - r.n_);
-            }
-            simplify();
-            return *this;
+            return *this = *this - r;
         }
 
         // Invert
@@ -196,6 +168,46 @@ namespace utils
         }
 
     private:
+        // Exact arithmetic: a result that does not fit is an error
+        static T mul_(const T &a, const T &b)
+        {
+            T result = 0;
+            if (__builtin_mul_overflow(a, b, &result)) {
+                throw SpartaException("Rational overflowed!");
+            }
+            return result;
+        }
+
+        static T add_(const T &a, const T &b)
+        {
+            T result = 0;
+            if (__builtin_add_overflow(a, b, &result)) {
+                throw SpartaException("Rational overflowed!");
+            }
+            return result;
+        }
+
+        static T difference_(const T &a, const T &b)
+        {
+            return a > b ? a - b : b - a;
+        }
+
+        // (n1 * n2) / (d1 * d2), reduced before it is multiplied out
+        static Rational<T> product_(T n1, T d1, T n2, T d2)
+        {
+            const T g = utils::gcd(n1, d2);
+            if (g > 1) {
+                n1 /= g;
+                d2 /= g;
+            }
+            const T h = utils::gcd(n2, d1);
+            if (h > 1) {
+                n2 /= h;
+                d1 /= h;
+            }
+            return Rational<T>(mul_(n1, n2), mul_(d1, d2));
+        }
+
         T    n_;  // Numerator
         T    d_;  // Denominator
     };
-- 
2.43.0


From fe58fe3517c2d6ae9d9bd839ab212817f467ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 039/170] fix: computeMask is exact for sizes of 2^31 and above

---
 sparta/sparta/utils/Utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index c7460e8..89757e5 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -171,15 +171,15 @@ template <typename T>
 inline T computeMask(T size, T& lsb_pos) {
     T mask;
     if(size >= 1){
-        double tmp = log2(size);
-        if(tmp != floor(tmp)){
+        if(!isPowerOf2(size)){
             throw SpartaException("For computeMask, size must be a power of 2, is ")
                 << size;
         }
-        lsb_pos = (T)tmp;
-        mask = ~((1 << lsb_pos) - 1);
-
-        sparta_assert((1ul << lsb_pos) == size);
+        lsb_pos = 0;
+        while((size >> lsb_pos) != 1){
+            ++lsb_pos;
+        }
+        mask = ~(size - 1);
     }else{
         lsb_pos = sizeof(T) * 8;
         mask = (T)0;
-- 
2.43.0


From 90d3e017ba3aa9e3cf34c5abf6b425a374850645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 040/170] fix: bounded_int compares values and bounds of
 different signedness by value

---
 sparta/sparta/utils/Utils.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index 89757e5..f8183b7 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -658,34 +658,32 @@ public:
         upperRangeCheck_(val);
     }
 
-    template <typename ArgT=T>
-    typename std::enable_if<std::numeric_limits<ArgT>::min()!=min_bound, void>::type
-    lowerRangeCheck_(ArgT val) const {
-        sparta_assert(val >= min_bound,
-            "Tried to store a " << typeid(ArgT).name() << " into a bounded " << typeid(T).name() << ". Not safe to "
-            "cast  " << val << " into a type with a minimum of " << min_bound);
+    // Is a < b, whatever the signedness of their types?
+    template <typename A, typename B>
+    static bool less_(A a, B b) {
+        if constexpr (std::is_signed<A>::value == std::is_signed<B>::value) {
+            return a < b;
+        } else if constexpr (std::is_signed<A>::value) {
+            return (a < 0) || (static_cast<std::make_unsigned_t<A>>(a) < b);
+        } else {
+            return (b >= 0) && (a < static_cast<std::make_unsigned_t<B>>(b));
+        }
     }
 
     template <typename ArgT=T>
-    typename std::enable_if<std::numeric_limits<ArgT>::min()==min_bound, void>::type
-    lowerRangeCheck_(ArgT val) const {
-        (void) val; // Lower bound of val is same as this bounded_int
+    void lowerRangeCheck_(ArgT val) const {
+        sparta_assert(!less_(val, min_bound),
+            "Tried to store a " << typeid(ArgT).name() << " into a bounded " << typeid(T).name() << ". Not safe to "
+            "cast  " << val << " into a type with a minimum of " << min_bound);
     }
 
     template <typename ArgT=T>
-    typename std::enable_if<std::numeric_limits<ArgT>::max()!=max_bound, void>::type
-    upperRangeCheck_(ArgT val) const {
-        sparta_assert(val <= max_bound,
+    void upperRangeCheck_(ArgT val) const {
+        sparta_assert(!less_(max_bound, val),
             "Tried to store a " << typeid(ArgT).name() << " into a bounded " << typeid(T).name() << ". Not safe to "
             "cast " << val << " into a type with a maximum of " << max_bound);
     }
 
-    template <typename ArgT=T>
-    typename std::enable_if<std::numeric_limits<ArgT>::max()==max_bound, void>::type
-    upperRangeCheck_(ArgT val) const {
-        (void) val; // Upper bound of val is same as this bounded_int
-    }
-
     /*!
      * \todo Add static methods to convert a value using additional bounds.
      * A new bounded value can be constructed to achieve this as well.
-- 
2.43.0


From 220da05a6cdb3ddc52a7889ffae1723acf876d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 041/170] fix: TieredMap rejects node sizes with which it could
 never hold a key above 0

---
 sparta/sparta/utils/TieredMap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/utils/TieredMap.hpp b/sparta/sparta/utils/TieredMap.hpp
index a30bb4e..85c5bb7 100644
--- a/sparta/sparta/utils/TieredMap.hpp
+++ b/sparta/sparta/utils/TieredMap.hpp
@@ -181,8 +181,8 @@ namespace sparta
             tier_shift_(0),
             tier_idx_mask_(~computeMask<uint64_t>(node_size, tier_shift_)) // Computes tier_shift_
         {
-            if(false == isPowerOf2(node_size_)){
-                throw SpartaException("node_size must be a power of 2, is ")
+            if(node_size_ < 2 || false == isPowerOf2(node_size_)){
+                throw SpartaException("node_size must be a power of 2 above 1, is ")
                     << node_size;
             }
 
-- 
2.43.0


From 81dbe5cac4cbb1f67e251d084fb79967d68d6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 042/170] fix: BoundedValue: bounds outside the type and wide
 steps are rejected whatever the types involved

---
 sparta/sparta/utils/BoundedValue.hpp | 32 ++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/sparta/sparta/utils/BoundedValue.hpp b/sparta/sparta/utils/BoundedValue.hpp
index 1c02be1..362a897 100644
--- a/sparta/sparta/utils/BoundedValue.hpp
+++ b/sparta/sparta/utils/BoundedValue.hpp
@@ -76,7 +76,9 @@ public:
         // Sanity checks.
         sparta_assert(upper_bound > lower_bound);
         // TODO how can you be a value lower than the min() value for a type?
-        //sparta_assert(lower_bound >= std::numeric_limits<T>::min());
+        if constexpr (std::is_signed<pure_value_t<T>>::value){
+            sparta_assert(lower_bound >= std::numeric_limits<T>::min());
+        }
         sparta_assert(upper_bound <= std::numeric_limits<T>::max());
 
         // Range check.
@@ -283,6 +285,10 @@ public:
         if(upper_bound > 0 and lower_bound > 0){
             sparta_assert(static_cast<uintmax_t>(upper_bound) > static_cast<uintmax_t>(lower_bound));
         }
+        if(upper_bound < 0){
+            sparta_assert(lower_bound < 0 and
+                        static_cast<intmax_t>(upper_bound) > static_cast<intmax_t>(lower_bound));
+        }
 
         // Range check.
         checkRange_(value);
@@ -327,6 +333,10 @@ public:
         if(upper_bound > 0 and lower_bound > 0){
             sparta_assert(static_cast<uintmax_t>(upper_bound) > static_cast<uintmax_t>(lower_bound));
         }
+        if(upper_bound < 0){
+            sparta_assert(lower_bound < 0 and
+                        static_cast<intmax_t>(upper_bound) > static_cast<intmax_t>(lower_bound));
+        }
 
         // Range check.
         checkRange_(value);
@@ -414,7 +424,7 @@ public:
         sparta_assert(rhs.getLowerBound() >= 0 and
                     static_cast<T>(rhs.getLowerBound()) >= std::numeric_limits<T>::min());
         sparta_assert(rhs.getUpperBound() >= 0 and
-                    static_cast<T>(rhs.getUpperBound()) <= std::numeric_limits<T>::max());
+                    static_cast<uintmax_t>(rhs.getUpperBound()) <= std::numeric_limits<T>::max());
     }
 
     /**
@@ -484,7 +494,7 @@ public:
         sparta_assert(rhs.getLowerBound() >= 0 and
                     static_cast<T>(rhs.getLowerBound()) >= std::numeric_limits<T>::min());
         sparta_assert(rhs.getUpperBound() >= 0 and
-                    static_cast<T>(rhs.getUpperBound()) <= std::numeric_limits<T>::max());
+                    static_cast<uintmax_t>(rhs.getUpperBound()) <= std::numeric_limits<T>::max());
 
         value_ = static_cast<pure_value_t<T>>(rhs.getValue());
         lower_bound_ = static_cast<pure_value_t<T>>(rhs.getLowerBound());
@@ -579,14 +589,14 @@ public:
     MetaStruct::enable_if_t<std::is_integral<pure_value_t<U>>::value, BoundedValue<T>&>
     operator+=(U value){
         if(value >= 0){
-            const auto remaining = upper_bound_ - value_;
-            sparta_assert(static_cast<uintmax_t>(remaining) >= static_cast<uintmax_t>(value),
+            const auto remaining = static_cast<uintmax_t>(upper_bound_) - static_cast<uintmax_t>(value_);
+            sparta_assert(remaining >= static_cast<uintmax_t>(value),
                         "Adding the right hand side value would violate the upper-bound of this BV.");
             value_ += value;
             return *this;
         }
-        const auto remaining = value_ - lower_bound_;
-        sparta_assert(static_cast<uintmax_t>(-value) <= static_cast<uintmax_t>(remaining),
+        const auto remaining = static_cast<uintmax_t>(value_) - static_cast<uintmax_t>(lower_bound_);
+        sparta_assert(uintmax_t(0) - static_cast<uintmax_t>(value) <= remaining,
                     "Adding the right hand side value would violate the lower-bound of this BV.");
         value_ += value;
         return *this;
@@ -600,14 +610,14 @@ public:
     MetaStruct::enable_if_t<std::is_integral<pure_value_t<U>>::value, BoundedValue<T>&>
     operator-=(U value){
         if(value >= 0){
-            const auto remaining = value_ - lower_bound_;
-            sparta_assert(static_cast<uintmax_t>(remaining) >= static_cast<uintmax_t>(value),
+            const auto remaining = static_cast<uintmax_t>(value_) - static_cast<uintmax_t>(lower_bound_);
+            sparta_assert(remaining >= static_cast<uintmax_t>(value),
                         "Deducting the right hand side value would violate the lower-bound of this BV.");
             value_ -= value;
             return *this;
         }
-        const auto remaining = upper_bound_ - value_;
-        sparta_assert(static_cast<uintmax_t>(-value) <= static_cast<uintmax_t>(remaining),
+        const auto remaining = static_cast<uintmax_t>(upper_bound_) - static_cast<uintmax_t>(value_);
+        sparta_assert(uintmax_t(0) - static_cast<uintmax_t>(value) <= remaining,
                     "Deducting the right hand side value would violate the upper-bound of this BV.");
         value_ -= value;
         return *this;
-- 
2.43.0


From 4cc00963c2775e70f38766f9ac05d24f3ac0debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:15 +0000
Subject: [PATCH 043/170] fix: a valid ValidValue never compares equal to an
 invalid one

---
 sparta/sparta/utils/ValidValue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/ValidValue.hpp b/sparta/sparta/utils/ValidValue.hpp
index 83dc266..d2fc2fd 100644
--- a/sparta/sparta/utils/ValidValue.hpp
+++ b/sparta/sparta/utils/ValidValue.hpp
@@ -114,7 +114,7 @@ namespace utils
          */
         bool operator==(const ValidValue<T> & val) const {
             sparta_assert(valid_ == true, "ValidValue is not valid for compare!");
-            return (value_ == val.value_);
+            return val.valid_ && (value_ == val.value_);
         }
 
         /**
-- 
2.43.0


From 579d0998778145aef2ce054abedf2e31bb0e31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:06 +0000
Subject: [PATCH 044/170] fix: BoundedValue: an upper bound of zero below the
 lower bound is rejected

---
 sparta/sparta/utils/BoundedValue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/utils/BoundedValue.hpp b/sparta/sparta/utils/BoundedValue.hpp
index 362a897..da5165c 100644
--- a/sparta/sparta/utils/BoundedValue.hpp
+++ b/sparta/sparta/utils/BoundedValue.hpp
@@ -282,7 +282,8 @@ public:
             sparta_assert(static_cast<uintmax_t>(upper_bound) <=
                         static_cast<uintmax_t>(std::numeric_limits<T>::max()));
         }
-        if(upper_bound > 0 and lower_bound > 0){
+        if(lower_bound > 0){
+            sparta_assert(upper_bound > 0);
             sparta_assert(static_cast<uintmax_t>(upper_bound) > static_cast<uintmax_t>(lower_bound));
         }
         if(upper_bound < 0){
@@ -330,7 +331,8 @@ public:
             sparta_assert(static_cast<uintmax_t>(upper_bound) <=
                         static_cast<uintmax_t>(std::numeric_limits<T>::max()));
         }
-        if(upper_bound > 0 and lower_bound > 0){
+        if(lower_bound > 0){
+            sparta_assert(upper_bound > 0);
             sparta_assert(static_cast<uintmax_t>(upper_bound) > static_cast<uintmax_t>(lower_bound));
         }
         if(upper_bound < 0){
-- 
2.43.0


From 22a7840eabdb50b9df5d7c10ac5c0c45fa241030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:21 +0000
Subject: [PATCH 045/170] fix: ArchData: no shifts by the full width of a type

A fill pattern of 4 or 8 bytes without an offset was shifted by its whole
width, and the line mask of a 2 GB line was computed in an int.
---
 sparta/sparta/functional/ArchData.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index 4cce93e..b2153c2 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -496,7 +496,7 @@ namespace sparta
                     throw ex;
                 }
                 line_lsb_ = (offset_type)tmp;
-                line_mask_ = ~((1 << line_lsb_) - 1);
+                line_mask_ = ~(((offset_type)1 << line_lsb_) - 1);
 
                 sparta_assert((1ul << line_lsb_) == line_size);
             }else{
@@ -1245,7 +1245,8 @@ namespace sparta
                           "Cannot have a buf_offset larger than FillT size. Must be buffer offset % fill size");
 
             // Realign the pattern so it coincides with the misalignment of buf
-            const FillT shifted_fill = (fill >> (buf_offset * 8)) | (fill << ((sizeof(FillT) - buf_offset) * 8));
+            const FillT shifted_fill = (buf_offset == 0) ? fill :
+                static_cast<FillT>((fill >> (buf_offset * 8)) | (fill << ((sizeof(FillT) - buf_offset) * 8)));
 
             // Handle case where buf is smaller than fill pattern
             if(sizeof(FillT) >= size) {
-- 
2.43.0


From 3f36d864169dbb77df7eaee67ff1bbe18479fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 046/170] fix: ArchData: ranges that wrap around are rejected,
 unaligned values are legal

A size near 2^64 passed every bounds check and reached memcpy, and values of
a segment placed at an unaligned offset were accessed through a misaligned
pointer.
---
 sparta/sparta/functional/ArchData.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/functional/ArchData.hpp b/sparta/sparta/functional/ArchData.hpp
index b2153c2..1259962 100644
--- a/sparta/sparta/functional/ArchData.hpp
+++ b/sparta/sparta/functional/ArchData.hpp
@@ -321,7 +321,8 @@ namespace sparta
 
                 uint8_t* d = data_ + loc;
 
-                T val = *reinterpret_cast<T*>(d);
+                T val;
+                memcpy(&val, d, sizeof(T)); // d need not be aligned for T
                 return reorder<T,BO>(val);
             }
 
@@ -333,7 +334,7 @@ namespace sparta
              * \note offset+size must be <= the size of this line
              */
             void read(offset_type offset, offset_type size, uint8_t* data) const {
-                sparta_assert(offset + size <= size_,
+                sparta_assert(offset <= size_ && size <= size_ - offset,
                               "Read on ArchData::line offset 0x" << std::hex
                               << offset << " with size " << std::dec << size << " B");
 
@@ -360,8 +361,8 @@ namespace sparta
                 uint8_t* d = data_ + loc;
 
                 dirty_ = true;
-                T& val = *reinterpret_cast<T*>(d);
-                val = reorder<T,BO>(t);
+                const T val = reorder<T,BO>(t);
+                memcpy(d, &val, sizeof(T)); // d need not be aligned for T
             }
 
             /*!
@@ -373,7 +374,7 @@ namespace sparta
              * \note offset+size must be <= the size of this line
              */
             void write(offset_type offset, offset_type size, const uint8_t* data) const {
-                sparta_assert(offset + size <= size_,
+                sparta_assert(offset <= size_ && size <= size_ - offset,
                               "Read on ArchData::line offset 0x" << std::hex
                               << offset << " with size " << std::dec << size << " B");
 
@@ -862,7 +863,7 @@ namespace sparta
          */
         void checkCanAccess(offset_type offset, offset_type bytes) const {
             checkInSingleLine(offset, bytes);
-            sparta_assert(offset + bytes <= size_,
+            sparta_assert(offset <= size_ && bytes <= size_ - offset,
                           "Generic access validity test on ArchData::line offset 0x" << std::hex
                           << offset << " with size " << std::dec << bytes << " B");
         }
@@ -931,7 +932,7 @@ namespace sparta
          * \throw SpartaException if access endpoints are in differnet Lines
          */
         void checkInSingleLine(offset_type offset, offset_type size) const {
-            if(__builtin_expect((offset + size) - (offset & line_mask_) > line_size_, 0)){
+            if(__builtin_expect(size > line_size_ || (offset - (offset & line_mask_)) > line_size_ - size, 0)){
                 throw SpartaException("Segment spans multiple ArchData lines: from ")
                     << getLineIndex(offset) << " to " << getLineIndex(offset+size-1);
             }
-- 
2.43.0


From 09d29d6375a5c0f03253e5c42b90fa763b5cd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 047/170] fix: memory interfaces reject ranges that wrap around
 the address space

A peek or poke whose addr+size overflowed was taken to be inside the window
and copied an almost unlimited number of bytes.
---
 sparta/sparta/memory/DebugMemoryIF.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index 13e7fbb..c406536 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -344,7 +344,7 @@ namespace sparta
             void verifyInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                if(__builtin_expect(addr < acc_windows_[0].start || addr+size > acc_windows_[0].end, 0)){
+                if(__builtin_expect(isInAccessWindows(addr, size) == false, 0)){
                     MemoryAccessError ex(addr, size, "any", "The access at does not fit within access windows: ");
                     ex << "{ [" << acc_windows_[0].start << "," << acc_windows_[0].end << ") }";
                     throw ex;
@@ -363,7 +363,8 @@ namespace sparta
             bool isInAccessWindows(addr_t addr, addr_t size) const {
                 // Assumes 1 access window
                 sparta_assert(acc_windows_.size() == 1); // This code is invalid once more than 1 window is supported
-                return addr >= acc_windows_[0].start && addr+size <= acc_windows_[0].end;
+                return addr >= acc_windows_[0].start && addr <= acc_windows_[0].end
+                    && size <= acc_windows_[0].end - addr;
             }
 
             /*!
-- 
2.43.0


From 7bc074f1141c80f6245a0a91a42318f0b3107d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 048/170] fix: a failed memory write raises MemoryWriteError,
 not MemoryReadError

---
 sparta/sparta/memory/BlockingMemoryIF.hpp     | 2 +-
 sparta/sparta/memory/BlockingMemoryIFNode.hpp | 2 +-
 sparta/sparta/memory/SimpleMemoryMapNode.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/memory/BlockingMemoryIF.hpp b/sparta/sparta/memory/BlockingMemoryIF.hpp
index 854af43..958efc7 100644
--- a/sparta/sparta/memory/BlockingMemoryIF.hpp
+++ b/sparta/sparta/memory/BlockingMemoryIF.hpp
@@ -226,7 +226,7 @@ namespace sparta
                 if(!tryWrite(addr, size, buf, in_supplement, out_supplement)){
                     verifyNoBlockSpan(addr, size);
                     verifyInAccessWindows(addr, size);
-                    throw MemoryReadError(addr, size, "Unkonwn reason");
+                    throw MemoryWriteError(addr, size, "Unknown reason");
                 }
             }
 
diff --git a/sparta/sparta/memory/BlockingMemoryIFNode.hpp b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
index 5421fea..1e7b699 100644
--- a/sparta/sparta/memory/BlockingMemoryIFNode.hpp
+++ b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
@@ -473,7 +473,7 @@ namespace sparta
                 if(!tryWrite(addr, size, buf, in_supplement, out_supplement)){
                     verifyNoBlockSpan(addr, size);
                     verifyInAccessWindows(addr, size);
-                    throw MemoryReadError(addr, size, "Unkonwn reason");
+                    throw MemoryWriteError(addr, size, "Unknown reason");
                 }
             }
 
diff --git a/sparta/sparta/memory/SimpleMemoryMapNode.hpp b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
index 32a85fe..895a308 100644
--- a/sparta/sparta/memory/SimpleMemoryMapNode.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMapNode.hpp
@@ -152,7 +152,7 @@ namespace sparta
                     verifyHasMapping(addr, size);
                     verifyNoBlockSpan(addr, size);
                     verifyInAccessWindows(addr, size);
-                    throw MemoryReadError(addr, size, "Unkonwn reason");
+                    throw MemoryWriteError(addr, size, "Unknown reason");
                 }
             }
 
-- 
2.43.0


From 9a32616897abb7982fe9b359028f2a542477be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 049/170] fix: memory access notifications carry the
 out_supplement of the access

---
 sparta/sparta/memory/BlockingMemoryIFNode.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/memory/BlockingMemoryIFNode.hpp b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
index 1e7b699..23425a7 100644
--- a/sparta/sparta/memory/BlockingMemoryIFNode.hpp
+++ b/sparta/sparta/memory/BlockingMemoryIFNode.hpp
@@ -345,6 +345,7 @@ namespace sparta
                     post_read_noti_data.size = size;
                     post_read_noti_data.data = buf;
                     post_read_noti_data.in_supplement = in_supplement;
+                    post_read_noti_data.out_supplement = out_supplement;
                     post_read_noti_.postNotification(post_read_noti_data);
                 }
 
@@ -434,6 +435,7 @@ namespace sparta
                     post_write_noti_data.prior = prior_val_buffer_.get();
                     post_write_noti_data.tried = buf;
                     post_write_noti_data.in_supplement = in_supplement;
+                    post_write_noti_data.out_supplement = out_supplement;
                     // A getInternalBuffer method seems appropriate here but is
                     // not used because no assumptions should be made about
                     // storage. So Memory implementation may not HAVE an
-- 
2.43.0


From 2abd0a5a5b32e79c36bd196e4c0f9a08641e0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 050/170] fix: SimpleMemoryMap: block sizes of 2 GB and more
 get the right mask

---
 sparta/sparta/memory/SimpleMemoryMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/SimpleMemoryMap.hpp b/sparta/sparta/memory/SimpleMemoryMap.hpp
index 441abc9..d2198c6 100644
--- a/sparta/sparta/memory/SimpleMemoryMap.hpp
+++ b/sparta/sparta/memory/SimpleMemoryMap.hpp
@@ -153,7 +153,7 @@ namespace sparta
             {
                 sparta_assert(block_size > 0, "block size must be greater than 0");
                 block_idx_rshift_ = (addr_t)log2(block_size);
-                block_offset_mask_ = (1 << block_idx_rshift_) - 1;
+                block_offset_mask_ = ((addr_t)1 << block_idx_rshift_) - 1;
             }
 
             /*!
-- 
2.43.0


From 71f1883819b8be6a79b7e96d1d21a3f14e7ec273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 051/170] fix: CachedMemory: poking a block that is not cached
 loads it first

The block was poked, zero-filled, into the downstream memory instead of being
read from it: every other byte of the block was lost.
---
 sparta/sparta/memory/CachedMemory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index c913492..88eb5b5 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -369,7 +369,7 @@ namespace sparta::memory
             // This memory was never written (or read) before.
             const auto aligned_paddr = paddr & block_mask_;
             uint8_t * cached_mem_block_ptr = cached_memory_.getLine(aligned_paddr).getRawDataPtr(0);
-            downstream_memory_->poke(aligned_paddr, block_size_, cached_mem_block_ptr);
+            downstream_memory_->peek(aligned_paddr, block_size_, cached_mem_block_ptr);
         }
         cached_memory_.write(paddr, size, buf);
         downstream_memory_->poke(paddr, size, buf);
-- 
2.43.0


From 56ee86b2b4762e8b94159db5685a6e6393ae5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 052/170] fix: CachedMemory: merging a write into a block that
 is not cached is a no-op

It allocated a zero-filled block, which from then on hid every other byte of
the block in the downstream memory.
---
 sparta/sparta/memory/CachedMemory.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/sparta/memory/CachedMemory.hpp b/sparta/sparta/memory/CachedMemory.hpp
index 88eb5b5..8a50f5b 100644
--- a/sparta/sparta/memory/CachedMemory.hpp
+++ b/sparta/sparta/memory/CachedMemory.hpp
@@ -460,6 +460,12 @@ namespace sparta::memory
     template<class MemoryWriteType>
     void CachedMemory<MemoryWriteType>::mergeWrite(addr_t paddr, addr_t size, const uint8_t * buf)
     {
+        if(cached_memory_.tryGetLine(paddr) == nullptr) {
+            // Nothing to update: this block is not cached, so it is read
+            // from downstream memory
+            return;
+        }
+
         if(getNumOutstandingWrites() > 0) {
             // Brute force method, but works.  Take one byte at a time and
             // look for collisions.  If there are any, don't store it, but
-- 
2.43.0


From 0e27babf73bcca6a04210d744daaa82f91d51e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 053/170] fix: a poke that fails part way modifies nothing

A poke spanning blocks wrote the blocks up to the first one refusing it (such
as an unmapped one) although an illegal poke must not modify memory.
---
 sparta/sparta/memory/DebugMemoryIF.hpp | 31 ++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/memory/DebugMemoryIF.hpp b/sparta/sparta/memory/DebugMemoryIF.hpp
index c406536..1130055 100644
--- a/sparta/sparta/memory/DebugMemoryIF.hpp
+++ b/sparta/sparta/memory/DebugMemoryIF.hpp
@@ -507,22 +507,49 @@ namespace sparta
                     return false;
                 }
 
+                std::vector<uint8_t> prior;
                 const uint8_t* in = buf;
                 addr_t a = addr;
                 const addr_t end = addr + size;
                 while(1){
                     addr_t block_end = block_mask_ & (a + block_size_);
                     if(block_end >= end){
-                        return tryPoke_(a, end - a, in);
+                        if(a == addr){
+                            return tryPoke_(a, end - a, in);
+                        }
+                        if(!tryPoke_(a, end - a, in)){
+                            break;
+                        }
+                        return true;
+                    }
+
+                    if(prior.empty()){
+                        // Spanning blocks: a later block may refuse the poke,
+                        // which must then not have modified an earlier one
+                        prior.resize(size);
+                        if(!tryPeek(addr, size, prior.data())){
+                            return false;
+                        }
                     }
 
                     addr_t size_in_block = block_end - a;
                     if(!tryPoke_(a, size_in_block, in)){
-                        return false;
+                        break;
                     }
                     in += size_in_block;
                     a = block_end;
                 }
+
+                // Refused: put back what was poked in the blocks before this one
+                in = prior.data();
+                const addr_t stop = a;
+                for(a = addr; a < stop; ){
+                    const addr_t size_in_block = (block_mask_ & (a + block_size_)) - a;
+                    tryPoke_(a, size_in_block, in);
+                    in += size_in_block;
+                    a += size_in_block;
+                }
+                return false;
             }
 
             /*!
-- 
2.43.0


From 120ea7ab8ae2262bc01b1a521769aaeb5b90c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 054/170] fix: DataView padded reads and truncated writes
 access exactly the indexed value

When the view was larger than the type they accessed 8 (or 4) bytes instead of
the size of the type, at an index scaled by that width: neighbouring values
were overwritten, or memory past the view was accessed.
---
 sparta/sparta/functional/DataView.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/functional/DataView.hpp b/sparta/sparta/functional/DataView.hpp
index 691f4ce..49245c0 100644
--- a/sparta/sparta/functional/DataView.hpp
+++ b/sparta/sparta/functional/DataView.hpp
@@ -194,12 +194,13 @@ namespace sparta
         T readPaddedUnsafe(index_type idx=0) const {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            if(max_bytes >= sizeof(T)){
+                return line_->read<T, BO>(offset_, idx); // Nothing to pad
+            }
             sparta_assert(isPowerOf2(max_bytes));
 
             T result;
-            if(max_bytes >= 8){
-                result = line_->read<uint64_t, BO>(offset_, idx);
-            }else if(max_bytes == 4){
+            if(max_bytes == 4){
                 result = line_->read<uint32_t, BO>(offset_, idx);
             }else if(max_bytes == 2){
                 result = line_->read<uint16_t, BO>(offset_, idx);
@@ -300,11 +301,13 @@ namespace sparta
         void writeTruncatedUnsafe(T val, uint32_t idx=0) {
             sparta_assert(line_, "There is no line pointer set for this DataView. ArchData likely has not been laid out yet. Tree probably needs to be finalized first.");
             offset_type max_bytes = getSize() - (sizeof(T) * idx); // Must always be a power of 2
+            if(max_bytes >= sizeof(T)){
+                line_->write<T, BO>(offset_, val, idx); // Nothing to truncate
+                return;
+            }
             sparta_assert(isPowerOf2(max_bytes));
 
-            if(max_bytes >= 8){
-                line_->write<uint64_t, BO>(offset_, (uint64_t)val, idx);
-            }else if(max_bytes == 4){
+            if(max_bytes == 4){
                 line_->write<uint32_t, BO>(offset_, (uint32_t)val, idx);
             }else if(max_bytes == 2){
                 line_->write<uint16_t, BO>(offset_, (uint16_t)val, idx);
-- 
2.43.0


From 075fff9890acba1cf2cb092b2e0923cbed3f8bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 055/170] fix: RegisterBits shifts are exact for every width
 and amount

<<= by 64 or more copied overlapping words front to back, so fields above bit
63 of registers of 256 bits and more were read and written at the wrong
position, and shifts by the whole width or more were undefined or ran past
the storage.
---
 sparta/sparta/functional/RegisterBits.hpp | 32 ++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index 1db515a..fb9f8aa 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -48,16 +48,20 @@ namespace sparta
         template<typename SizeT>
         static RegisterBits bitShiftRight_(const RegisterBits & in, uint32_t amount) {
             RegisterBits final_value(in.num_bytes_);
-            *reinterpret_cast<SizeT*>(final_value.local_data_) =
-                (*reinterpret_cast<const SizeT*>(in.remote_data_)) >> amount;
+            if(amount < sizeof(SizeT) * 8) { // Otherwise everything is shifted out
+                *reinterpret_cast<SizeT*>(final_value.local_data_) =
+                    (*reinterpret_cast<const SizeT*>(in.remote_data_)) >> amount;
+            }
             return final_value;
         }
 
         template<typename SizeT>
         static RegisterBits bitShiftLeft_(const RegisterBits & in, uint32_t amount) {
             RegisterBits final_value(in.num_bytes_);
-            *reinterpret_cast<SizeT*>(final_value.local_data_) =
-                (*reinterpret_cast<const SizeT*>(in.remote_data_)) << amount;
+            if(amount < sizeof(SizeT) * 8) { // Otherwise everything is shifted out
+                *reinterpret_cast<SizeT*>(final_value.local_data_) =
+                    (*reinterpret_cast<const SizeT*>(in.remote_data_)) << amount;
+            }
             return final_value;
         }
 
@@ -321,6 +325,9 @@ namespace sparta
             else if(num_bytes_ > 8)
             {
                 RegisterBits final_value(num_bytes_);
+                if(shift >= num_bytes_ * 8) {
+                    return final_value; // Everything is shifted out
+                }
                 const uint64_t * src_data = reinterpret_cast<const uint64_t*>(remote_data_);
                 uint64_t *     final_data = reinterpret_cast<uint64_t*>(final_value.local_data_);
                 const uint32_t num_dbl_words = num_bytes_ / 8;
@@ -370,7 +377,7 @@ namespace sparta
                     {
                         const uint64_t prev_dbl_word_bits_dropped_mask =
                             (uint64_t)(-(remaining_bits_to_shift != 0) &
-                                       (-1 >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift)));
+                                       (std::numeric_limits<uint64_t>::max() >> ((sizeof(uint64_t) * 8) - remaining_bits_to_shift)));
                         const uint32_t prev_dbl_word_bit_pos = 64 - remaining_bits_to_shift;
                         uint32_t idx =0;
                         while(true)
@@ -413,6 +420,9 @@ namespace sparta
             else if(num_bytes_ > 8)
             {
                 RegisterBits final_value(num_bytes_);
+                if(shift >= num_bytes_ * 8) {
+                    return final_value; // Everything is shifted out
+                }
                 const uint64_t * src_data = reinterpret_cast<const uint64_t*>(remote_data_);
                 uint64_t *     final_data = reinterpret_cast<uint64_t*>(final_value.local_data_);
                 const uint32_t num_dbl_words = num_bytes_ / 8;
@@ -526,6 +536,10 @@ namespace sparta
         void operator<<=(uint32_t shift)
         {
             convert_();
+            if(shift >= num_bytes_ * 8) {
+                ::memset(local_data_, 0, num_bytes_); // Everything is shifted out
+                return;
+            }
             if(num_bytes_ == 8) {
                 *reinterpret_cast<uint64_t*>(local_data_) =
                     (*reinterpret_cast<const uint64_t*>(remote_data_)) << shift;
@@ -570,11 +584,11 @@ namespace sparta
                 //
                 if(double_word_shift_count > 0)
                 {
-                    uint32_t dest_idx = double_word_shift_count;
-                    for(uint32_t src_idx = 0; dest_idx < num_dbl_words; ++dest_idx, ++src_idx) {
-                        *(final_data + dest_idx) = *(src_data + src_idx);
-                        *(src_data + src_idx) = 0;
+                    // From the top: source and destination overlap
+                    for(uint32_t dest_idx = num_dbl_words; dest_idx-- > double_word_shift_count; ) {
+                        *(final_data + dest_idx) = *(src_data + (dest_idx - double_word_shift_count));
                     }
+                    ::memset(final_data, 0, double_word_shift_count * sizeof(uint64_t));
                 }
 
                 // Micro-shift:
-- 
2.43.0


From f86022aa663bfc27d6ee8aa1c94fa05e976d7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 056/170] fix: RegisterBits::none is false when all bytes are
 equal but not zero

---
 sparta/sparta/functional/RegisterBits.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index fb9f8aa..b4f60bf 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -726,8 +726,7 @@ namespace sparta
          */
         bool none() const {
             sparta_assert(num_bytes_ > 0);
-            const auto mem_data_plus_one = remote_data_ + 1;
-            return (::memcmp(remote_data_, mem_data_plus_one, num_bytes_ - 1) == 0);
+            return std::all_of(remote_data_, remote_data_ + num_bytes_, [](uint8_t byte) { return byte == 0; });
         }
 
         /**
-- 
2.43.0


From abe26f8f043415a49875a42f6dfa968b2a0fb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 057/170] fix: register writes and pokes of any size within the
 register work

Sizes that are not a power of two, such as 3 bytes, stored through a null
pointer or touched bytes beyond the access.
---
 sparta/sparta/functional/Register.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 5a6ea7a..0ec3e8e 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1217,10 +1217,8 @@ public:
     {
         assert(isWritable());
         sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
-        RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
-        RegisterBits mask = mask_ >> 8 * offset;
-        RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
-        write_(old.data(), size, offset);
+        RegisterBits val = maskedValue_(buf, size, offset);
+        write_(val.data(), size, offset);
     }
 
     void writeUnmasked(const void *buf, size_t size, size_t offset)
@@ -1234,10 +1232,8 @@ public:
     {
         assert(isWritable());
         sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
-        RegisterBits val(reinterpret_cast<const uint8_t *>(buf), size);
-        RegisterBits mask = mask_ >> 8 * offset;
-        RegisterBits old = (peekRegisterBits_(size, offset) & ~mask) | (val & mask);
-        poke_(old.data(), size, offset);
+        RegisterBits val = maskedValue_(buf, size, offset);
+        poke_(val.data(), size, offset);
     }
 
     void pokeUnmasked(const void *buf, size_t size, size_t offset)
@@ -1380,10 +1376,20 @@ private:
         return ~write_mask;
     }
 
-    RegisterBits peekRegisterBits_(size_t size, size_t offset=0) const
+    /*!
+     * \brief The bytes to store so that the writable bits take the value in
+     * \a buf and the others keep theirs
+     */
+    RegisterBits maskedValue_(const void *buf, size_t size, size_t offset) const
     {
+        const uint8_t *val = static_cast<const uint8_t *>(buf);
+        const uint8_t *mask = mask_.data() + offset;
         RegisterBits bits(size);
-        peek_(bits.data(), size, offset);
+        uint8_t *out = bits.data();
+        peek_(out, size, offset);
+        for (size_t i = 0; i < size; ++i) {
+            out[i] = (out[i] & ~mask[i]) | (val[i] & mask[i]);
+        }
         return bits;
     }
 
-- 
2.43.0


From 6472dec00b70b26da13de2eb80b778be707f5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 058/170] fix: register accesses whose offset and size wrap
 around are out of bounds

---
 sparta/sparta/functional/Register.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 0ec3e8e..991385f 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1203,20 +1203,20 @@ public:
 
     void read(void *buf, size_t size, size_t offset)
     {
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         read_(buf, size, offset);
     }
 
     void peek(void *buf, size_t size, size_t offset) const
     {
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         peek_(buf, size, offset);
     }
 
     void write(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         RegisterBits val = maskedValue_(buf, size, offset);
         write_(val.data(), size, offset);
     }
@@ -1224,14 +1224,14 @@ public:
     void writeUnmasked(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         write_(buf, size, offset);
     }
 
     void poke(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         RegisterBits val = maskedValue_(buf, size, offset);
         poke_(val.data(), size, offset);
     }
@@ -1239,7 +1239,7 @@ public:
     void pokeUnmasked(const void *buf, size_t size, size_t offset)
     {
         assert(isWritable());
-        sparta_assert(offset + size <= getNumBytes(), "Access out of bounds");
+        sparta_assert(offset <= getNumBytes() && size <= getNumBytes() - offset, "Access out of bounds");
         poke_(buf, size, offset);
     }
 
-- 
2.43.0


From fa528dd9f9e44ce97df8540b3b43760f732a7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 059/170] fix: Register::writeUnmasked scales its index by the
 size of the value

---
 sparta/sparta/functional/Register.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 991385f..7698247 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1577,7 +1577,7 @@ public:
     inline void writeUnmasked(T val, index_type idx = 0)
     {
         assert(isWritable());
-        dmiWriteImpl_(&val, sizeof(T), idx);
+        dmiWriteImpl_(&val, sizeof(T), sizeof(T) * idx);
     }
 
 private:
-- 
2.43.0


From 7460f6fb227fa8b89f5fbba0f0693e8e094f5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 060/170] fix: fields of registers below 64 bits reject values
 that do not fit

---
 sparta/sparta/functional/Register.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 7698247..a657f2b 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -400,6 +400,9 @@ public:
 
         RegisterBits newRegisterValue_(access_type value) const
         {
+            sparta_assert(getNumBits() == MAX_FIELD_BITS || (value >> getNumBits()) == 0,
+                          "Value of " << value <<  " too large for bit field "
+                          << getLocation() << " of size " << getNumBits());
             const auto old_register_value  = peekBitArray_();
 
             RegisterBits field_value_to_be_written_shifted(std::max((size_t)reg_size_, sizeof(access_type)), value);
-- 
2.43.0


From e45d1648943d586fb61540d71a757004949e7de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 061/170] fix: copies and moves of a RegisterBits that views
 external data keep viewing it

---
 sparta/sparta/functional/RegisterBits.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/functional/RegisterBits.hpp b/sparta/sparta/functional/RegisterBits.hpp
index b4f60bf..e1d1195 100644
--- a/sparta/sparta/functional/RegisterBits.hpp
+++ b/sparta/sparta/functional/RegisterBits.hpp
@@ -164,7 +164,10 @@ namespace sparta
         RegisterBits(const RegisterBits & orig) :
             num_bytes_(orig.num_bytes_)
         {
-            if(num_bytes_ <= local_storage_.size()) {
+            if(!orig.ownsData_()) {
+                local_data_ = orig.local_data_; // A view of somebody else's data (or nothing)
+            }
+            else if(num_bytes_ <= local_storage_.size()) {
                 local_storage_ = orig.local_storage_;
                 local_data_ = orig.local_data_ == nullptr ? nullptr : local_storage_.data();
             }
@@ -189,7 +192,10 @@ namespace sparta
         RegisterBits(RegisterBits && orig) :
             num_bytes_(orig.num_bytes_)
         {
-            if(num_bytes_ <= local_storage_.size()) {
+            if(!orig.ownsData_()) {
+                local_data_ = orig.local_data_; // A view of somebody else's data (or nothing)
+            }
+            else if(num_bytes_ <= local_storage_.size()) {
                 local_storage_ = std::move(orig.local_storage_);
                 local_data_  = (orig.local_data_ == nullptr ? nullptr : local_storage_.data());
             }
@@ -739,6 +745,13 @@ namespace sparta
 
     private:
 
+        // Is the data in this object's own storage (as opposed to being
+        // absent or given by somebody else)?
+        bool ownsData_() const {
+            return (local_data_ != nullptr) &&
+                (local_data_ == local_storage_.data() || local_data_ == local_storage_alt_.get());
+        }
+
         std::array<uint8_t, 8>     local_storage_; //!< Local storage
         std::unique_ptr<uint8_t[]> local_storage_alt_; //!< Alternative local storage when register size > 64B
         uint8_t                  * local_data_  = nullptr; //!< Points to null if using remote data
-- 
2.43.0


From 333db416b713270469c25df904b99bed3463142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 062/170] fix: no undefined shift in the mask of an invalid
 register field

---
 sparta/sparta/functional/Register.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index a657f2b..80886da 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -137,8 +137,11 @@ public:
     {
         RegisterBits computeFieldMask_(uint32_t start, uint32_t end, uint32_t reg_size)
         {
-            const auto num_ones = start - end + 1;
             RegisterBits mask(reg_size);
+            if((start < end) || (start - end >= MAX_FIELD_BITS)) {
+                return mask; // Invalid definition, which the constructor rejects
+            }
+            const auto num_ones = start - end + 1;
             // For 31-0:
 
             // max() & (max() >> ((8 * 8) - 31))
-- 
2.43.0


From d63acc55d20aa45aebc689a45cbb3e26b381d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:54 +0000
Subject: [PATCH 063/170] fix: register definitions compare all the bytes of
 their initial values

---
 sparta/sparta/functional/Register.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/functional/Register.hpp b/sparta/sparta/functional/Register.hpp
index 80886da..5ceabb7 100644
--- a/sparta/sparta/functional/Register.hpp
+++ b/sparta/sparta/functional/Register.hpp
@@ -1488,7 +1488,12 @@ inline bool operator==(const RegisterBase::Definition &a,
     if (a.subset_of != b.subset_of) {
         return false;
     }
-    if (!utils::strcmp_with_null((const char *)a.initial_value, (const char *)b.initial_value)) {
+    // The initial values are as many bytes as the registers have
+    if ((a.initial_value == nullptr) != (b.initial_value == nullptr)) {
+        return false;
+    }
+
+    if ((a.initial_value != nullptr) && (memcmp(a.initial_value, b.initial_value, a.bytes) != 0)) {
         return false;
     }
     if (a.hints != b.hints) {
-- 
2.43.0


From f5790b5c0c289f0a8f7bdcc9c81d9564c0ec445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 064/170] fix: a deleted checkpoint that is still needed
 internally is not found by its ID

---
 .../serialization/checkpoint/FastCheckpointer.hpp    | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 419d3bf..d5c2736 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -425,11 +425,7 @@ namespace sparta::serialization::checkpoint
          * \return Checkpoint with ID of \a id if found or nullptr if not found
          */
         const checkpoint_type* findCheckpoint(chkpt_id_t id) noexcept {
-            auto it = chkpts_.find(id);
-            if (it != chkpts_.end()) {
-                return static_cast<checkpoint_type*>(it->second.get());
-            }
-            return nullptr;
+            return findCheckpoint_(id);
         }
 
         /*!
@@ -440,7 +436,7 @@ namespace sparta::serialization::checkpoint
          * always returns false
          */
         bool hasCheckpoint(chkpt_id_t id) noexcept override {
-            return chkpts_.find(id) != chkpts_.end();
+            return findCheckpoint_(id) != nullptr;
         }
 
         /*!
@@ -889,7 +885,7 @@ namespace sparta::serialization::checkpoint
          */
         checkpoint_type* findCheckpoint_(chkpt_id_t id) noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
@@ -900,7 +896,7 @@ namespace sparta::serialization::checkpoint
          */
         const checkpoint_type* findCheckpoint_(chkpt_id_t id) const noexcept {
             auto itr = chkpts_.find(id);
-            if (itr != chkpts_.end()) {
+            if (itr != chkpts_.end() && !itr->second->isFlaggedDeleted()) {
                 return static_cast<checkpoint_type*>(itr->second.get());
             }
             return nullptr;
-- 
2.43.0


From 2f160268b24e0e5f91046a0732b93b2fda639f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 065/170] fix: deleting the head checkpoint throws as
 documented

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index d5c2736..953cefb 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -225,6 +225,10 @@ namespace sparta::serialization::checkpoint
                 throw CheckpointError("Could not delete checkpoint ID=")
                     << id << " because no checkpoint by this ID was found";
             }
+            if(d == getHead()){
+                throw CheckpointError("Could not delete checkpoint ID=")
+                    << id << " because it is the head checkpoint";
+            }
 
             // Allow deletion and change ID to UNIDENTIFIED_CHECKPOINT.
             // This is still part of a chain though until there are no
-- 
2.43.0


From a0769b8770e0c10a00370258465d05d976ce4507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 066/170] fix: a deleted delta is kept while a deleted current
 checkpoint depends on it

---
 .../sparta/serialization/checkpoint/FastCheckpointer.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 953cefb..e696dd2 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -815,12 +815,18 @@ namespace sparta::serialization::checkpoint
                     return;
                 }
 
+                // The same holds for a delta on which the current (or a living)
+                // checkpoint depends
+                if(!d->isSnapshot() && recursForwardFindAlive_(d)){
+                    return;
+                }
+
                 checkpoint_type* prev = static_cast<checkpoint_type*>(d->getPrev());
 
                 // If nothing later in the chain (tree) depends on d's data, it can be deleted.
                 // This also patches the checkpoint tree around the deleted checkpoint
                 //! \todo canDelete is recursive at worst and might benefit from optimization
-                if(d->canDelete()) {
+                if(d->canDelete() && !recursForwardFindAlive_(d)) {
                     // Get checkpoint id regardless of whether alive or dead
                     chkpt_id_t id = d->getID();
                     if (d->isFlaggedDeleted()) {
-- 
2.43.0


From e558c9fba75027b62aae9263fe57e77c5a3bb90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 067/170] fix: a new head checkpoint leaves the list of its
 former predecessor

---
 sparta/sparta/serialization/checkpoint/Checkpoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
index d6222d1..7365b2f 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpoint.hpp
@@ -175,6 +175,7 @@ namespace sparta::serialization::checkpoint
         void makeHeadCheckpoint() override {
             if (prev_) {
                 sparta_assert(prev_->getID() != UNIDENTIFIED_CHECKPOINT);
+                prev_->removeNext(this); // prev_ may be destructed later, by somebody else
                 prev_ = nullptr;
             }
         }
-- 
2.43.0


From 3ce06cd5f0793e411321df03dd55d2bde2538cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:41 +0000
Subject: [PATCH 068/170] fix: the first checkpoint after restoring a file or
 forgetting the current one is a snapshot

---
 .../serialization/checkpoint/Checkpointer.hpp | 20 ++++++++++++++++++-
 .../checkpoint/PersistentFastCheckpointer.hpp |  2 ++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
index 20d01d2..5499404 100644
--- a/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/Checkpointer.hpp
@@ -248,7 +248,10 @@ namespace sparta::serialization::checkpoint
                 createHead();
             }
 
-            chkpt_id_t id = createCheckpoint_(force_snapshot);
+            // If the state of the ArchDatas is no longer what followed from the
+            // current checkpoint then no delta can describe it.
+            chkpt_id_t id = createCheckpoint_(force_snapshot || state_replaced_);
+            state_replaced_ = false;
             total_chkpts_created_++;
             return id;
         }
@@ -309,6 +312,7 @@ namespace sparta::serialization::checkpoint
         void forgetCurrent() {
             if(head_){
                 current_ = head_;
+                setStateReplaced_();
             }
         }
 
@@ -684,6 +688,15 @@ namespace sparta::serialization::checkpoint
             return current_;
         }
 
+        /*!
+         * \brief Note that the state of the ArchDatas was replaced by something
+         * other than running on from (or loading) the current checkpoint. The next
+         * checkpoint must then be a snapshot.
+         */
+        void setStateReplaced_() noexcept {
+            state_replaced_ = true;
+        }
+
         /*!
          * \brief Sets the current checkpoint pointer.
          * \param current Pointer to set as current checkpoint. The next
@@ -778,6 +791,11 @@ namespace sparta::serialization::checkpoint
          * increasing. Includes the head checkpoint
          */
         uint64_t total_chkpts_created_ = 0;
+
+        /*!
+         * \brief Is the ArchData state unrelated to the current checkpoint?
+         */
+        bool state_replaced_ = false;
     };
 
 } // namespace sparta::serialization::checkpoint
diff --git a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
index 8b64086..6dec6e1 100644
--- a/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/PersistentFastCheckpointer.hpp
@@ -236,6 +236,8 @@ namespace sparta::serialization::checkpoint
          * \param in Input stream from which to retrieve checkpoint data
          */
         void restore(std::istream& in) {
+            // The restored state does not follow from the current checkpoint
+            setStateReplaced_();
             auto adatas = getArchDatas();
             FileReadAdapter fsa(in);
             for (auto aditr=adatas.begin(); aditr!= adatas.end(); aditr++) {
-- 
2.43.0


From e1287103360c1a6832e2a66a8707948b0f7cc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 069/170] fix: squashing a branch copes with deleted
 checkpoints and keeps the counts right

---
 .../checkpoint/FastCheckpointer.hpp           | 48 ++++++++++++-------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index e696dd2..300813e 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -574,6 +574,14 @@ namespace sparta::serialization::checkpoint
                 return {};
             }
 
+            // Throws if the current checkpoint was deleted
+            for (auto id : getCheckpointChain(getCurrentID())) {
+                if (id == checkpoint_type::UNIDENTIFIED_CHECKPOINT) {
+                    throw CheckpointError("Cannot squash the branch of checkpoint ID=")
+                        << getCurrentID() << " because a checkpoint on it was deleted";
+                }
+            }
+
             checkpoint_ptrs to_save;
 
             // "Force new head checkpoint" means that we should release every
@@ -604,7 +612,7 @@ namespace sparta::serialization::checkpoint
                 }
 
                 for (auto& [id, chkpt] : chkpts_) {
-                    chkpt->flagDeleted();
+                    discard_(*chkpt);
                 }
                 chkpts_.clear();
 
@@ -656,19 +664,12 @@ namespace sparta::serialization::checkpoint
                     std::vector<chkpt_id_t> to_delete;
                     for (auto& [id, chkpt] : chkpts_) {
                         if (!to_keep.count(id)) {
-                            chkpt->flagDeleted();
+                            discard_(*chkpt);
                             to_delete.emplace_back(id);
-                        }                        
+                        }
                     }
 
                     for (auto id : to_delete) {
-                        auto chkpt = std::move(chkpts_[id]);
-
-                        sparta_assert(num_alive_checkpoints_-- > 0);
-                        if (chkpt->isSnapshot()) {
-                            sparta_assert(num_alive_snapshots_-- > 0);
-                        }
-
                         chkpts_.erase(id);
                     }
 
@@ -737,13 +738,7 @@ namespace sparta::serialization::checkpoint
                     }
 
                     for (auto id : to_delete) {
-                        auto & chkpt = chkpts_[id];
-                        chkpt->flagDeleted();
-
-                        sparta_assert(num_alive_checkpoints_-- > 0);
-                        if (chkpt->isSnapshot()) {
-                            sparta_assert(num_alive_snapshots_-- > 0);
-                        }
+                        discard_(*chkpts_[id]);
                     }
 
                     for (auto id : to_delete) {
@@ -758,6 +753,25 @@ namespace sparta::serialization::checkpoint
             return to_save;
         }
 
+        /*!
+         * \brief Account for a checkpoint, already deleted or not, which is
+         * about to be destructed
+         */
+        void discard_(checkpoint_type& chkpt) {
+            if (chkpt.isFlaggedDeleted()) {
+                sparta_assert(num_dead_checkpoints_ > 0);
+                --num_dead_checkpoints_;
+                return;
+            }
+            chkpt.flagDeleted();
+            sparta_assert(num_alive_checkpoints_ > 0);
+            --num_alive_checkpoints_;
+            if (chkpt.isSnapshot()) {
+                sparta_assert(num_alive_snapshots_ > 0);
+                --num_alive_snapshots_;
+            }
+        }
+
         /*!
          * \brief Delete given checkpoint and all contiguous previous
          * checkpoints which can be deleted (See checkpoint_type::canDelete).
-- 
2.43.0


From ab2f8df977f528e8e99386da37066b0f9a6ae9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:54 +0000
Subject: [PATCH 070/170] fix: FILEIstream: a byte of 0xff is not the end of
 the file

---
 sparta/sparta/serialization/checkpoint/FILEStream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/serialization/checkpoint/FILEStream.hpp b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
index ed9b93c..c9f46d4 100644
--- a/sparta/sparta/serialization/checkpoint/FILEStream.hpp
+++ b/sparta/sparta/serialization/checkpoint/FILEStream.hpp
@@ -246,7 +246,7 @@ private:
                     setg(&b[0], &b[0], &b[buf_size_]);
                 }
             }
-            return *gptr();
+            return traits_type::to_int_type(*gptr());
         }
 
         /*! Read characters from the input sequence to a user buffer.
-- 
2.43.0


From c037d9c421e6406fa53de8ae344cde3c0adc786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 071/170] fix: a destroyed child leaves no group name behind in
 its parent

---
 sparta/src/TreeNode.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index d3d3c6f..74de5e9 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2411,10 +2411,14 @@ void TreeNode::removeChildForTeardown_(TreeNode* child) {
 
     erase_child(children_, false);
 
-    // Remove child from child identifier mapping
-    for(const std::string* ident : child->getIdentifiers()){
-        sparta_assert(ident != nullptr);
-        names_.erase(*ident); // Does not fail if key not found
+    // Remove child from child identifier mapping: its name, its aliases and
+    // its position in its group
+    for(auto itr = names_.begin(); itr != names_.end();){
+        if(itr->second == child){
+            itr = names_.erase(itr);
+        }else{
+            ++itr;
+        }
     }
 }
 
-- 
2.43.0


From b7ffd255c717689ef24a452fb0ada21164f7e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 072/170] fix: node names ending in two underscores are
 rejected as documented

---
 sparta/src/TreeNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 74de5e9..3908c4d 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -527,7 +527,7 @@ void TreeNode::validateName(const std::string& nm)
     }
 
     std::string::size_type pos = nm.find("__");
-    if(pos != std::string::npos && (pos == 0 || pos == (nm.size() - 3))) {
+    if(pos != std::string::npos && (pos == 0 || nm.rfind("__") == (nm.size() - 2))) {
         throw SpartaException(" TreeNode name \"")
             << nm << "\" contains two adjacent underscores (at the beginning or end) which is not permitted. "
             "Expected location was " << getLocation();
-- 
2.43.0


From 63c9eb35c001acffbbb8a1b23c5eb46e28c20713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:22 +0000
Subject: [PATCH 073/170] fix: findChildren reports wildcard replacements in
 pattern order

---
 sparta/src/TreeNode.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 3908c4d..feb95a6 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -942,8 +942,7 @@ uint32_t TreeNode::findChildren_(const std::string& pattern,
                     results.push_back(subchild);
                     replacements.push_back(immediate_replacements.at(idx));
                     std::vector<std::string>& added = descendent_replacements.at(subidx);
-                    replacements.back().resize(added.size() + replacements.back().size());
-                    std::copy(added.begin(), added.end(), replacements.back().rbegin());
+                    replacements.back().insert(replacements.back().end(), added.begin(), added.end());
                     ++subidx;
                 }
             }
-- 
2.43.0


From 19f1ee7aa5ba920692dce076580c7574247bf83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 074/170] fix: smart lexical casts compute fractions exactly
 and reject overflow

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 51 +++++++++++++++---------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 0b7362b..d0d1ac0 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <utility>
+#include <numeric>
 #include <memory>
 
 #include <boost/lexical_cast.hpp>
@@ -340,26 +341,37 @@ inline uint64_t smartLexicalCast(const std::string& s,
         }
 
         // Apply suffix modifier extracted when parsing the suffix (e.g. "k" = N*1000)
-        value *= suffix_multiplier;
+        if(__builtin_mul_overflow(value, suffix_multiplier, &value)){
+            throw SpartaException("Could not lexically cast \"") << s << "\" to a uint64_t because it "
+                  "contained a value this type could not contain";
+        }
 
-        // Apply suffix modifier to the fractional portion
+        // Apply suffix modifier to the fractional portion, which must then be an integer.
+        // This is done manually to guarantee NO floating point rounding errors can occur
+        fractional.erase(fractional.find_last_not_of('0') + 1); // Insignificant
         if(fractional.size() != 0){
-            // Check each digit to ensure that it is an integer portion of the
-            // This is done manually to guarantee NO floating point rounding errors can occur
-            uint32_t ten_div = 10;
-            for(auto ch : fractional){
-                uint64_t frac = (ch - '0');
-                sparta_assert(frac < 10);
-                frac *= suffix_multiplier;
-                if(frac < ten_div){
-                    throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
-                          << fractional << "\" but suffix multipler was only " << suffix_multiplier
-                          << ", so this fraction does not represent and integer. Fraction should "
-                          "not have a 1/" << ten_div << " place. Found in \"" << s << "\"";
+            static const size_t MAX_PLACES = 18; // 10^18 fits in a uint64_t
+            uint64_t frac = 0;
+            uint64_t ten_div = 1;
+            bool valid = fractional.size() <= MAX_PLACES
+                         && fractional.find_first_not_of("0123456789") == std::string::npos;
+            if(valid){
+                for(auto ch : fractional){
+                    frac = frac * 10 + (uint64_t)(ch - '0');
+                    ten_div *= 10;
                 }
-                frac /= ten_div;
-                value += frac;
-                ten_div *= 10;
+                const uint64_t common = std::gcd(suffix_multiplier, ten_div);
+                valid = (frac % (ten_div / common)) == 0;
+                frac = (frac / (ten_div / common)) * (suffix_multiplier / common);
+            }
+            if(!valid){
+                throw SpartaException("Encountered a fractional value: \"") << numeric << "\" . \""
+                      << fractional << "\" but suffix multipler was only " << suffix_multiplier
+                      << ", so this fraction does not represent an integer. Found in \"" << s << "\"";
+            }
+            if(__builtin_add_overflow(value, frac, &value)){
+                throw SpartaException("Could not lexically cast \"") << s << "\" to a uint64_t because it "
+                      "contained a value this type could not contain";
             }
         }
 
@@ -371,7 +383,10 @@ inline uint64_t smartLexicalCast(const std::string& s,
                                                                true,             // Allow recursion
                                                                false);           // Disallow prefixes
 
-                value += addition;
+                if(__builtin_add_overflow(value, addition, &value)){
+                    throw SpartaException("Could not lexically cast \"") << s << "\" to a uint64_t because "
+                          "it contained a value this type could not contain";
+                }
             }
         }
 
-- 
2.43.0


From f8ca13e9bcb2a40006d788bef617fb25173583b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 075/170] fix: smart lexical casts respect the range of signed
 types

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index d0d1ac0..9d0d346 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -468,11 +468,7 @@ inline int64_t smartLexicalCast(const std::string& s,
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int64_t because it "
               "contained a value  this type could not contain: " << val;
     }
-    int64_t signed_val = val;
-    if(negate){
-        signed_val *= -1;
-    }
-    return signed_val;
+    return static_cast<int64_t>(negate ? (0 - val) : val);
 }
 
 template <>
@@ -495,8 +491,8 @@ inline int16_t smartLexicalCast(const std::string& s,
                                 bool allow_recursion,
                                 bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 16)
-       || val < -(1_64 << 16)){
+    if(val >= (1_64 << 15)
+       || val < -(1_64 << 15)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int16_t because it "
               "contained a value this type could not contain: " << val;
     }
@@ -509,8 +505,8 @@ inline int8_t smartLexicalCast(const std::string& s,
                                bool allow_recursion,
                                bool allow_prefix) {
     int64_t val = smartLexicalCast<int64_t>(s, end_pos, allow_recursion, allow_prefix);
-    if(val >= (1_64 << 8)
-       || val < -(1_64 << 8)){
+    if(val >= (1_64 << 7)
+       || val < -(1_64 << 7)){
         throw SpartaException("Could not lexically cast \"") << s << "\" to a int8_t because it "
               "contained a value this type could not contain: " << val;
     }
-- 
2.43.0


From 572e3c2934795fe0e5893eee93f93056e5090cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 076/170] fix: a digit beyond the radix is rejected by smart
 lexical casts

---
 sparta/sparta/utils/SmartLexicalCast.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/sparta/utils/SmartLexicalCast.hpp b/sparta/sparta/utils/SmartLexicalCast.hpp
index 9d0d346..a25a311 100644
--- a/sparta/sparta/utils/SmartLexicalCast.hpp
+++ b/sparta/sparta/utils/SmartLexicalCast.hpp
@@ -337,6 +337,12 @@ inline uint64_t smartLexicalCast(const std::string& s,
         }
 
         if(suffix_multiplier == 0){
+            if(s[pos] >= '0' && s[pos] <= '9'){
+                // A digit which the radix of this value does not have
+                throw SpartaException("Found digit '") << s[pos] << "' which is not a digit of a "
+                      "radix " << radix << " value (at char " << pos << ") in string being "
+                      "smart-lexically-cast: \"" << s << "\"";
+            }
             suffix_multiplier = 1;
         }
 
-- 
2.43.0


From b441b82e09e6a953ce75b48e61b77105f0ae2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:20 +0000
Subject: [PATCH 077/170] fix: lexicalCast rejects text with trailing garbage

---
 sparta/sparta/utils/LexicalCast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/LexicalCast.hpp b/sparta/sparta/utils/LexicalCast.hpp
index f7cadd4..5ae849a 100644
--- a/sparta/sparta/utils/LexicalCast.hpp
+++ b/sparta/sparta/utils/LexicalCast.hpp
@@ -82,7 +82,7 @@ namespace sparta
         std::stringstream ss;
         ss << str;
         ss >> tmp;
-        if(ss.fail() == false) {
+        if(ss.fail() == false && (ss >> std::ws).eof()) {
             return tmp;
         }
 
-- 
2.43.0


From bd5ae656749583b072a917b2656a0ccd151514a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:32 +0000
Subject: [PATCH 078/170] fix: rejected vector items leave a parameter
 unchanged

---
 sparta/sparta/simulation/Parameter.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index b889531..f1fdf74 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1646,7 +1646,9 @@ namespace sparta
             }else{
                 // handle if this is a vector
                 const bool incr_write_count = false;
-                setVectorItemValueFromString_(def_val_, indices, 0, str, incr_write_count);
+                ValueType tmp = def_val_;
+                setVectorItemValueFromString_(tmp, indices, 0, str, incr_write_count);
+                def_val_ = tmp;
             }
             default_override_ = true;
         }
@@ -1796,8 +1798,11 @@ namespace sparta
                 Parameter::template setValueFromString_<ValueType, ValueType>(str);
             }else{
                 // handle if this is a vector
+                // Nothing changes if the item or the write is rejected
                 const bool incr_write_count = true;
-                setVectorItemValueFromString_(val_, indices, 0, str, incr_write_count);
+                ValueType tmp = val_;
+                setVectorItemValueFromString_(tmp, indices, 0, str, incr_write_count);
+                val_ = tmp;
             }
         }
 
-- 
2.43.0


From 13776aa7acbe20e5c18541a047b49e526305146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 079/170] fix: a rejected default override leaves the default
 unchanged

---
 sparta/sparta/simulation/Parameter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index f1fdf74..7aace6f 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1623,18 +1623,18 @@ namespace sparta
         }
 
         virtual void overrideDefaultFromString(const std::string& str) override final {
-            Parameter::template overrideDefaultFromString_<ValueType, ValueType>(str);
             sparta_assert(getReadCount() == 0,
                         "Cannot override default on parameter if read count is > 0. "
                         "Problem on parameter " << getLocation());
+            Parameter::template overrideDefaultFromString_<ValueType, ValueType>(str);
             default_override_ = true;
         }
 
         virtual void overrideDefaultFromStringVector(const std::vector<std::string>& vec) override final {
-            Parameter::template overrideDefaultFromStringVector_<ValueType, ValueType>(vec);
             sparta_assert(getReadCount() == 0,
                         "Cannot override default on parameter if read count is > 0. "
                         "Problem on parameter " << getLocation());
+            Parameter::template overrideDefaultFromStringVector_<ValueType, ValueType>(vec);
             default_override_ = true;
         }
 
-- 
2.43.0


From c7e1001ea2d63f8cc0da3bcbd4cba5020d4cce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 080/170] fix: locked vector parameters cannot be cleared

---
 sparta/sparta/simulation/Parameter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index 7aace6f..2b71cb0 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1662,6 +1662,7 @@ namespace sparta
         }
 
         virtual void overrideDefaultClearVectorValue() override final {
+            checkModificationPermission_();
             clearVectorValue_(def_val_);
         }
 
@@ -1690,6 +1691,7 @@ namespace sparta
         }
 
         virtual void clearVectorValue() override final {
+            checkModificationPermission_();
             clearVectorValue_(val_);
         }
 
-- 
2.43.0


From 26899af7384f8d22c5a9a1f0522ea16477aa33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 081/170] fix: a parameter set is unlocked when a modifier
 callback throws

---
 sparta/src/Parameter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/src/Parameter.cpp b/sparta/src/Parameter.cpp
index 9f145e0..4f5e4f1 100644
--- a/sparta/src/Parameter.cpp
+++ b/sparta/src/Parameter.cpp
@@ -56,7 +56,13 @@ void sparta::ParameterBase::invokeModifierCB_()
     if(modifier_callback_ && callback_allowed)
     {
         ps->lock(this);
-        modifier_callback_();
+        try {
+            modifier_callback_();
+        }
+        catch(...) {
+            ps->unlock(this); // The set remains usable when the callback rejects a value
+            throw;
+        }
         ps->unlock(this);
     }
 }
-- 
2.43.0


From 6408538781a62bf15346ee2582d27f1e240aff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:00 +0000
Subject: [PATCH 082/170] fix: floating point values print with the digits
 needed to read them back

---
 sparta/sparta/utils/Printing.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sparta/sparta/utils/Printing.hpp b/sparta/sparta/utils/Printing.hpp
index 526d537..4a312f6 100644
--- a/sparta/sparta/utils/Printing.hpp
+++ b/sparta/sparta/utils/Printing.hpp
@@ -3,7 +3,12 @@
 
 #pragma once
 
+#include <cmath>
+#include <cstdint>
+#include <cstdlib>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <ostream>
 #include <vector>
@@ -156,6 +161,26 @@ namespace utils
         return out.str();
     }
 
+    //! Specialization for printing floating point values, with as many digits
+    //! as needed to read the same value back
+    template <>
+    inline std::string stringize_value<double>(const double& o, DisplayBase base,
+                                               const std::string& string_quote) {
+        (void)base;
+        (void)string_quote;
+        std::string result;
+        for(int digits = std::numeric_limits<double>::digits10 - 9; // 6, as streams do by default
+            digits <= std::numeric_limits<double>::max_digits10; ++digits) {
+            std::stringstream out;
+            out << std::setprecision(digits) << o;
+            result = out.str();
+            if(!std::isfinite(o) || std::strtod(result.c_str(), nullptr) == o) {
+                break;
+            }
+        }
+        return result;
+    }
+
     //! Specialization for printing strings
     template <>
     inline std::string stringize_value<std::string>(const std::string& o, DisplayBase base,
-- 
2.43.0


From faf654e630a932d44603ffeb0f1b06dab7b7b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:00 +0000
Subject: [PATCH 083/170] fix: 8-bit integers print as numbers

---
 sparta/sparta/utils/Printing.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sparta/sparta/utils/Printing.hpp b/sparta/sparta/utils/Printing.hpp
index 4a312f6..71778bf 100644
--- a/sparta/sparta/utils/Printing.hpp
+++ b/sparta/sparta/utils/Printing.hpp
@@ -161,6 +161,18 @@ namespace utils
         return out.str();
     }
 
+    //! Specializations for printing 8-bit integers as numbers, not characters
+    template <>
+    inline std::string stringize_value<uint8_t>(const uint8_t& o, DisplayBase base,
+                                                const std::string& string_quote) {
+        return stringize_value<uint32_t>(o, base, string_quote);
+    }
+    template <>
+    inline std::string stringize_value<int8_t>(const int8_t& o, DisplayBase base,
+                                               const std::string& string_quote) {
+        return stringize_value<int32_t>(o, base, string_quote);
+    }
+
     //! Specialization for printing floating point values, with as many digits
     //! as needed to read the same value back
     template <>
-- 
2.43.0


From bd89af194e99e02664115a7cc549aac04398b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:45 +0000
Subject: [PATCH 084/170] fix: names with a double underscore before their last
 character stay rejected

---
 sparta/src/TreeNode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index feb95a6..da4e619 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -527,7 +527,7 @@ void TreeNode::validateName(const std::string& nm)
     }
 
     std::string::size_type pos = nm.find("__");
-    if(pos != std::string::npos && (pos == 0 || nm.rfind("__") == (nm.size() - 2))) {
+    if(pos != std::string::npos && (pos == 0 || pos == (nm.size() - 3) || nm.rfind("__") == (nm.size() - 2))) {
         throw SpartaException(" TreeNode name \"")
             << nm << "\" contains two adjacent underscores (at the beginning or end) which is not permitted. "
             "Expected location was " << getLocation();
-- 
2.43.0


From 4c01867fd0eb3a9842bd59be5131b4890faec25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 085/170] fix: a parameter is at its default when its value
 equals its default

---
 sparta/sparta/simulation/Parameter.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparta/sparta/simulation/Parameter.hpp b/sparta/sparta/simulation/Parameter.hpp
index 2b71cb0..1477eb4 100644
--- a/sparta/sparta/simulation/Parameter.hpp
+++ b/sparta/sparta/simulation/Parameter.hpp
@@ -1618,6 +1618,10 @@ namespace sparta
             }
         }
 
+        virtual bool isDefault() const override final {
+            return val_ == def_val_;
+        }
+
         virtual bool isDefaultOverridden() const override final {
             return default_override_;
         }
-- 
2.43.0


From 08f891e6c584c6b9aa4c5c7fcffb1dec98ea824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:55 +0000
Subject: [PATCH 086/170] fix: sequence items with YAML syntax in them keep
 their value in the unbound parameter tree

---
 sparta/sparta/parsers/ConfigParserYAML.hpp | 26 +++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/parsers/ConfigParserYAML.hpp b/sparta/sparta/parsers/ConfigParserYAML.hpp
index 74ed9de..4e9da66 100644
--- a/sparta/sparta/parsers/ConfigParserYAML.hpp
+++ b/sparta/sparta/parsers/ConfigParserYAML.hpp
@@ -118,16 +118,36 @@ namespace sparta
                             }
                             params_.top().first++;
                         }
-                        // Ensure all-whitespace or empty strings are quoted
-                        if(val.find_first_not_of(" \t") == std::string::npos){
+                        // Ensure that values which would not be read back as they are
+                        // without quotes (e.g. all-whitespace, empty, or containing
+                        // YAML syntax) are quoted
+                        if(needsQuotes_(val)){
                             sequence_string_ += "\"";
-                            sequence_string_ += val;
+                            for(const char c : val){
+                                switch(c){
+                                case '"':  sequence_string_ += "\\\""; break;
+                                case '\\': sequence_string_ += "\\\\"; break;
+                                case '\n': sequence_string_ += "\\n"; break;
+                                case '\r': sequence_string_ += "\\r"; break;
+                                default:   sequence_string_ += c; break;
+                                }
+                            }
                             sequence_string_ += "\"";
                         }else{
                             sequence_string_ += val;
                         }
                     }
 
+                    //! Must this value be quoted to keep its meaning within a YAML sequence?
+                    static bool needsQuotes_(const std::string& val) {
+                        return val.find_first_not_of(" \t") == std::string::npos
+                            || val.find_first_of(",[]{}:#&*!|>%@`\"'\\\n\r") != std::string::npos
+                            || val.front() == ' ' || val.front() == '\t' || val.front() == '?'
+                            || val == "-" || val.compare(0, 2, "- ") == 0
+                            || val.back() == ' ' || val.back() == '\t'
+                            || val == "~" || val == "null" || val == "Null" || val == "NULL";
+                    }
+
                     const std::string& getValue() const {
                         return sequence_string_;
                     }
-- 
2.43.0


From 8dfe2d0508dac673d902229a89e42e72017e52d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 087/170] fix: commented mappings and sequences in
 configuration files assign nothing

---
 sparta/src/ConfigParserYAML.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sparta/src/ConfigParserYAML.cpp b/sparta/src/ConfigParserYAML.cpp
index 4138132..529df60 100644
--- a/sparta/src/ConfigParserYAML.cpp
+++ b/sparta/src/ConfigParserYAML.cpp
@@ -238,8 +238,9 @@ namespace sparta
                 sequence_pos_.push_back(0);
                 seq_params_.push({});
                 std::vector<ParameterBase*>& seq_ps = seq_params_.top();
+                const bool commented = last_val_.find(COMMENT_KEY_START) == 0;
 
-                if(subtree_.size() > 0){
+                if(subtree_.size() > 0 && !commented){
                     // Find next generation based on pattern of scalar (key) last_val_
                     NodeVector nodes;
                     findNextGeneration_(subtree_, last_val_, nodes, mark);
@@ -275,7 +276,9 @@ namespace sparta
                 }
 
                 pt_stack_.push(pt_node_); // Push on first entry
-                if(pt_node_){
+                if(commented){
+                    pt_node_ = nullptr;
+                }else if(pt_node_){
                     const bool required = true; // Temporary value. Parameters created this way are always required
                     auto npt_node = pt_node_->create(last_val_, required); // Fails if it contains a parent reference
                     //std::cerr << "OnSequenceStart Create \"" << pt_node_->getPath() << "\" \"" << last_val_ << "\"" << std::endl;
@@ -402,6 +405,7 @@ namespace sparta
                 verbose() << indent_() << "  COMMENTED MAPPING" << std::endl;
                 ///subtree_
                 subtree_.clear(); // Clear current nodes
+                pt_node_ = nullptr; // Nothing within this mapping is assigned
             }else{
                 // current subtree_ already pushed to stack
                 // Move onto next generation of children
-- 
2.43.0


From 587262f38a9454236e718b5a0064ce130943efc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 088/170] fix: observers can be registered and deregistered
 while a notification is posted

---
 sparta/sparta/log/NotificationSource.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/log/NotificationSource.hpp b/sparta/sparta/log/NotificationSource.hpp
index e68ff32..98d7a47 100644
--- a/sparta/sparta/log/NotificationSource.hpp
+++ b/sparta/sparta/log/NotificationSource.hpp
@@ -967,8 +967,13 @@ namespace sparta
             // Directly invoke all applicable delegates.
             // Note that this works even if ancestors are destroyed because
             // deregistration does not take place.
-            for(const delegate& d : dels_){
-                d(*this, data);
+            // Observers can be registered and deregistered from within these
+            // callbacks. Deregistered ones must not be called any more
+            const std::vector<delegate> dels(dels_);
+            for(const delegate& d : dels){
+                if(std::find(dels_.begin(), dels_.end(), d) != dels_.end()){
+                    d(*this, data);
+                }
             }
         }
 
-- 
2.43.0


From c2723860ab2bb7c01642818a4631ccacae8f52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 089/170] fix: observers at the virtual global node are
 registered once with each notification source

---
 .../simulation/VirtualGlobalTreeNode.hpp      | 38 ++++++++++++++-----
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index 8f64739..c4f678a 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -2,7 +2,9 @@
 
 #pragma once
 
+#include <algorithm>
 #include <regex>
+#include <set>
 #include <string>
 #include <vector>
 #include <memory>
@@ -182,6 +184,28 @@ namespace sparta
 
     private:
 
+        // Gets the parentless nodes which are not reached through the children of
+        // another one: nodes constructed with a parent are in the parentless list,
+        // and so are root nodes, which are children of a search scope
+        std::vector<std::shared_ptr<TreeNode>> getTreeRoots_() const {
+            std::vector<std::shared_ptr<TreeNode>> roots;
+            std::set<const TreeNode*> children;
+            for(auto& n : statics_->parentless_map_){
+                auto node = n.second.lock();
+                if(node != nullptr && node->getParent() == nullptr){
+                    const auto & node_children = node->getChildren();
+                    children.insert(node_children.begin(), node_children.end());
+                    roots.push_back(std::move(node));
+                }
+            }
+            roots.erase(std::remove_if(roots.begin(), roots.end(),
+                                       [&children](const std::shared_ptr<TreeNode> & node) {
+                                           return children.count(node.get()) != 0;
+                                       }),
+                        roots.end());
+            return roots;
+        }
+
         // Override form TreeNode
         // Disallow adding children
         virtual void onAddingChild_(TreeNode*) override final {
@@ -198,11 +222,8 @@ namespace sparta
                                                                      const delegate* del,
                                                                      const bool private_only) override final {
             (void)private_only;
-            for(auto& n : statics_->parentless_map_){
-                sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
-                    child.lock()->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
-                }
+            for(auto& root : getTreeRoots_()){
+                root->broadcastRegistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
             }
         }
 
@@ -214,11 +235,8 @@ namespace sparta
                                                                        const delegate* del,
                                                                        const bool private_only) override final {
             (void)private_only;
-            for(auto& n : statics_->parentless_map_){
-                sparta::TreeNode::WeakPtr& child = n.second;
-                if(child.expired() == false){
-                    child.lock()->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
-                }
+            for(auto& root : getTreeRoots_()){
+                root->broadcastDeregistrationForNotificationToChildren_(tinfo, name_ids, obs_node, del, private_only);
             }
         }
 
-- 
2.43.0


From 0f21f5294a1946321b352291a67ec0fe6c2eb61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 090/170] fix: observers of a list of notification names see
 sources added after them

---
 sparta/sparta/simulation/TreeNode.hpp | 15 +++++++++++++--
 sparta/src/TreeNode.cpp               |  4 +---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/simulation/TreeNode.hpp b/sparta/sparta/simulation/TreeNode.hpp
index fe79f05..8c9ad10 100644
--- a/sparta/sparta/simulation/TreeNode.hpp
+++ b/sparta/sparta/simulation/TreeNode.hpp
@@ -3075,8 +3075,15 @@ namespace sparta
              */
             bool observes(const TreeNode& obs_pt, const std::string* name) const
             {
-                return (&obs_pt == obs_point)
-                       && TreeNode::notificationCategoryMatch(name_ptr, name);
+                if(&obs_pt != obs_point){
+                    return false;
+                }
+                for(auto observed_name : TreeNode::parseNotificationNameString(*name_ptr)){
+                    if(TreeNode::notificationCategoryMatch(observed_name, name)){
+                        return true;
+                    }
+                }
+                return false;
             }
 
             /*!
@@ -4333,6 +4340,8 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
+            parseNotificationNameString(name); // Reject malformed names before storing them
+
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
@@ -4364,6 +4373,8 @@ namespace sparta
                     << "It is possible the node generating the desired notification is in a private sub tree.";
             }
 
+            parseNotificationNameString(name); // Reject malformed names before storing them
+
             DelegateVector& observers = obs_local_[data_type]; // Create notification map
             if(findDelegate_<DataT, T, TMethod>(observers, obj, name) != observers.end()){
                 throw SpartaException("Already observing a notification for data type \"")
diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index da4e619..50fb30f 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2567,9 +2567,7 @@ bool TreeNode::canSubtreeGenerateNotification(const std::type_info& tinfo,
 
 bool TreeNode::canSubtreeGenerateNotification(const std::type_info& tinfo,
                                               const std::string& name) const {
-    auto& strmgr = StringManager::getStringManager();
-    return canSubtreeGenerateNotification(tinfo,
-                                          strmgr.internString(name));
+    return canSubtreeGenerateNotifications(tinfo, parseNotificationNameString(name));
 }
 
 bool TreeNode::canSubtreeGenerateNotifications(const std::type_info& tinfo,
-- 
2.43.0


From 3ffabeee68b22add09ea1d71e3953e5b94d2b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 091/170] fix: the format of a log file is chosen by the end of
 its name

---
 sparta/sparta/log/Destination.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/log/Destination.hpp b/sparta/sparta/log/Destination.hpp
index 9dc4fc2..abfed5d 100644
--- a/sparta/sparta/log/Destination.hpp
+++ b/sparta/sparta/log/Destination.hpp
@@ -480,7 +480,7 @@ namespace sparta
                         break; // End of the list. Use this formatter
                     }
                     std::string ext = fmtinfo_->extension;
-                    size_t pos = filename.find(ext);
+                    size_t pos = filename.rfind(ext);
                     if(pos != std::string::npos && pos == filename.size() - ext.size()){
                         break; // Use this fmtinfo_->factory to construct
                     }
-- 
2.43.0


From 409a53bb7810dbfe3bbdd7e2a6fcc39b2ed5d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 092/170] fix: logging to a stream leaves its fill character as
 it was

---
 sparta/src/Destination.cpp | 2 ++
 sparta/src/MessageInfo.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sparta/src/Destination.cpp b/sparta/src/Destination.cpp
index cb3b3cd..6d5f18a 100644
--- a/sparta/src/Destination.cpp
+++ b/sparta/src/Destination.cpp
@@ -50,6 +50,7 @@ const Formatter::Info* Formatter::FORMATTERS = FMTLIST;
 void DefaultFormatter::write(const sparta::log::Message& msg)
 {
     std::ios::fmtflags f = stream_.flags();
+    const char fill = stream_.fill();
 
     stream_ << '{';
 
@@ -76,6 +77,7 @@ void DefaultFormatter::write(const sparta::log::Message& msg)
 
     // restore ostream flags
     stream_.flags(f);
+    stream_.fill(fill);
 
     stream_.flush();
 }
diff --git a/sparta/src/MessageInfo.cpp b/sparta/src/MessageInfo.cpp
index 685a029..7a8291c 100644
--- a/sparta/src/MessageInfo.cpp
+++ b/sparta/src/MessageInfo.cpp
@@ -19,6 +19,7 @@ namespace sparta {
 
 std::ostream& operator<<(std::ostream& o, const MessageInfo& info) {
     std::ios::fmtflags f = o.flags();
+    const char fill = o.fill();
 
     double t = double(info.wall_time);
 
@@ -60,6 +61,7 @@ std::ostream& operator<<(std::ostream& o, const MessageInfo& info) {
 
     // restore ostream flags
     o.flags(f);
+    o.fill(fill);
 
     return o;
 }
-- 
2.43.0


From 77d3d8ab1a440e8e42fec624e088dc5df0575031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 093/170] fix: log messages with a null character in them are
 written whole

---
 sparta/sparta/utils/Utils.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/utils/Utils.hpp b/sparta/sparta/utils/Utils.hpp
index f8183b7..60f81df 100644
--- a/sparta/sparta/utils/Utils.hpp
+++ b/sparta/sparta/utils/Utils.hpp
@@ -294,16 +294,12 @@ inline std::string copyWithReplace(const std::string& s, char from, const std::s
     std::string result;
     result.reserve(s.size()*2); // Take an initial guess so we don't have to reallocate
 
-    const char* p = s.c_str();
-    while(1){
-        if(*p == from){
+    for(const char c : s){
+        if(c == from){
             result += to;
-        }else if(*p == '\0'){
-            break;
         }else{
-            result += *p;
+            result += c;
         }
-        ++p;
     }
 
     return result;
-- 
2.43.0


From 6c73529bba48fa6b798ed622be26f0f5897353f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 094/170] fix: cycle histograms of enumerations name their bins
 from the first enumerator on

---
 sparta/sparta/statistics/EnumCycleHistogram.hpp | 2 +-
 sparta/sparta/utils/Enum.hpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/statistics/EnumCycleHistogram.hpp b/sparta/sparta/statistics/EnumCycleHistogram.hpp
index 7ff6ab2..88a43ee 100644
--- a/sparta/sparta/statistics/EnumCycleHistogram.hpp
+++ b/sparta/sparta/statistics/EnumCycleHistogram.hpp
@@ -51,7 +51,7 @@ getHumanReadableHistogramBinNames(std::vector<std::string>& enum_name_strings){
     constexpr enum_type last_index = static_cast<enum_type>(U::__LAST);
     enum_name_strings.reserve(last_index);
     std::stringstream ss;
-    for(enum_type e = 0; e < last_index; ++e){
+    for(enum_type e = static_cast<enum_type>(U::__FIRST); e < last_index; ++e){
         auto val = static_cast<U>(e);
         ss << val;
         enum_name_strings.emplace_back(ss.str());
diff --git a/sparta/sparta/utils/Enum.hpp b/sparta/sparta/utils/Enum.hpp
index 70fb831..e1febe8 100644
--- a/sparta/sparta/utils/Enum.hpp
+++ b/sparta/sparta/utils/Enum.hpp
@@ -30,7 +30,7 @@ namespace utils
         //! Method which populates an argument vector with string-names of
         //  enum constants of the class enum template argument.
         static void populateNames(std::vector<std::string>& names){
-            for(std::size_t i = 0; i < static_cast<uint32_t>(value_type::__LAST); ++i){
+            for(std::size_t i = static_cast<uint32_t>(value_type::__FIRST); i < static_cast<uint32_t>(value_type::__LAST); ++i){
                 names.emplace_back(names_[i]);
             }
         }
-- 
2.43.0


From 30082a9632b34d134041b9101f6ca83f94800fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 095/170] fix: names separated by whitespace in an expression
 are not one name

---
 sparta/src/ExpressionGrammar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/src/ExpressionGrammar.cpp b/sparta/src/ExpressionGrammar.cpp
index f877e53..a148ef4 100644
--- a/sparta/src/ExpressionGrammar.cpp
+++ b/sparta/src/ExpressionGrammar.cpp
@@ -413,7 +413,8 @@ ExpressionGrammar::variable_::variable_(sparta::TreeNode* n,
     start = str [_val = lazy_gen_var(qi::_1)];
 
     // TreeNode names: All alphanumeric characters, and "_.[]"
-    str %= +(char_("a-zA-Z0-9_\\.\\[\\]"));
+    // Whitespace ends a name
+    str %= qi::lexeme[+(char_("a-zA-Z0-9_\\.\\[\\]"))];
 }
 
 ExpressionGrammar::ufunc_::ufunc_(std::vector<const TreeNode*>& used)
-- 
2.43.0


From d1e6136d22b8f7905be69ef892b00c0febdccbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 096/170] fix: nodes whose names begin with a number, constant
 or built-in name can be used in expressions

---
 sparta/src/ExpressionGrammar.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sparta/src/ExpressionGrammar.cpp b/sparta/src/ExpressionGrammar.cpp
index a148ef4..d39aaea 100644
--- a/sparta/src/ExpressionGrammar.cpp
+++ b/sparta/src/ExpressionGrammar.cpp
@@ -574,6 +574,10 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
     using phoenix::ref;
     real_parser<double,real_policies<double> > real;
 
+    // A number, constant or built-in variable ends where its name does: the
+    // name of a node can begin with it
+    const auto name_char = qi::ascii::char_("a-zA-Z0-9_\\.\\[\\]");
+
     helpers::lazy_builtin_bfunc_ lzbbf_pow("pow", &std::pow);
     boost::phoenix::function<helpers::lazy_builtin_bfunc_> lazy_pow(lzbbf_pow);
     boost::phoenix::function<helpers::lazy_nfunc_> lazy_nfunc;
@@ -602,7 +606,8 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
         ;
 
     primary =
-        real                       [_val =  qi::_1]
+        qi::lexeme[real >> !name_char]
+                                   [_val =  qi::_1]
        |    '(' >> expression      [_val =  qi::_1] >> ')'
        |    ('-' >> primary        [_val = -qi::_1])
        |    ('+' >> primary        [_val =  qi::_1])
@@ -615,8 +620,10 @@ ExpressionGrammar::ExpressionGrammar(sparta::TreeNode* root,
                                    >> expression >> ','
                                    >> expression >> ')')
                                    [_val = lazy_tfunc(qi::_1, qi::_2, qi::_3, qi::_4)]
-       |    no_case[constants]     [_val =  qi::_1]
-       |    no_case[builtin_vars]  [_val = lazy_nfunc(qi::_1)]
+       |    qi::lexeme[no_case[constants] >> !name_char]
+                                   [_val =  qi::_1]
+       |    qi::lexeme[no_case[builtin_vars] >> !name_char]
+                                   [_val = lazy_nfunc(qi::_1)]
        |    no_case[var]           [_val = qi::_1]
         ;
 
-- 
2.43.0


From 460176cd8fcde62e5f0d109cad15f4d2d43a623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 097/170] fix: aggregate functions of context counters
 determine the value of expressions naming them

---
 sparta/src/StatisticInstance.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index 1a14a72..6128e7c 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -269,6 +269,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // Let the function which aggregates this statistic compute its value
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
@@ -541,6 +545,10 @@ namespace sparta
             if(node_ref_.expired() == true){
                 return NAN;
             }
+            // Let the function which aggregates this statistic compute its value
+            if(user_calculated_si_value_){
+                return user_calculated_si_value_->getCurrentValue();
+            }
             // Evaluate the expression
             return stat_expr_.evaluate();
         }else if(ctr_){
-- 
2.43.0


From 70fc5aedc71d77bcf14a6b22a197bbdb86440735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 098/170] fix: moved and assigned statistic instances keep
 sub-statistics and aggregate function

---
 sparta/src/StatisticInstance.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/src/StatisticInstance.cpp b/sparta/src/StatisticInstance.cpp
index 6128e7c..a9b38ea 100644
--- a/sparta/src/StatisticInstance.cpp
+++ b/sparta/src/StatisticInstance.cpp
@@ -7,6 +7,7 @@
  */
 
 #include "sparta/statistics/StatisticInstance.hpp"
+#include "sparta/statistics/StatInstCalculator.hpp"
 
 namespace sparta
 {
@@ -144,6 +145,7 @@ namespace sparta
         scheduler_(rhp.scheduler_),
         initial_(rhp.initial_),
         result_(rhp.result_),
+        sub_statistics_(std::move(rhp.sub_statistics_)),
         user_calculated_si_value_(std::move(rhp.user_calculated_si_value_))
     {
         rhp.sdef_ = nullptr;
@@ -166,6 +168,7 @@ namespace sparta
         result_ = rhp.result_;
 
         sub_statistics_ = rhp.sub_statistics_;
+        user_calculated_si_value_ = rhp.user_calculated_si_value_;
 
         return *this;
     }
-- 
2.43.0


From bbccc8483e8cbddba95e2703f4df506ed3c09a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 099/170] fix: assigning an empty expression discards the
 content assigned to

---
 sparta/sparta/statistics/Expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/statistics/Expression.hpp b/sparta/sparta/statistics/Expression.hpp
index c2ebfc7..d6a8a02 100644
--- a/sparta/sparta/statistics/Expression.hpp
+++ b/sparta/sparta/statistics/Expression.hpp
@@ -239,8 +239,8 @@ public:
     {
         //std::cout << "Assignment   " << this << " <- " << &rhp << std::endl;
 
-        if(rhp.content_ != nullptr){
-            content_.reset(rhp.content_->clone());
+        if(this != &rhp){
+            content_.reset(rhp.content_ != nullptr ? rhp.content_->clone() : nullptr);
         }
 
         return *this;
-- 
2.43.0


From 5ad4c2768cef0452cd854f8c2c7e509355b25f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 100/170] fix: copied, assigned and moved reports have the
 statistics of the original by name, once

---
 sparta/sparta/report/Report.hpp | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index a41e2b7..4e051c5 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -203,18 +203,14 @@ namespace sparta
             subreps_(rhp.subreps_),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
-            info_string_(rhp.info_string_),
-            sub_statistics_(rhp.sub_statistics_)
+            info_string_(rhp.info_string_)
         {
             // Update parent pointers of all subreports
             for(auto& sr : subreps_){
                 sr.setParent_(this);
             }
 
-            // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
         }
 
         /*!
@@ -230,6 +226,7 @@ namespace sparta
             parent_(rhp.parent_),
             subreps_(std::move(rhp.subreps_)),
             stats_(std::move(rhp.stats_)),
+            stat_names_(std::move(rhp.stat_names_)),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
             info_string_(std::move(rhp.info_string_)),
@@ -249,6 +246,9 @@ namespace sparta
          * \note Parent link for this report remains the same
          */
         Report& operator=(const Report& rhp) {
+            if (this == &rhp) {
+                return *this;
+            }
             scheduler_ = rhp.scheduler_;
             name_ = rhp.name_;
             author_ = rhp.author_;
@@ -261,16 +261,10 @@ namespace sparta
                 sr.setParent_(this);
             }
 
-            stats_.clear(); // Clear local stats
-
-            // Copy StatisticInstances
-            for(const statistics::stat_pair_t& sp : rhp.stats_){
-                add(*sp.second, sp.first);
-            }
+            copyStatistics_(rhp);
             start_tick_ = rhp.start_tick_;
             end_tick_ = rhp.end_tick_;
             info_string_ = rhp.info_string_;
-            sub_statistics_ = rhp.sub_statistics_;
             return *this;
         }
 
@@ -1213,6 +1207,29 @@ namespace sparta
             }
         }
 
+        /*!
+         * \brief Replace the statistics of this report with copies of those of another, by the
+         * same names and in the same order. Sub-statistics are among those statistics already
+         */
+        void copyStatistics_(const Report & rhp) {
+            stats_.clear();
+            stat_names_ = rhp.stat_names_;
+            sub_statistics_.clear();
+            std::unordered_map<const StatisticInstance*, const StatisticInstance*> copies;
+            for (const statistics::stat_pair_t & sp : rhp.stats_) {
+                addField_<const StatisticInstance&>(sp.first, *sp.second);
+                copies[sp.second.get()] = stats_.back().second.get();
+            }
+            for (const auto & sub_stats : rhp.sub_statistics_) {
+                for (const StatisticInstance * si : sub_stats.second) {
+                    const auto copy = copies.find(si);
+                    if (copy != copies.end()) {
+                        sub_statistics_[sub_stats.first].emplace_back(copy->second);
+                    }
+                }
+            }
+        }
+
         /*!
          * \brief Sets the parent link of this report.
          * \param parent Report to assign as this reports parent. Can be nullptr
-- 
2.43.0


From c6d2b5fdc945cd45a530496be506012ba9b29494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 101/170] fix: reports print whole numbers too large for a
 64-bit integer

---
 sparta/sparta/report/Report.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index 4e051c5..e4cb536 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -98,7 +98,7 @@ namespace sparta
                 return "nan";
             }else if(std::isinf(val)){
                 o << val; // Use built-in conversion (e.g. +inf, -inf)
-            }else if(fractional == 0){
+            }else if(fractional == 0 && val >= -9223372036854775808.0 && val < 18446744073709551616.0){
                 if(val < 0) {
                     // Print as a straight integer, no decimals
                     o << (int64_t)integral;
-- 
2.43.0


From 1af85022972a890f1d744f20fc8bd836ddd9c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 102/170] fix: JSON reports show negative, infinite and very
 large values as they are

---
 sparta/src/JsonFormatter.cpp | 80 ++++++++++++++----------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/sparta/src/JsonFormatter.cpp b/sparta/src/JsonFormatter.cpp
index 20a39ac..1616540 100644
--- a/sparta/src/JsonFormatter.cpp
+++ b/sparta/src/JsonFormatter.cpp
@@ -63,6 +63,34 @@ namespace sparta {
                 return metadata_json;
             }
 
+            //! JSON value of a statistic: the number that other report formats print
+            rapidjson::Value getStatValueJson(const double val)
+            {
+                if (std::isnan(val)) {
+                    return rapidjson::Value("nan");
+                }
+                if (std::isinf(val)) {
+                    return val < 0 ? rapidjson::Value("-inf") : rapidjson::Value("inf");
+                }
+
+                double dbl_formatted = 0;
+                std::stringstream ss;
+                ss << Report::formatNumber(val);
+                ss >> dbl_formatted;
+
+                double int_part = 0;
+                if (std::modf(dbl_formatted, &int_part) == 0) {
+                    // This double has no remainder, so print it as an integer if it fits
+                    if (dbl_formatted >= 0 && dbl_formatted < 18446744073709551616.0) {
+                        return rapidjson::Value(static_cast<uint64_t>(dbl_formatted));
+                    }
+                    if (dbl_formatted < 0 && dbl_formatted >= -9223372036854775808.0) {
+                        return rapidjson::Value(static_cast<int64_t>(dbl_formatted));
+                    }
+                }
+                return rapidjson::Value(dbl_formatted);
+            }
+
             std::string flattenReportName(std::string full_name)
             {
                 std::string local_name = full_name;
@@ -126,28 +154,7 @@ namespace sparta {
                                              doc.GetAllocator());
 
                         const double val = si.second->getValue();
-                        if (std::isnan(val)) {
-                            stats_json.AddMember("val", rapidjson::Value("nan"), doc.GetAllocator());
-                        } else if (std::isinf(val)) {
-                            stats_json.AddMember("val", rapidjson::Value("inf"), doc.GetAllocator());
-                        } else {
-                            double dbl_formatted = 0;
-                            std::stringstream ss;
-                            ss << Report::formatNumber(val);
-                            ss >> dbl_formatted;
-
-                            double int_part = 0;
-                            const double remainder = std::modf(dbl_formatted, &int_part);
-                            if (remainder == 0) {
-                                //This double has no remainder, so print it as an integer
-                                stats_json.AddMember("val", rapidjson::Value(static_cast<uint64_t>(dbl_formatted)),
-                                                     doc.GetAllocator());
-                            } else {
-                                //This double has some remainder, so print it as-is
-                                stats_json.AddMember("val", rapidjson::Value(dbl_formatted),
-                                                     doc.GetAllocator());
-                            }
-                        }
+                        stats_json.AddMember("val", getStatValueJson(val), doc.GetAllocator());
                         rapidjson::Value stat_name_json;
                         stat_name_json.SetString(stat_name.c_str(), stat_name.size(), doc.GetAllocator());
                         contents.AddMember(stat_name_json,
@@ -345,34 +352,7 @@ namespace sparta {
                         }
                         rapidjson::Value stat_name_json;
                         stat_name_json.SetString(stat_name.c_str(), stat_name.size(), doc.GetAllocator());
-                        if (std::isnan(val)) {
-                            contents.AddMember(stat_name_json,
-                                               rapidjson::Value("nan"),
-                                               doc.GetAllocator());
-                        } else if(std::isinf(val)) {
-                            contents.AddMember(stat_name_json,
-                                               rapidjson::Value("inf"),
-                                               doc.GetAllocator());
-                        } else {
-                            double dbl_formatted = 0;
-                            std::stringstream ss;
-                            ss << Report::formatNumber(val);
-                            ss >> dbl_formatted;
-
-                            double int_part = 0;
-                            const double remainder = std::modf(dbl_formatted, &int_part);
-                            if (remainder == 0) {
-                                //This double has no remainder, so print it as an integer
-                                contents.AddMember(stat_name_json,
-                                                   rapidjson::Value(static_cast<uint64_t>(dbl_formatted)),
-                                                   doc.GetAllocator());
-                            } else {
-                                //This double has some remainder, so print it as-is
-                                contents.AddMember(stat_name_json,
-                                                   rapidjson::Value(dbl_formatted),
-                                                   doc.GetAllocator());
-                            }
-                        }
+                        contents.AddMember(stat_name_json, getStatValueJson(val), doc.GetAllocator());
                     }
                 }
 
-- 
2.43.0


From 6ce34f26c7361f5137e38fe18c86783c5be1d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 103/170] fix: JSON reports escape quotes in descriptions once

---
 sparta/src/JsonFormatter.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sparta/src/JsonFormatter.cpp b/sparta/src/JsonFormatter.cpp
index 1616540..b70c5d4 100644
--- a/sparta/src/JsonFormatter.cpp
+++ b/sparta/src/JsonFormatter.cpp
@@ -1,7 +1,6 @@
 
 #include <rapidjson/encodings.h>
 #include <cstdint>
-#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/iterator/iterator_traits.hpp>
 #include <cmath>
@@ -144,7 +143,6 @@ namespace sparta {
                         stats_json.SetObject();
 
                         std::string desc = si.second->getDesc(false);
-                        boost::replace_all(desc, "\"", "\\\"");
                         statistics_descs_.emplace_back(desc);
                         const std::string & desc_ref = statistics_descs_.back();
 
-- 
2.43.0


From 8ee02e1db48c515b7139fe9c63b8b62de3f04325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:23 +0000
Subject: [PATCH 104/170] fix: Python and js_json reports show the sign of
 infinite values

---
 sparta/sparta/report/format/PythonDict.hpp | 2 +-
 sparta/src/JavascriptObject.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/report/format/PythonDict.hpp b/sparta/sparta/report/format/PythonDict.hpp
index 48608f5..9846996 100644
--- a/sparta/sparta/report/format/PythonDict.hpp
+++ b/sparta/sparta/report/format/PythonDict.hpp
@@ -119,7 +119,7 @@ protected:
                 if(std::isnan(val)){
                     out << "float('nan')";
                 }else if(std::isinf(val)){
-                    out << "float('inf')";
+                    out << (val < 0 ? "float('-inf')" : "float('inf')");
                 }else{
                     out << Report::formatNumber(val);
                 }
diff --git a/sparta/src/JavascriptObject.cpp b/sparta/src/JavascriptObject.cpp
index 33e240f..3c15ed3 100644
--- a/sparta/src/JavascriptObject.cpp
+++ b/sparta/src/JavascriptObject.cpp
@@ -226,7 +226,7 @@ void sparta::report::format::JavascriptObject::writeStats_(std::ostream& out, co
         if (std::isnan(val)){
             out << "\"nan\"";
         } else if (std::isinf(val)) {
-            out << "\"inf\"";
+            out << (val < 0 ? "\"-inf\"" : "\"inf\"");
         } else{
             out << Report::formatNumber(val, false, decimal_places_);
         }
-- 
2.43.0


From 005ed2bf226eb0943bec6e66010e83a44e9499a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:42 +0000
Subject: [PATCH 105/170] fix: names and descriptions are escaped in Python,
 js_json and JSON_detail reports

---
 sparta/sparta/report/format/BaseFormatter.hpp | 27 +++++++++++++++++++
 sparta/sparta/report/format/JSON_detail.hpp   |  9 ++++---
 sparta/sparta/report/format/PythonDict.hpp    |  4 +--
 sparta/src/JavascriptObject.cpp               | 13 ++++-----
 4 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/report/format/BaseFormatter.hpp b/sparta/sparta/report/format/BaseFormatter.hpp
index 40e4667..6eebfcf 100644
--- a/sparta/sparta/report/format/BaseFormatter.hpp
+++ b/sparta/sparta/report/format/BaseFormatter.hpp
@@ -519,6 +519,33 @@ protected:
             "skip_ called on a ReportFormatter but the method was not implemented.");
     }
 
+    /*!
+     * \brief Escape text for use between the double quotes of a JSON or Python string
+     */
+    static std::string escapeQuoted_(const std::string & text)
+    {
+        static const char HEX[] = "0123456789abcdef";
+        std::string escaped;
+        for (const char c : text) {
+            switch (c) {
+            case '"':  escaped += "\\\""; break;
+            case '\\': escaped += "\\\\"; break;
+            case '\n': escaped += "\\n"; break;
+            case '\r': escaped += "\\r"; break;
+            case '\t': escaped += "\\t"; break;
+            default:
+                if (static_cast<unsigned char>(c) < 0x20) {
+                    escaped += "\\u00";
+                    escaped += HEX[(c >> 4) & 0xf];
+                    escaped += HEX[c & 0xf];
+                } else {
+                    escaped += c;
+                }
+            }
+        }
+        return escaped;
+    }
+
     /*!
      * \brief Keep track of the metadata values written. There can
      * be more than one series of metadata values, so we keep these
diff --git a/sparta/sparta/report/format/JSON_detail.hpp b/sparta/sparta/report/format/JSON_detail.hpp
index 159e789..35bb329 100644
--- a/sparta/sparta/report/format/JSON_detail.hpp
+++ b/sparta/sparta/report/format/JSON_detail.hpp
@@ -134,7 +134,7 @@ protected:
             unique_info_data_set.clear();
 
             size_t loop_idx = 0;
-            out << std::string(4, ' ') << "\"" << it->first << "\": [\n";
+            out << std::string(4, ' ') << "\"" << escapeQuoted_(it->first) << "\": [\n";
             for (auto& lit : it->second) {
                 if (!unique_info_data_set.insert(lit).second) {
                     continue; // Skip duplicates
@@ -213,9 +213,9 @@ protected:
         }
 
         auto extract_stat = [&local_name](const statistics::stat_pair_t & si) {
-            std::string full_name = local_name + "." + si.first;
+            std::string full_name = escapeQuoted_(local_name + "." + si.first);
             std::string desc = si.second->getDesc(false);
-            boost::replace_all(desc, "\"", "\\\"");
+            desc = escapeQuoted_(desc);
             struct info_data tmp;
             tmp.name = full_name;
             tmp.desc = desc;
@@ -275,7 +275,8 @@ protected:
         const size_t num_metadata = metadata.size();
         size_t num_written_metadata = 0;
         for (const auto & md : metadata) {
-            out << std::string(indent, ' ') << "\"" << md.first << "\": \"" << md.second << "\"";
+            out << std::string(indent, ' ') << "\"" << escapeQuoted_(md.first) << "\": \""
+                << escapeQuoted_(md.second) << "\"";
             ++num_written_metadata;
             if (num_written_metadata <= num_metadata - 1) {
                 out << ",\n";
diff --git a/sparta/sparta/report/format/PythonDict.hpp b/sparta/sparta/report/format/PythonDict.hpp
index 9846996..50f293a 100644
--- a/sparta/sparta/report/format/PythonDict.hpp
+++ b/sparta/sparta/report/format/PythonDict.hpp
@@ -106,7 +106,7 @@ protected:
         if(pos != std::string::npos) {
             leaf_name = r->getName().substr(pos+1);
         }
-        out << "\"" << leaf_name << "\"" << ": {" ;
+        out << "\"" << escapeQuoted_(leaf_name) << "\"" << ": {" ;
 
         int elements_=0;
         for (const statistics::stat_pair_t& si : r->getStatistics()) {
@@ -114,7 +114,7 @@ protected:
                 if(elements_ > 0){
                     out << ", ";
                 }
-                out << "\"" << si.first << "\": " ;
+                out << "\"" << escapeQuoted_(si.first) << "\": " ;
                 double val = si.second->getValue();
                 if(std::isnan(val)){
                     out << "float('nan')";
diff --git a/sparta/src/JavascriptObject.cpp b/sparta/src/JavascriptObject.cpp
index 3c15ed3..fdd11cc 100644
--- a/sparta/src/JavascriptObject.cpp
+++ b/sparta/src/JavascriptObject.cpp
@@ -34,7 +34,7 @@ void sparta::report::format::JavascriptObject::writeContentToStream_(std::ostrea
 
     out << "    \"ordered_keys\": [\n";
     for (uint32_t idx = 0; idx < all_key_names.size(); idx++) {
-        out << "      \"" << all_key_names[idx] << "\"";
+        out << "      \"" << escapeQuoted_(all_key_names[idx]) << "\"";
         if (idx != (all_key_names.size() - 1)) {
             out << ", ";
         }
@@ -67,7 +67,8 @@ void sparta::report::format::JavascriptObject::writeContentToStream_(std::ostrea
         const size_t num_metadata = metadata_kv_pairs_.size();
         size_t num_written_metadata = 0;
         for (const auto & md : metadata_kv_pairs_) {
-            out << std::string(4, ' ') << "\"" << md.first << "\": \"" << md.second << "\"";
+            out << std::string(4, ' ') << "\"" << escapeQuoted_(md.first) << "\": \""
+                << escapeQuoted_(md.second) << "\"";
             ++num_written_metadata;
             if (num_written_metadata <= num_metadata - 1) {
                 out << ",\n";
@@ -131,7 +132,7 @@ void sparta::report::format::JavascriptObject::writeReport_(std::ostream& out, c
     // If we need to start a new report
     if (merge_subreports || report.getNumStatistics() > 0) {
         std::string unit_name = getReportName_(report);
-        out << "    \"" << unit_name << "\": {\n";
+        out << "    \"" << escapeQuoted_(unit_name) << "\": {\n";
         all_unit_names.push_back(unit_name);
 
         std::vector<std::string> all_stat_names;
@@ -143,7 +144,7 @@ void sparta::report::format::JavascriptObject::writeReport_(std::ostream& out, c
 
         out << "      \"ordered_keys\": [\n";
         for (uint32_t idx = 0; idx < all_stat_names.size(); idx++) {
-            out << "        \"" << all_stat_names[idx] << "\"";
+            out << "        \"" << escapeQuoted_(all_stat_names[idx]) << "\"";
             if (idx != (all_stat_names.size() - 1)) {
                 out << ", ";
             }
@@ -220,7 +221,7 @@ void sparta::report::format::JavascriptObject::writeStats_(std::ostream& out, co
         }
 
         all_stat_names.push_back(sname);
-        out << "      \"" << sname << "\": { ";
+        out << "      \"" << escapeQuoted_(sname) << "\": { ";
         double val = si.second->getValue();
         out << "\"val\" : ";
         if (std::isnan(val)){
@@ -234,7 +235,7 @@ void sparta::report::format::JavascriptObject::writeStats_(std::ostream& out, co
         // Escape all " characters
 
         std::string desc = si.second->getDesc(false);
-        boost::replace_all(desc, "\"", "\\\"");
+        desc = escapeQuoted_(desc);
 
         out << ", \"vis\" : " << si.second->getVisibility();
         out << ", \"desc\" : \"" << desc << "\"},";
-- 
2.43.0


From a66a4b5f7ff3e6fe402ebaaa2cdf07e54d21f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:03 +0000
Subject: [PATCH 106/170] fix: HTML reports escape names, descriptions and
 expressions

---
 sparta/sparta/report/format/BasicHTML.hpp | 37 +++++++++++++++--------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/report/format/BasicHTML.hpp b/sparta/sparta/report/format/BasicHTML.hpp
index 89c2084..f01e63a 100644
--- a/sparta/sparta/report/format/BasicHTML.hpp
+++ b/sparta/sparta/report/format/BasicHTML.hpp
@@ -9,6 +9,7 @@
 
 #include <iostream>
 #include <sstream>
+#include <cstring>
 #include <math.h>
 
 #include "sparta/report/format/BaseOstreamFormatter.hpp"
@@ -143,7 +144,7 @@ protected:
      */
     virtual void writeContentToStream_(std::ostream& out) const override  {
         out << "<html>"
-            "<head><title>" << report_->getName() << "</title>"
+            "<head><title>" << escapeHTML_(report_->getName()) << "</title>"
             "<style type='text/css'>\n"
             "table {\n"
             "  font-family:courier new, monospace;\n"
@@ -282,7 +283,11 @@ protected:
         out << ">";
 
         std::stringstream tmp;
-        tmp << r->getName() << "_" << cur_id_++ << std::dec;
+        // The identifier appears within quoted JavaScript strings
+        for (const char c : r->getName()) {
+            tmp << (std::strchr("'\"\\<>&\n\r", c) != nullptr ? '_' : c);
+        }
+        tmp << "_" << cur_id_++ << std::dec;
         const std::string content_id = tmp.str();
 
         out << "<thead><tr>";
@@ -296,11 +301,11 @@ protected:
                    "onclick=\"showNode('" << content_id << "');\" id=\"" << content_id << "_show\" "
                    "value=\"+\" "
                    "style='display:none;'>"
-                << "&nbsp;" << r->getName()
+                << "&nbsp;" << escapeHTML_(r->getName())
                 << "</th>";
         }else{
             out << "<th colspan=" << entire_column_span << " class='tablesection'>"
-                << r->getName()
+                << escapeHTML_(r->getName())
                 << "</th>";
         }
 
@@ -350,21 +355,17 @@ protected:
                     // Compute expression with < and > characters escaped for HTML
                     // Be sure to omit range and fully resolve all sub-expressions
                     std::string expr = si.second->getExpressionString(false, true);
-                    replaceSubstring(expr, "<", "&lt;");
-                    replaceSubstring(expr, ">", "&gt;");
 
-                    std::string tool_tip_text = si.second->getDesc(false) + "\n" + expr;
+                    std::string tool_tip_text =
+                        escapeHTML_(si.second->getDesc(false) + "\n" + expr);
                     out << "\n<td class='name' ";
                     out << "title='" << tool_tip_text << "'";
                     out << ">";
 
                     if(si.first != ""){
-                        out << si.first;
+                        out << escapeHTML_(si.first);
                     }else{
-                        std::string loc = si.second->getLocation();
-                        replaceSubstring(loc, "<", "&lt;");
-                        replaceSubstring(loc, ">", "&gt;");
-                        out << loc;
+                        out << escapeHTML_(si.second->getLocation());
                     }
 
                     size_t leading_space = 0;
@@ -404,7 +405,7 @@ protected:
 
                     if (show_descriptions) {
                         out << "<td class='expression'>"
-                            << si.second->getDesc(false); // do not show stat expressions
+                            << escapeHTML_(si.second->getDesc(false)); // do not show stat expressions
                         out << "</td>\n";
                     }
                 }
@@ -427,6 +428,16 @@ protected:
 
 private:
 
+    //! Escape text for use in element content and in quoted attributes
+    static std::string escapeHTML_(std::string text) {
+        replaceSubstring(text, "&", "&amp;");
+        replaceSubstring(text, "<", "&lt;");
+        replaceSubstring(text, ">", "&gt;");
+        replaceSubstring(text, "'", "&#39;");
+        replaceSubstring(text, "\"", "&quot;");
+        return text;
+    }
+
     /*!
      * \brief An increasing ID appended to each html anchor created to guarantee
      * unique anchor IDs as well as consistency for testing.
-- 
2.43.0


From 751f8f1a307343931007c5918dd8d84b6758cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:10 +0000
Subject: [PATCH 107/170] fix: report definitions keep track of content,
 ignored blocks and ended subreports

---
 sparta/src/Report.cpp | 55 ++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/sparta/src/Report.cpp b/sparta/src/Report.cpp
index 252ce41..3730625 100644
--- a/sparta/src/Report.cpp
+++ b/sparta/src/Report.cpp
@@ -123,6 +123,7 @@ class ReportFileParserYAML
 
         // Did we find an 'ignore' block?
         bool in_ignore_ = false;
+        uint32_t ignored_maps_ = 0; //!< Depth of maps within the outermost ignored block
 
         // Did we find an 'optional' block?
         bool in_optional_ = false;
@@ -627,7 +628,11 @@ class ReportFileParserYAML
                                     "intended instead");
             }
 
-            if(key == KEY_REPORT_IGNORE) {
+            if(in_ignore_ || key == KEY_REPORT_IGNORE) {
+                in_content_stack_.push(in_content); // Maintain in_content state
+                if(in_ignore_) {
+                    ++ignored_maps_;
+                }
                 in_ignore_ = true;
                 return false;
             }
@@ -637,6 +642,7 @@ class ReportFileParserYAML
                 std::stringstream ss;
                 ss << "Unexpected optional keyword location -- should be in content";
                 addError_(ss.str());
+                in_content_stack_.push(in_content);
                 return true;
             }
 
@@ -645,6 +651,7 @@ class ReportFileParserYAML
                 ss << "Unexpected map start within autopopulation block at key: \"" << key
                    << "\"";
                 addError_(ss.str());
+                in_content_stack_.push(in_content);
                 return true;
             }
 
@@ -653,17 +660,17 @@ class ReportFileParserYAML
                 ss << "Unexpected map start within style block at key: \"" << key
                    << "\"";
                 addError_(ss.str());
+                in_content_stack_.push(in_content);
                 return true;
             }
 
             // Determine what to do given the current state. Do not return
-            // without either posting an error or pushing to the
-            // in_content_stack_
+            // without pushing once to the in_content_stack_, because
+            // handleExitMap_ pops from it once
 
             if(in_content){
-                in_content_stack_.push(true); // Still in content
-
-                if(in_ignore_) { return false; }
+                // Still in content except immediately within a subreport
+                in_content_stack_.push(key != KEY_SUBREPORT);
 
                 if(key == KEY_REPORT_OPTIONAL) {
                     in_optional_ = true;
@@ -710,7 +717,6 @@ class ReportFileParserYAML
                     //report_stack_.push(subrep); // Track this for sanity checking
                     report_stack_.push({}); // Track this for sanity checking
 
-                    in_content_stack_.push(false);
                     return false;
                 }else if(key == KEY_AUTOPOPULATE){
                     // Make size of the autopop args block nonzero to
@@ -754,6 +760,7 @@ class ReportFileParserYAML
                     return false;
                 }else{
                     if (!tryHandleArchContent_(key)) {
+                        in_content_stack_.push(true);
                         return false;
                     }
 
@@ -766,10 +773,6 @@ class ReportFileParserYAML
                     return true; // Handle normally
                 }
             }
-
-            in_content_stack_.push(in_content); // Maintain in_content state
-
-            return true;
         }
 
         bool handleExitMap_(const std::string& key,
@@ -782,11 +785,20 @@ class ReportFileParserYAML
                       << in_content << " and current_autopop_block_.size() = "
                       << current_autopop_block_.size() << std::endl;
 
-            if(key == KEY_REPORT_IGNORE) {
-                in_ignore_ = false;
+            if(in_ignore_) {
+                if(ignored_maps_ == 0) {
+                    in_ignore_ = false; // End of the outermost ignored block
+                } else {
+                    --ignored_maps_;
+                }
                 return true;
             }
 
+            if(key.find("-arch-content") != std::string::npos) {
+                skip_content_leaves_ = false;
+                return false;
+            }
+
             if(key == KEY_REPORT_OPTIONAL) {
                 in_optional_ = false;
                 return true;
@@ -797,7 +809,6 @@ class ReportFileParserYAML
                                   "Exited map while being inside a style block. Autopopulation "
                                   "blocks should have 1 level of key-value pairs only");
 
-                in_content_stack_.push(true); // Still in content
                 if(key == KEY_SUBREPORT){
                     // Close off reports in current context
                     verbose() << indent_() << "Exiting construction of subreports for context: "
@@ -808,6 +819,15 @@ class ReportFileParserYAML
                         // entries from the map to guarantee they won't be executed later
                         Report* const r = report_map_.at(cx->uid); // Get the report for this context
                         report_map_.erase(cx->uid);
+
+                        // Content which follows belongs to the enclosing report
+                        for(auto itr = next_uid_map_.begin(); itr != next_uid_map_.end(); ){
+                            if(itr->second == cx->uid){
+                                itr = next_uid_map_.erase(itr);
+                            }else{
+                                ++itr;
+                            }
+                        }
                         verbose() << indent_() << "  (Ended subreport \"" << r->getName() << "\")"
                                   << std::endl;
                     }
@@ -903,12 +923,6 @@ class ReportFileParserYAML
                         }
                     }
                     trigger_defn_.reset();
-                }else{
-                    const auto idx = key.find("-arch-content");
-                    if (idx != std::string::npos) {
-                        skip_content_leaves_ = false;
-                        return false;
-                    }
                 }
             }
 
@@ -956,7 +970,6 @@ class ReportFileParserYAML
                                   << "not match the --arch given at the command line.";
                     }
 
-                    in_content_stack_.push(true);
                     return false;
                 } else {
                     throw SpartaException("Could not get the app::SimulationConfiguration to parse key: ") << key;
-- 
2.43.0


From dc89b73f2a208a0362444455153cc74e5b805535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:38 +0000
Subject: [PATCH 108/170] fix: destroyed triggers leave no event behind in the
 scheduler

---
 sparta/sparta/trigger/SingleTrigger.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index efce56b..aa7f91b 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -39,6 +39,7 @@ public:
             scheduler_ = clk->getScheduler();
         }
         sparta_assert(scheduler_ != nullptr);
+        scheduler_wref_ = scheduler_->getWeakPtr();
 
         if(scheduler_->isFinalized()) {
             // Take on the GRP# of the GOP
@@ -60,7 +61,19 @@ public:
      */
     TriggerEvent(TriggerEvent &&) =delete;
 
+    /**
+     * \brief Destructor. The scheduler must not call a destroyed trigger
+     */
+    ~TriggerEvent() {
+        if(!scheduler_wref_.expired()) {
+            cancel();
+        }
+    }
+
 private:
+    //! Observes the scheduler, which this event may outlive
+    TreeNode::WeakPtr scheduler_wref_;
+
     std::string name_;
 };
 
-- 
2.43.0


From 78c5004a3d90a7746ae9743f893d0fc0c61ad47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:40 +0000
Subject: [PATCH 109/170] fix: triggers deactivated or destroyed by another in
 the tick are not checked

---
 sparta/sparta/trigger/TriggerManager.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/TriggerManager.hpp b/sparta/sparta/trigger/TriggerManager.hpp
index 95fda50..1edb0cc 100644
--- a/sparta/sparta/trigger/TriggerManager.hpp
+++ b/sparta/sparta/trigger/TriggerManager.hpp
@@ -313,6 +313,12 @@ private:
                               "ClockHandler removeTriggerDefferred_ called but ClockHandler was not "
                               "currently within a tick");
 
+            // No longer wanted if added earlier in this tick
+            auto added_itr = std::find(to_add_.begin(), to_add_.end(), trig);
+            if(added_itr != to_add_.end()){
+                to_add_.erase(added_itr);
+            }
+
             to_remove_.push_back(trig);
         }
 
@@ -362,7 +368,10 @@ private:
             TickLock tl(*this);
 
             for(auto trig : triggers_){
-                trig->check();
+                // A trigger checked earlier may have deactivated or destroyed this one
+                if(std::find(to_remove_.begin(), to_remove_.end(), trig) == to_remove_.end()){
+                    trig->check();
+                }
             }
 
             // Schedule for next cycle on this event's clock
-- 
2.43.0


From 196a4aee479199a2322e399efaf6549ea550dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:40 +0000
Subject: [PATCH 110/170] fix: a trigger is checked even if a destroyed clock
 had its address

---
 sparta/sparta/trigger/TriggerManager.hpp | 27 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/trigger/TriggerManager.hpp b/sparta/sparta/trigger/TriggerManager.hpp
index 1edb0cc..3d2febc 100644
--- a/sparta/sparta/trigger/TriggerManager.hpp
+++ b/sparta/sparta/trigger/TriggerManager.hpp
@@ -111,8 +111,9 @@ public:
 
         ClockHandler* handler = nullptr;
         auto handler_itr = clocks_.find(trig->getClock());
-        if(handler_itr == clocks_.end()){
-            // Does not have a handler for this clock
+        if(handler_itr == clocks_.end() || handler_itr->second->isIdle()){
+            // Does not have a handler for this clock. An idle one may be left
+            // over from an earlier clock, since destroyed, at this address
             clocks_[trig->getClock()].reset(handler = new ClockHandler(trig->getClock()));
         }else{
             handler = handler_itr->second.get();
@@ -206,6 +207,13 @@ private:
             return triggers_.size();
         }
 
+        /*!
+         * \brief Has this handler nothing to check, now or in later cycles
+         */
+        bool isIdle() const {
+            return triggers_.empty() && !in_tick_;
+        }
+
         /*!
          * \brief Add a trigger to this handler
          * \param trig Trigger to add. This must not already be in this handler. Must not be nullptr
@@ -363,6 +371,18 @@ private:
          * \brief Tick event from scheduler. Indicates a clock edge
          */
         void clockTick_() {
+            checkTriggers_();
+
+            // Schedule for next cycle on this event's clock
+            if(!triggers_.empty()){
+                event_.schedule(1, clock_);
+            }
+        }
+
+        /*!
+         * \brief Check every trigger
+         */
+        void checkTriggers_() {
             // Toggle in_tick_ and handle deferred removals & additions at end
             // of this function
             TickLock tl(*this);
@@ -373,9 +393,6 @@ private:
                     trig->check();
                 }
             }
-
-            // Schedule for next cycle on this event's clock
-            event_.schedule(1, clock_);
         }
 
 
-- 
2.43.0


From 6561822563ab37dd1e1e2c573ae52ca8b419c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:40 +0000
Subject: [PATCH 111/170] fix: triggers deactivated or destroyed before the
 simulation starts do not start with it

---
 sparta/sparta/events/StartupEvent.hpp    | 10 ++++++
 sparta/sparta/kernel/Scheduler.hpp       | 13 ++++++++
 sparta/sparta/trigger/ManagedTrigger.hpp | 18 +++++-----
 sparta/sparta/trigger/SingleTrigger.hpp  | 42 ++++++++++++++++++++++++
 sparta/src/Scheduler.cpp                 |  6 ++--
 sparta/src/Trigger.cpp                   |  9 ++++-
 6 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/sparta/sparta/events/StartupEvent.hpp b/sparta/sparta/events/StartupEvent.hpp
index a0a43ed..5872b57 100644
--- a/sparta/sparta/events/StartupEvent.hpp
+++ b/sparta/sparta/events/StartupEvent.hpp
@@ -92,6 +92,16 @@ namespace sparta
         friend class trigger::CounterTrigger;
         friend class trigger::ManagedTrigger;
 
+        /*!
+         * \brief Private method used by the trigger infrastructure to undo
+         * the startup events of an object
+         */
+        template<class ObjT>
+        static void cancel_(Scheduler * scheduler, ObjT * obj)
+        {
+            scheduler->cancelStartupHandlers_(obj);
+        }
+
         StartupEvent(Scheduler * scheduler,
                      const SpartaHandler & consumer_startupevent_handler)
         {
diff --git a/sparta/sparta/kernel/Scheduler.hpp b/sparta/sparta/kernel/Scheduler.hpp
index ddf0ee8..e27c36f 100644
--- a/sparta/sparta/kernel/Scheduler.hpp
+++ b/sparta/sparta/kernel/Scheduler.hpp
@@ -915,6 +915,19 @@ private:
         startup_events_.emplace_back(event_del);
     }
 
+    /**
+     * \brief Never call the startup handlers of the given object
+     * \param obj The object, which no longer needs them or is being destroyed
+     */
+    template<class ObjT>
+    void cancelStartupHandlers_(ObjT * obj) {
+        for(auto & event_del : startup_events_) {
+            if(event_del == obj) {
+                event_del.setObjectPtr(static_cast<ObjT*>(nullptr));
+            }
+        }
+    }
+
     //! Remove the stop event queued for the given tick if it has not fired
     void removeStopEvent_(Tick stop_tick);
 
diff --git a/sparta/sparta/trigger/ManagedTrigger.hpp b/sparta/sparta/trigger/ManagedTrigger.hpp
index 25d8924..8e3f858 100644
--- a/sparta/sparta/trigger/ManagedTrigger.hpp
+++ b/sparta/sparta/trigger/ManagedTrigger.hpp
@@ -28,26 +28,25 @@ public:
     ManagedTrigger(const ManagedTrigger & rhp) :
         name_(rhp.name_),
         clk_(rhp.clk_),
-        active_(rhp.active_),
-        register_handler_(rhp.register_handler_)
+        register_handler_(
+            CREATE_SPARTA_HANDLER(ManagedTrigger,
+                                registerSelf_))
     {
-        if (active_) {
+        if (rhp.isActive_()) {
             registerSelf_();
         }
     }
 
     ManagedTrigger & operator=(const ManagedTrigger & rhp) {
         // End current observation
-        active_ = false;
-        deregisterSelf_();
+        const bool rhp_active = rhp.isActive_();
+        deactivate_();
 
         name_ = rhp.name_;
         clk_ = rhp.clk_;
-        active_ = rhp.active_;
-        register_handler_ = rhp.register_handler_;
 
         // Reregister if active
-        if (active_) {
+        if (rhp_active) {
             registerSelf_();
         }
 
@@ -55,7 +54,7 @@ public:
     }
 
     virtual ~ManagedTrigger() {
-        deregisterSelf_();
+        deactivate_();
     }
 
     const Clock * getClock() const {
@@ -109,6 +108,7 @@ private:
     const Clock * clk_ = nullptr;
     bool active_ = false;
     SpartaHandler register_handler_;
+    TreeNode::WeakPtr startup_scheduler_; //!< Registers this trigger once it starts, if any
     friend class ExpressionTrigger;
 };
 
diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index aa7f91b..fc7f5e2 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -482,6 +482,12 @@ public:
      */
     CycleTrigger& operator= (const CycleTrigger& rhp) = delete;
 
+    //! Destructor
+    ~CycleTrigger()
+    {
+        cancelStartup_();
+    }
+
     //! \name Activation Control
     //! @{
     ////////////////////////////////////////////////////////////////////////
@@ -494,6 +500,7 @@ public:
      */
     void deactivate() override
     {
+        cancelStartup_();
         trigger_set_ = false;
     }
 
@@ -609,6 +616,18 @@ public:
 
 private:
 
+    //! Do not set this trigger when the scheduler starts
+    void cancelStartup_()
+    {
+        if(!startup_scheduler_.expired()) {
+            StartupEvent::cancel_(static_cast<Scheduler*>(startup_scheduler_.lock().get()), this);
+            startup_scheduler_.reset();
+        }
+    }
+
+    //! Scheduler that is to set this trigger once it starts, if any
+    TreeNode::WeakPtr startup_scheduler_;
+
     /**
      * \brief make sure this trigger is in a state that is
      * legal to modify options or set state.
@@ -651,6 +670,7 @@ private:
             //schedule an event post dag that will do the scheduling.
             StartupEvent(scheduler,
                          CREATE_SPARTA_HANDLER(CycleTrigger, postDAGFinalized_));
+            startup_scheduler_ = scheduler->getWeakPtr();
         }
 
     }
@@ -660,6 +680,7 @@ private:
      */
     void postDAGFinalized_()
     {
+        startup_scheduler_.reset();
         set_();
     }
 
@@ -735,6 +756,12 @@ public:
      */
     TimeTrigger& operator= (const TimeTrigger& rhp) = delete;
 
+    //! Destructor
+    ~TimeTrigger()
+    {
+        cancelStartup_();
+    }
+
 
     //! \name Activation Control
     //! @{
@@ -748,6 +775,7 @@ public:
      */
     void deactivate() override
     {
+        cancelStartup_();
         trigger_set_ = false;
     }
 
@@ -786,6 +814,18 @@ public:
 
 private:
 
+    //! Do not set this trigger when the scheduler starts
+    void cancelStartup_()
+    {
+        if(!startup_scheduler_.expired()) {
+            StartupEvent::cancel_(static_cast<Scheduler*>(startup_scheduler_.lock().get()), this);
+            startup_scheduler_.reset();
+        }
+    }
+
+    //! Scheduler that is to set this trigger once it starts, if any
+    TreeNode::WeakPtr startup_scheduler_;
+
     /**
      * \brief make sure this trigger is in a state that is
      * legal to modify options or set state.
@@ -834,6 +874,7 @@ private:
             //schedule an event post dag that will do the scheduling.
             StartupEvent(scheduler,
                          CREATE_SPARTA_HANDLER(TimeTrigger, postDAGFinalized_));
+            startup_scheduler_ = scheduler->getWeakPtr();
         }
     }
 
@@ -843,6 +884,7 @@ private:
      */
     void postDAGFinalized_()
     {
+        startup_scheduler_.reset();
         set_();
     }
 
diff --git a/sparta/src/Scheduler.cpp b/sparta/src/Scheduler.cpp
index 125e992..67c3029 100644
--- a/sparta/src/Scheduler.cpp
+++ b/sparta/src/Scheduler.cpp
@@ -463,8 +463,10 @@ void Scheduler::run(Tick num_ticks,
     {
         first_tick_ = false;
         // Fire off startup events
-        for(auto & event : startup_events_) {
-            event();
+        for(size_t idx = 0; idx < startup_events_.size(); ++idx) {
+            if(startup_events_[idx]) { // not cancelled
+                startup_events_[idx]();
+            }
         }
         startup_events_.clear();
     }
diff --git a/sparta/src/Trigger.cpp b/sparta/src/Trigger.cpp
index bb5f328..ac4d9dc 100644
--- a/sparta/src/Trigger.cpp
+++ b/sparta/src/Trigger.cpp
@@ -107,12 +107,14 @@ TimeTrigger::TimeTrigger(const std::string& name,
 void ManagedTrigger::registerSelf_()
 {
     auto scheduler = clk_->getScheduler();
+    startup_scheduler_.reset();
     if (scheduler->isFinalized()) {
         TriggerManager::getTriggerManager().addTrigger(this);
         active_ = true;
     } else {
         StartupEvent(scheduler,
                      register_handler_);
+        startup_scheduler_ = scheduler->getWeakPtr();
     }
 }
 
@@ -123,13 +125,18 @@ void ManagedTrigger::deregisterSelf_() const
 
 void ManagedTrigger::deactivate_()
 {
+    if (!startup_scheduler_.expired()) {
+        // Not registered yet
+        StartupEvent::cancel_(static_cast<Scheduler*>(startup_scheduler_.lock().get()), this);
+        startup_scheduler_.reset();
+    }
     deregisterSelf_();
     active_ = false;
 }
 
 bool ManagedTrigger::isActive_() const
 {
-    return active_;
+    return active_ || !startup_scheduler_.expired();
 }
 
     } // namespace trigger
-- 
2.43.0


From e56621a92a314623e642896e9a3089b6cecb5b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:17 +0000
Subject: [PATCH 112/170] fix: a deactivated trigger set again fires only when
 it is due again

---
 sparta/sparta/trigger/SingleTrigger.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index fc7f5e2..923efc0 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -501,6 +501,11 @@ public:
     void deactivate() override
     {
         cancelStartup_();
+        if(scheduled_) {
+            // The event must not fire this trigger once it is set again
+            event_.cancel();
+            scheduled_ = false;
+        }
         trigger_set_ = false;
     }
 
@@ -690,12 +695,12 @@ private:
      */
     void invoke_()
     {
+        scheduled_ = false; // the callback may set this trigger again
         if(trigger_set_)
         {
             trigger_set_ = false;
             invokeCallback_();
         }
-        scheduled_ = false;
 
     }
 
@@ -776,6 +781,11 @@ public:
     void deactivate() override
     {
         cancelStartup_();
+        if(scheduled_) {
+            // The event must not fire this trigger once it is set again
+            event_.cancel();
+            scheduled_ = false;
+        }
         trigger_set_ = false;
     }
 
@@ -894,12 +904,12 @@ private:
      */
     void invoke_()
     {
+        scheduled_ = false; // the callback may set this trigger again
         if(trigger_set_)
         {
             trigger_set_ = false;
             invokeCallback_();
         }
-        scheduled_ = false;
 
     }
 
-- 
2.43.0


From 5c464f7aaa62ab523a13ece39def7cfdd321706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:17 +0000
Subject: [PATCH 113/170] fix: a cycle trigger set for an absolute cycle fires
 then, even if it was set relative before

---
 sparta/sparta/trigger/SingleTrigger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index 923efc0..effe712 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -594,6 +594,7 @@ public:
     {
         check_safe();
         prepAbsolute(clk, on_time);
+        prepped_relative_ = false; // set so earlier, if at all
         set_();
     }
 
@@ -605,6 +606,7 @@ public:
     {
         check_safe();
         prepRelative(clk, delay);
+        prepped_absolute_ = false; // set so earlier, if at all
         set_();
     }
 
-- 
2.43.0


From e9cf569d067c5cd933a06fc76e73537f2f3c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 114/170] fix: destroyed triggers stop observing notifications

---
 sparta/sparta/trigger/Trigger.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/Trigger.hpp b/sparta/sparta/trigger/Trigger.hpp
index a86683d..7df72ee 100644
--- a/sparta/sparta/trigger/Trigger.hpp
+++ b/sparta/sparta/trigger/Trigger.hpp
@@ -48,7 +48,16 @@ public:
         triggers_[REPEAT].reset(new CycleTrigger(name, CREATE_SPARTA_HANDLER(Trigger, onRepeatTrigger_), clk));
     }
 
-    ~Trigger(){}
+    ~Trigger()
+    {
+        for(auto & notif : notifications_)
+        {
+            if(!notif.first.expired())
+            {
+                notif.first.lock()->DEREGISTER_FOR_NOTIFICATION(onNotificationPosted_, roi::Triggers, notif.second);
+            }
+        }
+    }
 
     /**
      * \brief set some alignment options used during periodic trigger rescheduling.
@@ -193,6 +202,7 @@ public:
     void setTriggerNotificationDriven(RootTreeNode * node, const std::string & notif_src_name)
     {
         node->REGISTER_FOR_NOTIFICATION(onNotificationPosted_, roi::Triggers, notif_src_name);
+        notifications_.emplace_back(node->getWeakPtr(), notif_src_name);
     }
 
     /**
@@ -381,6 +391,11 @@ private:
      */
     bool prepped_stop_ = false;
 
+    /*!
+     * \brief Notifications this trigger observes: the node and the name of the source
+     */
+    std::vector<std::pair<TreeNode::WeakPtr, std::string>> notifications_;
+
 };
 
 
-- 
2.43.0


From f4d0c46970de105d7fb18c9108e35d1da10504fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:14 +0000
Subject: [PATCH 115/170] fix: a trigger started in the cycle of its stop by a
 counter does not abort the simulation

---
 sparta/sparta/trigger/SingleTrigger.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index effe712..d336458 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -42,8 +42,7 @@ public:
         scheduler_wref_ = scheduler_->getWeakPtr();
 
         if(scheduler_->isFinalized()) {
-            // Take on the GRP# of the GOP
-            setGroupID_(scheduler_->getDAG()->getGOPoint("Trigger")->getGroupID());
+            joinTriggerGroup();
         }
 
         // Prevent trigger events from keeping the simulation alive
@@ -61,6 +60,14 @@ public:
      */
     TriggerEvent(TriggerEvent &&) =delete;
 
+    /**
+     * \brief Take on the GRP# of the GOP, so that triggers can schedule each
+     * other in the same tick. The DAG must be finalized.
+     */
+    void joinTriggerGroup() {
+        setGroupID_(scheduler_->getDAG()->getGOPoint("Trigger")->getGroupID());
+    }
+
     /**
      * \brief Destructor. The scheduler must not call a destroyed trigger
      */
@@ -655,6 +662,7 @@ private:
         auto scheduler = getScheduler();
         if(scheduler->isFinalized())
         {
+            event_.joinTriggerGroup(); // if created earlier
             if(prepped_relative_){
 
                 Clock::Cycle rel_time = relative_delay_;
@@ -861,6 +869,7 @@ private:
         auto scheduler = getScheduler();
         if(scheduler->isFinalized())
         {
+            event_.joinTriggerGroup(); // if created earlier
             // Schedule relative. Convert from PS to ticks
             uint64_t f = scheduler->getFrequency();
             uint64_t ps;
-- 
2.43.0


From 60b0ecf1194cbc41b3d3b1c48b8e1810dc16cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:14 +0000
Subject: [PATCH 116/170] fix: triggers set for a cycle that has passed are not
 scheduled in the past

---
 sparta/sparta/trigger/SingleTrigger.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/sparta/trigger/SingleTrigger.hpp b/sparta/sparta/trigger/SingleTrigger.hpp
index d336458..f77c0d2 100644
--- a/sparta/sparta/trigger/SingleTrigger.hpp
+++ b/sparta/sparta/trigger/SingleTrigger.hpp
@@ -672,6 +672,9 @@ private:
                 event_.schedule(rel_time, clk_);
             }
             else if(prepped_absolute_){
+                if(schedule_for_cycle_ < clk_->currentCycle()){
+                    return; // Too late, this trigger is not to fire
+                }
                 event_.schedule(schedule_for_cycle_ - clk_->currentCycle(), clk_);
             }
             else{
-- 
2.43.0


From f12cadea51a66364a8d04b79a08c6fcc5212a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 117/170] fix: observers at the virtual global node are
 deregistered from its own notification sources

---
 sparta/sparta/simulation/VirtualGlobalTreeNode.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
index c4f678a..177ba89 100644
--- a/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
+++ b/sparta/sparta/simulation/VirtualGlobalTreeNode.hpp
@@ -203,6 +203,13 @@ namespace sparta
                                            return children.count(node.get()) != 0;
                                        }),
                         roots.end());
+            // Nodes added to this one, such as the global message sources
+            for(auto* child : getChildren()){
+                auto node = child->getWeakPtr().lock();
+                if(node != nullptr){
+                    roots.push_back(std::move(node));
+                }
+            }
             return roots;
         }
 
-- 
2.43.0


From 308137ae163070cbb10165556a74895551ced9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 118/170] fix: notification sources below the virtual global
 node have its observers once

---
 sparta/sparta/log/NotificationSource.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/log/NotificationSource.hpp b/sparta/sparta/log/NotificationSource.hpp
index 98d7a47..0da945a 100644
--- a/sparta/sparta/log/NotificationSource.hpp
+++ b/sparta/sparta/log/NotificationSource.hpp
@@ -613,8 +613,9 @@ namespace sparta
             dels_.clear();
             observed_ = false;
 
+            // The virtual global node may also be the parent of this source
             TreeNode* node = this;
-            while(node){
+            while(node && node != getVirtualGlobalNode()){
                 node->getDelegatesRegisteredForNotification(noti_tinfo_, noti_id_, dels_);
                 if(node->hasObserversRegisteredForNotification(noti_tinfo_, noti_id_)){
                     obs_nodes_.push_back(node);
-- 
2.43.0


From c502895250b544ef09d6555bc5678c67b54198a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:51 +0000
Subject: [PATCH 119/170] fix: compound trigger expressions fire when the whole
 expression is true

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 31 ++++++---------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index ac26cdc..72ca1ba 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -525,6 +525,9 @@ private:
         (void) internals;
     }
 
+    //! Callback of the triggers for the terms in parentheses of a compound expression
+    void ignoreTermFired_() {}
+
     void buildMultiExpressionTrigger_(const std::string & name,
                                       const std::string & expression,
                                       TreeNode * context)
@@ -604,7 +607,8 @@ private:
 
         while (!placeholders.empty()) {
             std::unique_ptr<ExpressionTrigger> trigger(new ExpressionTrigger(
-                name, cb, placeholders.front().first, context, report_container_));
+                name, CREATE_SPARTA_HANDLER(ExpressionTrigger, ignoreTermFired_),
+                placeholders.front().first, context, report_container_));
 
             trigger->disableMessages();
             trigger->setReferenceEvent(placeholders.front().second, "internal");
@@ -626,28 +630,9 @@ private:
         trigger->disableMessages();
         internal_expression_triggers_.emplace_back(trigger.release());
 
-        //Now that the expression has been replaced piece by piece with these
-        //intermediate UUID tags, determine how many other triggers this last
-        //ExpressionTrigger is waiting on
-        auto and_operands = ExpressionTrigger::separateByDelimiter_(replaced_expression, "&&");
-        auto or_operands  = ExpressionTrigger::separateByDelimiter_(replaced_expression, "||");
-
-        //If the replaced expression still has && and || in it, the above code
-        //would have thrown an exception already:
-        //  if (placeholders.empty()) { ... }
-        //
-        //And note that the expression 'A && B' when split by delimiter '||' would
-        //return or_operands.size() == 1. In other words, it returns the string
-        //'replaced_expression' right back to you in a vector of size 1, not an
-        //empty vector. Same goes for and_operands.size() == 1 if 'A || B' was
-        //split by delimiter '&&'.
-        sparta_assert(and_operands.size() <= 1 || or_operands.size() <= 1);
-
-        if (and_operands.size() > 1) {
-            waiting_on_ = and_operands.size();
-        } else {
-            waiting_on_ = 1;
-        }
+        //This trigger fires when the one for the whole expression does; the ones
+        //for the terms in parentheses only notify the expressions they are used in
+        waiting_on_ = 1;
 
         supports_single_ct_trig_cb_ = false;
         expression_can_be_negated_ = false;
-- 
2.43.0


From 4f3928a1d36b1119322b8db2485fb2ea8e1ef476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:51 +0000
Subject: [PATCH 120/170] fix: toggle triggers count each term of their
 expression once

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index 72ca1ba..90b5e83 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -1302,6 +1302,7 @@ private:
         void awaken()
         {
             suspended_ = false;
+            notified_ = false;
         }
 
     private:
@@ -1318,7 +1319,8 @@ private:
             }
 
             //Otherwise, let the comparator let us know if it is time to trigger
-            else if(predicate_->eval(payload)) {
+            else if(!notified_ && predicate_->eval(payload)) {
+                notified_ = true;
                 for (auto & expression_trig : dependent_triggers_) {
                     expression_trig->notify();
                 }
@@ -1334,6 +1336,7 @@ private:
         DependentTriggers dependent_triggers_;
         bool clear_dependent_triggers_on_fire_ = true;
         bool suspended_ = false;
+        bool notified_ = false; // since it was awakened
         TreeNode * context_ = nullptr;
         std::string channel_;
         bool registered_ = false;
-- 
2.43.0


From f57aa532c3d7fa215044af53f3bb5a452072a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:22 +0000
Subject: [PATCH 121/170] fix: non-temporal lines replace the older of the two
 ways they share

---
 sparta/cache/SimpleCache2.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sparta/cache/SimpleCache2.hpp b/sparta/cache/SimpleCache2.hpp
index 2a6154f..def051a 100644
--- a/sparta/cache/SimpleCache2.hpp
+++ b/sparta/cache/SimpleCache2.hpp
@@ -140,11 +140,12 @@ namespace sparta
                         return way1_line;
                     }
                     else {
+                        // The one not filled last is older
                         if ( cache_set.getPreviousNTWay() == 0 ) {
-                            return way0_line;
+                            return way1_line;
                         }
                         else {
-                            return way1_line;
+                            return way0_line;
                         }
                     }
                 }
-- 
2.43.0


From 9fdc22309730bdbe914aa8878c014450dea5af7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 122/170] fix: resetting true-LRU replacement restores the
 initial order

---
 sparta/cache/LRUReplacement.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sparta/cache/LRUReplacement.hpp b/sparta/cache/LRUReplacement.hpp
index 61e3a15..e55e1c9 100644
--- a/sparta/cache/LRUReplacement.hpp
+++ b/sparta/cache/LRUReplacement.hpp
@@ -31,7 +31,11 @@ namespace sparta::cache
 
         void reset() override
         {
-            // TODO: implement
+            // As constructed: way 0 is the least recently used one
+            for (uint32_t way = 0; way < num_ways_; ++way)
+            {
+                LRUReplacement::touchMRU(way);
+            }
         }
 
         ReplacementIF* clone() const override
-- 
2.43.0


From 03a5844a9fe6c6375ebbbafff50f4bb6111287f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 123/170] fix: copies of a cache set keep its replacement order

---
 sparta/cache/BasicCacheSet.hpp       | 1 +
 sparta/cache/LRUReplacement.hpp      | 7 ++++++-
 sparta/cache/TreePLRUReplacement.hpp | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sparta/cache/BasicCacheSet.hpp b/sparta/cache/BasicCacheSet.hpp
index ca819bf..31a3853 100644
--- a/sparta/cache/BasicCacheSet.hpp
+++ b/sparta/cache/BasicCacheSet.hpp
@@ -55,6 +55,7 @@ namespace sparta
                 if ( this != &rhs ) {
                     set_idx_  = rhs.set_idx_;
                     num_ways_ = rhs.num_ways_;
+                    delete replacement_policy_;
                     replacement_policy_ = rhs.replacement_policy_->clone();
                     ways_ = rhs.ways_;
                 }
diff --git a/sparta/cache/LRUReplacement.hpp b/sparta/cache/LRUReplacement.hpp
index e55e1c9..301505e 100644
--- a/sparta/cache/LRUReplacement.hpp
+++ b/sparta/cache/LRUReplacement.hpp
@@ -40,7 +40,12 @@ namespace sparta::cache
 
         ReplacementIF* clone() const override
         {
-            return new LRUReplacement(num_ways_);
+            auto copy = new LRUReplacement(num_ways_);
+            for (const auto way : lru_stack_)
+            {
+                copy->touchMRU(way);
+            }
+            return copy;
         }
 
         void touchLRU(uint32_t way) override
diff --git a/sparta/cache/TreePLRUReplacement.hpp b/sparta/cache/TreePLRUReplacement.hpp
index f30d9e3..4beb2a9 100644
--- a/sparta/cache/TreePLRUReplacement.hpp
+++ b/sparta/cache/TreePLRUReplacement.hpp
@@ -137,7 +137,7 @@ namespace sparta
                 sparta_assert(0);
             }
 
-            ReplacementIF *clone() const { return new TreePLRUReplacement(num_ways_); }
+            ReplacementIF *clone() const { return new TreePLRUReplacement(*this); }
 
             std::string getDisplayString() const
             {
-- 
2.43.0


From 8094e37d5b77c0114a47204c8cf421e4462e8298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 124/170] fix: cache lines are read and written at unaligned
 offsets without undefined behaviour

---
 sparta/cache/LineData.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sparta/cache/LineData.hpp b/sparta/cache/LineData.hpp
index 808af91..5a46b83 100644
--- a/sparta/cache/LineData.hpp
+++ b/sparta/cache/LineData.hpp
@@ -98,7 +98,8 @@ namespace sparta
 
                 const uint8_t* d = data_ + loc;
 
-                T val = *reinterpret_cast<const T*>(d);
+                T val; // the offset need not be aligned
+                memcpy(&val, d, sizeof(T));
                 return reorder<T,BO>(val);
             }
 
@@ -110,8 +111,8 @@ namespace sparta
 
                 uint8_t* d = data_ + loc;
 
-                T& val = *reinterpret_cast<T*>(d);
-                val = reorder<T,BO>(t);
+                const T val = reorder<T,BO>(t);
+                memcpy(d, &val, sizeof(T));
             }
 
             bool read(uint64_t offset,
-- 
2.43.0


From 7147709b2a6025ddc487b363b84ba8ec5e335900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 125/170] fix: state residency is tracked over joint
 transitions and resets

---
 sparta/sparta/simulation/State.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sparta/sparta/simulation/State.hpp b/sparta/sparta/simulation/State.hpp
index be1cc0c..4181767 100644
--- a/sparta/sparta/simulation/State.hpp
+++ b/sparta/sparta/simulation/State.hpp
@@ -398,6 +398,12 @@ namespace sparta
 
         //! Internal method to set the value -- called by State and MarkerSet
         void setValue_(const EnumTValueType & val) {
+            //! If tracking is disabled, this internal
+            // tracker unit will be nullptr. In that case,
+            // we do not track anything.
+            if(state_tracker_unit_) {
+                state_tracker_unit_->startState(val);
+            }
             current_state_ = val;
         }
 
@@ -516,13 +522,6 @@ namespace sparta
          * \param val The value to set
          */
         void setValue(const EnumTValueType & val) {
-
-            //! If tracking is disabled, this internal
-            // tracker unit will be nullptr. In that case,
-            // we do not track anything.
-            if(state_tracker_unit_) {
-                state_tracker_unit_->startState(val);
-            }
             setValue_(val);
 
             // Notify audience members of state change.  The observers
@@ -538,7 +537,7 @@ namespace sparta
          * initial_value given in the constructor
          */
         void reset() {
-            current_state_ = static_cast<EnumTValueType>(initial_value_);
+            setValue_(static_cast<EnumTValueType>(initial_value_));
             for(auto & ms : marker_set_) {
                 ms.reset();
             }
@@ -553,7 +552,7 @@ namespace sparta
          * value
          */
         void reset(const EnumTValueType & val) {
-            current_state_ = val;
+            setValue_(val);
             for(auto & ms : marker_set_) {
                 ms.reset();
             }
-- 
2.43.0


From 984d0684fec19c2c7246b544eeed22494fe63c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:44 +0000
Subject: [PATCH 126/170] fix: copies of a tracked state are tracked by a unit
 of their own

---
 sparta/sparta/simulation/State.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/simulation/State.hpp b/sparta/sparta/simulation/State.hpp
index 4181767..47cd96e 100644
--- a/sparta/sparta/simulation/State.hpp
+++ b/sparta/sparta/simulation/State.hpp
@@ -489,8 +489,15 @@ namespace sparta
             initial_value_{other.initial_value_},
             current_state_{other.current_state_},
             marker_set_{other.marker_set_},
-            state_tracker_unit_{other.state_tracker_unit_ ? new auto {*other.state_tracker_unit_} : nullptr}
-        {}
+            state_tracker_unit_(std::move(
+                                    tracker::StatePoolManager::getInstance().
+                                    dispatchNewTracker<EnumType>()))
+        {
+            // The copy is tracked by a unit of its own
+            if(state_tracker_unit_) {
+                state_tracker_unit_->startState(getValue());
+            }
+        }
 
 
         //! Deleting default assignment operator to prevent copies
-- 
2.43.0


From 2329bd71cabed50cb12db3172db9811b22e41f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:49 +0000
Subject: [PATCH 127/170] fix: states are tracked after the state pools were
 flushed

---
 sparta/sparta/simulation/StateTracker.hpp | 31 ++++++-----------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/sparta/sparta/simulation/StateTracker.hpp b/sparta/sparta/simulation/StateTracker.hpp
index 961bb69..018af4d 100644
--- a/sparta/sparta/simulation/StateTracker.hpp
+++ b/sparta/sparta/simulation/StateTracker.hpp
@@ -521,37 +521,22 @@ namespace sparta {
             //  new or recycled State Tracker Units.
             template<typename T>
             inline StatePool<T> * getStatePool_() {
-                static StatePool<T> * state_pool {nullptr};
-
-                //! If state_pool is not null, that means we
-                //  have seen this enum type T before and hence,
-                //  we do not need to create a new state pool to
-                //  handle this enum type. We just return the
-                //  state_pool pointer which is already pointing
-                //  to the valid state pool for this enum type T.
-                if(__builtin_expect(state_pool != nullptr, 1)) {
-                    return state_pool;
+                //! A pool which does not exist is one of an enum type T
+                //  seen for the first time, or for the first time since
+                //  the pools were flushed. So, we must instantiate a
+                //  new, valid State Pool to handle enums of this type.
+                auto & pool = unique_pool_type_map_[StatePool<T>::id()];
+                if(__builtin_expect(pool == nullptr, 0)) {
+                    pool.reset(new StatePool<T>(tracking_filename_));
                 }
 
-                //! If state_pool is null, that means we are seeing
-                //  this enum type T for the first time. So, we must
-                //  instantiate a new, valid State Pool to handle
-                //  enums of this type. We then make state_pool
-                //  point to this pool and return it.
-                const size_t identifier = StatePool<T>::id();
-
-                unique_pool_type_map_[identifier].reset(
-                    new StatePool<T>(tracking_filename_));
-
                 //! Note that static_cast has been used instead of
                 //  dynamic_cast. This is done because we already know
                 //  what the exact derived type of the resource being
                 //  pointed by the base pointer is. So, it is much more
                 //  efficient to not use the C++ runtime to perform the
                 //  cast and let the compiler handle this.
-                state_pool = static_cast<StatePool<T> *>(
-                    unique_pool_type_map_[identifier].get());
-                return state_pool;
+                return static_cast<StatePool<T> *>(pool.get());
             }
         };
 
-- 
2.43.0


From e0f96e87ad4623caa0fd653f951b5ebb8009603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:49 +0000
Subject: [PATCH 128/170] fix: state timers started in cycle 0 or given a wrong
 state keep counting

---
 sparta/sparta/simulation/StateTimerUnit.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/simulation/StateTimerUnit.hpp b/sparta/sparta/simulation/StateTimerUnit.hpp
index 35b3752..38d5952 100644
--- a/sparta/sparta/simulation/StateTimerUnit.hpp
+++ b/sparta/sparta/simulation/StateTimerUnit.hpp
@@ -76,21 +76,19 @@ public:
                     "Can not find state enum class in timer.");
             state_set = it->second;
 
+            sparta_assert(state_index < state_set->state_set_delta_.size(),
+                    "State enum out of range.")
             if (state_set->active_state_index_.isValid())
             {
                 active_state_in_set = state_set->active_state_index_.getValue();
                 sparta_assert(active_state_in_set != state_index ,
                         "State aleady started");
-                sparta_assert(state_set->active_state_starting_time_ > 0,
-                        "Wrong active state starting time.");
 
                 // implicitly update the time delta of the active state in the set, if there is one.
                 endTimerState_(state_set);
             }
 
             // set the new state to the active state in set.
-            sparta_assert(state_index < state_set->state_set_delta_.size(),
-                    "State enum out of range.")
             state_set->active_state_index_ = state_index;
             state_set->active_state_starting_time_ = clk_->currentCycle();
         }
-- 
2.43.0


From ece412c7ab4bdf6ca011b12f195ad6d924f46e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:54 +0000
Subject: [PATCH 129/170] fix: residency files name the enum type when compiled
 with clang

---
 sparta/sparta/simulation/StateTracker.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sparta/sparta/simulation/StateTracker.hpp b/sparta/sparta/simulation/StateTracker.hpp
index 018af4d..c980fd4 100644
--- a/sparta/sparta/simulation/StateTracker.hpp
+++ b/sparta/sparta/simulation/StateTracker.hpp
@@ -305,8 +305,8 @@ namespace sparta {
 
                 std::string name_string;
 
-                //! Store the enum class names by using gcc __PRETTY_FUNCTION__.
-                extractEnumTypeAsString_(__PRETTY_FUNCTION__, "[", "]", name_string);
+                //! Store the enum class names by using __PRETTY_FUNCTION__.
+                extractEnumTypeAsString_(__PRETTY_FUNCTION__, "T = ", "]", name_string);
 
                 //! Finally, we label the Histogram and write this data into file.
                 data_file << "Enum Class Name : " << name_string << "\n"
@@ -369,10 +369,7 @@ namespace sparta {
 
                     //! __PRETTY_FUNCTION__ generates a compile time constant string with
                     //  the enum class type that needs to be extracted as a std::string.
-                    //  The first 9 chars of this string is "with T = " which needs to be
-                    //  erased away before returning the rest of the string.
-                    constexpr uint16_t redundant_char_length {9};
-
+                    //  gcc shows it as "[with T = name]" and clang as "[T = name]".
                     std::size_t start_index = source.find(start);
                     if(start_index == std::string::npos) {
                         return false;
@@ -388,7 +385,6 @@ namespace sparta {
                     }
 
                     result = source.substr(start_index, end_index - start_index);
-                    result.erase(0, redundant_char_length);
                     return true;
                 }
 
-- 
2.43.0


From 715eed016624b0c25fe953e4abef567ac9431606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:31 +0000
Subject: [PATCH 130/170] fix: delayed collectables compile with a delay and
 keep the parent id of group members

---
 sparta/sparta/collection/DelayedCollectable.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sparta/sparta/collection/DelayedCollectable.hpp b/sparta/sparta/collection/DelayedCollectable.hpp
index 3cae60d..bde3d1f 100644
--- a/sparta/sparta/collection/DelayedCollectable.hpp
+++ b/sparta/sparta/collection/DelayedCollectable.hpp
@@ -69,10 +69,8 @@ namespace collection
                            uint32_t index,
                            uint64_t parentid = 0,
                            const std::string & desc = "DelayedCollectable <manual, no desc>") :
-            Collectable<DataT>(parent, name, group, index, desc)
-        {
-            (void) parentid;
-        }
+            Collectable<DataT>(parent, name, group, index, parentid, desc)
+        {}
 
         /**
          * \brief Construct the DelayedCollectable
@@ -121,7 +119,7 @@ namespace collection
             if(SPARTA_EXPECT_FALSE(isCollected()))
             {
                 if(delay != 0) {
-                    ev_collect_.schedule(val, delay);
+                    ev_collect_.preparePayload(val)->schedule(delay);
                 }
                 else {
                     Collectable<DataT>::collect(val);
-- 
2.43.0


From 8fb5d629f67c236db8cb62519c49c9c0fa93f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:31 +0000
Subject: [PATCH 131/170] fix: key-pair collectables keep their records when
 collection stops and ignore values before it starts

---
 sparta/sparta/collection/Collectable.hpp | 27 ++++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 0e34713..2a84ab3 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -315,12 +315,6 @@ namespace sparta{
                 sparta_assert(pipeline_col_ != nullptr,
                             "Collectables can only added to PipelineCollectors... for now");
 
-                if(collect && !prev_annot_.empty()) {
-                    // Set the start time for this transaction to be
-                    // moment collection is enabled.
-                    startNewRecord_();
-                }
-
                 // If the collected object is null, this Collectable
                 // object is to be explicitly collected
                 if(collected_object_ && auto_collect_) {
@@ -575,6 +569,11 @@ namespace sparta{
             MetaStruct::enable_if_t<!MetaStruct::is_any_pointer<T>::value, void>
             collect(const T & val)
             {
+                // Nothing to collect to (yet)
+                if(SPARTA_EXPECT_TRUE(!isCollected())) {
+                    return;
+                }
+
                 collect_(val);
 
                 // if the value pairs are not the same as the
@@ -836,16 +835,7 @@ namespace sparta{
                 argos_record_.nameVector = getNameStrings();
                 argos_record_.length = argos_record_.nameVector.size();
                 has_display_id_field_ = (argos_record_.nameVector[0] == "DID");
-                for(const auto formatter: getFormatVector()) {
-                    argos_record_.delimVector.emplace_back(formatter);
-                }
-
-                if(collect && hasData_()){
-
-                    // Set the start time for this transaction to be
-                    // moment collection is enabled.
-                    startNewRecord_();
-                }
+                argos_record_.delimVector = getFormatVector();
 
                 // If the collected object is null, this Collectable
                 // object is to be explicitly collected
@@ -864,6 +854,11 @@ namespace sparta{
                         pipeline_col_->removeFromAutoCollection(this);
                     }
                 }
+
+                if(!collect && !record_closed_) {
+                    // Force the record to be written
+                    closeRecord();
+                }
             }
             // The pair collectable object to be collected
             const DataT * collected_object_ = nullptr;
-- 
2.43.0


From 016b715a4ba20e6660ecccffd88bdbe36d1846e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:35 +0000
Subject: [PATCH 132/170] fix: starting collection again keeps the open records
 of manual iterable collectors

---
 sparta/sparta/collection/IterableCollector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/collection/IterableCollector.hpp b/sparta/sparta/collection/IterableCollector.hpp
index bb8b96f..40f48b0 100644
--- a/sparta/sparta/collection/IterableCollector.hpp
+++ b/sparta/sparta/collection/IterableCollector.hpp
@@ -331,7 +331,7 @@ private:
             // list of objects requiring collection
             pipeline_col->addToAutoCollection(this, collection_phase);
         }
-        else {
+        else if(!collect) {
             closeRecord();
         }
     }
-- 
2.43.0


From aab46a9bc443699e11bfa7c41aaa21740ddb6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:10 +0000
Subject: [PATCH 133/170] fix: every pipeline database has its own pair and
 string tables

---
 sparta/sparta/pipeViewer/Outputter.hpp | 40 +++++++++++++-------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/sparta/sparta/pipeViewer/Outputter.hpp b/sparta/sparta/pipeViewer/Outputter.hpp
index 6d40210..21e34af 100644
--- a/sparta/sparta/pipeViewer/Outputter.hpp
+++ b/sparta/sparta/pipeViewer/Outputter.hpp
@@ -114,6 +114,22 @@ namespace sparta::pipeViewer
         std::ofstream display_format_file_;
 
         uint64_t last_record_pos_; /*!< A pointer to the last record written */
+
+        //! The location ids this database already has in its map file
+        std::unordered_set<uint32_t> loc_id_set_;
+
+        //! The pair ids this database already has in its data file
+        std::unordered_set<uint16_t> pair_id_set_;
+
+        using multiIndex = std::tuple<uint64_t, uint64_t, uint64_t>;
+
+        // An Unordered Map with a Tuple of 3 Integers as Key and a String as Value.
+        // This map is used to store the String mappings from the Intermediate Integer values.
+        // We use integers as this makes the database smaller and also very fast to write to Binary File.
+        // The first Integer in the May Key is the unique Pair they bleong to.
+        // The Second Integer is the Field number they belong to.
+        // The Third Integer is the actual Integral value which corresponds to the String value.
+        std::unordered_map<multiIndex, std::string, hashtuple::hash<multiIndex>> string_map_;
     };
 
     /*!
@@ -137,30 +153,14 @@ namespace sparta::pipeViewer
     template<>
     inline void Outputter::writeTransaction(const pair_t & dat){
 
-        // A static Unordered Set which contains unique location id of the records.
-        static std::unordered_set<uint32_t> locIDSet;
-
-        // A static Unordered Set which contains unique pair id of the records.
-        static std::unordered_set<uint16_t> pairIDSet;
-
-        using multiIndex = std::tuple<uint64_t, uint64_t, uint64_t>;
-
-        // A static Unordered Map with a Tuple of 3 Integers as Key and a String as Value.
-        // This map is used to store the String mappings from the Intermediate Integer values.
-        // We use integers as this makes the database smaller and also very fast to write to Binary File.
-        // The first Integer in the May Key is the unique Pair they bleong to.
-        // The Second Integer is the Field number they belong to.
-        // The Third Integer is the actual Integral value which corresponds to the String value.
-        static std::unordered_map<multiIndex, std::string, hashtuple::hash<multiIndex>> stringMap;
-
         // If we find a Location ID that we have not seen before, we store it in the Location ID set.
-        if(locIDSet.emplace(dat.location_ID).second) {
+        if(loc_id_set_.emplace(dat.location_ID).second) {
             // We add the Location Id followed by the Pair Id of that record in the map file.
             map_file_ << dat.location_ID << ':' << dat.pairId << '\n';
         }
 
         // If we find a Pair ID we have not seen before, we store it in the Pair ID set.
-        if(pairIDSet.emplace(dat.pairId).second) {
+        if(pair_id_set_.emplace(dat.pairId).second) {
             // We write the Pair ID to the data file followed by the Number of pairs
             // this kind of pair collectable contains.
             // The first pair of every pair record is its PairID, so we do not add that to the database.
@@ -187,7 +187,7 @@ namespace sparta::pipeViewer
                     if(!dat.stringVector[i].empty()){
                         // We check if we have seen this exact pair, field and value before or not.
                         if(const auto& [val, str] = std::tie(dat.valueVector[i].first, dat.stringVector[i]);
-                           stringMap.emplace(std::piecewise_construct, std::forward_as_tuple(dat.pairId, i, val), std::forward_as_tuple(str)).second) {
+                           string_map_.emplace(std::piecewise_construct, std::forward_as_tuple(dat.pairId, i, val), std::forward_as_tuple(str)).second) {
                             // We add this mapping into out String Map file which we will
                             // use when reading back from the database.
                             string_file_ << dat.pairId
@@ -238,7 +238,7 @@ namespace sparta::pipeViewer
                     if(!dat.stringVector[i].empty()){
                         // We check if we have seen this exact pair, field and value before or not.
                         if(const auto& [val, str] = std::tie(dat.valueVector[i].first, dat.stringVector[i]);
-                           stringMap.emplace(std::piecewise_construct, std::forward_as_tuple(dat.pairId, i, val), std::forward_as_tuple(str)).second) {
+                           string_map_.emplace(std::piecewise_construct, std::forward_as_tuple(dat.pairId, i, val), std::forward_as_tuple(str)).second) {
                             // We add this mapping into out String Map file which we will
                             // use when reading back from the database.
                             string_file_ << dat.pairId
-- 
2.43.0


From 5b7c765553ee70353ddab23c30535b2376226461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:10 +0000
Subject: [PATCH 134/170] fix: pipeline heartbeats come every interval of ticks
 for any root clock period

---
 sparta/sparta/collection/PipelineCollector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 8995789..4761830 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -610,8 +610,8 @@ namespace collection
                 // Remember the last time we recorded a heartbeat
                 last_heartbeat_ = scheduler_->getCurrentTick();
 
-                // Schedule another heartbeat
-                ev_heartbeat_.schedule(heartbeat_interval_);
+                // Schedule another heartbeat (the interval is in ticks)
+                ev_heartbeat_.scheduleRelativeTick(heartbeat_interval_, scheduler_);
             }
         }
 
-- 
2.43.0


From 9e48c40b3d4e7d2bb81ead71e07e5b1e4c920185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:10 +0000
Subject: [PATCH 135/170] fix: pipeline collection can end in the tick of a
 heartbeat or restart in it

---
 .../sparta/collection/PipelineCollector.hpp   | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index 4761830..cbf540e 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -310,6 +310,13 @@ namespace collection
         {
             if(collection_active_) {
                 sparta_assert(writer_ != nullptr, "Somehow collection is active, but we have a null writer");
+
+                // The final records end after the current tick.  They
+                // must not extend beyond a heartbeat that is due.
+                if(isHeartBeatDue_()) {
+                    recordHeartBeat_();
+                }
+
                 for(auto & ctn : registered_collectables_) {
                     if(ctn->isCollected()) {
                         ctn->closeRecord(true); // set true for simulation termination
@@ -591,24 +598,37 @@ namespace collection
             clock_writer << (*root_clk_);
         }
 
+        //! Is the current tick the one of the next heartbeat?
+        bool isHeartBeatDue_() const {
+            return scheduler_->getCurrentTick() == (last_heartbeat_ + heartbeat_interval_);
+        }
+
+        //! Restart all open records and write an index
+        void recordHeartBeat_()
+        {
+            // Close all transactions
+            for(auto & ctn : registered_collectables_) {
+                if(ctn->isCollected()) {
+                    ctn->restartRecord();
+                }
+            }
+
+            // write an index
+            writer_->writeIndex();
+
+            // Remember the last time we recorded a heartbeat
+            last_heartbeat_ = scheduler_->getCurrentTick();
+        }
+
         //! Perform a heartbeat on the collector.  This is required to
         //! enable the writing of an index file used by the pipeout
         //! reader for fast access
         void performHeartBeat_()
         {
-            if(collection_active_) {
-                // Close all transactions
-                for(auto & ctn : registered_collectables_) {
-                    if(ctn->isCollected()) {
-                        ctn->restartRecord();
-                    }
-                }
-
-                // write an index
-                writer_->writeIndex();
-
-                // Remember the last time we recorded a heartbeat
-                last_heartbeat_ = scheduler_->getCurrentTick();
+            // A heartbeat scheduled by an earlier collection might
+            // already be accounted for
+            if(collection_active_ && isHeartBeatDue_()) {
+                recordHeartBeat_();
 
                 // Schedule another heartbeat (the interval is in ticks)
                 ev_heartbeat_.scheduleRelativeTick(heartbeat_interval_, scheduler_);
-- 
2.43.0


From 02889c7311b9175b248d3e517c3afbdc0a59578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:10 +0000
Subject: [PATCH 136/170] fix: restarting pipeline collection on all nodes
 continues the database

---
 .../sparta/collection/PipelineCollector.hpp   | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/sparta/sparta/collection/PipelineCollector.hpp b/sparta/sparta/collection/PipelineCollector.hpp
index cbf540e..81f32af 100644
--- a/sparta/sparta/collection/PipelineCollector.hpp
+++ b/sparta/sparta/collection/PipelineCollector.hpp
@@ -332,6 +332,7 @@ namespace collection
         {
             sparta_assert(!collection_active_,
                           "You can only reactivate the PipelineCollector after you destroy it");
+            writer_.reset();
             filepath_ = filepath;
         }
 
@@ -351,30 +352,35 @@ namespace collection
         {
             if(collection_active_ == false)
             {
-                // Create the outputter used for writing transactions to disk.
-                writer_.reset(new pipeViewer::Outputter(filepath_, heartbeat_interval_));
+                // Collection that was stopped on all nodes, but not
+                // destroyed continues its database
+                if(writer_ == nullptr)
+                {
+                    // Create the outputter used for writing transactions to disk.
+                    writer_.reset(new pipeViewer::Outputter(filepath_, heartbeat_interval_));
 
-                // We need to write an index on the start BEFORE any transactions have been written.
-                writer_->writeIndex();
+                    // We need to write an index on the start BEFORE any transactions have been written.
+                    writer_->writeIndex();
 
-                // Write the clock information out
-                writeClockFile_();
+                    // Write the clock information out
+                    writeClockFile_();
 
-                // Open the locations file
-                location_writer_.reset(new pipeViewer::LocationFileWriter(filepath_));
+                    // Open the locations file
+                    location_writer_.reset(new pipeViewer::LocationFileWriter(filepath_));
+
+                    // Start the heartbeats at the first interval as
+                    // the Outputter class handles hb 0
+                    last_heartbeat_ = 0;
+                }
 
                 // The reader needs heartbeat indexes up to the current
                 // collection point.  This can happen on delayed pipeline
-                // collection.  Start the heartbeats at the first interval
-                // as the Outputter class handles hb 0
-                last_heartbeat_ = 0;
+                // collection.
                 const uint64_t num_hb = scheduler_->getCurrentTick()/heartbeat_interval_;
-                uint64_t cnt = 0;
-                while(cnt != num_hb) {
+                while(last_heartbeat_ != num_hb * heartbeat_interval_) {
                     // write an index
                     writer_->writeIndex();
                     last_heartbeat_ += heartbeat_interval_;
-                    ++cnt;
                 }
 
                 // Schedule a heartbeat at the next interval, offset from
-- 
2.43.0


From 995795fe0cbb7a9f9ded8228df67b57c886e2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:20 +0000
Subject: [PATCH 137/170] fix: records that start in the last tick of a
 simulation are written

---
 sparta/sparta/collection/Collectable.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/collection/Collectable.hpp b/sparta/sparta/collection/Collectable.hpp
index 2a84ab3..beceec4 100644
--- a/sparta/sparta/collection/Collectable.hpp
+++ b/sparta/sparta/collection/Collectable.hpp
@@ -271,7 +271,8 @@ namespace sparta{
                             << getLocation() << " before a record can be written");
 
                 // This record hasn't changed, don't write it
-                if(SPARTA_EXPECT_FALSE(argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
+                if(SPARTA_EXPECT_FALSE(!simulation_ending &&
+                                       (argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick()))) {
                     return false;
                 }
 
@@ -793,7 +794,8 @@ namespace sparta{
                             << getLocation() << " before a record can be written");
 
                 // This record hasn't changed, don't write it
-                if(SPARTA_EXPECT_FALSE(argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick())) {
+                if(SPARTA_EXPECT_FALSE(!simulation_ending &&
+                                       (argos_record_.time_Start == pipeline_col_->getScheduler()->getCurrentTick()))) {
                     return false;
                 }
 
-- 
2.43.0


From 45581a129d88c309c2844fc1f49623d00feb408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:34 +0000
Subject: [PATCH 138/170] fix: the transaction reader opens databases without
 pairs or strings

---
 helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp b/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
index 5cebad0..9d6fd6b 100644
--- a/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
+++ b/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
@@ -114,7 +114,7 @@ namespace sparta::pipeViewer {
                     std::ifstream fstream_;
 
                 public:
-                    FileStream(std::string&& filename, const std::ios_base::openmode mode) :
+                    FileStream(std::string&& filename, const std::ios_base::openmode mode, const bool can_be_empty = false) :
                         filename_(std::move(filename)),
                         mode_(mode),
                         fstream_(filename_, mode)
@@ -122,7 +122,7 @@ namespace sparta::pipeViewer {
                         //Make sure the file opened correctly!
                         sparta_assert(fstream_.is_open(),
                                       "Failed to open file " << filename_);
-                        sparta_assert(fstream_.peek() != std::ifstream::traits_type::eof(),
+                        sparta_assert(can_be_empty || fstream_.peek() != std::ifstream::traits_type::eof(),
                                       filename_ << " is empty. Did Argos database collection complete?");
                     }
 
@@ -359,8 +359,9 @@ namespace sparta::pipeViewer {
                             }
                     };
 
+                    // These files are empty if the database has no pairs (or no strings)
                     explicit ColonDelimitedFile(std::string&& filename, std::ios_base::openmode mode = std::ios_base::in) :
-                        FileStream(std::move(filename), mode)
+                        FileStream(std::move(filename), mode, true)
                     {
                         fstream_.imbue(std::locale(std::locale(), new FileLineCType));
                     }
-- 
2.43.0


From f9b3e55086fef27c7e624afe1f66144b4ced4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:34 +0000
Subject: [PATCH 139/170] fix: the transaction reader keeps colons in strings

---
 .../pipeViewer/pipe_view/transactiondb/src/Reader.hpp  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp b/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
index 9d6fd6b..789ce63 100644
--- a/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
+++ b/helios/pipeViewer/pipe_view/transactiondb/src/Reader.hpp
@@ -919,7 +919,15 @@ namespace sparta::pipeViewer {
                 });
 
                 // Read every line of the String Map file
-                string_file_.processInto(stringMap_);
+                string_file_.processWith([&](auto& strm) {
+                    typename decltype(stringMap_)::key_type key;
+                    std::string str;
+                    strm >> key;
+                    // The string itself is the rest of the line
+                    strm.ignore();
+                    std::getline(strm, str);
+                    stringMap_.emplace(std::move(key), std::move(str));
+                });
             }
 
             Reader(Reader&& rhs) = default;
-- 
2.43.0


From 6d2753c020ffa339bbc73636ac9169843fcd769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 140/170] fix: notification triggers can outlive the nodes they
 were created for

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index 90b5e83..ed116d1 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -1241,17 +1241,20 @@ private:
                             const uint64_t target_value,
                             TreeNode * context) :
             target_(target_value),
-            context_(context),
+            root_(context->getRoot()->getWeakPtr()),
             channel_(channel)
         {
-            context_->getRoot()->REGISTER_FOR_NOTIFICATION(checkPayload_, uint64_t, channel_);
+            context->getRoot()->REGISTER_FOR_NOTIFICATION(checkPayload_, uint64_t, channel_);
             registered_ = true;
         }
 
         ~NotificationTrigger()
         {
             if (registered_) {
-                context_->getRoot()->DEREGISTER_FOR_NOTIFICATION(checkPayload_, uint64_t, channel_);
+                // The tree may be gone when the reports which own this trigger are destroyed
+                if (auto root = root_.lock()) {
+                    root->DEREGISTER_FOR_NOTIFICATION(checkPayload_, uint64_t, channel_);
+                }
             }
         }
 
@@ -1337,7 +1340,7 @@ private:
         bool clear_dependent_triggers_on_fire_ = true;
         bool suspended_ = false;
         bool notified_ = false; // since it was awakened
-        TreeNode * context_ = nullptr;
+        TreeNode::WeakPtr root_;
         std::string channel_;
         bool registered_ = false;
     };
-- 
2.43.0


From f8a0f1f79fb6513f82a1d2763048aceccfe5fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 141/170] fix: a report that stops or updates before its start
 trigger does not end the simulation

---
 sparta/src/ReportRepository.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/ReportRepository.cpp b/sparta/src/ReportRepository.cpp
index 98c399d..85e8007 100644
--- a/sparta/src/ReportRepository.cpp
+++ b/sparta/src/ReportRepository.cpp
@@ -524,6 +524,12 @@ private:
 
     void startReports_()
     {
+        // The stop or update trigger of the reports can fire before their
+        // start trigger does. That has started the reports already.
+        if (!formatters_.empty() && report_toggle_trigger_ == nullptr) {
+            return;
+        }
+
         for (auto & r : reports_) {
             r->start();
         }
-- 
2.43.0


From 67eff8bed03c3d3501b6dfe2d17c81d68d205879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:18 +0000
Subject: [PATCH 142/170] fix: a json_detail report does not contain the
 statistics of other reports

---
 sparta/sparta/report/format/JSON_detail.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sparta/sparta/report/format/JSON_detail.hpp b/sparta/sparta/report/format/JSON_detail.hpp
index 35bb329..6dd2a45 100644
--- a/sparta/sparta/report/format/JSON_detail.hpp
+++ b/sparta/sparta/report/format/JSON_detail.hpp
@@ -22,12 +22,6 @@
 namespace sparta::report::format
 {
 
-/*!
- * \brief Map to contain the stat information obtained from each report/subreport
- */
-static std::map<std::string, std::list<info_data> > detail_json_map;
-
-
 /*!
  * \brief Report formatter for JSON output
  * \note Non-Copyable
@@ -38,8 +32,13 @@ private:
     // JavaScript JSON format is considered as version 1.0.
     const std::string version_ = "2.1";
 
-    // Clear the detail_json_map static variable before
-    // report validation is performed
+    /*!
+     * \brief Map to contain the stat information obtained from each
+     * report/subreport while the content is written
+     */
+    mutable std::map<std::string, std::list<info_data> > detail_json_map;
+
+    // Clear the detail_json_map before report validation is performed
     virtual void doPostProcessingBeforeReportValidation() override final {
         detail_json_map.clear();
     }
@@ -109,6 +108,7 @@ protected:
     virtual void writeContentToStream_(std::ostream& out) const override
     {
         // collectDictContents_ will store the stat information into detail_json_map while going through report/subreports
+        detail_json_map.clear();
         collectDictContents_(report_, 1, "");
         out << "{ \"_id\": \" \",\n";
         out << std::string(2, ' ') << "\"report_metadata\": ";
-- 
2.43.0


From 073a4955326d6b4c4019fa77ebd3701ba0be6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 143/170] fix: configuration files that include each other are
 rejected

---
 sparta/src/ConfigParserYAML.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sparta/src/ConfigParserYAML.cpp b/sparta/src/ConfigParserYAML.cpp
index 529df60..b9e916c 100644
--- a/sparta/src/ConfigParserYAML.cpp
+++ b/sparta/src/ConfigParserYAML.cpp
@@ -604,6 +604,18 @@ namespace sparta
                 throw e;
             }
 
+            // Files whose inclusion is being handled. A file that includes
+            // itself through other files would never end.
+            static thread_local std::vector<std::string> including;
+            if(std::find(including.begin(), including.end(), filename_used) != including.end()){
+                throw SpartaException("Recursion detected in configuration files. File ")
+                    << filename_ << " includes " << filename_used << ", which is being included";
+            }
+            struct Guard {
+                explicit Guard(const std::string& f) { including.push_back(f); }
+                ~Guard() { including.pop_back(); }
+            } guard(filename_used);
+
             YAML incl(filename_used, include_paths_);
             incl.allowMissingNodes(doesAllowMissingNodes()); // Allow missing nodes if parent does
             incl.setParameterApplyFilter(filter_predicate_); // How to filter nodes that are about to be assigned
-- 
2.43.0


From e0e24fb61bf957b44e4343f20d983698930c0d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 144/170] fix: report definition files that include each other
 are rejected

---
 sparta/src/Report.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sparta/src/Report.cpp b/sparta/src/Report.cpp
index 3730625..ffd9e18 100644
--- a/sparta/src/Report.cpp
+++ b/sparta/src/Report.cpp
@@ -552,6 +552,19 @@ class ReportFileParserYAML
                              "open \"" << filepath.native() << "\" instead" << std::endl;
             }
 
+            // Files whose inclusion is being handled. A file that includes
+            // itself, also through other files, would never end.
+            static thread_local std::vector<std::string> including;
+            if(std::find(including.begin(), including.end(), filepath.native()) != including.end()){
+                throw SpartaException("Recursion detected in report definition files. File \"")
+                    << getFilename() << "\" includes \"" << filepath.native() << "\", which is being "
+                    "included";
+            }
+            struct Guard {
+                explicit Guard(const std::string& f) { including.push_back(f); }
+                ~Guard() { including.pop_back(); }
+            } guard(filepath.native());
+
             ReportFileParserYAML yaml(filepath.native());
 
 
-- 
2.43.0


From e7e8cd2208dc09a1862ab28803613b5da1e76e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 145/170] fix: a trigger expression with an unbalanced
 parenthesis is rejected

---
 sparta/sparta/trigger/ExpressionTrigger.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/trigger/ExpressionTrigger.hpp b/sparta/sparta/trigger/ExpressionTrigger.hpp
index ed116d1..14d8226 100644
--- a/sparta/sparta/trigger/ExpressionTrigger.hpp
+++ b/sparta/sparta/trigger/ExpressionTrigger.hpp
@@ -541,9 +541,10 @@ private:
                 return false;
             }
 
-            size_t inner_left_paren_idx = inner_right_paren_idx;
-            while (original_expression[inner_left_paren_idx] != '(') {
-                --inner_left_paren_idx;
+            const size_t inner_left_paren_idx = original_expression.rfind('(', inner_right_paren_idx);
+            if (inner_left_paren_idx == std::string::npos) {
+                throw SpartaException("Unbalanced parentheses in trigger expression '")
+                    << original_expression << "'";
             }
 
             if (inner_left_paren_idx == 0 && inner_right_paren_idx == original_expression.size() - 1) {
-- 
2.43.0


From a594a08cfc071d6cbb5f75a58d80408a725d3e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 146/170] fix: getDeepestMatchingPath does not look for the
 parent of a root

---
 sparta/src/TreeNode.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index 50fb30f..e5333d5 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -1228,6 +1228,9 @@ std::pair<uint32_t, std::string> TreeNode::recursGetDeepestMatchingPath_(const s
 
     if(immediate_child_name.size() == 0){
         // Get parent instead (no pattern, so no children-fanning needed)
+        if(getParent() == nullptr){
+            return {0, ""}; // No parent found
+        }
         deepest += ".";
         deepest += getParent()->recursGetDeepestMatchingPath_(path, out_path_pos).second;
     }else{
-- 
2.43.0


From 2635eb0b0152eace322464c2c7f3cbbdfa536749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:40 +0000
Subject: [PATCH 147/170] fix: a report does not get the header metadata of a
 skipped one

---
 sparta/src/ReportDescriptor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/src/ReportDescriptor.cpp b/sparta/src/ReportDescriptor.cpp
index 758bfb0..c00a019 100644
--- a/sparta/src/ReportDescriptor.cpp
+++ b/sparta/src/ReportDescriptor.cpp
@@ -844,6 +844,7 @@ class ReportDescriptorFileParserYAML
             def_file_.clear();
             format_ = "text";
             trigger_kv_pairs_.clear();
+            header_metadata_kv_pairs_.clear();
             auto_expand_context_counter_stats_ = false;
         }
 
-- 
2.43.0


From 1ed7be426edc9c4f0d8a57ab11826c43ec5917f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:23 +0000
Subject: [PATCH 148/170] fix: an optional parameter with a parent reference in
 its path is not dereferenced

---
 sparta/src/ConfigParserYAML.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sparta/src/ConfigParserYAML.cpp b/sparta/src/ConfigParserYAML.cpp
index b9e916c..99f4fc3 100644
--- a/sparta/src/ConfigParserYAML.cpp
+++ b/sparta/src/ConfigParserYAML.cpp
@@ -127,8 +127,14 @@ namespace sparta
                     if(pt_node_){  // Because ptree does not handle parent references yet.
                         if(value == OPTIONAL_PARAMETER_KEYWORD){
                             const bool required = false; // Not required
-                            auto n = pt_node_->create(last_val_, required);
-                            n->unrequire();
+                            auto n = pt_node_->create(last_val_, required); // Fails if it contains a parent reference
+                            if(n){
+                                n->unrequire();
+                            }else{
+                                std::cerr << "WARNING: Encountered parameter path with parent reference: \"" << pt_node_->getPath()
+                                              << "\" + \"" << last_val_ << "\". This node will not be available in the unbound parameter tree."
+                                              << markToString_(mark) << std::endl;
+                            }
                         }else{
                             const bool required = true; // Temporary value. Parameters created this way are always required
                             if(!pt_node_->set(last_val_, value, required, markToString_(mark, false))){ // Assign value
@@ -183,7 +189,9 @@ namespace sparta
                     if(value == OPTIONAL_PARAMETER_KEYWORD){
                         const bool required = false; // Not required
                         auto n = pt_node_->create(last_val_, required);
-                        n->unrequire(); // In case it was already created
+                        if(n){
+                            n->unrequire(); // In case it was already created
+                        }
                     }else{
                         const bool required = true; // Temporary value. Parameters created this way are always required
                         pt_node_->setValue(value, required, markToString_(mark, false));
-- 
2.43.0


From ef202553b35c71b0aec2f5cff735a5ba30e2bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 149/170] fix: a malformed YAML document that the parser cannot
 step over is rejected

---
 sparta/sparta/parsers/ConfigParserYAML.hpp     |  9 ++++++++-
 sparta/sparta/parsers/YAMLTreeEventHandler.hpp | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/parsers/ConfigParserYAML.hpp b/sparta/sparta/parsers/ConfigParserYAML.hpp
index 4e9da66..b92a934 100644
--- a/sparta/sparta/parsers/ConfigParserYAML.hpp
+++ b/sparta/sparta/parsers/ConfigParserYAML.hpp
@@ -201,6 +201,7 @@ namespace sparta
                 SequenceStack seq_params_; //! Stack of parameters associated with of each level of nested sequence
                 std::stack<std::vector<std::string>> seq_vec_; //! Stack of vectors of values in nested sequences
                 std::string last_val_;             //!< Prior scalar value
+                int doc_start_pos_ = -1;           //!< Position at which the latest document started, negative if there is none
                 bool verbose_;                     //!< Verbose parse mode
                 std::vector<std::string> errors_;  //!< Errors encountered while running
 
@@ -329,7 +330,13 @@ namespace sparta
                 //! Handle document start YAML node from parser
                 void OnDocumentStart(const YP::Mark& mark) override final
                 {
-                    (void) mark;
+                    // A malformed document that the YAML parser cannot step over starts over and over again
+                    if((doc_start_pos_ >= 0) && (mark.pos == doc_start_pos_)){
+                        SpartaException ex("Malformed YAML document");
+                        addMarkInfo_(ex, mark);
+                        throw ex;
+                    }
+                    doc_start_pos_ = mark.pos;
 
                     // Start subtree at starting tree list and pt_node_ at ptree_.getRoot()
                     subtree_.insert(subtree_.end(), trees_.begin(), trees_.end());
diff --git a/sparta/sparta/parsers/YAMLTreeEventHandler.hpp b/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
index 80069ca..ec95cbe 100644
--- a/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
+++ b/sparta/sparta/parsers/YAMLTreeEventHandler.hpp
@@ -234,7 +234,14 @@ public:
     //! Handle document start YAML node from parser
     void OnDocumentStart(const YP::Mark& mark) override final
     {
-        (void) mark;
+        // A malformed document that the YAML parser cannot step over starts over and over again
+        if((doc_start_pos_ >= 0) && (mark.pos == doc_start_pos_)){
+            SpartaException ex("Malformed YAML document");
+            addMarkInfo_(ex, mark);
+            throw ex;
+        }
+        doc_start_pos_ = mark.pos;
+
         subtree_.insert(subtree_.end(), trees_.begin(), trees_.end());
         cur_ = YP::NodeType::Null;
         while(!tree_stack_.empty()){tree_stack_.pop();}
@@ -697,6 +704,12 @@ private:
      */
     std::string last_val_;
 
+    /*!
+     * \brief Position at which the latest document started, negative if there
+     * is none
+     */
+    int doc_start_pos_ = -1;
+
     /*!
      * \brief Verbose parse mode
      */
-- 
2.43.0


From 3f67de33b3dd4fc66ccfcce739bd963b68a09a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:40 +0000
Subject: [PATCH 150/170] fix: a tree filter accepts the types statisticdef and
 statdef

---
 sparta/src/TreeFilterExpressionGrammar.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sparta/src/TreeFilterExpressionGrammar.cpp b/sparta/src/TreeFilterExpressionGrammar.cpp
index cc97179..9ac76e8 100644
--- a/sparta/src/TreeFilterExpressionGrammar.cpp
+++ b/sparta/src/TreeFilterExpressionGrammar.cpp
@@ -143,10 +143,11 @@ Grammar::TypeVariable::TypeVariable() :
 
     type_val =
         no_case["type"] >> *(char_(" \t")) >> ":" >> *(char_(" \t")) >>
-            (   (no_case["statistic"]    [_val = InstrumentationNode::TYPE_STATISTICDEF])
-             |  (no_case["statisticdef"] [_val = InstrumentationNode::TYPE_STATISTICDEF])
-             |  (no_case["stat"]         [_val = InstrumentationNode::TYPE_STATISTICDEF])
+            // The first match is taken, so a name must precede its own prefixes
+            (   (no_case["statisticdef"] [_val = InstrumentationNode::TYPE_STATISTICDEF])
+             |  (no_case["statistic"]    [_val = InstrumentationNode::TYPE_STATISTICDEF])
              |  (no_case["statdef"]      [_val = InstrumentationNode::TYPE_STATISTICDEF])
+             |  (no_case["stat"]         [_val = InstrumentationNode::TYPE_STATISTICDEF])
              |  (no_case["counter"]      [_val = InstrumentationNode::TYPE_COUNTER])
              |  (no_case["parameter"]    [_val = InstrumentationNode::TYPE_PARAMETER])
              |  (no_case["param"]        [_val = InstrumentationNode::TYPE_PARAMETER])
-- 
2.43.0


From bfbbad196501d23e496f8e520d17c7240658aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:40 +0000
Subject: [PATCH 151/170] fix: a literal tag or name in a tree filter need not
 be a regular expression

---
 sparta/src/TreeFilterExpression.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sparta/src/TreeFilterExpression.cpp b/sparta/src/TreeFilterExpression.cpp
index 96d4118..ec88937 100644
--- a/sparta/src/TreeFilterExpression.cpp
+++ b/sparta/src/TreeFilterExpression.cpp
@@ -219,7 +219,10 @@ namespace filter {
             std::cout << "]";
         }
 
-        std::regex expr(tag_); // Create the expression regardles of comparison type
+        std::regex expr;
+        if(tag_comparison_ == TAGCOMP_REM){
+            expr.assign(tag_); // Other comparisons take the text literally
+        }
         std::smatch what;
 
         // Look at each tag
@@ -273,7 +276,10 @@ namespace filter {
             std::cout << "name of " << n->getLocation() << " is \"" << n->getName() << "\"";
         }
 
-        std::regex expr(name_); // Create the expression regardles of comparison type
+        std::regex expr;
+        if(name_comparison_ == NAMECOMP_REM){
+            expr.assign(name_); // Other comparisons take the text literally
+        }
         std::smatch what;
 
         // Look at name
-- 
2.43.0


From e84ea74bbb1dacc2121bc62478f793acc4d9fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:25 +0000
Subject: [PATCH 152/170] fix: a pattern in a tree filter may contain a minus
 sign

---
 sparta/sparta/tree/filter/Grammar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sparta/sparta/tree/filter/Grammar.hpp b/sparta/sparta/tree/filter/Grammar.hpp
index bba9b8c..80db56f 100644
--- a/sparta/sparta/tree/filter/Grammar.hpp
+++ b/sparta/sparta/tree/filter/Grammar.hpp
@@ -251,9 +251,9 @@ class Grammar :
                   )
                 ;
 
-            tag_pattern_simple %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*")); // No spaces or quotes
-            tag_pattern_indq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ '")); // Spaces and single quotes ok
-            tag_pattern_insq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\-\\(\\)$\\^\\?\\*\\\\ \\\"")); // Spaces and double quotes ok
+            tag_pattern_simple %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\(\\)$\\^\\?\\*-")); // - is literal only at the end. No spaces or quotes
+            tag_pattern_indq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\(\\)$\\^\\?\\*\\\\ '-")); // - is literal only at the end. Spaces and single quotes ok
+            tag_pattern_insq %= +(char_("\\.0-9A-Za-z_\\[\\]\\+\\(\\)$\\^\\?\\*\\\\ \\\"-")); // - is literal only at the end. Spaces and double quotes ok
 
             tag_expr.name("expr");
             tag_val.name("val");
-- 
2.43.0


From 1ed570ca63d98dee1ad1b7fe2cca31cd8582acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:03 +0000
Subject: [PATCH 153/170] fix: a tree filter expression can be combined with
 itself

---
 sparta/sparta/tree/filter/Expression.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/tree/filter/Expression.hpp b/sparta/sparta/tree/filter/Expression.hpp
index 0a87c9e..53919ad 100644
--- a/sparta/sparta/tree/filter/Expression.hpp
+++ b/sparta/sparta/tree/filter/Expression.hpp
@@ -280,10 +280,11 @@ public:
      */
     Expression& operator&&(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_AND; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
@@ -293,10 +294,11 @@ public:
      */
     Expression& operator||(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_OR; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
@@ -306,10 +308,11 @@ public:
      */
     Expression& operator!=(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_XOR; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
@@ -319,10 +322,11 @@ public:
      */
     Expression& operator&=(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_AND; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
@@ -332,10 +336,11 @@ public:
      */
     Expression& operator|=(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_OR; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
@@ -345,10 +350,11 @@ public:
      */
     Expression& operator^=(const Expression& rhp) {
         Expression tmp(*this); // Copy construct from this node
+        Expression rhs(rhp); // Copy before changing this node, which may be rhp
         op_ = OP_XOR; // Change operation
         operands_.clear();
         operands_.emplace_back(tmp); // Copy (again) from tmp;
-        operands_.emplace_back(rhp); // Copy construct from rhp
+        operands_.emplace_back(rhs); // Copy (again) from rhs
 
         return *this;
     }
-- 
2.43.0


From 0f5ee3c28d08777f8adb8dffef1aa7787bd9fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:19 +0000
Subject: [PATCH 154/170] fix: an empty vector can be read from the parameters
 of an extension

---
 sparta/src/TreeNode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/src/TreeNode.cpp b/sparta/src/TreeNode.cpp
index e5333d5..708d60e 100644
--- a/sparta/src/TreeNode.cpp
+++ b/sparta/src/TreeNode.cpp
@@ -2835,6 +2835,11 @@ getParameterValueAsImpl(const std::string& param_val_str)
         [](char c){ return std::isspace(static_cast<unsigned char>(c)); });
     loc_s.erase(it, loc_s.end());
 
+    // An empty vector has no values
+    if (loc_s.empty()) {
+        return {};
+    }
+
     // Remove all double quotes to ensure smartLexicalCast works properly
     it = std::remove(loc_s.begin(), loc_s.end(), '\"');
     loc_s.erase(it, loc_s.end());
-- 
2.43.0


From 778d6fd5f468ef61d3bab435b20c37a742aba2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:19 +0000
Subject: [PATCH 155/170] fix: every wildcard path of an extension
 configuration that applies to a node is used

---
 sparta/src/TreeNodeExtensionManager.cpp | 80 +++++++++++++++----------
 1 file changed, 49 insertions(+), 31 deletions(-)

diff --git a/sparta/src/TreeNodeExtensionManager.cpp b/sparta/src/TreeNodeExtensionManager.cpp
index 98699e8..a25b304 100644
--- a/sparta/src/TreeNodeExtensionManager.cpp
+++ b/sparta/src/TreeNodeExtensionManager.cpp
@@ -45,6 +45,39 @@ std::pair<std::string, std::string> validateParam(const ParameterTree::Node* p)
     return {p_name, p_value};
 }
 
+//! \brief Helper to find every node of a (wildcard or concrete) config ptree
+//! which applies to a concrete path, in the order in which they were added.
+//! Unlike ParameterTree::tryGet(), the "extension" keyword is not matched by
+//! wildcards, and all branches which apply to the path are followed.
+void findConfigNodes(const ParameterTree::Node* node,
+                     const std::vector<std::string> & path,
+                     const size_t depth,
+                     std::vector<const ParameterTree::Node*> & nodes)
+{
+    if (depth == path.size()) {
+        nodes.push_back(node);
+        return;
+    }
+
+    for (auto child : node->getChildren()) {
+        if (path[depth] == "extension" ? child->getName() == path[depth]
+                                       : ParameterTree::Node::matches(child->getName(), path[depth])) {
+            findConfigNodes(child, path, depth + 1, nodes);
+        }
+    }
+}
+
+std::vector<const ParameterTree::Node*> findConfigNodes(const ParameterTree & ptree,
+                                                        const std::string & path)
+{
+    std::vector<std::string> parts;
+    boost::split(parts, path, boost::is_any_of("."));
+
+    std::vector<const ParameterTree::Node*> nodes;
+    findConfigNodes(ptree.getRoot(), parts, 0, nodes);
+    return nodes;
+}
+
 TreeNodeExtensionManager::TreeNodeExtensionManager()
     : wildcard_config_ptree_(std::make_shared<ParameterTree>())
     , concrete_config_ptree_(std::make_shared<ParameterTree>())
@@ -147,14 +180,14 @@ ExtensionsBase * TreeNodeExtensionManager::createExtension(
             //   wildcard: default param value
             //   concrete: override param value
             auto p_path = ext_path + "." + p_name;
-            if (auto wildcard_ptree_node = wildcard_config_ptree_->tryGet(p_path)) {
+            for (auto wildcard_ptree_node : findConfigNodes(*wildcard_config_ptree_, p_path)) {
                 auto value = wildcard_ptree_node->peekValue();
                 sparta_assert(!value.empty());
                 p_value = value;
             }
 
             // Now see if we should overwrite the param value.
-            if (auto concrete_ptree_node = concrete_config_ptree_->tryGet(p_path)) {
+            for (auto concrete_ptree_node : findConfigNodes(*concrete_config_ptree_, p_path)) {
                 p_value = concrete_ptree_node->peekValue();
                 sparta_assert(!p_value.empty());
             }
@@ -198,8 +231,7 @@ ExtensionsBase * TreeNodeExtensionManager::createExtension(
     // Apply all parameters we were given in the arch/config/extension YAML
     // files to the extension params in its ParameterSet.
     for (auto ptree : {wildcard_config_ptree_, concrete_config_ptree_}) {
-        auto ext_node = ptree->tryGet(ext_path, false /*not a leaf*/);
-        if (ext_node) {
+        for (auto ext_node : findConfigNodes(*ptree, ext_path)) {
             for (auto p : ext_node->getChildren()) {
                 const auto & [p_name, p_value] = validateParam(p);
 
@@ -381,7 +413,7 @@ std::set<std::string> TreeNodeExtensionManager::getAllConfigExtensionNames(
 {
     std::set<std::string> ext_names;
     for (auto ptree : {wildcard_config_ptree_, concrete_config_ptree_}) {
-        if (auto ext_node = ptree->tryGet(loc + ".extension", false /*not a leaf*/)) {
+        for (auto ext_node : findConfigNodes(*ptree, loc + ".extension")) {
             for (auto child : ext_node->getChildren()) {
                 ext_names.insert(child->getName());
             }
@@ -553,24 +585,16 @@ void TreeNodeExtensionManager::checkAllYamlExtensionsCreated(
     {
         utils::ValidValue<bool> is_optional;
 
-        auto ext_root_node = ptree.tryGet(loc, false /*not a leaf*/);
-        if (ext_root_node) {
-            auto path = ext_root_node->getPath() + ".extension." + ext_name + ".optional";
-            ptree.visitNodes([&](const ParameterTree::Node* node) {
-                if (node->getPath() == path) {
-                    auto value = node->peekValue();
-                    if (value == "true") {
-                        is_optional = true;
-                    } else if (value == "false") {
-                        is_optional = false;
-                    } else {
-                        throw SpartaException("The 'optional' value must be 'true' or 'false', not '")
-                            << value << "'.";
-                    }
-                    return false; // stop visiting nodes; we have our answer
-                }
-                return true; // keep going
-            });
+        for (auto node : findConfigNodes(ptree, loc + ".extension." + ext_name + ".optional")) {
+            auto value = node->peekValue();
+            if (value == "true") {
+                is_optional = true;
+            } else if (value == "false") {
+                is_optional = false;
+            } else {
+                throw SpartaException("The 'optional' value must be 'true' or 'false', not '")
+                    << value << "'.";
+            }
         }
 
         return is_optional;
@@ -710,14 +734,8 @@ void TreeNodeExtensionManager::doPostCreate_(ExtensionsBase* extension) const
 bool TreeNodeExtensionManager::inYamlConfig_(
     const std::string & loc) const
 {
-    constexpr auto must_be_leaf = false;
-    if (wildcard_config_ptree_->tryGet(loc, must_be_leaf)) {
-        return true;
-    }
-    if (concrete_config_ptree_->tryGet(loc, must_be_leaf)) {
-        return true;
-    }
-    return false;
+    return !findConfigNodes(*wildcard_config_ptree_, loc).empty()
+        || !findConfigNodes(*concrete_config_ptree_, loc).empty();
 }
 
 std::tuple<std::string, std::string, std::string> TreeNodeExtensionManager::parseExtensionParamPath_(
-- 
2.43.0


From 485d5f8ae36b336262e2c64e96d920ac7d42a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:50 +0000
Subject: [PATCH 156/170] fix: the last character of an empty string attribute
 is not looked at

---
 sparta/sparta/pevents/PEventHelper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/pevents/PEventHelper.hpp b/sparta/sparta/pevents/PEventHelper.hpp
index 5e6418f..72a9fbd 100644
--- a/sparta/sparta/pevents/PEventHelper.hpp
+++ b/sparta/sparta/pevents/PEventHelper.hpp
@@ -51,7 +51,7 @@ namespace PEventProtection
         {
             return false;
         }
-        if(SPARTA_EXPECT_FALSE(std::strcmp(&obj.back(), "\"") == 0))
+        if(SPARTA_EXPECT_FALSE(!obj.empty() && obj.back() == '"'))
         {
             return false;
         }
@@ -59,7 +59,7 @@ namespace PEventProtection
         {
             return false;
         }
-        if(SPARTA_EXPECT_FALSE(std::strcmp(&post.back(), "\"") == 0))
+        if(SPARTA_EXPECT_FALSE(!post.empty() && post.back() == '"'))
         {
             return false;
         }
-- 
2.43.0


From 73a3710b19a5cd31f19944aa748d595f085532ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:50 +0000
Subject: [PATCH 157/170] fix: prefix and postfix of the first attribute of a
 pevent enclose its value

---
 sparta/sparta/pevents/PEventHelper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sparta/sparta/pevents/PEventHelper.hpp b/sparta/sparta/pevents/PEventHelper.hpp
index 72a9fbd..1e4629e 100644
--- a/sparta/sparta/pevents/PEventHelper.hpp
+++ b/sparta/sparta/pevents/PEventHelper.hpp
@@ -176,22 +176,22 @@ class PEvent
     struct TupleUnroller<Tuple, Array, Formats, 1> {
         static void unroller_(const Tuple& t, const Array& a, const Formats& f, std::stringstream& s){
             s << std::get<0>(a) << "=";
-            s.flags(std::get<0>(f).pre_format);
-            s << std::get<0>(f).prefix;
             //Assert that the first and last character are not quotes on a string, since we are going to insert
             //our own quotes on strings, also do the assertions on pre and post fixes.
             sparta_assert(PEventProtection::CheckNoQuotes(std::get<0>(t), std::get<0>(f).prefix, std::get<0>(f).postfix), "Quotes are appended to string types for PEvent logging automatically and should not be done by the modeller in the prefix, postfix, or the string itself.");
             //Automatically insert quotes to the beginning of the string types.
             PEventProtection::AppendQuote<decltype(std::get<0>(t))>(s);
-            s << std::get<0>(f).postfix;
+            s.flags(std::get<0>(f).pre_format);
+            s << std::get<0>(f).prefix;
             s << std::setfill(std::get<0>(f).fill_char);
             s << std::setw(std::get<0>(f).swidth);
             /*!     Writing the data  */
             s << std::get<0>(t);
-            s.flags(std::get<0>(f).post_format);
+            s << std::get<0>(f).postfix;
             //Automatically insert quotes to the end of the string types.
             PEventProtection::AppendQuote<decltype(std::get<0>(t))>(s);
             s << " ";
+            s.flags(std::get<0>(f).post_format);
         }
     };
 public:
-- 
2.43.0


From cc0cc5bc5e2eaf9f0d9ed3d6320eabc94272bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:50 +0000
Subject: [PATCH 158/170] fix: selecting pevents which are already selected is
 not an error

---
 sparta/sparta/pevents/NestedPeventCollector.hpp | 5 +++--
 sparta/sparta/pevents/PeventCollector.hpp       | 6 ++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sparta/sparta/pevents/NestedPeventCollector.hpp b/sparta/sparta/pevents/NestedPeventCollector.hpp
index 028d057..6b4d7b2 100644
--- a/sparta/sparta/pevents/NestedPeventCollector.hpp
+++ b/sparta/sparta/pevents/NestedPeventCollector.hpp
@@ -136,9 +136,10 @@ namespace pevents {
                     // We detatch the tap since we need to wait till the trigger
                     // fires or is manually started to start pevent collection.
                     taps_[taps_.size() - 1]->detach();
-                    // We did create a tap.
-                    return true;
                 }
+
+                // We did create a tap, or already had it.
+                return true;
             }
 
             // We never added a tap because it was not appropriate for our
diff --git a/sparta/sparta/pevents/PeventCollector.hpp b/sparta/sparta/pevents/PeventCollector.hpp
index 082698f..e45c9f8 100644
--- a/sparta/sparta/pevents/PeventCollector.hpp
+++ b/sparta/sparta/pevents/PeventCollector.hpp
@@ -157,12 +157,10 @@ namespace pevents{
                     // We detatch the tap since we need to wait till the trigger
                     // fires or is manually started to start pevent collection.
                     taps_[taps_.size() - 1]->detach();
-                    // We did create a tap.
-                    return true;
-
                 }
 
-
+                // We did create a tap, or already had it.
+                return true;
             }
             // We never added a tap because it was not appropriate for our
             // event type.
-- 
2.43.0


From c511415135a9d4b0c65b9a4c5adfda27473400d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:50 +0000
Subject: [PATCH 159/170] fix: a pevent does not have the attributes of an
 earlier object of another derived type

---
 sparta/sparta/pairs/SpartaKeyPairs.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sparta/sparta/pairs/SpartaKeyPairs.hpp b/sparta/sparta/pairs/SpartaKeyPairs.hpp
index 13fe320..1563773 100644
--- a/sparta/sparta/pairs/SpartaKeyPairs.hpp
+++ b/sparta/sparta/pairs/SpartaKeyPairs.hpp
@@ -61,6 +61,7 @@ namespace sparta {
         inline void updateNumericCache(const uint64_t val, const uint32_t id) {
             data_list_[id].first = val;
             data_list_[id].second = true;
+            present_list_[id] = true;
         }
 
         //! Method which updates the sizeof of the value at index id.
@@ -71,11 +72,19 @@ namespace sparta {
         //! Method which updates the String Representation of the value at index id.
         inline void updateStringCache(const std::string & val, const uint32_t id) {
             string_value_list_[id] = val;
+            present_list_[id] = true;
         }
 
         //! Method which updates the String Representation of the value at index id.
         inline void updateStringCache(std::string && val, const uint32_t id) {
             string_value_list_[id] = std::move(val);
+            present_list_[id] = true;
+        }
+
+        //! Method which marks the value at index id as one which the entity does not have,
+        //  until it is updated again.
+        inline void setAbsent(const uint32_t id) {
+            present_list_[id] = false;
         }
 
         //! Method which updates the Representation of the value at index id.
@@ -99,6 +108,7 @@ namespace sparta {
             formatter_list_.emplace_back(format);
             name_strings_list_.emplace_back(key);
             string_value_list_.emplace_back("");
+            present_list_.emplace_back(true);
             data_list_.emplace_back(std::make_pair(std::numeric_limits<uint64_t>::max(), false));
         }
 
@@ -152,6 +162,9 @@ namespace sparta {
         const std::vector<CachedPair> & getPEventLogVector() const {
             pevents_log_vector_.clear();
             for(std::size_t i = 0; i < name_strings_list_.size(); ++i) {
+                if(!present_list_[i]) {
+                    continue;
+                }
                 if(!string_value_list_[i].empty()) {
                     pevents_log_vector_.emplace_back(std::make_pair(
                         name_strings_list_[i], string_value_list_[i]));
@@ -204,6 +217,7 @@ namespace sparta {
         std::vector<std::string> name_strings_list_;
         std::vector<std::string> string_value_list_;
         std::vector<ValidPair> data_list_;
+        std::vector<bool> present_list_;
         mutable std::vector<CachedPair> pevents_log_vector_;
     };
 
@@ -709,6 +723,11 @@ namespace sparta {
                     MetaStruct::remove_any_pointer_t<T>>::derived_type_list>::value,
                         "Abstract Base Type cannot contain an empty MetaTypeList.");
 
+            //! Unless the Derived Type is one that has this value, forget
+            //  the value of the previous entity.
+            c->setAbsent(id_);
+            data_cpy_.reset();
+
             //! Start Unrolling that TypeList to verify Derived Type.
             auto && verify_derived_type = DerivedTypeVerification_<
                 decltype(this), T,
-- 
2.43.0


From cd254a7b862f587545c9e650e0231b357c6c71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:17 +0000
Subject: [PATCH 160/170] fix: a deleted checkpoint stays while the current one
 depends on it, whatever other branches hold

---
 sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
index 300813e..f8f532a 100644
--- a/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
+++ b/sparta/sparta/serialization/checkpoint/FastCheckpointer.hpp
@@ -877,8 +877,8 @@ namespace sparta::serialization::checkpoint
                 // Only check descendants for snapshot-ness
                 if(dc->isSnapshot()){
                     // Found a live snapshot that ends this branch. d is not needed
-                    // after this
-                    return false;
+                    // after this, but may be needed on another branch
+                    continue;
                 }
                 if(dc == getCurrent_()){
                     // Found current in this search chain
-- 
2.43.0


From 957bab5c4d91c44bb0a959ead822e20a8fafc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:09 +0000
Subject: [PATCH 161/170] fix: an assigned counter trigger watches the lifetime
 of the counter it was given

---
 sparta/src/Trigger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sparta/src/Trigger.cpp b/sparta/src/Trigger.cpp
index ac4d9dc..3ec75e4 100644
--- a/sparta/src/Trigger.cpp
+++ b/sparta/src/Trigger.cpp
@@ -64,6 +64,7 @@ CounterTrigger& CounterTrigger::operator= (const CounterTrigger& rhp)
     // Copy over data and re-register
     sparta_assert(rhp.counter_);
     counter_ = rhp.counter_;
+    counter_wref_ = rhp.counter_wref_;
     trigger_point_ = rhp.trigger_point_;
 
     return *this;
-- 
2.43.0


From 6c0e05e3189f78922648d52a4aab35ef6cfba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 162/170] fix: a cumulative report without a start trigger is
 cumulative, too

---
 sparta/src/ReportRepository.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sparta/src/ReportRepository.cpp b/sparta/src/ReportRepository.cpp
index 85e8007..3baf864 100644
--- a/sparta/src/ReportRepository.cpp
+++ b/sparta/src/ReportRepository.cpp
@@ -545,12 +545,6 @@ private:
         const bool first = formatters_.empty();
         this->initializeReportInstantiations_();
 
-        if (is_cumulative_) {
-            for (auto & r : reports_) {
-                r->accumulateStats();
-            }
-        }
-
         #if SIMDB_ENABLED
             if (first && collector_) {
                 collector_->updateReportStartTime(&desc_);
@@ -738,6 +732,11 @@ private:
 
         for (auto & r : reports_) {
             formatters_.insert(desc_.addInstantiation(r.get(), sim_));
+
+            // With or without a start trigger
+            if (is_cumulative_) {
+                r->accumulateStats();
+            }
         }
 
         if(desc_.getUsageCount() == 0){
-- 
2.43.0


From e5742cddd9b5b6fd81d4e6d9a4735a6c95cf26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:48 +0000
Subject: [PATCH 163/170] fix: the context counters of subreports, and of
 copied reports, are expanded, too

---
 sparta/sparta/report/Report.hpp | 7 +++++--
 sparta/src/Report.cpp           | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sparta/sparta/report/Report.hpp b/sparta/sparta/report/Report.hpp
index e4cb536..2404b21 100644
--- a/sparta/sparta/report/Report.hpp
+++ b/sparta/sparta/report/Report.hpp
@@ -203,7 +203,8 @@ namespace sparta
             subreps_(rhp.subreps_),
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
-            info_string_(rhp.info_string_)
+            info_string_(rhp.info_string_),
+            auto_expand_context_counter_stats_(rhp.auto_expand_context_counter_stats_)
         {
             // Update parent pointers of all subreports
             for(auto& sr : subreps_){
@@ -230,7 +231,8 @@ namespace sparta
             start_tick_(rhp.start_tick_),
             end_tick_(rhp.end_tick_),
             info_string_(std::move(rhp.info_string_)),
-            sub_statistics_(std::move(rhp.sub_statistics_))
+            sub_statistics_(std::move(rhp.sub_statistics_)),
+            auto_expand_context_counter_stats_(rhp.auto_expand_context_counter_stats_)
         {
             // Update parent pointers of all subreports
             for(auto& sr : subreps_){
@@ -265,6 +267,7 @@ namespace sparta
             start_tick_ = rhp.start_tick_;
             end_tick_ = rhp.end_tick_;
             info_string_ = rhp.info_string_;
+            auto_expand_context_counter_stats_ = rhp.auto_expand_context_counter_stats_;
             return *this;
         }
 
diff --git a/sparta/src/Report.cpp b/sparta/src/Report.cpp
index ffd9e18..9786c6d 100644
--- a/sparta/src/Report.cpp
+++ b/sparta/src/Report.cpp
@@ -1463,6 +1463,7 @@ void Report::addDefinitionStringWithReplacements(const std::string& content,
 Report& Report::addSubreport(const std::string& name) {
     subreps_.emplace_back(name, context_, scheduler_);
     subreps_.back().setParent_(this);
+    subreps_.back().auto_expand_context_counter_stats_ = auto_expand_context_counter_stats_;
     if (report_container_ == nullptr) {
         report_container_.reset(new sparta::SubContainer);
     }
-- 
2.43.0


From 3e6970341512ea222ea51e0b7817ca71b2998f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:45 +0000
Subject: [PATCH 164/170] fix: a simulation which was given no configuration
 can run

---
 sparta/src/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparta/src/Simulation.cpp b/sparta/src/Simulation.cpp
index 9f8440d..041a120 100644
--- a/sparta/src/Simulation.cpp
+++ b/sparta/src/Simulation.cpp
@@ -1041,6 +1041,12 @@ void Simulation::runRaw_(uint64_t run_time)
 
 void Simulation::runRaw(uint64_t run_time)
 {
+    if(!sim_config_){
+        // Not configured (see configure): use the defaults of the scheduler
+        scheduler_->run(run_time);
+        return;
+    }
+
     scheduler_->run(run_time,
                     sim_config_->scheduler_exacting_run,
                     sim_config_->scheduler_measure_run_time);
-- 
2.43.0


From 1e1d1b63ca96e5c133c9a28521759c987291413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:45 +0000
Subject: [PATCH 165/170] fix: the debug dump goes to stderr when its file
 cannot be opened

---
 sparta/src/Simulation.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sparta/src/Simulation.cpp b/sparta/src/Simulation.cpp
index 041a120..83ebd92 100644
--- a/sparta/src/Simulation.cpp
+++ b/sparta/src/Simulation.cpp
@@ -1226,15 +1226,17 @@ bool Simulation::dumpDebugContent_(std::string& debug_filename,
     // Open the debug dump file. If that fails, use cerr
     std::ostream* out = &std::cerr; // Output stream pointer
     std::ofstream out_file;
-    try{
+    if(debug_filename != ""){
         out_file.open(debug_filename);
-        out = &out_file;
-    }catch(...){
-        debug_filename = ""; // implies stderr
-        std::cerr << SPARTA_CMDLINE_COLOR_WARNING "Warning: Failed to open debug dump file \""
-                  << debug_filename
-                  << "\". Debug state will be written to stderr instead" SPARTA_CMDLINE_COLOR_NORMAL
-                  << std::endl;
+        if(out_file.is_open()){
+            out = &out_file;
+        }else{
+            std::cerr << SPARTA_CMDLINE_COLOR_WARNING "Warning: Failed to open debug dump file \""
+                      << debug_filename
+                      << "\". Debug state will be written to stderr instead" SPARTA_CMDLINE_COLOR_NORMAL
+                      << std::endl;
+            debug_filename = ""; // implies stderr
+        }
     }
 
     // Write simulation info
-- 
2.43.0


From 16cfd20370e604d8eff2522cad71fbcc70778429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:50 +0000
Subject: [PATCH 166/170] fix: report errors found while parsing a tree node
 extension file

---
 sparta/src/TreeNodeExtensions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sparta/src/TreeNodeExtensions.cpp b/sparta/src/TreeNodeExtensions.cpp
index 516bbff..dcc5086 100644
--- a/sparta/src/TreeNodeExtensions.cpp
+++ b/sparta/src/TreeNodeExtensions.cpp
@@ -434,6 +434,15 @@ public:
 
         while (parser_.HandleNextDocument(*((YP::EventHandler*)&handler))) {}
 
+        if (!handler.getErrors().empty()) {
+            SpartaException ex("One or more errors detected while consuming the "
+                               "tree node extension file:\n");
+            for (const std::string & es : handler.getErrors()) {
+                ex << es << '\n';
+            }
+            throw ex;
+        }
+
         return handler.getDescriptors();
     }
 
-- 
2.43.0


From 9d3c6fb97a53a30f7d82965d1ccac45fa04cd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:30 +0000
Subject: [PATCH 167/170] fix: strip_whitespace of text that is all whitespace

---
 sparta/sparta/utils/StringUtils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparta/sparta/utils/StringUtils.hpp b/sparta/sparta/utils/StringUtils.hpp
index f0ba040..db74366 100644
--- a/sparta/sparta/utils/StringUtils.hpp
+++ b/sparta/sparta/utils/StringUtils.hpp
@@ -164,6 +164,11 @@ inline std::string strip_whitespace(const std::string &str)
     size_t start_pos = str.find_first_not_of(STR_WHITESPACE);
     size_t end_pos   = str.find_last_not_of(STR_WHITESPACE);
 
+    if (start_pos == std::string::npos) {
+        //! Nothing but whitespace
+        return "";
+    }
+
     return str.substr(start_pos, end_pos-start_pos + 1);
 }   //! function strip_whitespace()
 
-- 
2.43.0


From d7e1e211c9ec2a7228e45d4a03dbe3ed0b4d3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:30 +0000
Subject: [PATCH 168/170] fix: LevenshteinDistance counts insertions and
 unequal prefixes

---
 sparta/sparta/utils/StringUtils.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/StringUtils.hpp b/sparta/sparta/utils/StringUtils.hpp
index db74366..8575d97 100644
--- a/sparta/sparta/utils/StringUtils.hpp
+++ b/sparta/sparta/utils/StringUtils.hpp
@@ -388,6 +388,12 @@ inline uint32_t LevenshteinDistance(const char * s, size_t n,
     size_t * d = dptr.get();
 
     memset(d, 0, sizeof(size_t) * n * m);
+    for (size_t j = 0; j < n; ++j) {
+        d[j] = j;
+    }
+    for (size_t i = 0; i < m; ++i) {
+        d[i * n] = i;
+    }
     for (size_t i = 1, im = 0; i < m; ++i, ++im) {
         for (size_t j = 1, jn = 0; j < n; ++j, ++jn) {
             if (s[jn] == t[im]) {
@@ -395,7 +401,7 @@ inline uint32_t LevenshteinDistance(const char * s, size_t n,
             } else {
                 d[(i * n) + j] = std::min({
                     d[(i - 1) * n + j] + 1,          //! A deletion
-                    d[(i - 1) * n + j] + 1,          //! An insertion
+                    d[i * n + (j - 1)] + 1,          //! An insertion
                     d[(i - 1) * n + (j - 1)] + 1     //! A substitution
                 });
             }
-- 
2.43.0


From 3eb65ad33fb3b50e4f0d86b0e43901942c9f70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:42 +0000
Subject: [PATCH 169/170] fix: KeyValue::getDesc returns the description

---
 sparta/sparta/utils/KeyValue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/utils/KeyValue.hpp b/sparta/sparta/utils/KeyValue.hpp
index 6dde69f..93dd654 100644
--- a/sparta/sparta/utils/KeyValue.hpp
+++ b/sparta/sparta/utils/KeyValue.hpp
@@ -139,7 +139,7 @@ namespace sparta
          * \return The Description
          */
         std::string getDesc() const {
-            return key_;
+            return desc_;
         }
 
         /*!
-- 
2.43.0


From af3063e864e2cbeb5a3606fc664f9b31110ce58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:46 +0000
Subject: [PATCH 170/170] fix: feature values above the largest int can be read
 back

---
 sparta/sparta/app/FeatureConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparta/sparta/app/FeatureConfiguration.hpp b/sparta/sparta/app/FeatureConfiguration.hpp
index 2498f26..f1a1183 100644
--- a/sparta/sparta/app/FeatureConfiguration.hpp
+++ b/sparta/sparta/app/FeatureConfiguration.hpp
@@ -37,7 +37,7 @@ public:
         if (feature == nullptr || !feature->hasValue()) {
             return 0;
         }
-        return std::stoi(feature->getValue());
+        return boost::lexical_cast<unsigned int>(feature->getValue());
     }
 
     bool isFeatureValueSet(const std::string & feature_name) const {
-- 
2.43.0

