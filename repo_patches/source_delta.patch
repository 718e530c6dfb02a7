From 4f60ddc172a118b85453184263d650792c905009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 01/26] fix: an exception set on an awaitable_t<void> before it
 is awaited is delivered

---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..873095b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From 32ae45a0a1aa6ac723926bbe44e905757f292ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 02/26] fix: wait_all on events that are all signalled keeps
 its state while its lock is held

---
 include/librf/src/event_v2.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..da70092 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -462,11 +462,6 @@ namespace librf
 			lockes.push_back(_state->_lock);
 			(void)_state->on_await_suspend(handler);
 
-			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
-			{
-				cb();
-			}
-
 			batch_lock_t<ref_lock_type> lock_(lockes);
 
 			intptr_t idx = 0;
@@ -489,12 +484,17 @@ namespace librf
 
 			if (_state->_counter == 0)
 			{
-				_state = nullptr;
+				//lock_还引用着_state->_lock，故_state由awaiter的析构函数释放
 				_value = true;
 
 				return false;
 			}
 
+			if constexpr (!std::is_same_v<std::remove_reference_t<_Timeout>, std::nullptr_t>)
+			{
+				cb();
+			}
+
 			return true;
 		}
 
-- 
2.43.0


From 7bcf1c6600ab850e611063853f42b3d83ff605c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 03/26] fix: wait_all_for does not deadlock when a signal meets
 its timeout

---
 source/event_v2.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..789da54 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -78,6 +78,7 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			counted_ptr<state_event_all_t> guard_{ this };		//协程恢复后，可能会释放本对象，故要维持到解锁之后
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
@@ -110,14 +111,18 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+			}
 
+			//signal()先锁event再锁_lock，这里不能在锁住_lock的情况下再去锁event。
+			//_counter为0后，on_notify()不再访问_values。
 			for (sub_state_t& sub : _values)
 			{
 				if (sub.first != nullptr)
-- 
2.43.0


From b2a7a36ebc5bbb4bf4cc2e2bfb939a1af5a4c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 04/26] fix: a timer callback may clear the timers of its
 manager

---
 source/timer.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..760e92e 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -87,6 +87,7 @@ namespace librf
 				__lock.unlock();
 #endif
 
+				timer_vector_type _stoped;
 				for (auto& sptr : _atimer)
 				{
 					if (sptr->st == timer_target::State::Added)
@@ -97,9 +98,13 @@ namespace librf
 					else
 					{
 						assert(sptr->st == timer_target::State::Invalid);
-						call_target_(sptr, true);
+						_stoped.push_back(sptr);
 					}
 				}
+
+				//回调函数里可能会调用clear()，故在全部加入之后再调用
+				for (auto& sptr : _stoped)
+					call_target_(sptr, true);
 			}
 		}
 
@@ -107,17 +112,14 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//回调函数里可能会调用clear()，故先移除再调用
+			for (auto iter = _runing_timers.begin(); iter != _runing_timers.end() && iter->first <= now_; iter = _runing_timers.begin())
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
-					break;
+				timer_target_ptr sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
 			}
-
-			_runing_timers.erase(_runing_timers.begin(), iter);
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 6cbcecc6dc3aae0989c4599181de4309c82e15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 05/26] fix: the value a generator returns stays readable after
 its body has ended

---
 include/librf/src/generator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..c3e593a 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -145,9 +145,11 @@ namespace librf
 			}
 
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			template<class _Uty>
+			void return_value(_Uty&& _Value) noexcept(std::is_nothrow_constructible_v<_Ty, _Uty&&>)
 			{
-				_CurrentValue = std::addressof(_Value);
+				//co_return之后，协程的局部变量以及临时变量都已经销毁
+				_CurrentValue = std::addressof(_FinalValue.emplace(std::forward<_Uty>(_Value)));
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -215,6 +217,7 @@ namespace librf
 				return _Al.deallocate(reinterpret_cast<char *>(_Ptr), _Size);
 			}
 		private:
+			std::optional<_Ty> _FinalValue;
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
-- 
2.43.0


From 442aac35b1efb536aefbc9a4f872f7c17f3b5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/26] fix: move assignment of a generator destroys the
 coroutine it replaces

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index c3e593a..f2719d0 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -259,6 +259,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From b7261565ee1229934de56466a4e5d44cc2394235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 07/26] fix: stop_state is deleted with its last reference, not
 before

---
 include/librf/src/stop_token.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..dfc0ddb 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,8 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kTokenZeroRef = kTokenRefIncrement + kTokenRefIncrement;
+    static constexpr uint64_t kLockedAndZeroRef = kLockedFlag + kTokenZeroRef;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
@@ -138,7 +139,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kTokenZeroRef)
         {
             delete this;
         }
-- 
2.43.0


From a7d5efc9854d14cd89dc6dbdfc462a3a6e2bb463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 08/26] fix: mutex unlock does not touch the coroutine of a
 waiter that timed out

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..95bf43f 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//超时的state，其root可能已经释放，故只能取指针而不能访问root
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From 4f6473578703e5439a297bf9d98d0292d639251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 09/26] fix: the task of a coroutine lives until the locals of
 the coroutine are destroyed

---
 include/librf/src/state.inl | 8 ++++----
 source/state.cpp            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 23a7376..d17d335 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -167,7 +167,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
@@ -183,7 +183,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
@@ -274,7 +274,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
@@ -290,7 +290,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 873095b..24df011 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -210,7 +210,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
@@ -226,7 +226,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//协程要等到局部变量销毁后，由promise_final_suspend()移除
 				sch->del_final(this);
 		}
 	}
-- 
2.43.0


From b8d33cd5d5e66d876fc98a2e7e82a0a0f496bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 10/26] fix: a channel operation keeps the channel alive until
 it has released its lock

---
 include/librf/src/channel_v2.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..3513dcf 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,6 +359,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				auto guard_ = _channel;		//_channel可能是最后一个引用，要维持到解锁之后
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_read_nolock(_value))
@@ -373,6 +374,7 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			auto guard_ = _channel;		//_channel可能是最后一个引用，要维持到解锁之后
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_read_nolock(_value))
@@ -430,6 +432,7 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				auto guard_ = _channel;		//_channel可能是最后一个引用，要维持到解锁之后
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_write_nolock(_value))
@@ -444,6 +447,7 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			auto guard_ = _channel;		//_channel可能是最后一个引用，要维持到解锁之后
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_write_nolock(_value))
-- 
2.43.0


From 3fae0ea927367396cda7dc9cbc899c7d268e8282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 11/26] fix: mutex_t::try_lock_until(tp, unique_address)
 compiles

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..e4ab69d 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -429,7 +429,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From 143b4c58a01078c4989401cd557b1281aeb621a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 12/26] fix: request_stop_all_if_possible does not call back
 with the task lock held

---
 source/scheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..bebd2f0 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -133,10 +133,21 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//stop_callback和定时器的回调函数可能会访问调度器，故不能在加锁的情况下调用
+		std::vector<stop_source> stops;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					stops.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		for (auto& stop : stops)
+			stop.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From c5e803308312ee9e0e1f9204e25fdf2872d218de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 13/26] fix: when_all/when_any complete when their sub-tasks
 finish before they are awaited

---
 include/librf/src/when_v2.h | 14 +++++++++-----
 source/when_v2.cpp          |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..c0bfce0 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -33,16 +33,20 @@ namespace librf
 
 			//将自己加入到通知链表里
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			scheduler_t* on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
+			bool on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
 			{
 				_PromiseT& promise = handler.promise();
 				auto* parent_state = promise.get_state();
 				scheduler_t* sch = parent_state->get_scheduler();
 
+				scoped_lock<lock_type> lock_(_lock);
+				if (_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				this->_scheduler = sch;
 				this->_coro = handler;
 
-				return sch;
+				return true;
 			}
 
 			typedef spinlock lock_type;
@@ -70,13 +74,13 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
-				_state->on_await_suspend(handler);
+				return _state->on_await_suspend(handler);
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..27aa717 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -35,11 +35,12 @@ namespace librf
 
 		LIBRF_API bool state_when_t::on_notify_one()
 		{
+			counted_ptr<state_when_t> guard_{ this };		//协程恢复后，可能会释放本对象，故要维持到解锁之后
 			scoped_lock<lock_type> lock_(_lock);
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
+				//还没有被co_await的话，则由await_ready()/await_suspend()来处理
 				if (this->_coro)
 					this->_scheduler->add_generator(this);
 
-- 
2.43.0


From 31237b4d2f2bc96515d1bb255f8dc27c4d34e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 14/26] fix: a timer may be stopped by another thread while its
 manager is updated

---
 include/librf/src/timer.h |  7 +++++--
 source/timer.cpp          | 18 ++++++++----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..d7da556 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -27,7 +27,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st{ State::Invalid };
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
@@ -123,6 +123,9 @@ namespace librf
 
 		inline bool empty() const
 		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __lock(_added_mtx);
+#endif
 			return _runing_timers.empty() && _added_timers.empty();
 		}
 		LIBRF_API void clear();
@@ -141,7 +144,7 @@ namespace librf
 		}
 	private:
 #if !RESUMEF_DISABLE_MULT_THREAD
-		spinlock _added_mtx;
+		mutable spinlock _added_mtx;
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
diff --git a/source/timer.cpp b/source/timer.cpp
index 760e92e..4e77922 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -15,7 +15,9 @@ namespace librf
 	LIBRF_API void timer_manager::call_target_(const timer_target_ptr & sptr, bool canceld)
 	{
 		auto cb = std::move(sptr->cb);
-		sptr->st = timer_target::State::Invalid;
+		//stop()可能在别的线程里调用，以st的原子操作来决定结果
+		if (sptr->st.exchange(timer_target::State::Invalid, std::memory_order_acq_rel) == timer_target::State::Invalid)
+			canceld = true;
 #if _DEBUG
 		sptr->_manager = nullptr;
 #endif
@@ -62,12 +64,8 @@ namespace librf
 
 	LIBRF_API bool timer_manager::stop(const timer_target_ptr & sptr)
 	{
-		if (!sptr || sptr->st == timer_target::State::Invalid) 
+		if (!sptr || sptr->st.exchange(timer_target::State::Invalid, std::memory_order_acq_rel) == timer_target::State::Invalid)
 			return false;
-#if _DEBUG
-		assert(sptr->_manager == this);
-#endif
-		sptr->st = timer_target::State::Invalid;
 
 		return true;
 	}
@@ -90,14 +88,14 @@ namespace librf
 				timer_vector_type _stoped;
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto st = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing, std::memory_order_acq_rel))
 					{
-						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, sptr });
 					}
 					else
 					{
-						assert(sptr->st == timer_target::State::Invalid);
+						assert(st == timer_target::State::Invalid);
 						_stoped.push_back(sptr);
 					}
 				}
@@ -118,7 +116,7 @@ namespace librf
 				timer_target_ptr sptr = std::move(iter->second);
 				_runing_timers.erase(iter);
 
-				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+				call_target_(sptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 52807102f59615d7d4299f2831294038f5a85b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 15/26] fix: move assignment of batch_lock_t compiles and
 releases the locks it replaces

---
 include/librf/src/spinlock.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/librf/src/spinlock.h b/include/librf/src/spinlock.h
index 74939b8..3d80706 100644
--- a/include/librf/src/spinlock.h
+++ b/include/librf/src/spinlock.h
@@ -111,18 +111,18 @@ namespace librf
 		struct _LockVectorAssembleT
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;		//不能用引用，否则不支持赋值
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			_Ty& operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(_Ty& _LkN) const
 			{
@@ -149,18 +149,18 @@ namespace librf
 		struct _LockVectorAssembleT<std::reference_wrapper<_Ty>, _Cont>
 		{
 		private:
-			_Cont& _Lks;
+			_Cont* _Lks;		//不能用引用，否则不支持赋值
 		public:
 			_LockVectorAssembleT(_Cont& _LkN)
-				: _Lks(_LkN)
+				: _Lks(&_LkN)
 			{}
 			size_t size() const
 			{
-				return _Lks.size();
+				return _Lks->size();
 			}
 			std::reference_wrapper<_Ty> operator[](int _Idx)
 			{
-				return _Lks[_Idx];
+				return (*_Lks)[_Idx];
 			}
 			void _Lock_ref(std::reference_wrapper<_Ty> _LkN) const
 			{
@@ -289,11 +289,14 @@ namespace librf
 		{
 			if (this != &_Right)
 			{
+				unlock();
+
 				_LkN = _Right._LkN;
 				_Right._LkN = nullptr;
 
 				_LA = std::move(_Right._LA);
 			}
+			return *this;
 		}
 	private:
 		_Cont* _LkN;
-- 
2.43.0


From 151f630923435fce95a4c8d9b1b59930c90c9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 16/26] fix: move assignment of batch_unlock_t releases the
 mutexes it replaces

---
 include/librf/src/mutex_v2.inl | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index e4ab69d..68e2a2f 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +531,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+				_MAA = std::move(_Right._MAA);
+				_Right._MAA._owner = nullptr;
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
-- 
2.43.0


From d952af959e6342b26351404689213771d2ecb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 17/26] fix: awaiting does not race with a result that another
 thread is setting

---
 include/librf/src/state.h   |  6 ++----
 include/librf/src/when_v2.h |  1 +
 source/state.cpp            | 12 ++++++++++++
 source/when_v2.cpp          |  7 +++++++
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..d2ca640 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -38,10 +38,7 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
-		void set_scheduler(scheduler_t* sch) noexcept
-		{
-			_scheduler = sch;
-		}
+		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept;
 		coroutine_handle<> get_handler() const noexcept
 		{
 			return _coro;
@@ -137,6 +134,7 @@ namespace librf
 		LIBRF_API virtual void resume() override;
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
+		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
 
 		inline bool is_ready() const noexcept
 		{
diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index c0bfce0..0e3a3e9 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -26,6 +26,7 @@ namespace librf
 
 			LIBRF_API virtual void resume() override;
 			LIBRF_API virtual bool has_handler() const  noexcept override;
+			LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
 
 			LIBRF_API void on_cancel() noexcept;
 			LIBRF_API bool on_notify_one();
diff --git a/source/state.cpp b/source/state.cpp
index 24df011..aada399 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -32,6 +32,11 @@ namespace librf
 		return nullptr;
 	}
 
+	LIBRF_API void state_base_t::set_scheduler(scheduler_t* sch) noexcept
+	{
+		_scheduler = sch;
+	}
+
 	LIBRF_API void state_future_t::destroy_deallocate()
 	{
 		size_t _Size = this->_alloc_size;
@@ -158,6 +163,13 @@ namespace librf
 		}
 	}
 
+	LIBRF_API void state_future_t::set_scheduler(scheduler_t* sch) noexcept
+	{
+		//set_value()/set_exception()可能正在别的线程里读取_scheduler
+		scoped_lock<lock_type> __guard(this->_mtx);
+		_scheduler = sch;
+	}
+
 	LIBRF_API bool state_future_t::has_handler() const noexcept
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 27aa717..f87f7e7 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -25,6 +25,13 @@ namespace librf
 			return (bool)_coro;
 		}
 
+		LIBRF_API void state_when_t::set_scheduler(scheduler_t* sch) noexcept
+		{
+			//on_notify_one()可能正在别的线程里读取_scheduler
+			scoped_lock<lock_type> lock_(_lock);
+			_scheduler = sch;
+		}
+
 		LIBRF_API void state_when_t::on_cancel() noexcept
 		{
 			scoped_lock<lock_type> lock_(_lock);
-- 
2.43.0


From fc4616e03ad60f5414135d0c744d21fad4903371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 18/26] fix: a future that is ready before it is spawned does
 not keep its scheduler busy

---
 include/librf/src/state.h |  2 ++
 source/scheduler.cpp      |  3 ++-
 source/state.cpp          | 17 +++++++++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index d2ca640..b4cb246 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -36,6 +36,7 @@ namespace librf
 	public:
 		LIBRF_API virtual void resume();
 		LIBRF_API virtual bool has_handler() const  noexcept;
+		LIBRF_API virtual bool has_result() const noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
 		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept;
@@ -135,6 +136,7 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
 		LIBRF_API virtual void set_scheduler(scheduler_t* sch) noexcept override;
+		LIBRF_API virtual bool has_result() const noexcept override;
 
 		inline bool is_ready() const noexcept
 		{
diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index bebd2f0..615ae29 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -105,7 +105,8 @@ namespace librf
 		}
 
 		//如果是单独的future，没有被co_await过，则handler是nullptr。
-		if (sptr->has_handler())
+		//加入之前就已经有了结果，则不会再有人来通知，故需要在resume()里移除。
+		if (sptr->has_handler() || sptr->has_result())
 		{
 			add_generator(sptr);
 		}
diff --git a/source/state.cpp b/source/state.cpp
index aada399..607c180 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -27,6 +27,11 @@ namespace librf
 		return (bool)_coro;
 	}
 
+	LIBRF_API bool state_base_t::has_result() const noexcept
+	{
+		return false;
+	}
+
 	LIBRF_API state_base_t* state_base_t::get_parent() const noexcept
 	{
 		return nullptr;
@@ -161,6 +166,18 @@ namespace librf
 			handler.destroy();
 			return;
 		}
+
+		if (!_is_future && has_result())
+		{
+			//没有被co_await过的，直接加入到调度器里的awaitable_t的state
+			__guard.unlock();
+			_scheduler->del_final(this);
+		}
+	}
+
+	LIBRF_API bool state_future_t::has_result() const noexcept
+	{
+		return _has_value.load(std::memory_order_acquire) != result_type::None;
 	}
 
 	LIBRF_API void state_future_t::set_scheduler(scheduler_t* sch) noexcept
-- 
2.43.0


From d511ba5a37692d43d123712a0df5a1f96617f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 19/26] fix: the context of a finished task is destroyed
 without the task lock held

---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..d3dbb2e 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//task的上下文在析构时，可能会访问调度器，故不能在加锁的情况下析构
+		(void)del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 0b8ae561b21bc85b679921c075f2d9cf87829150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 20/26] fix: when_any does not do atomic operations on the
 result that its awaiter reads

---
 include/librf/src/when_v2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 0e3a3e9..3aeb89a 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -53,6 +53,7 @@ namespace librf
 			typedef spinlock lock_type;
 			lock_type _lock;
 			std::atomic<intptr_t> _counter;
+			std::atomic<intptr_t> _winner{ -1 };			//when_any首个完成者的下标。结果可能正在被读取，故不能直接在结果上做原子操作
 		};
 
 		template<class _Ty>
@@ -210,8 +211,9 @@ namespace librf
 				co_await awaitor;
 
 				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+				if (state->_winner.compare_exchange_strong(oldValue, idx))
 				{
+					value->first = idx;
 					state->on_notify_one();
 				}
 			}
@@ -220,8 +222,9 @@ namespace librf
 				decltype(auto) result = co_await awaitor;
 
 				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+				if (state->_winner.compare_exchange_strong(oldValue, idx))
 				{
+					value->first = idx;
 					value->second = std::move(result);
 
 					state->on_notify_one();
-- 
2.43.0


From 6d8dacada580aa26ab4af97b376fce5bd71c75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:43 +0000
Subject: [PATCH 21/26] fix: resetting an event does not meet a wait that is
 taking its credit

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 789da54..f1d962b 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -208,6 +208,8 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
+
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From a1d18b4637ab8de2def7548fc2fcaa442aa26308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 22/26] fix: when_all over a range of bool results writes them
 from several threads without synchronisation

---
 include/librf/src/when_v2.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 3aeb89a..34c6152 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -165,6 +165,14 @@ namespace librf
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
+			else if constexpr(std::is_same_v<_Ty, bool>)
+			{
+				bool result = co_await awaitor;
+
+				//std::vector<bool>的多个元素在同一个字里，别的子任务可能正在别的线程里写入
+				scoped_lock<state_when_t::lock_type> lock_(state->_lock);
+				value = result;
+			}
 			else
 				value = co_await awaitor;
 			state->on_notify_one();
-- 
2.43.0


From 2fc0f41feeee3087a9e797eb9632ca6dac44d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:55 +0000
Subject: [PATCH 23/26] fix: mutex_t::lock of several mutexes no longer goes on
 failing for ever under contention

A coroutine that backs out hands its mutex over to the next waiter, which fails
in the same way as long as all queues are non-empty. With ten coroutines that
lock two or three of three mutexes none of them ever gets its set. The back-off
now grows with every failed attempt, so that the queues run dry.
---
 include/librf/src/mutex_v2.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 68e2a2f..f7c7dd7 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -454,6 +454,7 @@ namespace librf
 	public:
 		std::vector<mutex_t> _mutex;
 		void* _owner;
+		size_t _failed = 0;
 
 		template<class... _Mtxs>
 		_MutexAwaitAssembleT(void* unique_address, _Mtxs&... mtxs)
@@ -480,9 +481,10 @@ namespace librf
 		{
 			_LkN.unlock(_owner);
 		}
-		future_t<> _Yield() const
+		future_t<> _Yield()
 		{
-			for (int cnt = rand() % (1 + _mutex.size()); cnt >= 0; --cnt)
+			++_failed;
+			for (int cnt = rand() % (_failed + _mutex.size()); cnt >= 0; --cnt)
 			{
 				std::this_thread::yield();	//还要考虑多线程里运行的情况
 				co_await yield();
-- 
2.43.0


From 5ddf917d2d0d120e1e65f772dd33a59281631c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:18 +0000
Subject: [PATCH 24/26] fix: get_stop_source() of one task from several threads
 raced (and its CAS went through a reinterpret_cast)

---
 include/librf/src/stop_token.h | 44 ++++++++++++++++------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index dfc0ddb..320947e 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -394,7 +394,7 @@ public:
 class stop_source
 {
 private:
-    details::stop_state* state_;
+    std::atomic<details::stop_state*> state_;         //make_sure_possible()可能在多个线程里同时调用
 
 public:
     stop_source()
@@ -409,23 +409,23 @@ public:
 
     ~stop_source()
     {
-        if (state_)
+        if (auto* st = state_.load(std::memory_order_acquire))
         {
-            state_->remove_source_reference();
+            st->remove_source_reference();
         }
     }
 
     stop_source(const stop_source& other) noexcept
-        : state_(other.state_)
+        : state_(other.state_.load(std::memory_order_acquire))
     {
-        if (state_)
+        if (auto* st = state_.load(std::memory_order_relaxed))
         {
-            state_->add_source_reference();
+            st->add_source_reference();
         }
     }
 
     stop_source(stop_source&& other) noexcept
-        : state_(std::exchange(other.state_, nullptr))
+        : state_(other.state_.exchange(nullptr, std::memory_order_acq_rel))
     {
     }
 
@@ -438,7 +438,7 @@ public:
 
     stop_source& operator=(const stop_source& other) noexcept
     {
-        if (state_ != other.state_)
+        if (*this != other)
         {
             stop_source tmp{other};
             swap(tmp);
@@ -449,27 +449,23 @@ public:
     [[nodiscard]]
     bool stop_requested() const noexcept
     {
-        return state_ && state_->is_stop_requested();
+        auto* st = state_.load(std::memory_order_acquire);
+        return st && st->is_stop_requested();
     }
 
     [[nodiscard]]
     bool stop_possible() const noexcept
     {
-        return state_ != nullptr;
+        return state_.load(std::memory_order_acquire) != nullptr;
     }
 
 	void make_sure_possible()
 	{
-        if (state_ == nullptr)
+        if (state_.load(std::memory_order_acquire) == nullptr)
         {
             details::stop_state* st = new details::stop_state();
             details::stop_state* tmp = nullptr;
-            if (!std::atomic_compare_exchange_strong_explicit(
-                reinterpret_cast<std::atomic<details::stop_state*>*>(&state_),
-                &tmp, 
-                st, 
-                std::memory_order_release, 
-                std::memory_order_acquire))
+            if (!state_.compare_exchange_strong(tmp, st, std::memory_order_acq_rel, std::memory_order_acquire))
             {
                 st->remove_source_reference();
             }
@@ -478,9 +474,9 @@ public:
 
     bool request_stop() const noexcept
     {
-        if (state_)
+        if (auto* st = state_.load(std::memory_order_acquire))
         {
-            return state_->request_stop();
+            return st->request_stop();
         }
         return false;
     }
@@ -488,24 +484,26 @@ public:
     [[nodiscard]]
     stop_token get_token() const noexcept
     {
-        return stop_token{state_};
+        return stop_token{state_.load(std::memory_order_acquire)};
     }
 
     void swap(stop_source& other) noexcept
     {
-        std::swap(state_, other.state_);
+        auto* st = state_.load(std::memory_order_acquire);
+        state_.store(other.state_.load(std::memory_order_acquire), std::memory_order_release);
+        other.state_.store(st, std::memory_order_release);
     }
 
     [[nodiscard]]
     bool operator==(const stop_source& other) noexcept
     {
-        return state_ == other.state_;
+        return state_.load(std::memory_order_acquire) == other.state_.load(std::memory_order_acquire);
     }
 
     [[nodiscard]]
     bool operator!=(const stop_source& other) noexcept
     {
-        return state_ != other.state_;
+        return !(*this == other);
     }
 
 };
-- 
2.43.0


From 67e841132db790561d8646af732a0aa52884e36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:01 +0000
Subject: [PATCH 25/26] fix: a coroutine whose timed lock expired stayed in the
 mutex's wait list until the next unlock

---
 include/librf/src/mutex_v2.inl |  1 +
 source/mutex_v2.cpp            | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index f7c7dd7..0576a65 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -48,6 +48,7 @@ namespace librf
 			LIBRF_API bool try_lock_until(clock_type::time_point tp, void* sch);	//内部加锁
 			LIBRF_API bool unlock(void* sch);						//内部加锁
 			LIBRF_API void lock_until_succeed(void* sch);			//内部加锁
+			LIBRF_API void remove_wait_list(state_mutex_t* state);	//内部加锁
 		public:
 			static constexpr bool USE_SPINLOCK = true;
 
diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 95bf43f..f57e22e 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -62,6 +62,9 @@ namespace librf
 			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
 			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
 			{
+				mutex_v2_impl* mtx = *oldValue;
+				if (mtx != nullptr)
+					mtx->remove_wait_list(this);
 				*oldValue = nullptr;
 				_thandler.reset();
 
@@ -182,6 +185,14 @@ namespace librf
 
 			_wait_awakes.push_back(state);
 		}
+
+		LIBRF_API void mutex_v2_impl::remove_wait_list(state_mutex_t* state)
+		{
+			assert(state != nullptr);
+
+			scoped_lock<lock_type> lock_(_lock);
+			_wait_awakes.remove(state);
+		}
 	}
 
 	LIBRF_API mutex_t::mutex_t()
-- 
2.43.0


From 7e5f98fb015ec81d47ebfd50e9aec55a7c42550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:44 +0000
Subject: [PATCH 26/26] fix: when_any moved out of the object that a sub-task's
 reference result refers to

A sub-task of type future_t<T&> yields a reference; decltype(auto) result is then an
lvalue reference, and std::move(result) stole the value of the object it refers to.
---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 34c6152..dd7f646 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -233,7 +233,7 @@ namespace librf
 				if (state->_winner.compare_exchange_strong(oldValue, idx))
 				{
 					value->first = idx;
-					value->second = std::move(result);
+					value->second = std::forward<decltype(result)>(result);	//结果可能是引用，不能移走它引用的对象
 
 					state->on_notify_one();
 				}
-- 
2.43.0

