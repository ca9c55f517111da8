From 46a95fa6d609cf21a7071c23273bec280174f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 01/21] fix: order the last reference drop after other threads'
 accesses

RefCount::Dec() was relaxed, so accesses of one thread to a shared object
were not ordered before its deletion by another thread.
---
 src/mg/box/RefCount.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/RefCount.h b/src/mg/box/RefCount.h
index 7728bc9..df25ec3 100644
--- a/src/mg/box/RefCount.h
+++ b/src/mg/box/RefCount.h
@@ -57,7 +57,7 @@ namespace box {
 	inline bool
 	RefCount::Dec()
 	{
-		int32_t newValue = myCount.DecrementFetchRelaxed();
+		int32_t newValue = myCount.DecrementFetchAcqRel();
 		MG_DEV_ASSERT(newValue >= 0);
 		return newValue == 0;
 	}
-- 
2.43.0


From 23aafd3c64a09ff37864af8d6864f6f74f753d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 02/21] fix: don't leak a reference when moving a pointer to
 the same object

A move-assignment from another pointer which owned a reference to the same
object emptied that pointer without dropping its reference.
---
 src/mg/box/SharedPtr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mg/box/SharedPtr.h b/src/mg/box/SharedPtr.h
index 6bae606..a24a177 100644
--- a/src/mg/box/SharedPtr.h
+++ b/src/mg/box/SharedPtr.h
@@ -233,7 +233,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
+		if (this != &aOther)
 			PrivUnref(oldObj);
 		return *this;
 	}
@@ -249,8 +249,7 @@ protected:																					\
 		T* newObj = aOther.myObject;
 		aOther.myObject = nullptr;
 		myObject = newObj;
-		if (newObj != oldObj)
-			PrivUnref(oldObj);
+		PrivUnref(oldObj);
 		return *this;
 	}
 
-- 
2.43.0


From e8eb42177543f6f798a9144ec9c1c40c4ccecb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:16 +0000
Subject: [PATCH 03/21] fix: let a scheduling step handle tasks when the batch
 size is one

With a sub-queue size of 1 and one worker the batch limit was
already reached before the first task, and nothing posted to the
scheduler was ever executed.
---
 src/mg/sch/TaskScheduler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index e19518d..c4c9ee7 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -169,7 +169,7 @@ namespace sch {
 		// the front queue, so must be handled first.
 
 		batch = 0;
-		while (myQueueWaiting.Count() > 0 && ++batch < maxBatch)
+		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)
 		{
 			t = myQueueWaiting.GetTop();
 			if (t->myDeadline > timestamp)
@@ -214,7 +214,7 @@ namespace sch {
 		t = myQueueFront.PopAll(tail);
 		myQueuePending.Append(t, tail);
 		batch = 0;
-		while (!myQueuePending.IsEmpty() && ++batch < maxBatch)
+		while (!myQueuePending.IsEmpty() && batch++ < maxBatch)
 		{
 			t = myQueuePending.PopFirst();
 			t->myNext = nullptr;
-- 
2.43.0


From 7c34bbf631f8779f945019d54bc7b6c386d1dc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:48 +0000
Subject: [PATCH 04/21] fix: don't report the scheduler empty while a task is
 executed

The ready queue was checked after the worker states. A worker already
seen as idle could take the last ready task in between, and be still
executing it while the scheduler was reported empty. Also make what
the tasks did visible to the thread which saw the workers idle.
---
 src/mg/sch/TaskScheduler.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mg/sch/TaskScheduler.cpp b/src/mg/sch/TaskScheduler.cpp
index c4c9ee7..55677ea 100644
--- a/src/mg/sch/TaskScheduler.cpp
+++ b/src/mg/sch/TaskScheduler.cpp
@@ -49,6 +49,15 @@ namespace sch {
 	TaskScheduler::IsEmpty()
 	{
 		PrivSchedulerLock();
+		// The ready queue must be checked before the workers. While the scheduler-role is
+		// taken, nothing new gets ready. So if the queue is empty here, then all its tasks
+		// were already taken by the workers which still have to be seen as running below.
+		// Otherwise a worker seen idle could take a ready task right after that.
+		if (myQueueReady.Count() != 0)
+		{
+			PrivSchedulerUnlock();
+			return false;
+		}
 		for (TaskSchedulerThread* worker : myThreads)
 		{
 			// It is important to check the worker states. Even if all the queues are
@@ -64,8 +73,7 @@ namespace sch {
 		bool isEmpty =
 			myQueueFront.IsEmpty() &&
 			myQueueWaiting.Count() == 0 &&
-			myQueuePending.IsEmpty() &&
-			myQueueReady.Count() == 0;
+			myQueuePending.IsEmpty();
 		PrivSchedulerUnlock();
 		return isEmpty;
 	}
@@ -388,7 +396,8 @@ namespace sch {
 	inline TaskSchedulerWorkerState
 	TaskSchedulerThread::GetState() const
 	{
-		return myState.LoadRelaxed();
+		// Acquire to sync with everything done by the tasks before the worker got idle.
+		return myState.LoadAcquire();
 	}
 
 	void
@@ -409,10 +418,10 @@ namespace sch {
 				myExecuteCount.AddRelaxed(batch);
 			} while (batch == maxBatch);
 			MG_DEV_ASSERT(batch < maxBatch);
-			myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+			myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 			myScheduler->PrivWaitReady();
 		}
-		myState.StoreRelaxed(TASK_SCHEDULER_WORKER_STATE_IDLE);
+		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);
 		myScheduler->PrivSignalReady();
 		MG_BOX_ASSERT(TaskScheduler::ourCurrent == myScheduler);
 		TaskScheduler::ourCurrent = nullptr;
-- 
2.43.0


From bb3c04c216a7330ff37fcb3720a753ead875acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 05/21] fix: don't sleep till a task's deadline when the IO
 core is being stopped

If the stop signal was consumed by the scheduling step itself, the scheduler
went to sleep on the nearest deadline, and Stop() waited for that long.
---
 src/mg/aio/IOCore_epoll.cpp   | 2 +-
 src/mg/aio/IOCore_iouring.cpp | 2 +-
 src/mg/aio/IOCore_kqueue.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/IOCore_epoll.cpp b/src/mg/aio/IOCore_epoll.cpp
index 9837e67..ef759f5 100644
--- a/src/mg/aio/IOCore_epoll.cpp
+++ b/src/mg/aio/IOCore_epoll.cpp
@@ -347,7 +347,7 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
 		{
 			// The scheduler might be woken up by the special event for shutting down.
 			// Need to exit instead of going into the infinite sleep.
diff --git a/src/mg/aio/IOCore_iouring.cpp b/src/mg/aio/IOCore_iouring.cpp
index 2103a4f..fc59eea 100644
--- a/src/mg/aio/IOCore_iouring.cpp
+++ b/src/mg/aio/IOCore_iouring.cpp
@@ -497,7 +497,7 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
 		{
 			// The scheduler might be woken up by the special event for shutting down.
 			// Need to exit instead of going into the infinite sleep.
diff --git a/src/mg/aio/IOCore_kqueue.cpp b/src/mg/aio/IOCore_kqueue.cpp
index da7cdd7..186ea7a 100644
--- a/src/mg/aio/IOCore_kqueue.cpp
+++ b/src/mg/aio/IOCore_kqueue.cpp
@@ -357,7 +357,7 @@ namespace aio {
 				duration = INT_MAX;
 			pollTimeout = (int)duration;
 		}
-		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
+		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)
 		{
 			// The scheduler might be woken up by the special event for shutting down.
 			// Need to exit instead of going into the infinite sleep.
-- 
2.43.0


From fd9ccdade58e05efe469835ba83c637dabcf518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:56 +0000
Subject: [PATCH 06/21] fix: repeated PostClose of a TCPServer being closed
 crashed

A second PostClose() during the closing marked the server as closed too early
and failed an assertion about the subscription, which is still set then. And
a PostClose() right after the state became closed could see the subscription
not nullified yet.
---
 src/mg/aio/TCPServer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mg/aio/TCPServer.cpp b/src/mg/aio/TCPServer.cpp
index 8929b2c..6b0ab55 100644
--- a/src/mg/aio/TCPServer.cpp
+++ b/src/mg/aio/TCPServer.cpp
@@ -56,6 +56,9 @@ namespace aio {
 			myTask.PostClose();
 			return;
 		}
+		// The close is already in progress. It is finished by OnEvent().
+		if (myState == TCP_SERVER_STATE_CLOSING)
+			return;
 		myState = TCP_SERVER_STATE_CLOSED;
 		MG_BOX_ASSERT(mySub == nullptr);
 		delete myBoundSocket;
@@ -99,13 +102,12 @@ namespace aio {
 			MG_BOX_ASSERT(myState == TCP_SERVER_STATE_CLOSING &&
 				"TCPServer is killed externally");
 			myState = TCP_SERVER_STATE_CLOSED;
-			myMutex.Unlock();
-			// Can access members here safely, because the server is kept alive by IOCore
-			// until the end of OnEvent().
 			TCPServerSubscription* sub = mySub;
 			// Nullify before the callback. Because the server might be deleted by the
-			// callback.
+			// callback. And under the lock, because a concurrent PostClose() of a closed
+			// server expects it being null.
 			mySub = nullptr;
+			myMutex.Unlock();
 			sub->OnClose();
 			return;
 		}
-- 
2.43.0


From 4ba9947e7b94f0ec9595e1f7d51ba65cb01ec890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:20 +0000
Subject: [PATCH 07/21] fix: IOTask::Accept did not reschedule after a
 non-critical error

It is documented that the task is already re-scheduled then, and io_uring does
so. With the edge-triggered epoll and kqueue a user relying on that never
accepted the clients which were left in the backlog.
---
 src/mg/aio/IOTask_epoll.cpp  | 6 ++++++
 src/mg/aio/IOTask_kqueue.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mg/aio/IOTask_epoll.cpp b/src/mg/aio/IOTask_epoll.cpp
index ef224ac..455651f 100644
--- a/src/mg/aio/IOTask_epoll.cpp
+++ b/src/mg/aio/IOTask_epoll.cpp
@@ -212,9 +212,15 @@ namespace aio {
 		// unfair to other tasks.
 		mg::box::ErrorCode errCode = mg::box::ErrorCodeFromErrno(err);
 		if (mg::net::SocketIsAcceptErrorCritical(errCode))
+		{
 			aEvent.ReturnError(errCode);
+		}
 		else
+		{
 			aEvent.ReturnEmpty();
+			// The kernel won't report the clients, which are still in the backlog, again.
+			Reschedule();
+		}
 		return mg::net::theInvalidSocket;
 	}
 
diff --git a/src/mg/aio/IOTask_kqueue.cpp b/src/mg/aio/IOTask_kqueue.cpp
index 2857dc4..23543e5 100644
--- a/src/mg/aio/IOTask_kqueue.cpp
+++ b/src/mg/aio/IOTask_kqueue.cpp
@@ -214,9 +214,15 @@ namespace aio {
 		// to other tasks.
 		mg::box::ErrorCode errCode = mg::box::ErrorCodeFromErrno(err);
 		if (mg::net::SocketIsAcceptErrorCritical(errCode))
+		{
 			aEvent.ReturnError(errCode);
+		}
 		else
+		{
 			aEvent.ReturnEmpty();
+			// The kernel won't report the clients, which are still in the backlog, again.
+			Reschedule();
+		}
 		return mg::net::theInvalidSocket;
 	}
 
-- 
2.43.0


From a784e2196a51864ce3aae7587d7a31ecb09ed0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:04 +0000
Subject: [PATCH 08/21] fix: TCP socket didn't start a receive requested in
 OnSend

Receives are started before sends in the socket's event handler. A
Recv() done in OnSend() when nothing was being received had to wait for
an unrelated event which could never come.
---
 src/mg/aio/TCPSocketIFace.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mg/aio/TCPSocketIFace.cpp b/src/mg/aio/TCPSocketIFace.cpp
index 498966b..32c6bf0 100644
--- a/src/mg/aio/TCPSocketIFace.cpp
+++ b/src/mg/aio/TCPSocketIFace.cpp
@@ -460,6 +460,10 @@ namespace aio {
 	{
 		MG_DEV_ASSERT(myTask.IsInWorkerNow());
 		mySub->OnSend(aByteCount);
+		// Receiving is always tried before sending. If the callback requested more data
+		// and no receive is in progress, then it wouldn't be started by anything else.
+		if (myRecvSize != 0 && !myRecvEvent.IsLocked())
+			myTask.Reschedule();
 	}
 
 	void
-- 
2.43.0


From 150176d7bff45fd3832c97ea6a6a6eed11088ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:27 +0000
Subject: [PATCH 09/21] fix: SSLSocket could deliver data before OnConnect

The last message of the peer's handshake could come together with its
first data, which then was decrypted and given to OnRecv() right away:
before OnConnect(), and even without a request. The data now waits for
the end of the handshake, and for a request.
---
 src/mg/aio/SSLSocket.cpp | 31 +++++++++++++++++++++++++++----
 src/mg/aio/SSLSocket.h   |  3 +++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/mg/aio/SSLSocket.cpp b/src/mg/aio/SSLSocket.cpp
index 8fff3c7..bcdb8f3 100644
--- a/src/mg/aio/SSLSocket.cpp
+++ b/src/mg/aio/SSLSocket.cpp
@@ -19,6 +19,7 @@ namespace aio {
 		IOCore& aCore)
 		: TCPSocketIFace(aCore)
 		, mySSL(nullptr)
+		, myHasEncrypted(false)
 	{
 	}
 
@@ -29,6 +30,7 @@ namespace aio {
 		ProtOpen();
 		myEncSendQueue.Clear();
 		mySentSize = 0;
+		myHasEncrypted = false;
 		delete mySSL;
 		mySSL = new mg::net::SSLStream(aParams.mySSL);
 		if (aParams.myDoEncrypt)
@@ -232,6 +234,8 @@ namespace aio {
 	void
 	SSLSocket::PrivRecv()
 	{
+		if (myHasEncrypted && myRecvSize > 0 && ProtWasHandshakeDone())
+			PrivRecvDecrypt();
 		if (!PrivRecvEventConsume())
 			return;
 		if (myRecvSize == 0)
@@ -265,9 +269,31 @@ namespace aio {
 			return;
 		}
 		myEncRecvQueue.PropagateWritePos(aByteCount);
+		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
+		myHasEncrypted = true;
+		// If this was a part of the handshake, then need to handle it on a next wakeup.
+		// The data, which came right after the handshake's end, waits for it. And also it
+		// always waits for a request.
+		if (ProtWasHandshakeDone())
+		{
+			if (myRecvSize > 0)
+				PrivRecvDecrypt();
+			return;
+		}
+		if (!mySSL->Update())
+		{
+			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
+			return;
+		}
+		myTask.Reschedule();
+	}
+
+	void
+	SSLSocket::PrivRecvDecrypt()
+	{
+		myHasEncrypted = false;
 		uint64_t recvSizeWas = myRecvSize;
 		myRecvSize = 0;
-		mySSL->AppendNetInputRef(myEncRecvQueue.PopData());
 		mg::net::Buffer::Ptr head;
 		mySSL->PopAppOutput(head);
 		myRecvQueue.WriteRef(std::move(head));
@@ -276,9 +302,6 @@ namespace aio {
 			ProtOnRecvError(mg::net::ErrorRaiseSSL(mySSL->GetError(), "decrypt"));
 			return;
 		}
-		// If this was a part of the handshake, then need to handle it on a next wakeup.
-		if (!ProtWasHandshakeDone())
-			myTask.Reschedule();
 		if (!myRecvQueue.IsEmpty())
 		{
 			mg::net::BufferReadStream stream(myRecvQueue);
diff --git a/src/mg/aio/SSLSocket.h b/src/mg/aio/SSLSocket.h
index 89e3794..19b0905 100644
--- a/src/mg/aio/SSLSocket.h
+++ b/src/mg/aio/SSLSocket.h
@@ -61,6 +61,7 @@ namespace aio {
 			mg::box::Error* aError);
 		void PrivRecvCommit(
 			uint32_t aByteCount);
+		void PrivRecvDecrypt();
 		bool PrivRecvEventConsume();
 
 		// SSL socket, on the contrary with TCP-one, has 2 pairs of queues, not one.
@@ -107,6 +108,8 @@ namespace aio {
 		// flush inside Encrypt() method. It would be a bad incident to start invoking
 		// user callbacks right in the user-called methods.
 		uint64_t mySentSize;
+		// Some received data was given to SSL but not decrypted for the user yet.
+		bool myHasEncrypted;
 	};
 
 }
-- 
2.43.0


From 6c5a1f33448992551642ebe3af1aa3ca6cae989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:20 +0000
Subject: [PATCH 10/21] fix: shutdown requested just before a late connect
 crashed

PostShutdown() is allowed for a socket posted without a connection. If
it wasn't yet handled by the worker thread when Connect() was called,
then an assertion failed.
---
 src/mg/aio/TCPSocketCtl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mg/aio/TCPSocketCtl.cpp b/src/mg/aio/TCPSocketCtl.cpp
index 278a8f2..373b037 100644
--- a/src/mg/aio/TCPSocketCtl.cpp
+++ b/src/mg/aio/TCPSocketCtl.cpp
@@ -130,11 +130,11 @@ namespace aio {
 	TCPSocketCtl::AddConnect(
 		const TCPSocketCtlConnectParams& aParams)
 	{
-		// Connect or attach are mutually exclusive and are always the first ctl. Shutdown
-		// couldn't be requested before them.
+		// Connect or attach are mutually exclusive. Shutdown could be requested before the
+		// connect by another thread, if the task was started without a socket. Then it
+		// waits for the connect's end.
 		MG_BOX_ASSERT(!myHasConnect);
 		MG_BOX_ASSERT(!myHasAttach);
-		MG_BOX_ASSERT(!myHasShutdown);
 		MG_BOX_ASSERT(myConnectSocket == mg::net::theInvalidSocket);
 		MG_BOX_ASSERT(myConnectDomain == nullptr);
 		MG_BOX_ASSERT(!myConnectIsStarted);
-- 
2.43.0


From 7577d6c4c354ec3bef18795b4b70ea287465009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 11/21] fix: SocketSetNoDelay() did the opposite of what was
 asked

TCP_NODELAY was set to 0 when no-delay was turned on, and to 1 when it was
turned off.
---
 src/mg/net/Socket_Unix.cpp | 2 +-
 src/mg/net/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/net/Socket_Unix.cpp b/src/mg/net/Socket_Unix.cpp
index f6892d9..0b212a7 100755
--- a/src/mg/net/Socket_Unix.cpp
+++ b/src/mg/net/Socket_Unix.cpp
@@ -196,7 +196,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int optValue = aValue ? 0 : 1;
+		int optValue = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			&optValue, sizeof(optValue)) == 0;
 		if (!ok)
diff --git a/src/mg/net/Socket_Win.cpp b/src/mg/net/Socket_Win.cpp
index fc2be1a..9d6b11a 100755
--- a/src/mg/net/Socket_Win.cpp
+++ b/src/mg/net/Socket_Win.cpp
@@ -92,7 +92,7 @@ namespace net {
 		bool aValue,
 		mg::box::Error::Ptr& aOutErr)
 	{
-		int value = aValue ? 0 : 1;
+		int value = aValue ? 1 : 0;
 		bool ok = setsockopt(aSock, IPPROTO_TCP, TCP_NODELAY,
 			(const char*)&value, sizeof(value)) == 0;
 		if (!ok)
-- 
2.43.0


From 58894fe59d87bbd7a106876323a76f2909c4811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 12/21] fix: sio connect failure lost its reason, or was not
 told at all

When poll() reported a failed connect, its real error taken from the socket was
replaced with a generic one. And when the socket had no error, then no error was
told at all, making the connect look like still being in progress.
---
 src/mg/sio/Socket_Unix.cpp | 2 +-
 src/mg/sio/Socket_Win.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index 1a6bb15..cdbef8c 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -128,7 +128,7 @@ namespace sio {
 		MG_DEV_ASSERT(rc == 1);
 		if (fd.revents == POLLOUT)
 			return true;
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
diff --git a/src/mg/sio/Socket_Win.cpp b/src/mg/sio/Socket_Win.cpp
index 6bf0d26..3c9587b 100755
--- a/src/mg/sio/Socket_Win.cpp
+++ b/src/mg/sio/Socket_Win.cpp
@@ -114,7 +114,7 @@ namespace sio {
 		if (FD_ISSET(aSock, &writeSet))
 			return true;
 		MG_BOX_ASSERT(FD_ISSET(aSock, &errSet));
-		if (!mg::net::SocketCheckState(aSock, aOutErr))
+		if (mg::net::SocketCheckState(aSock, aOutErr))
 			aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, "async connect");
 		return false;
 	}
-- 
2.43.0


From 59e306b36a3232046a51334b959b9bb5dfabbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:13 +0000
Subject: [PATCH 13/21] fix: sio send of empty buffers failed with a random
 error

sendmsg() returns 0 for no data. That was asserted against in debug, and was
handled as a failure with an unrelated errno in release.
---
 src/mg/sio/Socket_Unix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mg/sio/Socket_Unix.cpp b/src/mg/sio/Socket_Unix.cpp
index cdbef8c..49b13e0 100755
--- a/src/mg/sio/Socket_Unix.cpp
+++ b/src/mg/sio/Socket_Unix.cpp
@@ -147,9 +147,9 @@ namespace sio {
 		msg.msg_iov = mg::box::IOVecToNative(aBuffers);
 		msg.msg_iovlen = aBufferCount;
 		ssize_t rc = sendmsg(aSock, &msg, 0);
-		if (rc > 0)
+		// Zero is returned when the buffers have no data in them. It is not an error.
+		if (rc >= 0)
 			return rc;
-		MG_DEV_ASSERT(rc < 0);
 		if (errno == EWOULDBLOCK || errno == EAGAIN)
 			aOutErr.Clear();
 		else
-- 
2.43.0


From 52e709221e6cb8d511a01540d634591b52e79aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:39 +0000
Subject: [PATCH 14/21] fix: move of an empty DomainToIPRequest into an empty
 one asserted

---
 src/mg/net/DomainToIP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/net/DomainToIP.cpp b/src/mg/net/DomainToIP.cpp
index 5964937..04770bd 100755
--- a/src/mg/net/DomainToIP.cpp
+++ b/src/mg/net/DomainToIP.cpp
@@ -125,7 +125,7 @@ namespace net {
 	{
 		if (this == &aOther)
 			return *this;
-		MG_DEV_ASSERT(myCtx != aOther.myCtx);
+		MG_DEV_ASSERT(myCtx == nullptr || myCtx != aOther.myCtx);
 		if (myCtx != nullptr)
 			myCtx->PrivUnref();
 		myCtx = aOther.myCtx;
-- 
2.43.0


From fa71b3cad5f2ef2c4274e0f858487f7685baebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:35 +0000
Subject: [PATCH 15/21] fix: move of an empty ForwardList

The new list's last link pointed into the source list. The first
append went to the source list instead of the new one.
---
 src/mg/box/ForwardList.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ForwardList.h b/src/mg/box/ForwardList.h
index 0331f99..29c81fe 100644
--- a/src/mg/box/ForwardList.h
+++ b/src/mg/box/ForwardList.h
@@ -211,9 +211,16 @@ namespace box {
 	ForwardList<T, myLink>::ForwardList(
 		ForwardList&& aList)
 		: myFirst(aList.myFirst)
-		, myLastLink(aList.myLastLink)
 	{
-		aList.Clear();
+		if (myFirst != nullptr)
+		{
+			myLastLink = aList.myLastLink;
+			aList.Clear();
+		}
+		else
+		{
+			myLastLink = &myFirst;
+		}
 	}
 
 	template<typename T, T* T::*myLink>
-- 
2.43.0


From da5a5c55230cc8ea8b677372c99ec43c5248f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 16/21] fix: AtomicI8 must be signed

---
 src/mg/box/Atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mg/box/Atomic.h b/src/mg/box/Atomic.h
index aa8db5f..9b8aee1 100644
--- a/src/mg/box/Atomic.h
+++ b/src/mg/box/Atomic.h
@@ -268,7 +268,7 @@ namespace box {
 	using AtomicU16 = Atomic<uint16_t>;
 	using AtomicU32 = Atomic<uint32_t>;
 	using AtomicU64 = Atomic<uint64_t>;
-	using AtomicI8 = Atomic<uint8_t>;
+	using AtomicI8 = Atomic<int8_t>;
 	using AtomicI16 = Atomic<int16_t>;
 	using AtomicI32 = Atomic<int32_t>;
 	using AtomicI64 = Atomic<int64_t>;
-- 
2.43.0


From 52b99ad71768c8aa130ec37777225757c4709483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 17/21] fix: a data race on the owner of Mutex

---
 src/mg/box/ConditionVariable.cpp | 16 ++++++++--------
 src/mg/box/Mutex.cpp             |  8 ++++----
 src/mg/box/Mutex.h               |  5 +++--
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 7f20b11..13dee96 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -11,15 +11,15 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		myHandle.wait(aMutex.myHandle);
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 	}
 
@@ -30,17 +30,17 @@ namespace box {
 	{
 		MG_BOX_ASSERT(aMutex.IsOwnedByThisThread());
 		MG_BOX_ASSERT(aMutex.myCount == 1);
-		uint32_t tid = aMutex.myOwner;
-		aMutex.myOwner = 0;
+		uint32_t tid = aMutex.myOwner.LoadRelaxed();
+		aMutex.myOwner.StoreRelaxed(0);
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
 		bool ok = myHandle.wait_for(aMutex.myHandle,
 			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
 
-		MG_BOX_ASSERT(aMutex.myOwner == 0);
+		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-		aMutex.myOwner = tid;
+		aMutex.myOwner.StoreRelaxed(tid);
 		aMutex.myCount = 1;
 
 		return ok;
diff --git a/src/mg/box/Mutex.cpp b/src/mg/box/Mutex.cpp
index 31ca8e7..75b073f 100644
--- a/src/mg/box/Mutex.cpp
+++ b/src/mg/box/Mutex.cpp
@@ -25,7 +25,7 @@ namespace box {
 		if (TryLock())
 			return;
 		myHandle.lock();
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 	}
@@ -44,7 +44,7 @@ namespace box {
 			theMutexStartContentCount.IncrementRelaxed();
 			return false;
 		}
-		myOwner = GetCurrentThreadId();
+		myOwner.StoreRelaxed(GetCurrentThreadId());
 		MG_DEV_ASSERT(myCount == 0);
 		myCount = 1;
 		return true;
@@ -56,7 +56,7 @@ namespace box {
 		MG_BOX_ASSERT(IsOwnedByThisThread());
 		if (myCount == 1)
 		{
-			myOwner = 0;
+			myOwner.StoreRelaxed(0);
 			myCount = 0;
 			myHandle.unlock();
 			return;
@@ -68,7 +68,7 @@ namespace box {
 	bool
 	Mutex::IsOwnedByThisThread() const
 	{
-		return myOwner == GetCurrentThreadId();
+		return myOwner.LoadRelaxed() == GetCurrentThreadId();
 	}
 
 }
diff --git a/src/mg/box/Mutex.h b/src/mg/box/Mutex.h
index 570c4ea..9f1d4b4 100644
--- a/src/mg/box/Mutex.h
+++ b/src/mg/box/Mutex.h
@@ -21,7 +21,7 @@ namespace box {
 	{
 	public:
 		Mutex() : myOwner(0), myCount(0) {}
-		~Mutex() { MG_BOX_ASSERT(myOwner == 0 && myCount == 0); }
+		~Mutex() { MG_BOX_ASSERT(myOwner.LoadRelaxed() == 0 && myCount == 0); }
 
 		void Lock();
 		bool TryLock();
@@ -33,7 +33,8 @@ namespace box {
 			const Mutex&) = delete;
 
 		std::mutex myHandle;
-		uint32_t myOwner;
+		// Is read by the threads not owning the mutex too.
+		mg::box::AtomicU32 myOwner;
 		uint32_t myCount;
 
 		friend class ConditionVariable;
-- 
2.43.0


From 88ef22e7f010a9af5ed0b72f4f56df18b667f4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 18/21] fix: ConditionVariable::TimedWait() with a huge timeout
 returned at once

---
 src/mg/box/ConditionVariable.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mg/box/ConditionVariable.cpp b/src/mg/box/ConditionVariable.cpp
index 13dee96..a624906 100644
--- a/src/mg/box/ConditionVariable.cpp
+++ b/src/mg/box/ConditionVariable.cpp
@@ -5,6 +5,10 @@
 namespace mg {
 namespace box {
 
+	// A bigger timeout (including the infinite one) would overflow the std clock when
+	// converted to nanoseconds and added to the current time. The wait would be over at once.
+	static constexpr uint64_t theMaxTimeout = 100ULL * 365 * 24 * 3600 * 1000;
+
 	void
 	ConditionVariable::Wait(
 		Mutex& aMutex)
@@ -35,8 +39,16 @@ namespace box {
 		aMutex.myCount = 0;
 
 		uint64_t timeout = aTimeLimit.ToDurationFromNow().myValue;
-		bool ok = myHandle.wait_for(aMutex.myHandle,
-			std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		bool ok = true;
+		if (timeout > theMaxTimeout)
+		{
+			myHandle.wait(aMutex.myHandle);
+		}
+		else
+		{
+			ok = myHandle.wait_for(aMutex.myHandle,
+				std::chrono::milliseconds(timeout)) != std::cv_status::timeout;
+		}
 
 		MG_BOX_ASSERT(aMutex.myOwner.LoadRelaxed() == 0);
 		MG_BOX_ASSERT(aMutex.myCount == 0);
-- 
2.43.0


From 2b9a10005f8ec8a423f9e5bdb70bc7c9799d8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 19/21] fix: BufferStream::PropagateWritePos(0) lost the data

---
 src/mg/net/Buffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 682760e..5c0e563 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -139,6 +139,8 @@ namespace net {
 	BufferStream::PropagateWritePos(
 		uint64_t aSize)
 	{
+		if (aSize == 0)
+			return;
 		MG_DEV_ASSERT(myWSize >= aSize);
 		myWPos = BuffersPropagateOnWrite(myWPos, aSize);
 		myWSize -= aSize;
-- 
2.43.0


From 4b7504a128fd5b8b56d97ebf23d8877830bed0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 20/21] fix: BufferStream::WriteCopy() into several reserved
 buffers

---
 src/mg/net/Buffer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 5c0e563..8df897d 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -198,16 +198,20 @@ namespace net {
 			}
 			memcpy(myWPos->myWData + myWPos->myPos, aData, cap);
 			myWPos->myPos = myWPos->myCapacity;
+			myREnd = myWPos;
+			// Next buffers could be already reserved.
+			myWPos = myWPos->myNext.GetPointer();
+			myWSize -= cap;
 			if (cap == aSize)
 			{
-				myREnd = myWPos;
-				myWPos = nullptr;
-				myWSize = 0;
 				PrivCheck();
 				return;
 			}
 			aData = (const uint8_t*)aData + cap;
 			aSize -= cap;
+			if (myWPos != nullptr)
+				continue;
+			MG_DEV_ASSERT(myWSize == 0);
 			MG_DEV_ASSERT(myHead.IsSet());
 			MG_DEV_ASSERT(myTail->myPos == myTail->myCapacity);
 			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();
-- 
2.43.0


From 99f1b86d9432e7103b98c90bee028debaf3f7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:51 +0000
Subject: [PATCH 21/21] fix: BufferLinkList altered the shared buffers when
 skipping empty ones

---
 src/mg/net/Buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mg/net/Buffer.cpp b/src/mg/net/Buffer.cpp
index 8df897d..d58354c 100755
--- a/src/mg/net/Buffer.cpp
+++ b/src/mg/net/Buffer.cpp
@@ -82,7 +82,8 @@ namespace net {
 					MG_DEV_ASSERT(aByteOffset == head->myPos);
 					aByteOffset = 0;
 				}
-				head = std::move(head->myNext);
+				// The buffers can be shared by multiple links. Must not be altered.
+				head = Buffer::Ptr(head->myNext);
 			}
 			link = link->myNext;
 			delete myLinks.PopFirst();
-- 
2.43.0

