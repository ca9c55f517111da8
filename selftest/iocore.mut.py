C = "aio/IOCore.cpp"
P = "aio/IOCore_epoll.cpp"
U = "aio/IOCore_iouring.cpp"
T = "aio/IOTask.cpp"
TE = "aio/IOTask_epoll.cpp"
TU = "aio/IOTask_iouring.cpp"
H = "aio/IOTask.h"
M = [
 # C01 conservation
 ("C01","bad",P,[("			myReadyQueue.PushPending(t);\n","			if (!t->myIsExpired || t->myReadyEvents != 0)\n				myReadyQueue.PushPending(t);\n")]),
 ("C01","bad",P,[("			if (t->myIndex >= 0)\n				myWaitingQueue.Remove(t);\n\n			if (oldState ==","			if (oldState ==")]),
 ("C01","bad",U,[("			if (task->myIndex >= 0)\n				myWaitingQueue.Remove(task);\n			ready.Append(task);","			ready.Append(task);")]),
 ("C01","bad",U,[("		myReadyQueue.FlushPending();\n","		if (evCount > 0) myReadyQueue.FlushPending();\n")]),
 ("C01","bad",C,[("				while (core.PrivExecute(myConsumer.Pop()) && ++batch < maxBatch)\n					continue;","				IOTask* t0;\n				while ((t0 = myConsumer.Pop()) != nullptr && ++batch < maxBatch)\n					core.PrivExecute(t0);")]),
 ("C01","bad",T,[("		if (oldStatus == IOTASK_STATUS_WAITING)\n			return myCore.PrivRePost(this);\n	}\n\n	void\n	IOTask::PostWakeup()","		if (oldStatus != IOTASK_STATUS_PENDING)\n			return myCore.PrivRePost(this);\n	}\n\n	void\n	IOTask::PostWakeup()")]),
 ("C01","ok",P,[("		t = ready.PopAll();\n		while (t != nullptr)\n		{\n			next = t->myNext;","		while (!ready.IsEmpty())\n		{\n			t = ready.PopFirst();\n			next = t;"),("			myReadyQueue.PushPending(t);\n			t = next;","			myReadyQueue.PushPending(t);\n			(void)next;")]),
 ("C01","ok",C,[("		if (aTask->PrivExecute())\n		{","		bool isAlive = aTask->PrivExecute();\n		if (isAlive)\n		{")]),
 ("C01","ok",C,[("				while (core.PrivExecute(myConsumer.Pop()) && ++batch < maxBatch)\n					continue;","				for (;;)\n				{\n					if (!core.PrivExecute(myConsumer.Pop()))\n						break;\n					if (++batch >= maxBatch)\n						break;\n				}")]),
 # C02 events
 ("C02","bad",P,[("			t->myPendingEvents |= evs[i].events;","			t->myPendingEvents = evs[i].events;")]),
 ("C02","bad",P,[("			t->myReadyEvents |= t->myPendingEvents;\n			t->myPendingEvents = 0;\n			t->myIsExpired = timestamp","			t->myReadyEvents = t->myPendingEvents;\n			t->myPendingEvents = 0;\n			t->myIsExpired = timestamp")]),
 ("C02","bad",P,[("		for (int i = 0; i < evCount; ++i)","		for (int i = 0; i + 1 < evCount; ++i)")]),
 ("C02","bad",P,[("			if (t->myPendingEvents != 0 || isExpired)","			if (isExpired)")]),
 ("C02","bad",TE,[("		aOutArgs.myEvents = myReadyEvents;\n		myReadyEvents = 0;","		aOutArgs.myEvents = myReadyEvents & EPOLLIN;\n		myReadyEvents = 0;")]),
 ("C02","bad",U,[("		io_uring_cq_advance(&myRing, evCount);","		io_uring_cq_advance(&myRing, MG_IOCORE_IOURING_BATCH);")]),
 ("C02","bad",U,[("			++task->myPendingEventCount;\n","			task->myPendingEventCount = 1;\n")]),
 ("C02","bad",U,[("				event->ReturnError(mg::box::ErrorCodeFromErrno(-cqe->res));","				event->ReturnBytes(0);")]),
 ("C02","bad",TU,[("		myOperationCount -= myReadyEventCount;\n","		if (myOperationCount > 0) --myOperationCount;\n")]),
 ("C02","ok",P,[("			t->myPendingEvents |= evs[i].events;","			uint32_t got = evs[i].events;\n			t->myPendingEvents = t->myPendingEvents | got;")]),
 ("C02","ok",U,[("			if (cqe->res >= 0)\n				event->ReturnBytes(cqe->res);\n			else\n				event->ReturnError(mg::box::ErrorCodeFromErrno(-cqe->res));","			int rc0 = cqe->res;\n			if (rc0 < 0)\n				event->ReturnError(mg::box::ErrorCodeFromErrno(-rc0));\n			else\n				event->ReturnBytes(rc0);")]),
 # C03 close
 ("C03","bad",P,[("				PrivKernelUnregister(t);\n","")]),
 ("C03","bad",P,[("			if (oldState == IOTASK_STATUS_CLOSING)\n			{","			if (oldState == IOTASK_STATUS_CLOSING && t->myPendingEvents == 0)\n			{")]),
 ("C03","bad",T,[("		return !myCloseGuard.ExchangeRelaxed(true);","		bool was = myCloseGuard.LoadRelaxed();\n		myCloseGuard.StoreRelaxed(true);\n		return !was;")]),
 ("C03","bad",T,[("		mg::net::SocketClose(mySocket);\n		mySocket = mg::net::theInvalidSocket;\n	}","		mg::net::SocketClose(mySocket);\n	}")]),
 ("C03","bad",T,[("ExchangeRelease(IOTASK_STATUS_CLOSING)","ExchangeRelaxed(IOTASK_STATUS_CLOSING)")]),
 ("C03","bad",U,[("				if (task->myOperationCount > task->myPendingEventCount)\n				{","				if (event != &task->myCancelEvent)\n				{")]),
 ("C03","bad",U,[("					task->myCancelEvent.Lock();\n					++task->myOperationCount;\n","					task->myCancelEvent.Lock();\n")]),
 ("C03","bad",U,[("				if (task->myPendingEventCount == task->myOperationCount)\n				{\n","				if (task->myPendingEventCount >= task->myOperationCount || isExpired)\n				{\n")]),
 ("C03","ok",T,[("		if (mySocket == mg::net::theInvalidSocket)\n			return;\n		mg::net::SocketClose(mySocket);\n		mySocket = mg::net::theInvalidSocket;\n	}","		if (mySocket != mg::net::theInvalidSocket)\n		{\n			mg::net::Socket s = mySocket;\n			mySocket = mg::net::theInvalidSocket;\n			mg::net::SocketClose(s);\n		}\n	}")]),
 ("C03","ok",U,[("				if (task->myOperationCount > task->myPendingEventCount)\n				{","				if (task->myPendingEventCount < task->myOperationCount)\n				{")]),
 # C04 lost wakeups
 ("C04","bad",C,[("		aTask->myStatus.CmpExchgStrongRelaxed(oldStatus, IOTASK_STATUS_PENDING);","		oldStatus = aTask->myStatus.ExchangeRelaxed(IOTASK_STATUS_PENDING);")]),
 ("C04","bad",T,[("			if (!myStatus.CmpExchgStrongRelaxed(newStatus, IOTASK_STATUS_READY))\n			{\n","			if (!myStatus.CmpExchgStrongRelaxed(newStatus, IOTASK_STATUS_READY))\n			{\n				if (newStatus == IOTASK_STATUS_WAITING) return;\n")]),
 ("C04","bad",P,[("				if (t->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_WAITING))","				oldState = t->myStatus.ExchangeRelaxed(IOTASK_STATUS_WAITING);\n				if (oldState == IOTASK_STATUS_PENDING)")]),
 ("C04","bad",U,[("				task->myStatus.CmpExchgStrongRelaxed(oldState, IOTASK_STATUS_READY);\n				MG_BOX_ASSERT(oldState","				task->myStatus.StoreRelaxed(IOTASK_STATUS_READY);\n				MG_BOX_ASSERT(oldState")]),
 ("C04","ok",T,[("		if (oldStatus == IOTASK_STATUS_WAITING)\n			return myCore.PrivRePost(this);\n	}\n\n	void\n	IOTask::PostWakeup()","		if (oldStatus != IOTASK_STATUS_WAITING)\n			return;\n		myCore.PrivRePost(this);\n	}\n\n	void\n	IOTask::PostWakeup()")]),
 # C05 deadlines
 ("C05","bad",P,[("			if (t->myDeadline > timestamp)\n				break;","			if (t->myDeadline > timestamp + 1)\n				break;")]),
 ("C05","bad",U,[("			if (timestamp >= deadline)\n				return false;\n			uint64_t duration = deadline - timestamp;","			if (timestamp >= deadline)\n				return false;\n			uint64_t duration = deadline;")]),
 ("C05","bad",P,[("					if (t->myDeadline != MG_TIME_INFINITE)\n						myWaitingQueue.Push(t);","					if (t->myDeadline > MG_TIME_INFINITE - 1)\n						myWaitingQueue.Push(t);")]),
 ("C05","bad",T,[("		myDeadline = MG_TIME_INFINITE;\n		theCurrentIOTask = this;","		theCurrentIOTask = this;")]),
 ("C05","bad",H,[("		if (aDeadline < myDeadline)\n			myDeadline = aDeadline;","		myDeadline = aDeadline;")]),
 ("C05","bad",H,[("		return myDeadline <= aTask.myDeadline;","		return aTask.myDeadline <= myDeadline;")]),
 ("C05","ok",H,[("		if (aDeadline < myDeadline)\n			myDeadline = aDeadline;","		if (myDeadline <= aDeadline)\n			return;\n		myDeadline = aDeadline;")]),
 ("C05","ok",H,[("		return myDeadline <= aTask.myDeadline;","		return !(aTask.myDeadline < myDeadline);")]),
 # C06 idle and stop
 ("C06","bad",C,[("		if (myFrontQueue.Push(aTask))\n			PrivPlatformSignal();","		if (!myFrontQueue.Push(aTask))\n			PrivPlatformSignal();")]),
 ("C06","bad",P,[("		if (myReadyQueue.Count() > 0 || !myPendingQueue.IsEmpty())\n			return true;","		if (myReadyQueue.Count() > 0)\n			return true;")]),
 ("C06","bad",U,[("				myToSubmitEvents.Prepend(&mySignalEvent);\n				continue;","				continue;")]),
 ("C06","bad",U,[("			!myPendingQueue.IsEmpty() ||\n","			!myPendingQueue.IsEmpty() /*\n"),("			!myToSubmitEvents.IsEmpty())\n			return true","			*/)\n			return true")]),
 ("C06","bad",P,[("		if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)\n		{","		else if (myState.LoadRelaxed() != IOCORE_STATE_RUNNING)\n		{")]),
 ("C06","bad",C,[("		bool old = myIsSchedulerWorking.ExchangeRelease(false);\n		MG_DEV_ASSERT(old);\n","		myReadySignal.Send();\n		bool old = myIsSchedulerWorking.ExchangeRelease(false);\n		MG_DEV_ASSERT(old);\n"),("		// waiting for the signal below.\n		myReadySignal.Send();","		// waiting for the signal below.")] if False else [("		while (!StopRequested())\n		{\n			do","		do\n		{\n			do"),("			core.PrivWaitReady();\n		}\n","			core.PrivWaitReady();\n			core.PrivWaitReady();\n		} while (!StopRequested());\n")]),
 ("C06","bad",C,[("			} while (batch == maxBatch);","			} while (false);")]),
 ("C06","bad",C,[("		myDescriptorCount.IncrementRelaxed();\n		PrivPost(aOutTask);","		PrivPost(aOutTask);\n		myDescriptorCount.IncrementRelaxed();")]),
 ("C06","bad",C,[("		for (IOCoreWorker* w : myWorkers)\n			w->Stop();\n","		myWorkers[0]->Stop();\n")]),
 ("C06","bad",C,[("			w->StopAndDelete();\n","			if (w != myWorkers[0]) w->StopAndDelete();\n")]),
 ("C06","ok",C,[("		for (IOCoreWorker* w : myWorkers)\n			w->Stop();\n","		for (size_t i = 0; i < myWorkers.size(); ++i)\n			myWorkers[i]->Stop();\n")]),
 ("C06","bad",C,[("		core.PrivSignalReady();\n","")]),
 ("C06","bad",C,[("		MG_BOX_ASSERT(WaitEmpty() == 0);\n		Stop();","		Stop();")]),
 ("C06","ok",C,[("		uint32_t count = myDescriptorCount.LoadRelaxed();\n		if (count == 0)\n			return 0;\n","		uint32_t count = myDescriptorCount.LoadRelaxed();\n		if (count < 1)\n			return count;\n")]),
 ("C06","ok",P,[("			if (duration > INT_MAX)\n				duration = INT_MAX;\n			pollTimeout = (int)duration;","			pollTimeout = duration > INT_MAX ? INT_MAX : (int)duration;")]),
 ("C06","ok",C,[("			} while (batch == maxBatch);","			} while (batch >= maxBatch);")]),
 # C07 untouched
 ("C07","bad",T,[("			listener.Clear();\n			return false;","			listener.Clear();\n			myIsExpired = false;\n			return false;")]),
 ("C07","bad",C,[("		if (myFrontQueue.Push(aTask))\n			PrivPlatformSignal();","		if (myFrontQueue.Push(aTask) || aTask->myIsClosed)\n			PrivPlatformSignal();")]),
 ("C07","bad",P,[("			myReadyQueue.PushPending(t);\n			t = next;\n		}\n		myReadyQueue.FlushPending();","			myReadyQueue.PushPending(t);\n			myReadyQueue.FlushPending();\n			t->myIsExpired = false;\n			t = next;\n		}\n		myReadyQueue.FlushPending();")]),
 ("C07","bad",T,[("		if (oldStatus == IOTASK_STATUS_READY)\n			return;\n","		if (oldStatus == IOTASK_STATUS_READY)\n		{\n			myIsExpired = false;\n			return;\n		}\n")]),
]
