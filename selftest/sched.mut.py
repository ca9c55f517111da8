S = "sch/TaskScheduler.cpp"
K = "sch/Task.cpp"
M = [
 # T01 conservation
 ("T01","bad",S,[("			t->myNext = nullptr;\n			myQueueReady.PushPending(t);\n","			t->myNext = nullptr;\n			if (!t->myIsExpired || t->myIndex < 0)\n				myQueueReady.PushPending(t);\n")]),
 ("T01","bad",S,[("				MG_DEV_ASSERT(old == TASK_STATUS_READY ||\n					old == TASK_STATUS_SIGNALED);\n				// The task is woken","				// The task is woken"),("				// thread.\n				continue;\n","				// thread.\n")]),
 ("T01","bad",S,[("			if (t->myIndex >= 0)\n				myQueueWaiting.Remove(t);\n			ready.Append(t);","			ready.Append(t);")]),
 ("T01","bad",S,[("		t = myQueueFront.PopAll(tail);\n		myQueuePending.Append(t, tail);","		t = myQueueFront.PopAll(tail);\n		if (myQueuePending.IsEmpty())\n			myQueuePending.Append(t, tail);")]),
 ("T01","bad",S,[("		myQueueReady.FlushPending();\n","		if (myQueuePending.IsEmpty()) myQueueReady.FlushPending();\n")]),
 ("T01","bad",S,[("				// Normal task reached","				// x"),("				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))\n				{","				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))\n				{\n					ready.Append(t);")]),
 ("T01","bad",S,[("				while (myScheduler->PrivExecute(myConsumer.Pop()) && ++batch < maxBatch);","				Task* t0;\n				while ((t0 = myConsumer.Pop()) != nullptr && ++batch < maxBatch)\n					myScheduler->PrivExecute(t0);")]),
 ("T01","ok",S,[("				while (myScheduler->PrivExecute(myConsumer.Pop()) && ++batch < maxBatch);","				for (;;)\n				{\n					Task* t0 = myConsumer.Pop();\n					if (!myScheduler->PrivExecute(t0))\n						break;\n					if (++batch >= maxBatch)\n						break;\n				}")]),
 ("T01","ok",S,[("		t = ready.PopAll();\n		while (t != nullptr)\n		{\n			next = t->myNext;","		while (!ready.IsEmpty())\n		{\n			t = ready.PopFirst();\n			next = t;"),("			myQueueReady.PushPending(t);\n			t = next;","			myQueueReady.PushPending(t);\n			MG_UNUSED(next);")]),
 ("T01","ok",S,[("			t = myQueueWaiting.GetTop();\n			if (t->myDeadline > timestamp)\n				break;\n			myQueueWaiting.RemoveTop();","			t = myQueueWaiting.GetTop();\n			if (timestamp < t->myDeadline)\n				break;\n			myQueueWaiting.RemoveTop();")]),
 ("T01","ok",S,[("		while (myQueueWaiting.Count() > 0 && batch++ < maxBatch)","		for (; myQueueWaiting.Count() != 0 && batch < maxBatch; ++batch)")]),
 # T02 lost wakeups
 ("T02","bad",K,[("		if (old == TASK_STATUS_WAITING)\n			myScheduler->PrivPost(this);\n	}\n\n	void\n	Task::PostSignal()","		if (old != TASK_STATUS_PENDING)\n			myScheduler->PrivPost(this);\n	}\n\n	void\n	Task::PostSignal()"),("old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY","old == TASK_STATUS_SIGNALED")]),
 ("T02","bad",K,[("old == TASK_STATUS_SIGNALED || old == TASK_STATUS_READY","old == TASK_STATUS_READY")]),
 ("T02","bad",K,[("TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);","TaskStatus old = myStatus.LoadRelaxed(); myStatus.StoreRelease(TASK_STATUS_SIGNALED);")]),
 ("T02","bad",K,[("myStatus.ExchangeRelease(TASK_STATUS_SIGNALED)","myStatus.ExchangeRelaxed(TASK_STATUS_SIGNALED)")]),
 ("T02","bad",K,[("myStatus.CmpExchgStrongAcquire(oldStatus, TASK_STATUS_PENDING)","myStatus.CmpExchgStrongRelaxed(oldStatus, TASK_STATUS_PENDING)")]),
 ("T02","bad",K,[("myStatus.CmpExchgStrongAcquire(oldStatus, TASK_STATUS_PENDING)","myStatus.ExchangeAcqRel(TASK_STATUS_PENDING) == oldStatus")]),
 ("T02","bad",S,[("		aTask->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_PENDING);\n","		old = aTask->myStatus.ExchangeRelaxed(TASK_STATUS_PENDING);\n")]),
 ("T02","bad",S,[("				if (t->myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_WAITING))","				old = t->myStatus.ExchangeRelaxed(TASK_STATUS_WAITING);\n				if (old == TASK_STATUS_PENDING)")]),
 ("T02","ok",K,[("		do\n		{\n			// Signal","		for (;;)\n		{\n			// Signal"),("		} while (!myStatus.CmpExchgWeakRelaxed(old, TASK_STATUS_READY));","			if (myStatus.CmpExchgStrongRelaxed(old, TASK_STATUS_READY))\n				break;\n		}")]),
 ("T02","ok",K,[("		if (old == TASK_STATUS_WAITING)\n			myScheduler->PrivPost(this);\n	}\n\n#if","		if (old != TASK_STATUS_WAITING)\n			return;\n		myScheduler->PrivPost(this);\n	}\n\n#if")]),
 # T03 deadlines
 ("T03","bad",S,[("			if (t->myDeadline > timestamp)\n				break;","			if (t->myDeadline > timestamp + 1)\n				break;")]),
 ("T03","bad",S,[("				t->myIsExpired = true;\n				old = TASK_STATUS_PENDING;","				old = TASK_STATUS_PENDING;")]),
 ("T03","bad",S,[("				deadline = myQueueWaiting.GetTop()->myDeadline;\n				timestamp = mg::box::GetMilliseconds();","				deadline = myQueueWaiting.GetTop()->myDeadline;")] if False else [("						mg::box::TimeDuration(deadline - timestamp));","						mg::box::TimeDuration(deadline));")]),
 ("T03","bad",S,[("					if (t->myDeadline != MG_TIME_INFINITE)\n						myQueueWaiting.Push(t);\n					else\n						MG_DEV_ASSERT(t->myIndex == -1);","					if (t->myDeadline == MG_TIME_INFINITE)\n						myQueueWaiting.Push(t);")]),
 ("T03","bad",K,[("		myDeadline = 0;\n		myCallback(this);","		myCallback(this);")]),
 ("T03","bad",K,[("		if (aDeadline < myDeadline)\n			myDeadline = aDeadline;","		if (aDeadline > myDeadline)\n			myDeadline = aDeadline;")]),
 ("T03","ok",S,[("			if (timestamp < t->myDeadline)\n			{","			if (t->myDeadline > timestamp)\n			{")]),
 ("T03","ok",K,[("		if (aDeadline < myDeadline)\n			myDeadline = aDeadline;","		if (myDeadline <= aDeadline)\n			return;\n		myDeadline = aDeadline;")]),
 # T04 idle
 ("T04","bad",S,[("		if (myQueueFront.Push(aTask))\n			mySignalFront.Send();","		if (!myQueueFront.Push(aTask))\n			mySignalFront.Send();")]),
 ("T04","bad",S,[("		if (myQueueReady.Count() == 0 && myQueuePending.IsEmpty())","		if (myQueueReady.Count() == 0)")]),
 ("T04","bad",S,[("		if (myQueueReady.Count() == 0 && myQueuePending.IsEmpty())","		if (myQueuePending.IsEmpty())")]),
 ("T04","bad",S,[("		mySchedulerMutex.Unlock();\n","		PrivSignalReady();\n		mySchedulerMutex.Unlock();\n"),("		// tasks.\n		PrivSignalReady();","		// tasks.")]),
 ("T04","bad",S,[("		mySchedulerMutex.Lock([this]() { mySignalFront.Send(); });","		mySchedulerMutex.Lock([this]() { mySignalReady.Send(); });")]),
 ("T04","bad",S,[("			} while (batch == maxBatch);\n			MG_DEV_ASSERT(batch < maxBatch);","			} while (false);")]),
 ("T04","bad",S,[("				if (myScheduler->PrivSchedule())\n					myScheduleCount.IncrementRelaxed();\n				batch = 0;\n				while (myScheduler->PrivExecute(myConsumer.Pop()) && ++batch < maxBatch);","				batch = 0;\n				while (myScheduler->PrivExecute(myConsumer.Pop()) && ++batch < maxBatch);\n				if (batch == 0 && myScheduler->PrivSchedule())\n					myScheduleCount.IncrementRelaxed();")]),
 ("T04","ok",S,[("		mySchedulerMutex.Lock([this]() { mySignalFront.Send(); });","		const auto wake = [this]() { mySignalFront.Send(); };\n		mySchedulerMutex.Lock(wake);")]),
 ("T04","ok",S,[("		if (myQueueReady.Count() == 0 && myQueuePending.IsEmpty())\n		{","		bool hasWork = !myQueuePending.IsEmpty() || myQueueReady.Count() != 0;\n		if (!hasWork)\n		{")]),
 # T05 not touched
 ("T05","bad",S,[("		aTask->myScheduler = this;\n		PrivPost(aTask);","		PrivPost(aTask);\n		aTask->myScheduler = this;"),("		MG_DEV_ASSERT(aTask->myScheduler == this);\n		if (myQueueFront.Push(aTask))","		if (myQueueFront.Push(aTask))")]),
 ("T05","bad",S,[("		aTask->PrivExecute();\n		return true;","		aTask->PrivExecute();\n		aTask->myIsExpired = false;\n		return true;")]),
 ("T05","bad",S,[("			next = t->myNext;\n			t->myNext = nullptr;\n			myQueueReady.PushPending(t);\n			t = next;","			next = t->myNext;\n			myQueueReady.PushPending(t);\n			myQueueReady.FlushPending();\n			t->myNext = nullptr;\n			t = next;")]),
 ("T05","bad",K,[("	Task::PostSignal()\n	{","	Task::PostSignal()\n	{\n		"),("TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);","TaskStatus old = myStatus.ExchangeRelease(TASK_STATUS_SIGNALED);\n		if (myScheduler == nullptr) return;")]),
 ("T05","ok",S,[("		aTask->PrivExecute();\n		return true;","		Task* t = aTask;\n		t->PrivExecute();\n		return t != nullptr;")]),
 # T06 empty, stop
 ("T06","bad",S,[("		if (myQueueReady.Count() != 0)\n		{\n			PrivSchedulerUnlock();\n			return false;\n		}\n",""),("			myQueuePending.IsEmpty();\n","			myQueuePending.IsEmpty() && myQueueReady.Count() == 0;\n")]),
 ("T06","bad",S,[("			myQueueFront.IsEmpty() &&\n","")]),
 ("T06","bad",S,[("			myQueueWaiting.Count() == 0 &&\n","")]),
 ("T06","bad",S,[("		PrivSignalReady();\n		// Yes, keep","		// Yes, keep")]),
 ("T06","bad",S,[("		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);\n		myScheduler->PrivSignalReady();","		myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);")]),
 ("T06","bad",S,[("			myState.StoreRelease(TASK_SCHEDULER_WORKER_STATE_IDLE);\n			myScheduler->PrivWaitReady();","			myScheduler->PrivWaitReady();")]),
 ("T06","ok",S,[("		while (!IsEmpty())\n		{","		for (;;)\n		{\n			if (IsEmpty())\n				break;")]),
 ("T06","ok",S,[("		bool isEmpty =\n			myQueueFront.IsEmpty() &&\n			myQueueWaiting.Count() == 0 &&\n			myQueuePending.IsEmpty();","		bool isEmpty = false;\n		if (myQueueWaiting.Count() == 0 && myQueuePending.IsEmpty())\n			isEmpty = myQueueFront.IsEmpty();")]),
 ("T06","ok",S,[("		for (TaskSchedulerThread* t : myThreads)\n			t->Stop();","		for (size_t i = 0; i < myThreads.size(); ++i)\n			myThreads[i]->Stop();")]),
 # T07 coroutines
 ("T07","bad",K,[("		Task* t = myTask;\n		TaskCallback cb(std::move(myNewCallback));\n		t->PrivTouch();\n		t->SetCallback(std::move(cb));\n		t->myCallback(t);","		Task* t = myTask;\n		t->PrivTouch();\n		t->SetCallback(std::move(myNewCallback));\n		myTask->myCallback(t);")]),
 ("T07","bad",K,[("		myTask->myCallback = {};\n		s.Send();","		s.Send();\n		myTask->myCallback = {};")]),
 ("T07","bad",K,[("		mg::box::Signal& s = mySignal;\n","		"),("		s.Send();","		mySignal.Send();")]),
 ("T07","bad",K,[("		mySched.Post(myTask);\n		return true;","		mySched.Post(myTask);\n		myTask->PrivTouch();\n		return true;")]),
 ("T07","ok",K,[("		Task* t = myTask;\n		delete t;\n		return true;","		delete myTask;\n		return true;")]),
]
