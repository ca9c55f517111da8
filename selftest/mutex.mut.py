X = "box/Mutex.cpp"
H = "box/Mutex.h"
C = "box/ConditionVariable.cpp"
T = "box/Thread.cpp"
M = [
 ("B07","bad",X,[("		if (!myHandle.try_lock())\n		{\n			if (IsOwnedByThisThread())","		if (!myHandle.try_lock())\n		{\n			if (myCount > 0)")]),
 ("B07","bad",X,[("				++myCount;\n				return true;","				return true;")]),
 ("B07","bad",X,[("		myHandle.lock();\n		myOwner.StoreRelaxed(GetCurrentThreadId());","		myHandle.lock();")]),
 ("B07","bad",X,[("		myHandle.lock();\n		myOwner.StoreRelaxed(GetCurrentThreadId());\n		MG_DEV_ASSERT(myCount == 0);\n		myCount = 1;","		myHandle.lock();\n		myOwner.StoreRelaxed(GetCurrentThreadId());")]),
 ("B07","bad",X,[("			myOwner.StoreRelaxed(0);\n			myCount = 0;\n			myHandle.unlock();","			myHandle.unlock();\n			myOwner.StoreRelaxed(0);\n			myCount = 0;")]),
 ("B07","bad",X,[("			myOwner.StoreRelaxed(0);\n			myCount = 0;\n","			myCount = 0;\n")]),
 ("B07","bad",X,[("		if (myCount == 1)\n		{","		if (myCount <= 2)\n		{")]),
 ("B07","bad",X,[("		--myCount;\n","")]),
 ("B07","bad",X,[("		if (TryLock())\n			return;\n","")]),
 ("B07","bad",X,[("			theMutexStartContentCount.IncrementRelaxed();\n			return false;","			theMutexStartContentCount.IncrementRelaxed();\n			myHandle.lock();\n			return false;")]),
 ("B07","bad",X,[("return myOwner.LoadRelaxed() == GetCurrentThreadId();","return myCount != 0;")]),
 ("B07","bad",H,[("		myMutex->Unlock();\n		myMutex = nullptr;","		myMutex->Unlock();")]),
 ("B07","bad",H,[("		if (myMutex != nullptr)\n			myMutex->Unlock();","		if (myMutex == nullptr)\n			myMutex->Unlock();")]),
 ("B07","bad",H,[("		myMutex->Lock();\n	}","		myMutex->TryLock();\n	}")]),
 ("B07","bad",C,[("		aMutex.myOwner.StoreRelaxed(0);\n","")]),
 ("B07","bad",C,[("		aMutex.myOwner.StoreRelaxed(tid);\n		aMutex.myCount = 1;\n	}\n\n	bool","		aMutex.myCount = 1;\n	}\n\n	bool")]),
 ("B07","bad",C,[("		if (timeout > theMaxTimeout)","		if (timeout == MG_TIME_INFINITE)")]),
 ("B07","bad",C,[("		if (timeout > theMaxTimeout)","		if (timeout > 1000)")]),
 ("B07","bad",C,[("std::chrono::milliseconds(timeout)) != ","std::chrono::microseconds(timeout)) != ")]),
 ("B07","bad",C,[("!= std::cv_status::timeout","== std::cv_status::timeout")]),
 ("B07","bad",C,[("		aMutex.myCount = 1;\n\n		return ok;","		return ok;"),]),
 ("B07","bad","box/ConditionVariable.h",[("myHandle.notify_all()","myHandle.notify_one()")]),
 ("B07","ok",X,[("		if (TryLock())\n			return;\n		myHandle.lock();","		if (TryLock())\n		{\n			return;\n		}\n		myHandle.lock();")]),
 ("B07","ok",X,[("		if (myCount == 1)\n		{\n			myOwner.StoreRelaxed(0);\n			myCount = 0;\n			myHandle.unlock();\n			return;\n		}\n		MG_DEV_ASSERT(myCount > 1);\n		--myCount;","		--myCount;\n		if (myCount != 0)\n			return;\n		myOwner.StoreRelaxed(0);\n		myHandle.unlock();")]),
 ("B07","ok",X,[("		if (!myHandle.try_lock())\n		{\n			if (IsOwnedByThisThread())\n			{\n				MG_DEV_ASSERT(myCount > 0);\n				++myCount;\n				return true;\n			}","		if (IsOwnedByThisThread())\n		{\n			++myCount;\n			return true;\n		}\n		if (!myHandle.try_lock())\n		{")]),
 ("B07","ok",H,[("		if (myMutex == nullptr)\n			return;\n		myMutex->Unlock();\n		myMutex = nullptr;","		Mutex* m = myMutex;\n		myMutex = nullptr;\n		if (m != nullptr)\n			m->Unlock();")]),
 ("B07","ok",C,[("		if (timeout > theMaxTimeout)\n		{\n			myHandle.wait(aMutex.myHandle);\n		}\n		else\n		{\n			ok =","		if (timeout > theMaxTimeout)\n			timeout = theMaxTimeout;\n		{\n			ok =")]),
 ("B10","bad",T,[("		myWasStarted = true;\n","")]),
 ("B10","bad",T,[("		MG_BOX_ASSERT(!myIsRunning.ExchangeRelease(true));\n		myHandle = new std::thread(&Thread::PrivTrampoline, this);","		myHandle = new std::thread(&Thread::PrivTrampoline, this);\n		MG_BOX_ASSERT(!myIsRunning.ExchangeRelease(true));")]),
 ("B10","bad",T,[("		myLock.Lock();\n		myIsStopRequested.StoreRelease(true);\n		myCond.Broadcast();\n		myLock.Unlock();","		myIsStopRequested.StoreRelease(true);\n		myLock.Lock();\n		myCond.Broadcast();\n		myLock.Unlock();")]),
 ("B10","bad",T,[("		myIsStopRequested.StoreRelease(true);\n		myCond.Broadcast();","		myIsStopRequested.StoreRelease(true);")]),
 ("B10","bad",T,[("		while (IsRunning())\n			myCond.Wait(myLock);\n","")]),
 ("B10","bad",T,[("		Stop();\n		myLock.Lock();\n		while (IsRunning())\n			myCond.Wait(myLock);","		Stop();\n\n		while (IsRunning())\n		{\n			myLock.Lock();\n			myCond.Wait(myLock);\n			myLock.Unlock();\n		}\n		myLock.Lock();")]),
 ("B10","bad",T,[("			myHandle->join();\n","")]),
 ("B10","bad",T,[("			delete myHandle;\n			myHandle = nullptr;","			delete myHandle;")]),
 ("B10","bad",T,[("		BlockingStop();\n		delete this;","		Stop();\n		delete this;")]),
 ("B10","bad",T,[("		myLock.Lock();\n		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));\n		myCond.Broadcast();\n		myLock.Unlock();","		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));\n		myLock.Lock();\n		myCond.Broadcast();\n		myLock.Unlock();")]),
 ("B10","bad",T,[("		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));\n		myCond.Broadcast();\n		myLock.Unlock();","		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));\n		myLock.Unlock();\n		myCond.Broadcast();")]),
 ("B10","bad",T,[("		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));","		MG_BOX_ASSERT(myIsRunning.ExchangeRelaxed(false));")]),
 ("B10","bad",T,[("return myIsRunning.LoadAcquire();","return myIsRunning.LoadRelaxed();")]),
 ("B10","bad",T,[("return myIsStopRequested.LoadAcquire();","return myIsRunning.LoadAcquire();")]),
 ("B10","ok",T,[("		while (IsRunning())\n			myCond.Wait(myLock);","		while (true)\n		{\n			if (!IsRunning())\n				break;\n			myCond.Wait(myLock);\n		}")]),
 ("B10","ok",T,[("		myLock.Lock();\n		myIsStopRequested.StoreRelease(true);\n		myCond.Broadcast();\n		myLock.Unlock();","		MutexLock lock(myLock);\n		myIsStopRequested.StoreRelease(true);\n		myCond.Broadcast();")]),
 ("B10","ok",T,[("			myHandle->join();\n			delete myHandle;\n			myHandle = nullptr;","			std::thread* handle = myHandle;\n			myHandle = nullptr;\n			handle->join();\n			delete handle;")]),
 ("B10","ok",T,[("		MG_BOX_ASSERT(myIsRunning.ExchangeRelease(false));\n		myCond.Broadcast();","		bool was = myIsRunning.ExchangeRelease(false);\n		MG_BOX_ASSERT(was);\n		myCond.Broadcast();")]),
]
