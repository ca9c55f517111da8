F = "box/MultiConsumerQueueBase.cpp"
M = [
 ("B04","bad",F,[("aOutItem = myQueue[rindex].LoadAcquire();","aOutItem = myQueue[rindex].LoadRelaxed();")]),
 ("B04","bad",F,[("myQueue[nextWindex].StoreRelease(nullptr);","")]),
 ("B04","bad",F,[("old = myQueue[findex].ExchangeRelease(aItem);","old = myQueue[findex].ExchangeRelaxed(aItem);")]),
 ("B04","bad",F,[("			myQueue[windex].StoreRelease(aItem);\n			aItem = old;\n			myFirstPending = nullptr;\n		}\n		old = myQueue[findex].ExchangeRelease(aItem);","			void* it = aItem; aItem = old;\n			myFirstPending = nullptr;\n			myQueue[findex].ExchangeRelease(aItem); myQueue[windex].StoreRelease(it); return true;\n		}\n		old = myQueue[findex].ExchangeRelease(aItem);")]),
 ("B04","bad",F,[("			aItem = old;\n			myFirstPending = nullptr;","			aItem = old;")]),
 ("B04","bad",F,[("		myFlushIndex = windex;\n		return true;","		return true;")]),
 ("B04","bad",F,[("			if (cur == myQueue->myWpos)\n			{\n				myQueue->myLock.Unlock();\n				return nullptr;\n			}","			if (cur->myNext == nullptr)\n			{\n				myQueue->myLock.Unlock();\n				return nullptr;\n			}")]),
 ("B04","bad",F,[("			MCQBaseSubQueue* next = cur->myNext;\n			myQueue->PrivGarbageCollectLocked(cur);","			myQueue->PrivGarbageCollectLocked(cur);\n			MCQBaseSubQueue* next = cur->myNext;")]),
 ("B04","bad",F,[("		if (aItem->myConsumerCount != 0)\n			return;\n","")]),
 ("B04","bad",F,[("		if (aItem->myReadIndex.LoadRelaxed() < aItem->mySize)\n			return;\n","")]),
 ("B04","bad",F,[("		if (aItem == myWpos)\n			return;\n","")]),
 ("B04","bad",F,[("			next->myPrev = prev;\n		}","		}")]),
 ("B04","bad",F,[("		myTail->myNext = aItem;\n		aItem->myPrev = myTail;\n		myTail = aItem;","		myTail->myNext = aItem;\n		myTail = aItem;\n		aItem->myPrev = prev;")]),
 ("B04","bad",F,[("		bool becameNotEmpty = myCount.FetchAddRelaxed(count) == 0;\n","		bool becameNotEmpty = myCount.LoadRelaxed() == 0; myCount.FetchAddRelaxed(count);\n")]),
 ("B04","bad",F,[("		int32_t count = myPendingCount + 1;","		int32_t count = 1;")]),
 ("B04","bad",F,[("		// Need to flush","",),("		myWpos->FlushPending();\n		PrivNextWpos();","		PrivNextWpos();")] if False else [("		myWpos->FlushPending();\n		PrivNextWpos();","		PrivNextWpos();")]),
 ("B04","bad",F,[("			myWpos->myPrev = myTail;\n","")]),
 ("B04","bad",F,[("		if (res != nullptr)\n			myQueue->myCount.DecrementRelaxed();","		myQueue->myCount.DecrementRelaxed();")]),
 ("B04","bad",F,[("		aQueue->myLock.Lock();\n		MCQBaseSubQueue* head = aQueue->myHead;\n		++head->myConsumerCount;","		MCQBaseSubQueue* head = aQueue->myHead;\n		aQueue->myLock.Lock();\n		++head->myConsumerCount;")]),
 ("B04","bad",F,[("		myCount.FetchAddRelaxed(\n			myPendingCount) == 0;\n		myPendingCount = 0;\n		myWpos->FlushPending();","		myWpos->FlushPending() && myCount.FetchAddRelaxed(\n			myPendingCount) == 0;\n		myPendingCount = 0;")] if False else [("		myPendingCount = 0;\n		myWpos->FlushPending();\n		return becameNotEmpty;","		myPendingCount = 0;\n		return becameNotEmpty;")]),
 ("B04","bad",F,[("			if (rindex == mySize)\n				return false;","			if (rindex > mySize)\n				return false;")]),
 ("B04","ok",F,[("		do\n		{\n			","		for (;;)\n		{\n			"),("if (rindex == mySize)\n				return false;","if (!(rindex < mySize))\n				return false;"),("		} while (!myReadIndex.CmpExchgWeakRelaxed(rindex, rindex + 1));","			if (myReadIndex.CmpExchgWeakRelaxed(rindex, rindex + 1)) break;\n		}")]),
 ("B04","ok",F,[("			myQueue->myLock.Lock();\n			if (cur == myQueue->myWpos)\n			{\n				myQueue->myLock.Unlock();\n				return nullptr;\n			}","			mg::box::MutexLock guard(myQueue->myLock);\n			if (cur == myQueue->myWpos)\n				return nullptr;"),("			++cur->myConsumerCount;\n			myQueue->myLock.Unlock();","			++cur->myConsumerCount;")]),
 ("B04","ok",F,[("			--cur->myConsumerCount;\n			MCQBaseSubQueue* next = cur->myNext;","			MCQBaseSubQueue* next = cur->myNext;\n			cur->myConsumerCount -= 1;")]),
 ("B04","ok",F,[("		bool becameNotEmpty = myCount.FetchAddRelaxed(count) == 0;","		uint32_t oldCount = myCount.FetchAddRelaxed(count);\n		bool becameNotEmpty = !oldCount;")]),
 ("B04","ok",F,[("		if (prev == nullptr)\n		{","		if (aItem == myHead)\n		{")]),
]
