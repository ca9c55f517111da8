F = "box/MultiProducerQueueIntrusive.h"
M = [
 ("B03","bad",F,[("} while (!myHead.CmpExchgWeakAcqRel(oldHead, aFirst));","} while (!myHead.CmpExchgWeakRelaxed(oldHead, aFirst));")]),
 ("B03","bad",F,[("ExchangeAcqRel(nullptr)","ExchangeRelaxed(nullptr)")]),
 ("B03","bad",F,[("			do\n			{\n				aLast->*myNext = oldHead;\n			} while (!","			aLast->*myNext = oldHead;\n			while (!"),("CmpExchgWeakAcqRel(oldHead, aFirst));","CmpExchgWeakAcqRel(oldHead, aFirst)) {}")]),
 ("B03","bad",F,[("return oldHead == nullptr;","return aLast->*myNext == nullptr;")]),
 ("B03","bad",F,[("			while ((next = last->*myNext) != nullptr)\n				last = next;\n","			if ((next = last->*myNext) != nullptr)\n				last = next;\n")]),
 ("B03","bad",F,[("return PushManyFastReversed(first, last);","return PrivPushRange(prev->*myNext, last);")]),
 ("B03","bad",F,[("				next = curr->*myNext;\n				curr->*myNext = prev;","				curr->*myNext = prev;\n				next = curr->*myNext;")]),
 ("B03","bad",F,[("			aOutTail = curr;\n","")]),
 ("B03","bad",F,[("return oldHead == nullptr;","return myHead.LoadAcquire() == aFirst;")]),
 ("B03","bad",F,[("return myHead.ExchangeAcqRel(nullptr);","T* r = myHead.LoadAcquire(); myHead.StoreRelease(nullptr); return r;")]),
 ("B03","ok",F,[("			do\n			{\n				aLast->*myNext = oldHead;\n			} while (!myHead.CmpExchgWeakAcqRel(oldHead, aFirst));\n			return oldHead == nullptr;","			for (;;) {\n				aLast->*myNext = oldHead;\n				if (myHead.CmpExchgWeakAcqRel(oldHead, aFirst)) break;\n			}\n			bool wasEmpty = !oldHead;\n			return wasEmpty;")]),
 ("B03","ok",F,[("			while ((next = last->*myNext) != nullptr)\n				last = next;\n","			for (next = last->*myNext; next != nullptr; next = last->*myNext)\n				last = next;\n")]),
 ("B03","ok",F,[("			T* oldHead = myHead.LoadAcquire();","			T* oldHead = myHead.LoadRelaxed();")]),
 ("B03","ok",F,[("			T* curr = PopAllFastReversed();","			T* curr = myHead.ExchangeAcqRel(nullptr);\n			if (curr == nullptr) { aOutTail = nullptr; return nullptr; }")]),
 ("B03","ok",F,[("			T* first = nullptr;\n			T* last = aFirst;\n			T* prev = aFirst;\n			aFirst = aFirst->*myNext;\n			if (aFirst == nullptr)\n				return Push(last);","			T* first = nullptr;\n			T* last = aFirst;\n			T* prev = nullptr;")]),
]
