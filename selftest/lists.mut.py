F, D = "box/ForwardList.h", "box/DoublyList.h"
M = [
 ("B08","bad",F,[("		: myFirst(aList.myFirst)\n	{\n		if (myFirst != nullptr)\n		{\n			myLastLink = aList.myLastLink;\n			aList.Clear();\n		}\n		else\n		{\n			myLastLink = &myFirst;\n		}\n","		: myFirst(aList.myFirst)\n		, myLastLink(aList.myLastLink)\n	{\n		aList.Clear();\n")]),
 ("B08","bad",F,[("			*myLastLink = nullptr;\n		}\n		else\n		{\n			myLastLink = &myFirst;\n		}\n	}\n\n	template<typename T, T* T::*myLink>\n	inline void\n	ForwardList<T, myLink>::Prepend(\n		T* aItem)","		}\n		else\n		{\n			myLastLink = &myFirst;\n		}\n	}\n\n	template<typename T, T* T::*myLink>\n	inline void\n	ForwardList<T, myLink>::Prepend(\n		T* aItem)")]),
 ("B08","bad",F,[("		if (myFirst == nullptr)\n			myLastLink = &(aItem->*myLink);\n		myFirst = aItem;","		myFirst = aItem;\n		if (myFirst == nullptr)\n			myLastLink = &(aItem->*myLink);")]),
 ("B08","bad",F,[("			if (myFirst == nullptr)\n				myLastLink = &(last->*myLink);\n","")]),
 ("B08","bad",F,[("			myFirst = aSrc.myFirst;\n			aSrc.Clear();","			myFirst = aSrc.myFirst;")]),
 ("B08","bad",F,[("			if (myFirst == nullptr)\n				myLastLink = &(aLast->*myLink);\n","")]),
 ("B08","bad",F,[("		myFirst = res->*myLink;\n		if (myFirst == nullptr)\n			myLastLink = &myFirst;","		myFirst = res->*myLink;")]),
 ("B08","bad",F,[("		aItem->*myLink = nullptr;\n		*myLastLink = aItem;","		*myLastLink = aItem;")]),
 ("B08","bad",F,[("		if (srcFirst != nullptr)\n		{\n			*myLastLink = srcFirst;","		{\n			*myLastLink = srcFirst;")]),
 ("B08","bad",F,[("			if (aItem->*myLink == nullptr)\n				myLastLink = &(aItem->*myLink);\n","")]),
 ("B08","bad",F,[("			aItem->*myLink = aPrev->*myLink;\n			aPrev->*myLink = aItem;","			aPrev->*myLink = aItem;\n			aItem->*myLink = aPrev->*myLink;")]),
 ("B08","bad",F,[("			next = item->*myLink;\n			Prepend(item);","			Prepend(item);\n			next = item->*myLink;")]),
 ("B08","bad",F,[("		Clear();\n		while (item != nullptr)","		while (item != nullptr)")]),
 ("B08","bad",F,[("		myFirst = nullptr;\n		myLastLink = &myFirst;\n	}","		myFirst = nullptr;\n	}")]),
 ("B08","bad",F,[("		aOutLast = GetLast();\n		Clear();","		Clear();\n		aOutLast = GetLast();")]),
 ("B08","bad",F,[("			myLastLink = &myFirst;\n		}\n		return *this;","		}\n		return *this;")]),
 ("B08","bad",F,[("		myPos = myNext;\n		if (myNext != nullptr)\n			myNext = myNext->*myLink;","		myPos = myPos->*myLink;")]),
 ("B08","bad",F,[("		if (aHead != nullptr)\n			myNext = aHead->*myLink;","		(void)aHead;")]),
 ("B08","bad",D,[("			srcLast->*myNext = first;\n			if (first != nullptr)\n				first->*myPrev = srcLast;","			srcLast->*myNext = first;\n			if (first != nullptr)\n				first->*myPrev = srcFirst;")]),
 ("B08","bad",D,[("			if (first != nullptr)\n				first->*myPrev = srcLast;\n			else\n				myLast = srcLast;","			if (first != nullptr)\n				first->*myPrev = srcLast;\n			myLast = srcLast;")]),
 ("B08","bad",D,[("			aFirst->*myPrev = nullptr;\n			aLast->*myNext = first;","			aLast->*myNext = first;")]),
 ("B08","bad",D,[("			srcFirst->*myPrev = last;\n","")]),
 ("B08","bad",D,[("			aFirst->*myPrev = last;\n			aLast->*myNext = nullptr;","			aFirst->*myPrev = last;")]),
 ("B08","bad",D,[("			next->*myPrev = prev;\n			aItem->*myNext = nullptr;","			aItem->*myNext = nullptr;")]),
 ("B08","bad",D,[("			myLast = prev;\n		}\n","		}\n")]),
 ("B08","bad",D,[("			next->*myPrev = nullptr;\n		else\n			myLast = nullptr;","			next->*myPrev = nullptr;")]),
 ("B08","bad",D,[("		res->*myPrev = nullptr;\n		myLast = prev;","		myLast = prev;")]),
 ("B08","bad",D,[("			prev->*myNext = nullptr;\n		else\n			myFirst = nullptr;","			prev->*myNext = nullptr;")]),
 ("B08","ok",F,[("		if (myFirst == nullptr)\n			myLastLink = &(aItem->*myLink);\n		myFirst = aItem;","		const bool wasEmpty = IsEmpty();\n		myFirst = aItem;\n		if (wasEmpty)\n			myLastLink = &(myFirst->*myLink);")]),
 ("B08","ok",F,[("		T* item = myFirst;\n		T* next;\n		Clear();\n		while (item != nullptr)\n		{\n			next = item->*myLink;\n			Prepend(item);\n			item = next;\n		}","		T* prev = nullptr;\n		T* item = myFirst;\n		if (item != nullptr)\n			myLastLink = &(item->*myLink);\n		for (; item != nullptr;)\n		{\n			T* n = item->*myLink;\n			item->*myLink = prev;\n			prev = item;\n			item = n;\n		}\n		myFirst = prev;")]),
 ("B08","ok",F,[("		T* res = myFirst;\n		aOutLast = GetLast();\n		Clear();\n		return res;","		aOutLast = GetLast();\n		return PopAll();")]),
 ("B08","ok",D,[("		T* last = myLast;\n		aItem->*myNext = nullptr;\n		aItem->*myPrev = last;\n		if (last != nullptr)\n			last->*myNext = aItem;\n		else\n			myFirst = aItem;\n		myLast = aItem;","		if (IsEmpty())\n		{\n			aItem->*myPrev = nullptr;\n			aItem->*myNext = nullptr;\n			myFirst = myLast = aItem;\n			return;\n		}\n		Append(aItem, aItem);")]),
]
