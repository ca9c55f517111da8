F = "net/Buffer.cpp"
H = "net/Buffer.h"
M = [
 ("D05","bad",F,[("		} else if (myRSize == 0) {\n			myREnd = nullptr;\n		} else if","		} else if")]),
 ("D05","bad",F,[("		if (myRSize == 0)\n			myREnd = nullptr;\n		while (true)","		while (true)")]),
 ("D05","bad",F,[("		myWSize -= myREnd->myCapacity - myREnd->myPos;\n		myRSize = 0;","		myRSize = 0;")]),
 ("D05","bad",F,[("		myREnd = nullptr;\n		myWPos = myHead.GetPointer();","		myREnd = nullptr;")]),
 ("D05","bad",F,[("			end->myNext = std::move(myWPos->myNext);\n			myWSize","			myWSize")]),
 ("D05","bad",F,[("			myWSize -= myWPos->myCapacity - myWPos->myPos;\n			myWPos->myNext","			myWPos->myNext")]),
 ("D05","bad",F,[("			if (myWPos == myTail)\n				myTail = end;\n","")]),
 ("D05","bad",F,[("				myWPos = end->myNext.GetPointer();\n","				myWPos = nullptr;\n")]),
 ("D05","bad",F,[("			if (end->myCapacity > end->myPos)\n				myWPos = end;\n			end->myNext","			end->myNext")]),
 ("D05","bad",F,[("			end->myNext = std::move(oldHead);\n","")]),
 ("D05","bad",F,[("				aHead->myPos += (uint32_t)aSize;\n				return aHead;","				aHead->myPos = (uint32_t)aSize;\n				return aHead;")]),
 ("D05","bad",F,[("		} else if (myWPos->myPos == myWPos->myCapacity) {\n			myWPos = myWPos->myNext.GetPointer();\n			MG_DEV_ASSERT(myWPos->myPos < myWPos->myCapacity);\n		}","		}")]),
 ("D05","bad",F,[("		myRSize += aSize;\n		myREnd = myWPos;","		myRSize += aSize;\n		if (myREnd == nullptr)\n			myREnd = myWPos;")]),
 ("D05","bad",F,[("				if (aHead->myPos == 0 && aHead->myCapacity == 0)\n					aHead = std::move(aHead->myNext);\n				return;","				return;")]),
 ("D05","bad",F,[("			aData = (uint8_t*)aData + toRead;\n			myHead = std::move(myHead->myNext);","			myHead = std::move(myHead->myNext);")]),
 ("D05","bad",F,[("			uint64_t toRead = cap > aSize ? aSize : cap;","			uint64_t toRead = cap > aSize ? cap : aSize;")]),
 ("D05","bad",F,[("				memcpy(myWPos->myWData + myWPos->myPos, aData, aSize);\n				myWPos->myPos += (uint32_t)aSize;\n				myREnd","				memcpy(myWPos->myWData, aData, aSize);\n				myWPos->myPos += (uint32_t)aSize;\n				myREnd")]),
 ("D05","bad",F,[("			aData = (const uint8_t*)aData + cap;\n			aSize -= cap;\n			if (myWPos","			aSize -= cap;\n			if (myWPos")]),
 ("D05","bad",F,[("		myTail = nullptr;\n		PrivCheck();\n	}\n\n	std","		PrivCheck();\n	}\n\n	std")]),
 ("D05","bad",F,[("			Buffer* next = curr->myNext.Unwrap();\n			delete curr;\n			curr = next;","			Buffer* next = curr->myNext.GetPointer();\n			delete curr;\n			curr = next;")]),
 ("D05","bad",F,[("			if (!curr->myRef.Dec())\n				return;\n","			curr->myRef.Dec();\n")]),
 ("D05","bad",F,[("		if (aSize == 0)\n			return;\n		MG_DEV_ASSERT(myWSize >= aSize);\n","		MG_DEV_ASSERT(myWSize >= aSize);\n")]),
 ("D05","bad",F,[("			myWPos = myWPos->myNext.GetPointer();\n			myWSize -= cap;\n			if (cap == aSize)","			myWPos = nullptr;\n			myWSize = 0;\n			if (cap == aSize)")]),
 ("D05","bad",F,[("			if (myWSize >= aSize) {\n				PrivCheck();\n				return;\n			}\n		}\n		do {","		}\n		if (myWSize + 1 < aSize) do {")]),
 ("D05","bad",F,[("		} else if (myHead->myPos == 0 && myHead != myWPos) {","		} else if (myHead->myPos == 0 && myHead == myWPos) {")]),
 ("D05","bad",F,[("				if (myHead->myPos == 0 && myHead != myWPos)","				if (myHead->myPos == 0)")]),
 ("D05","bad",H,[("		myPos -= aSize;","		myPos -= aSize; if (myPos == 0) return;")]),
 ("D05","bad",H,[("BufferCopy() : Buffer(myCopyData, 0, theBufferCopySize)","BufferCopy() : Buffer(this, 0, theBufferCopySize)")]),
 ("D05","ok",F,[("		uint64_t size = 0;\n		Buffer* end = aHead.GetPointer();\n		size += end->myPos;\n		while (end->myNext.IsSet())\n		{\n			end = end->myNext.GetPointer();\n			size += end->myPos;\n		}","		uint64_t size = 0;\n		Buffer* end = nullptr;\n		for (Buffer* it = aHead.GetPointer(); it != nullptr; it = it->myNext.GetPointer())\n		{\n			size += it->myPos;\n			end = it;\n		}")]),
 ("D05","ok",F,[("			uint64_t toRead = cap > aSize ? aSize : cap;","			uint64_t toRead = std::min<uint64_t>(cap, aSize);")]),
 ("D05","ok",F,[("			if (cap > aSize)\n			{\n				memcpy(","			const bool fits = aSize < cap;\n			if (fits)\n			{\n				memcpy(")]),
 ("D05","ok",F,[("		myRSize += aSize;\n		while (true)\n		{","		myRSize = aSize + myRSize;\n		for (;;)\n		{")]),
 ("D05","ok",F,[("		do {\n			myTail = (myTail->myNext = BufferCopy::NewShared()).GetPointer();\n			myWSize += theBufferCopySize;\n		} while (myWSize < aSize);","		while (aSize > myWSize) {\n			Buffer::Ptr next = BufferCopy::NewShared();\n			Buffer* tail = next.GetPointer();\n			myTail->myNext = std::move(next);\n			myTail = tail;\n			myWSize += tail->myCapacity;\n		}")]),
 ("D05","ok",F,[("		Buffer::Ptr res = std::move(myHead);\n		myHead = std::move(myREnd->myNext);\n","		Buffer::Ptr res = std::move(myHead);\n		Buffer::Ptr rest = std::move(myREnd->myNext);\n		myHead = std::move(rest);\n")]),
 ("D06","bad",F,[("		aByteCount += aByteOffset;\n","")]),
 ("D06","bad",F,[("				if (pos->myPos > aByteCount)","				if (pos->myPos >= aByteCount)")]),
 ("D06","bad",F,[("					link->myHead.Set(pos);\n","")]),
 ("D06","bad",F,[("			delete myLinks.PopFirst();\n		}\n		aByteOffset = 0;","			myLinks.PopFirst();\n		}\n		aByteOffset = 0;")]),
 ("D06","bad",F,[("			delete myLinks.PopFirst();\n		}\n		aByteOffset = 0;","			delete myLinks.PopFirst();\n		}")]),
 ("D06","bad",F,[("				aByteCount -= pos->myPos;\n","				aByteCount -= pos->myPos;\n				pos->myPos = 0;\n")]),
 ("D06","bad",F,[("head = Buffer::Ptr(head->myNext);","head = std::move(head->myNext);")]),
 ("D06","bad",F,[("link->myHead->myPos > aByteOffset)\n			return;","link->myHead->myPos >= aByteOffset)\n			return;")]),
 ("D06","bad",F,[("					MG_DEV_ASSERT(aByteOffset == head->myPos);\n					aByteOffset = 0;","					MG_DEV_ASSERT(aByteOffset == head->myPos);")]),
 ("D06","bad",F,[("			link = link->myNext;\n			delete myLinks.PopFirst();\n		} while","			delete myLinks.PopFirst();\n			link = link->myNext;\n		} while")]),
 ("D06","bad",F,[("			buf->mySize = aHead->myPos - aByteOffset;\n			++buf;\n			aByteOffset = 0;","			buf->mySize = aHead->myPos - aByteOffset;\n			++buf;")]),
 ("D06","bad",F,[("				buf->mySize = it->myPos - aByteOffset;","				buf->mySize = it->myPos;")]),
 ("D06","bad",F,[("				if (it->myPos == 0)\n					continue;\n","")]),
 ("D06","bad",F,[("			for (; it != nullptr && buf < bufEnd; it","			for (; it != nullptr && buf <= bufEnd; it")]),
 ("D06","bad",F,[("				return aVectorCount;\n			aHead","				return aVectorCount - 1;\n			aHead")]),
 ("D06","bad",F,[("		buf->mySize = aHead->myCapacity - aHead->myPos;\n		++buf;","		buf->mySize = aHead->myCapacity;\n		++buf;")]),
 ("D06","bad",F,[("		if (cap >= aSize)\n		{\n			memcpy(aHead->myWData + aHead->myPos, aData, aSize);","		if (cap >= aSize)\n		{\n			memcpy(aHead->myWData, aData, aSize);")]),
 ("D06","bad",F,[("			aData = (const uint8_t*)aData + cap;\n			aHead = (aHead->myNext","			aHead = (aHead->myNext")]),
 ("D06","bad",F,[("		aHead->myPos = aHead->myCapacity;\n		aSize -= cap;\n		do","		aHead->myPos = aHead->myCapacity;\n		do")]),
 ("D06","bad",F,[("			if (aSize > theBufferCopySize)\n				cap = theBufferCopySize;\n			else\n				cap = (uint32_t)aSize;\n			aHead->myPos = cap;","			if (aSize >= theBufferCopySize)\n				cap = theBufferCopySize;\n			else\n				cap = (uint32_t)aSize + 1;\n			aHead->myPos = cap;")]),
 ("D06","bad",F,[("		while (aSize > UINT32_MAX)\n		{\n			tail = (tail->myNext =","		while (aSize > UINT32_MAX)\n		{\n			(tail->myNext =")]),
 ("D06","bad",F,[("		tail->myNext = BufferRaw::NewShared(aData, (uint32_t)aSize);\n","")]),
 ("D06","bad",F,[("				tail = BuffersCopyAppend(tail, buf->myWData, buf->myPos);","				BuffersCopyAppend(tail, buf->myWData, buf->myPos);")]),
 ("D06","bad",F,[("				if (buf->myPos > 0)\n					goto start_copy;","				if (buf->myPos > 1)\n					goto start_copy;")]),
 ("D06","bad",F,[("		while (aHead->myPos == 0)\n		{\n			aHead = aHead->myNext.GetPointer();\n			if (aHead == nullptr)\n				return {};\n		}\n","")]),
 ("D06","ok",F,[("				head = Buffer::Ptr(head->myNext);","				Buffer::Ptr next = head->myNext;\n				head = std::move(next);")]),
 ("D06","ok",F,[("				head = Buffer::Ptr(head->myNext);","				head.Set(head->myNext.GetPointer());")]),
 ("D06","ok",F,[("				if (pos->myPos > aByteCount)\n				{","				if (aByteCount < pos->myPos)\n				{")]),
 ("D06","ok",F,[("		for (; aHead != nullptr && buf < bufEnd; aHead = aHead->myNext.GetPointer())\n		{\n			if (aHead->myPos == 0)\n				continue;","		for (; aHead != nullptr; aHead = aHead->myNext.GetPointer())\n		{\n			if (buf == bufEnd)\n				break;\n			if (aHead->myPos == 0)\n				continue;")]),
 ("D06","ok",F,[("			if (aSize > theBufferCopySize)\n				cap = theBufferCopySize;\n			else\n				cap = (uint32_t)aSize;\n			aHead->myPos = cap;","			cap = (uint32_t)std::min<uint64_t>(aSize, theBufferCopySize);\n			aHead->myPos = cap;")]),
 ("D06","ok",F,[("			while (buf != nullptr)\n			{\n				tail = BuffersCopyAppend(tail, buf->myWData, buf->myPos);\n				buf = buf->myNext.GetPointer();\n			}","			for (; buf != nullptr; buf = buf->myNext.GetPointer())\n				tail = BuffersCopyAppend(tail, buf->myWData, buf->myPos);")]),
]
