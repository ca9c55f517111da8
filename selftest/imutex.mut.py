F = "box/InterruptibleMutex.cpp"
M = [
 ("B02","bad",F,[("CmpExchgStrongAcquire(expected, INTERRUPTIBLE_MUTEX_TAKEN)","CmpExchgStrongRelaxed(expected, INTERRUPTIBLE_MUTEX_TAKEN)")]),
 ("B02","bad",F,[("		if (myWaiters.IsEmpty())\n			expected = myState.FetchBitAndRelease(~INTERRUPTIBLE_MUTEX_HAS_WAITERS);\n		else\n			expected = myState.FetchBitAndRelease(-1);","		expected = myState.FetchBitAndRelease(~INTERRUPTIBLE_MUTEX_HAS_WAITERS);")]),
 ("B02","bad",F,[("FetchBitAndRelease(-1)","FetchBitAndRelaxed(-1)")]),
 ("B02","bad",F,[("			aWakeup();\n","")]),
 ("B02","bad",F,[("		if (myWaiters.IsEmpty())\n		{\n			// Only","		if (!myWaiters.IsEmpty())\n		{\n			// Only")]),
 ("B02","bad",F,[("		first->mySignal.Send();\n		myMutex.Unlock();","		myMutex.Unlock();\n		if (!myWaiters.IsEmpty())\n		first->mySignal.Send();")]),
 ("B02","bad",F,[("ExchangeRelaxed(INTERRUPTIBLE_MUTEX_TAKEN)","FetchBitOrRelaxed(INTERRUPTIBLE_MUTEX_TAKEN)")]),
 ("B02","bad",F,[("FetchBitOrAcquire","FetchBitOrRelaxed")]),
 ("B02","bad",F,[("		InterruptibleMutexWaiter* first = myWaiters.PopFirst();","		InterruptibleMutexWaiter* first = myWaiters.PopLast();")]),
 ("B02","bad",F,[("		uint8_t expected = INTERRUPTIBLE_MUTEX_TAKEN;\n		if (myState.CmpExchgStrongRelease(expected, 0))\n			return;","		uint8_t expected = myState.FetchBitAndRelease(INTERRUPTIBLE_MUTEX_HAS_WAITERS);\n		if ((expected & INTERRUPTIBLE_MUTEX_HAS_WAITERS) == 0) return;")]),
 ("B02","ok",F,[("		first->mySignal.Send();\n		myMutex.Unlock();","		myMutex.Unlock();\n		first->mySignal.Send();")]),
 ("B02","ok",F,[("		if (myWaiters.IsEmpty())\n			expected = myState.FetchBitAndRelease(~INTERRUPTIBLE_MUTEX_HAS_WAITERS);\n		else\n			expected = myState.FetchBitAndRelease(-1);","		uint8_t mask = myWaiters.IsEmpty() ? (uint8_t)~INTERRUPTIBLE_MUTEX_HAS_WAITERS : (uint8_t)0xff;\n		expected = myState.FetchBitAndRelease(mask);")]),
]
