F = "box/Signal.cpp"
M = [
 ("B01","bad",F,[("CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE)","CmpExchgStrongRelease(oldState, SIGNAL_STATE_SIGNALED)"),("		oldState = myState.ExchangeRelease(SIGNAL_STATE_SIGNALED);\n		MG_BOX_ASSERT(oldState == SIGNAL_STATE_PROBE);\n","")]),
 ("B01","bad",F,[("		myCond.Signal();\n		myLock.Unlock();","		myLock.Unlock();\n		myCond.Signal();")]),
 ("B01","bad",F,[("		while (!Receive())\n			myCond.Wait(myLock);","		do {\n			myCond.Wait(myLock);\n		} while (!Receive());")]),
 ("B01","bad",F,[("			rc = Receive();\n","			Receive();\n")]),
 ("B01","bad",F,[("		bool rc = Receive();\n		if (!rc)","		bool rc = false;\n		if (!rc)")]),
 ("B01","bad",F,[("CmpExchgStrongAcquire(oldState, SIGNAL_STATE_EMPTY)","CmpExchgStrongRelaxed(oldState, SIGNAL_STATE_EMPTY)")]),
 ("B01","bad",F,[("		myLock.Lock();\n		myLock.Unlock();\n	}\n\n	void\n	Signal::Send","	}\n\n	void\n	Signal::Send")]),
 ("B01","bad",F,[("		while (!Receive())\n			myCond.Wait(myLock);","		if (!Receive())\n			myCond.Wait(myLock);")]),
 ("B01","bad",F,[("CmpExchgStrongRelease(oldState, SIGNAL_STATE_PROBE)","CmpExchgStrongRelaxed(oldState, SIGNAL_STATE_PROBE)"),("ExchangeRelease","ExchangeRelaxed")]),
 ("B01","bad",F,[("		State oldState = SIGNAL_STATE_SIGNALED;\n","		State oldState = SIGNAL_STATE_SIGNALED;\n		if (myState.LoadRelaxed() == SIGNAL_STATE_PROBE) { myState.StoreRelaxed(SIGNAL_STATE_EMPTY); return true; }\n")]),
 ("B01","ok",F,[("ExchangeRelease","ExchangeRelaxed")]),
 ("B01","ok",F,[("		myLock.Lock();\n		while (!Receive())\n			myCond.Wait(myLock);\n		myLock.Unlock();","		mg::box::MutexLock g(myLock);\n		for (;;) { if (Receive()) break; myCond.Wait(myLock); }")]),
 ("B01","ok",F,[("		if (Receive())\n			return true;\n\n		myLock.Lock();","		bool first = Receive();\n		if (first)\n			return first;\n\n		myLock.Lock();")]),
]
