S = "aio/TCPServer.cpp"
M = [
 ("C09","bad",S,[("			mySub = nullptr;\n			myMutex.Unlock();\n			sub->OnClose();","			sub->OnClose();\n			mySub = nullptr;\n			myMutex.Unlock();")]),
 ("C09","bad",S,[("			myMutex.Unlock();\n			sub->OnClose();","			sub->OnClose();\n			myMutex.Unlock();")]),
 ("C09","bad",S,[("			sub->OnClose();\n			return;","			sub->OnClose();\n			myState = TCP_SERVER_STATE_CLOSED;\n			return;")]),
 ("C09","bad",S,[("		if (myState == TCP_SERVER_STATE_CLOSING)\n			return;\n","")]),
 ("C09","bad",S,[("		delete myBoundSocket;\n		myBoundSocket = nullptr;\n	}\n\n	bool\n	TCPServer::IsClosed","		delete myBoundSocket;\n	}\n\n	bool\n	TCPServer::IsClosed")]),
 ("C09","bad",S,[("			myTask.PostClose();\n			return;","			return;")]),
 ("C09","bad",S,[("		myTask.PostWakeup();\n","")]),
 ("C09","bad",S,[("		if (!SocketListen(myBoundSocket, aBacklog, aOutErr))\n			return false;\n		mySub = aSub;","		mySub = aSub;\n		if (!SocketListen(myBoundSocket, aBacklog, aOutErr))\n			return false;")]),
 ("C09","bad",S,[("			mySub->OnAccept(peerSock, peerHost);\n","			myMutex.Lock();\n			bool isOn = myState == TCP_SERVER_STATE_LISTENING;\n			myMutex.Unlock();\n			if (isOn)\n				mySub->OnAccept(peerSock, peerHost);\n")]),
 ("C09","bad",S,[("			mySub->OnAccept(peerSock, peerHost);\n		}","			mySub->OnAccept(peerSock, peerHost);\n			return;\n		}")]),
 ("C09","bad",S,[("			if (myAcceptEvent.IsLocked())\n				return;","			if (myAcceptEvent.IsLocked() || myAcceptEvent.IsEmpty())\n				return;")]),
 ("C09","bad",S,[("		mg::box::MutexLock lock(myMutex);\n		return myState == TCP_SERVER_STATE_CLOSED;","		return myState == TCP_SERVER_STATE_CLOSED;")]),
 ("C09","ok",S,[("		if (myState == TCP_SERVER_STATE_LISTENING)\n		{\n			myState = TCP_SERVER_STATE_CLOSING;\n			myTask.PostClose();\n			return;\n		}\n","		switch (myState)\n		{\n		case TCP_SERVER_STATE_LISTENING:\n			myTask.PostClose();\n			myState = TCP_SERVER_STATE_CLOSING;\n			return;\n		default:\n			break;\n		}\n")]),
 ("C09","ok",S,[("		if (peerSock == mg::net::theInvalidSocket)\n		{","		const bool isAccepted = peerSock != mg::net::theInvalidSocket;\n		if (!isAccepted)\n		{")]),
 ("C09","ok",S,[("			TCPServerSubscription* sub = mySub;\n			// Null","			TCPServerSubscription* sub = nullptr;\n			std::swap(sub, mySub);\n			// Null"),("			mySub = nullptr;\n			myMutex.Unlock();","			myMutex.Unlock();")]),
]
