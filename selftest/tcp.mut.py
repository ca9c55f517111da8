I = "aio/TCPSocketIFace.cpp"
T = "aio/TCPSocket.cpp"
L = "aio/SSLSocket.cpp"
C = "aio/TCPSocketCtl.cpp"
M = [
 # Close.
 ("C10","bad",I,[("			delete myCtl;\n			myCtl = nullptr;\n\n			sub->OnClose();","			sub->OnClose();\n			delete myCtl;\n			myCtl = nullptr;")]),
 ("C10","bad",I,[("			myWasHandshakeDone = false;\n			myIsRunning","			myIsRunning")]),
 ("C10","bad",I,[("			mySendQueue.Clear();\n","")]),
 ("C10","bad",I,[("			myFrontSendQueue.Clear();\n","")]),
 ("C10","bad",I,[("			myFrontRecvSize.StoreRelaxed(0);\n","")]),
 ("C10","bad",I,[("			PrivDisableIO();\n","")]),
 ("C10","bad",I,[("		myState = TCP_SOCKET_STATE_CLOSING;\n		myTask.PostClose();","		myState = TCP_SOCKET_STATE_CLOSING;\n		myTask.PostWakeup();")]),
 ("C10","bad",I,[("			myState = TCP_SOCKET_STATE_CLOSED;\n			return;","			myState = TCP_SOCKET_STATE_CLOSING;\n			return;")]),
 ("C10","bad",I,[("		myMutex.Unlock();\n		// Close the task even","		bool isFirst = mySub != nullptr;\n		myMutex.Unlock();\n		if (isFirst && myWasHandshakeDone)\n			return;\n		// Close the task even")]),
 ("C10","bad",L,[("		myHasEncrypted = false;\n		delete mySSL;","		myHasEncrypted = false;")]),
 ("C10","bad",L,[("		myEncSendQueue.Clear();\n","")]),
 ("C10","bad",T,[("			// Graceful close.\n			ProtClose();\n			return;","			return;")]),
 # Errors.
 ("C11","bad",I,[("			mySub->OnSendError(aError);\n","")]),
 ("C11","bad",I,[("			mySub->OnRecvError(aError);\n			mySub->OnError(aError);","			mySub->OnRecvError(aError);")]),
 ("C11","bad",I,[("		if (!PrivIsCompromised())\n			mySub->OnError(aError);\n		ProtClose();","		mySub->OnError(aError);\n		ProtClose();")]),
 ("C11","bad",I,[("		ProtClose();\n		mySendEvent.Lock();","		mySendEvent.Lock();")]),
 ("C11","bad",I,[("		ProtClose();\n		myRecvEvent.Lock();","		ProtClose();")]),
 ("C11","bad",L,[("			PrivSendAbort(mg::box::ErrorRaise(mySendEvent.PopError(), \"send\"));","			mySendEvent.PopError();")]),
 ("C11","bad",L,[("			ProtCloseError(mg::net::ErrorRaiseSSL(mySSL->GetError(), \"handshake\"));\n","")]),
 ("C11","bad",I,[("			mySub->OnConnectError(aError);\n			mySub->OnError(aError);","			mySub->OnError(aError);\n			mySub->OnError(aError);")]),
 ("C11","bad",I,[("			if (!myCtl->DoShutdown(err))\n				ProtCloseError(mg::box::ErrorRaise(err, \"shutdown\"));","			myCtl->DoShutdown(err);")]),
 # Connect.
 ("C12","bad",I,[("		myWasHandshakeDone = true;\n		mySub->OnConnect();","		mySub->OnConnect();\n		myWasHandshakeDone = true;")]),
 ("C12","bad",L,[("		return mySSL->IsConnected();","		return true;")]),
 ("C12","bad",L,[("		if (ProtWasHandshakeDone())\n		{\n			if (myRecvSize > 0)\n				PrivRecvDecrypt();\n			return;\n		}\n","		if (myRecvSize > 0)\n		{\n			PrivRecvDecrypt();\n			return;\n		}\n")]),
 ("C12","bad",I,[("		if (myState == TCP_SOCKET_STATE_HANDSHAKE)\n			myState = TCP_SOCKET_STATE_CONNECTED;\n		else\n			MG_BOX_ASSERT(myState == TCP_SOCKET_STATE_CLOSING);\n","")]),
 ("C12","bad",I,[("		return myState == TCP_SOCKET_STATE_CONNECTED;","		return myState >= TCP_SOCKET_STATE_HANDSHAKE;")]),
 ("C12","bad",L,[("		// Do not attempt to send any data until handshake is finished. It would look\n		// strange if OnSend() was called before OnConnect().\n		if (!ProtWasHandshakeDone())\n			return;\n","")]),
 # Send.
 ("C13","bad",I,[("		if (wasEmpty)\n			myTask.PostWakeup();","		if (wasEmpty && !mySendQueue.IsEmpty())\n			myTask.PostWakeup();")]),
 ("C13","bad",T,[("		if (!mySendQueue.IsEmpty())\n			myTask.Reschedule();","")]),
 ("C13","bad",T,[("		ProtOnSend(aByteCount);","		if (!mySendQueue.IsEmpty())\n			ProtOnSend(aByteCount);")]),
 ("C13","bad",L,[("			mySentSize -= toReport;","			mySentSize = 0;")]),
 ("C13","bad",L,[("		mySentSize += batchSize;","		mySentSize = batchSize;")]),
 ("C13","bad",L,[("		if (!mySendQueue.IsEmpty() || myEncSendQueue.GetReadSize() != 0)\n			myTask.Reschedule();","		if (!mySendQueue.IsEmpty())\n			myTask.Reschedule();")]),
 ("C13","bad",L,[("		myEncSendQueue.SkipData(aByteCount);","		myEncSendQueue.SkipData(myEncSendQueue.GetReadSize());")]),
 ("C13","bad",I,[("			delete aHead;\n			return;\n		}\n		mySendQueue.AppendMove(aHead);","			return;\n		}\n		mySendQueue.AppendMove(aHead);")]),
 ("C13","bad",I,[("		mySendQueue.Append(std::move(myFrontSendQueue));\n		myMutex.Unlock();","		if (myCtl == nullptr)\n			mySendQueue.Append(std::move(myFrontSendQueue));\n		myMutex.Unlock();")]),
 ("C13","bad",T,[("		ProtOpen();\n		mySendOffset = 0;","		ProtOpen();")]),
 # Receive.
 ("C14","bad",I,[("		if (myRecvSize != 0 && !myRecvEvent.IsLocked())\n			myTask.Reschedule();","")]),
 ("C14","bad",I,[("		if (myFrontRecvSize.FetchAddRelaxed(aSize) == 0)\n			PostWakeup();","		myFrontRecvSize.FetchAddRelaxed(aSize);")]),
 ("C14","bad",I,[("		Recv(myFrontRecvSize.ExchangeRelaxed(0));","		Recv(myFrontRecvSize.LoadRelaxed());")]),
 ("C14","bad",T,[("		if (myRecvSize > 0)\n			myTask.Reschedule();","")]),
 ("C14","bad",T,[("		myRecvSize = 0;\n		mg::net::BufferReadStream stream(myRecvQueue);\n		ProtOnRecv(stream);","		mg::net::BufferReadStream stream(myRecvQueue);\n		ProtOnRecv(stream);\n		myRecvSize = 0;")]),
 ("C14","bad",L,[("			myRecvSize = recvSizeWas;","			myRecvSize = 0;")]),
 ("C14","bad",L,[("		myHasEncrypted = true;\n","")]),
 ("C14","bad",L,[("			if (myRecvSize > 0)\n				PrivRecvDecrypt();","			PrivRecvDecrypt();")]),
 ("C14","bad",L,[("		if (myRecvSize > 0 || !ProtWasHandshakeDone())\n			myTask.Reschedule();","		if (!ProtWasHandshakeDone())\n			myTask.Reschedule();")]),
 # Lock.
 ("C15","bad",I,[("		myMutex.Lock();\n		bool wasEmpty = myFrontSendQueue.IsEmpty();","		bool wasEmpty = myFrontSendQueue.IsEmpty();\n		myMutex.Lock();")]),
 ("C15","bad",I,[("		mySendQueue.Append(std::move(myFrontSendQueue));\n		myMutex.Unlock();","		myMutex.Unlock();\n		mySendQueue.Append(std::move(myFrontSendQueue));")]),
 ("C15","bad",I,[("		if (myState == TCP_SOCKET_STATE_CLOSING)\n		{\n			myMutex.Unlock();\n			return;","		if (myState == TCP_SOCKET_STATE_CLOSING)\n		{\n			return;")]),
 ("C15","bad",I,[("		myMutex.Unlock();\n\n		myWasHandshakeDone = true;\n		mySub->OnConnect();","		myWasHandshakeDone = true;\n		mySub->OnConnect();\n		myMutex.Unlock();")]),
 ("C15","bad",I,[("			myFrontCtl = nullptr;\n		}\n		// Unlock because","		}\n		// Unlock because"),("		myMutex.Unlock();\n\n		if (myCtl->HasShutdown())","		myMutex.Unlock();\n		myFrontCtl = nullptr;\n\n		if (myCtl->HasShutdown())")]),
 ("C15","bad",I,[("		if (myTask.IsInWorkerNow())\n			return Recv(aSize);\n		if (myFrontRecv","		if (myTask.IsInWorkerNow() || myFrontRecvSize.LoadRelaxed() == 0)\n			return Recv(aSize);\n		if (myFrontRecv")]),
 # Steps.
 ("C16","bad",I,[("		myFrontCtl->AddConnect(params);\n		myMutex.Unlock();\n\n		myTask.Reschedule();","		myFrontCtl->AddConnect(params);\n		myMutex.Unlock();")]),
 ("C16","bad",I,[("		params.myAddrFamily = aParams.myAddrFamily;\n		params.myDelay = aParams.myDelay;\n\n		mg::box","		params.myDelay = aParams.myDelay;\n\n		mg::box")]),
 ("C16","bad",I,[("				myCtl->MergeFrom(myFrontCtl);\n			else\n","				myFrontCtl = nullptr;\n			else\n")]),
 ("C16","bad",I,[("		myFrontCtl->AddShutdown();\n		myTask.PostWakeup();","		myFrontCtl->AddShutdown();")]),
 ("C16","bad",C,[("		if (myHasConnect)\n			return true;\n		\n","")]),
 ("C16","bad",C,[("		if (ok)\n			myConnectSocket = mg::net::theInvalidSocket;\n","")]),
 ("C16","bad",C,[("		if (myConnectSocket != mg::net::theInvalidSocket)\n		{\n			mg::net::SocketClose(myConnectSocket);\n			myConnectSocket = mg::net::theInvalidSocket;\n		}\n","		myConnectSocket = mg::net::theInvalidSocket;\n")]),
 ("C16","bad",C,[("			myConnectDelay = aSrc->myConnectDelay;\n","")]),
 ("C16","bad",C,[("			aSrc->myConnectSocket = mg::net::theInvalidSocket;\n			aSrc->myConnectDelay","			aSrc->myConnectDelay"),("			aSrc->myHasConnect = false;\n","")]),
 ("C16","bad",C,[("		if (myHasShutdown)\n		{\n			// Shutdown is already","		if (myHasShutdown && myHasConnect)\n		{\n			// Shutdown is already")]),
 ("C16","bad",C,[("				myTask->SetDeadline(myConnectStartDeadline);\n","")]),
 ("C16","bad",C,[("			myConnectIsStarted = true;\n			if (myConnectDelay","			if (myConnectDelay")]),
 ("C16","bad",C,[("				PrivEndConnect();\n				return false;\n			}\n		}\n		bool ok;","				return false;\n			}\n		}\n		bool ok;")]),
 ("C16","bad",C,[("		if (myHasAttach)\n			PrivEndAttach();\n		PrivEndHandshake","		PrivEndHandshake")]),
 ("C16","bad",C,[("		// Too late, already canceled.\n		delete this;","")]),
 ("C16","bad",C,[("			myTask->PostWakeup();\n			myTask = nullptr;\n			myMutex.Unlock();\n			return;","			IOTask* task = myTask;\n			myTask = nullptr;\n			myMutex.Unlock();\n			task->PostWakeup();\n			return;")]),
 ("C16","bad",C,[("		myTask = nullptr;\n		mg::net::DomainToIPCancel(myRequest);\n		myMutex.Unlock();","		myTask = nullptr;\n		myMutex.Unlock();\n		mg::net::DomainToIPCancel(myRequest);")]),
 ("C16","bad",C,[("		mg::box::MutexLock lock(myMutex);\n		// Task is dropped","		// Task is dropped")]),
 ("C16","bad",C,[("				myHost.SetPort(myPort);","				;")]),
 # TLS.
 ("C17","bad",L,[("		if (aParams.myDoEncrypt)\n			mySSL->Connect();","		if (aParams.myDoEncrypt && aParams.myHostName != nullptr)\n			mySSL->Connect();")]),
 ("C17","bad",L,[("		delete mySSL;\n		mySSL = new mg::net::SSLStream(aParams.mySSL);","		if (mySSL == nullptr)\n			mySSL = new mg::net::SSLStream(aParams.mySSL);")]),
 ("C17","bad",L,[("			if (link == nullptr)\n				break;\n			const mg::net::Buffer* buf = link->myHead.GetPointer();\n			MG_DEV_ASSERT(buf != nullptr);\n			MG_DEV_ASSERT(buf->myPos > 0);\n			mySentSize","			if (link == nullptr || mySentSize > 0)\n				break;\n			const mg::net::Buffer* buf = link->myHead.GetPointer();\n			MG_DEV_ASSERT(buf != nullptr);\n			MG_DEV_ASSERT(buf->myPos > 0);\n			mySentSize")]),
 ("C17","bad",L,[("		// Do not attempt to send any data until handshake is finished. It would look\n		// strange if OnSend() was called before OnConnect().\n		if (!ProtWasHandshakeDone())\n			return;\n","")]),
 # Same behaviour.
 ("C10 C11 C12 C13 C14 C15 C16 C17","ok",I,[("		if (myState >= TCP_SOCKET_STATE_CLOSING)\n			return;\n		if (myState == TCP_SOCKET_STATE_NEW)\n		{\n			myState = TCP_SOCKET_STATE_CLOSED;\n			return;\n		}\n		myState = TCP_SOCKET_STATE_CLOSING;\n		myTask.PostClose();","		switch (myState)\n		{\n		case TCP_SOCKET_STATE_CLOSING:\n		case TCP_SOCKET_STATE_CLOSED:\n			break;\n		case TCP_SOCKET_STATE_NEW:\n			myState = TCP_SOCKET_STATE_CLOSED;\n			break;\n		default:\n			myTask.PostClose();\n			myState = TCP_SOCKET_STATE_CLOSING;\n			break;\n		}")]),
 ("C10 C13 C15","ok",I,[("		myMutex.Lock();\n		bool wasEmpty = myFrontSendQueue.IsEmpty();\n		myFrontSendQueue.AppendMove(aHead);\n		myMutex.Unlock();\n\n		if (wasEmpty)\n			myTask.PostWakeup();","		bool isFirst;\n		{\n			mg::box::MutexLock lock(myMutex);\n			isFirst = myFrontSendQueue.IsEmpty();\n			myFrontSendQueue.AppendMove(aHead);\n		}\n		if (!isFirst)\n			return;\n		myTask.PostWakeup();")]),
 ("C11 C14 C13","ok",T,[("		if (mySendEvent.IsLocked())\n			return false;\n		if (mySendEvent.IsEmpty())\n			return true;\n		if (mySendEvent.IsError())\n		{","		if (mySendEvent.IsLocked())\n			return false;\n		bool isEmpty = mySendEvent.IsEmpty();\n		if (isEmpty)\n			return true;\n		if (mySendEvent.IsError())\n		{")]),
 ("C14 C12 C17","ok",L,[("		uint64_t recvSizeWas = myRecvSize;\n		myRecvSize = 0;\n		mg::net::Buffer::Ptr head;","		mg::net::Buffer::Ptr head;\n		uint64_t recvSizeWas = myRecvSize;\n		myRecvSize = 0;")]),
 ("C10 C16","ok",I,[("			delete myCtl;\n			myCtl = nullptr;\n\n			sub->OnClose();","			TCPSocketCtl* ctl = myCtl;\n			myCtl = nullptr;\n			delete ctl;\n\n			sub->OnClose();")]),
 ("C16","ok",C,[("		if (myConnectStartDeadline != 0)\n		{\n			if (mg::box::GetMilliseconds() < myConnectStartDeadline)\n			{\n				myTask->SetDeadline(myConnectStartDeadline);\n				return true;\n			}\n			myConnectStartDeadline = 0;\n		}","		const uint64_t deadline = myConnectStartDeadline;\n		if (deadline > mg::box::GetMilliseconds())\n		{\n			myTask->SetDeadline(deadline);\n			return true;\n		}\n		myConnectStartDeadline = 0;")]),
 ("C16","ok",C,[("		myMutex.Lock();\n		if (myTask == nullptr)\n		{\n			myMutex.Unlock();\n			delete this;\n			return;\n		}","		myMutex.Lock();\n		const bool isDone = myTask == nullptr;\n		if (isDone)\n		{\n			myMutex.Unlock();\n			delete this;\n			return;\n		}")]),
 ("C16","ok",C,[("		bool ok;\n		IOEvent& event = myConnectEvent;\n		const mg::net::Host& host = myConnectHost;\n		if (myTask->HasSocket())\n			ok = myTask->ConnectUpdate(event);\n		else if (myConnectSocket != mg::net::theInvalidSocket)\n			ok = myTask->ConnectStart(myConnectSocket, host, event);\n		else\n			ok = myTask->ConnectStart(host, event);","		bool ok;\n		IOEvent& event = myConnectEvent;\n		if (myTask->HasSocket())\n			ok = myTask->ConnectUpdate(event);\n		else if (myConnectSocket == mg::net::theInvalidSocket)\n			ok = myTask->ConnectStart(myConnectHost, event);\n		else\n			ok = myTask->ConnectStart(myConnectSocket, myConnectHost, event);")]),
]
