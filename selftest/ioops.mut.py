T = "aio/IOTask.cpp"
TE = "aio/IOTask_epoll.cpp"
TU = "aio/IOTask_iouring.cpp"
H = "aio/IOTask.h"
M = [
 ("C08","bad",TE,[("			SaveEventWritable();\n			// Writes","			// Writes")]),
 ("C08","bad",TE,[("		if (rc >= 0)\n		{\n			// Read is done. But in edge-triggered (EPOLLET) epoll must read until would\n			// block. Or save the event to finish its consumption later.\n			SaveEventReadable();","		if (rc >= 0)\n		{\n			if (rc == 0)\n				return aEvent.ReturnEmpty();\n			SaveEventReadable();")]),
 ("C08","bad",TE,[("		aEvent.ReturnEmpty();\n		aEvent.Lock();\n		MG_BOX_ASSERT(myInEvent == nullptr);\n		myInEvent = &aEvent;\n		return true;\n	}\n\n	bool\n	IOTask::ConnectStart","		aEvent.ReturnEmpty();\n		aEvent.Lock();\n		myOutEvent = &aEvent;\n		return true;\n	}\n\n	bool\n	IOTask::ConnectStart")]),
 ("C08","bad",TE,[("		if (errno != EINPROGRESS)\n			return aEvent.ReturnError(mg::box::ErrorCodeErrno());\n		AttachSocket(aSocket);","		AttachSocket(aSocket);\n		if (errno != EINPROGRESS)\n			return aEvent.ReturnError(mg::box::ErrorCodeErrno());")]),
 ("C08","bad",TE,[("			aOutPeer.Set((mg::net::Sockaddr*)&remoteAddr);\n","			if (remoteAddrLen > 16) aOutPeer.Set((mg::net::Sockaddr*)&remoteAddr);\n")]),
 ("C08","bad",TE,[("			SOCK_NONBLOCK);","			0);")]),
 ("C08","bad",TE,[("			Reschedule();\n		}\n		return mg::net::theInvalidSocket;","		}\n		return mg::net::theInvalidSocket;")]),
 ("C08","bad",TE,[("		if ((aArgs.myEvents & EPOLLOUT) != 0 && myOutEvent != nullptr)","		if ((aArgs.myEvents & EPOLLIN) == 0 && (aArgs.myEvents & EPOLLOUT) != 0 && myOutEvent != nullptr)")]),
 ("C08","bad",TE,[("			if (!aOutErr.IsSet())\n				aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, \"EPOLLERR/HUP\");\n","			if (mySocket == mg::net::theInvalidSocket)\n				aOutErr = mg::box::ErrorRaise(mg::box::ERR_NET_ABORTED, \"EPOLLERR/HUP\");\n")]),
 ("C08","bad",TE,[("			myInEvent->UnlockForced();\n			myInEvent = nullptr;","			myInEvent->UnlockForced();")]),
 ("C08","bad",TE,[("		ssize_t rc = sendmsg(GetSocket(), &msg, 0);","		ssize_t rc = sendmsg(GetSocket(), &msg, 0);\n		write(2, &rc, 0);")]),
 ("C08","bad",TU,[("		memcpy(params.myData, aBuffers,\n			params.myMsg.msg_iovlen * sizeof(aBuffers[0]));\n\n		OperationStart();\n		myToSubmitEvents.Append(&aEvent);\n		aEvent.Lock();\n		return true;\n	}\n\n	bool\n	IOTask::Recv(","		memcpy(params.myData, aBuffers,\n			aBufferCount * sizeof(aBuffers[0]));\n\n		OperationStart();\n		myToSubmitEvents.Append(&aEvent);\n		aEvent.Lock();\n		return true;\n	}\n\n	bool\n	IOTask::Recv(")]),
 ("C08","bad",TU,[("		params.myMsg.msg_iov = mg::box::IOVecToNative(params.myData);\n","		params.myMsg.msg_iov = const_cast<iovec*>(mg::box::IOVecToNative(aBuffers));\n")]),
 ("C08","bad",TU,[("		OperationStart();\n		myToSubmitEvents.Append(&aEvent);\n		aEvent.Lock();\n		return true;\n	}\n\n	bool\n	IOTask::ConnectUpdate","		myToSubmitEvents.Append(&aEvent);\n		aEvent.Lock();\n		return true;\n	}\n\n	bool\n	IOTask::ConnectUpdate")]),
 ("C08","bad",TU,[("				aEvent.PopError();\n				Reschedule();","				Reschedule();")]),
 ("C08","bad",TU,[("		return aEvent.PopBytes();","		return aEvent.GetBytes();")]),
 ("C08","bad",TU,[("			event->Unlock();\n			event = event->myNext;","			event->Unlock();\n			event = event->myNext != nullptr ? event->myNext->myNext : nullptr;")]),
 ("C08","bad",TU,[("			aEvent.myParamsAccept.myAddrLen = sizeof(aEvent.myParamsAccept.myAddr);\n","")]),
 ("C08","bad",T,[("			aHead, aByteOffset, bufs, mg::box::theIOVecMaxCount);\n		MG_BOX_ASSERT(count > 0);\n		return Send(bufs, count, aEvent);\n	}\n\n	bool\n	IOTask::Recv","			aHead, 0, bufs, mg::box::theIOVecMaxCount);\n		MG_BOX_ASSERT(count > 0);\n		return Send(bufs, count, aEvent);\n	}\n\n	bool\n	IOTask::Recv")]),
 ("C08","ok",TE,[("		if (rc > 0)\n		{","		bool isSent = rc > 0;\n		if (isSent)\n		{")]),
 ("C08","ok",TE,[("		if (errno != EINPROGRESS)\n			return aEvent.ReturnError(mg::box::ErrorCodeErrno());\n		AttachSocket(aSocket);\n		aEvent.Lock();","		int err = errno;\n		if (err != EINPROGRESS)\n		{\n			mg::box::ErrorCode code = mg::box::ErrorCodeFromErrno(err);\n			return aEvent.ReturnError(code);\n		}\n		aEvent.Lock();\n		AttachSocket(aSocket);")]),
 ("C08","ok",TE,[("		myInEvent = &aEvent;\n		return true;\n	}\n\n	bool\n	IOTask::ConnectStart","		PrivWaitIn(aEvent);\n		return true;\n	}\n\n	void\n	IOTask::PrivWaitIn(\n		IOEvent& aEvent)\n	{\n		myInEvent = &aEvent;\n	}\n\n	bool\n	IOTask::ConnectStart")]+[] if 0 else [("		return true;\n	}\n\n	bool\n	IOTask::ConnectStart","		bool ok = true;\n		return ok;\n	}\n\n	bool\n	IOTask::ConnectStart")]),
 ("C08","ok",TU,[("		while (event != nullptr)\n		{\n			event->Unlock();\n			event = event->myNext;\n		}","		for (; event != nullptr; event = event->myNext)\n			event->Unlock();")]),
 ("C08","ok",TU,[("		OperationStart();\n		myToSubmitEvents.Append(&aEvent);\n		aEvent.Lock();\n		return true;\n	}\n\n	bool\n	IOTask::Recv(","		aEvent.Lock();\n		myToSubmitEvents.Append(&aEvent);\n		OperationStart();\n		return true;\n	}\n\n	bool\n	IOTask::Recv(")]),
]
