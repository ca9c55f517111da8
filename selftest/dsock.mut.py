N, S = "net/Socket_Unix.cpp", "sio/Socket_Unix.cpp"
T, V = "sio/TCPSocket.cpp", "sio/TCPServer.cpp"
M = [
    ("D01", "bad", N, [("bind()\");\n\t\t\treturn false;", "bind()\");\n\t\t\treturn true;")]),
    ("D01", "bad", N, [("keepAliveIdle = aTimeout / 1000;", "keepAliveIdle = aTimeout;")]),
    ("D01", "bad", N, [("if (keepAliveIdle == 0 && aTimeout != 0)\n\t\t\tkeepAliveIdle = 1;", "")]),
    ("D01", "bad", N, [("userTimeout *= 1000;", "")]),
    ("D01", "bad", N, [("keepAliveIdle + keepAliveInterval * keepAliveCount", "keepAliveInterval * keepAliveCount")]),
    ("D01", "bad", N, [("IPPROTO_TCP, TCP_KEEPCNT, &keepAliveCount", "IPPROTO_TCP, TCP_KEEPCNT, &keepAliveInterval")]),
    ("D01", "bad", N, [("setsockopt(TCP_KEEPIDLE)\");\n\t\t\treturn false;", "setsockopt(TCP_KEEPIDLE)\");")]),
    ("D01", "bad", N, [("IPV6_V6ONLY,\n\t\t\t&optValue", "IPV6_V6ONLY,\n\t\t\t&aValue")]),
    ("D01", "bad", N, [("optValue = aValue ? 0 : 1", "optValue = aValue ? 1 : 0")]),
    ("D01", "bad", N, [("SHUT_RDWR", "SHUT_WR")]),
    ("D01", "bad", N, [("aSock == theInvalidSocket || close", "close")]),
    ("D01", "bad", N, [("\t\tif (sockerr == 0)\n\t\t\treturn true;\n\t\taOutErr = mg::box::ErrorRaiseErrno(sockerr, ", "\t\tif (sockerr == 0)\n\t\t\treturn true;\n\t\taOutErr = mg::box::ErrorRaiseErrno(")]),
    ("D01", "bad", N, [("F_SETFL, flags | O_NONBLOCK", "F_SETFL, O_NONBLOCK")]),
    ("D01", "bad", N, [("SO_REUSEADDR,\n", "SO_REUSEPORT,\n")]),
    ("D01", "bad", N, [("if (mg::box::SysIsWSL())", "if (!mg::box::SysIsWSL())")]),
    ("D01", "bad", S, [("int flags = SOCK_NONBLOCK;", "int flags = 0;")]),
    ("D01", "bad", S, [("&remoteAddrLen,\n\t\t\tSOCK_NONBLOCK", "&remoteAddrLen,\n\t\t\t0")]),
    ("D01", "bad", S, [("err == EWOULDBLOCK || err == EAGAIN)\n\t\t{\n\t\t\taOutErr.Clear();", "err == EWOULDBLOCK || err == EAGAIN)\n\t\t{")]),
    ("D01", "bad", S, [("\t\telse\n\t\t\taOutErr.Clear();\n\t\treturn mg::net::theInvalidSocket;", "\t\treturn mg::net::theInvalidSocket;")]),
    ("D01", "bad", S, [("errno == EINPROGRESS)\n\t\t\taOutErr.Clear();\n\t\telse", "errno == EINPROGRESS)\n\t\t\treturn true;\n\t\telse")]),
    ("D01", "bad", S, [("poll(&fd, 1, 0)", "poll(&fd, 1, 1000)")]),
    ("D01", "bad", S, [("fd.revents == POLLOUT", "(fd.revents & POLLOUT) != 0")]),
    ("D01", "bad", S, [("if (mg::net::SocketCheckState(aSock, aOutErr))", "if (!mg::net::SocketCheckState(aSock, aOutErr))")]),
    ("D01", "bad", S, [("aOutErr = mg::box::ErrorRaiseErrno(\"recvmsg()\");\n\t\treturn -1", "aOutErr = mg::box::ErrorRaiseErrno(\"recvmsg()\");\n\t\treturn 0")]),
    ("D01", "bad", S, [("ssize_t rc = recvmsg(aSock, &msg, 0);\n\t\tif (rc >= 0)", "ssize_t rc = recvmsg(aSock, &msg, 0);\n\t\tif (rc > 0)")]),
    ("D01", "bad", S, [("if (errno == EWOULDBLOCK || errno == EAGAIN)\n\t\t\taOutErr.Clear();\n\t\telse\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(\"sendmsg()\")", "close(-1);\n\t\tif (errno == EWOULDBLOCK || errno == EAGAIN)\n\t\t\taOutErr.Clear();\n\t\telse\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(\"sendmsg()\")"), ("#include <poll.h>", "#include <poll.h>\n#include <unistd.h>")]),
    ("D01", "bad", "sio/Socket.cpp", [("vec.mySize = UINT32_MAX;", "vec.mySize = (uint32_t)aSize;")]),
    ("D01", "bad", "sio/Socket.cpp", [("aList, aByteOffset, bufs", "aList, 0, bufs")]),
    ("D01", "bad", "sio/Socket.cpp", [("aHead, bufs, mg::box::theIOVecMaxCount);\n\t\treturn SocketRecv(aSock, bufs, count, aOutErr)", "aHead, bufs, mg::box::theIOVecMaxCount);\n\t\treturn SocketRecv(aSock, bufs, count - 1, aOutErr)")]),
    ("D01", "bad", "net/Socket.cpp", [("host = mg::net::HostMakeAllIPV6(0);", "host = mg::net::HostMakeAllIPV4(0);")]),
    # The same in other words.
    ("D01", "ok", S, [("if (rc > 0)\n\t\t\treturn rc;\n\t\tif", "if"), ("if (errno == EINPROGRESS)\n\t\t\taOutErr.Clear();\n\t\telse\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(\"connect()\");\n\t\treturn false;", "int err = errno;\n\t\taOutErr.Clear();\n\t\tif (err != EINPROGRESS)\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(err, \"connect()\");\n\t\treturn false;")]) if 0 else
    ("D01", "ok", S, [("if (errno == EINPROGRESS)\n\t\t\taOutErr.Clear();\n\t\telse\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(\"connect()\");\n\t\treturn false;", "int err = errno;\n\t\taOutErr.Clear();\n\t\tif (err != EINPROGRESS)\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(err, \"connect()\");\n\t\treturn false;")]),
    ("D01", "ok", "sio/Socket.cpp", [("if (aSize <= UINT32_MAX)\n\t\t\tvec.mySize = (uint32_t)aSize;\n\t\telse\n\t\t\tvec.mySize = UINT32_MAX;", "vec.mySize = aSize > UINT32_MAX ? UINT32_MAX : (uint32_t)aSize;")]),
    ("D01 D03", "ok", N, [("\tbool\n\tSocketFixReuseAddr(", "\tstatic bool\n\tSetOpt(Socket aSock, int aLevel, int aName, int aValue, const char* aWhat, mg::box::Error::Ptr& aOutErr)\n\t{\n\t\tif (setsockopt(aSock, aLevel, aName, &aValue, sizeof(aValue)) == 0)\n\t\t\treturn true;\n\t\taOutErr = mg::box::ErrorRaiseErrno(aWhat);\n\t\treturn false;\n\t}\n\n\tbool\n\tSocketFixReuseAddr("), ("\t\tint optValue = 1;\n\t\tbool ok = setsockopt(aSock, SOL_SOCKET, SO_REUSEADDR,\n\t\t\t&optValue, sizeof(optValue)) == 0;\n\t\tif (!ok)\n\t\t\taOutErr = mg::box::ErrorRaiseErrno(\"setsockopt(SO_REUSEADDR)\");\n\t\treturn ok;", "\t\treturn SetOpt(aSock, SOL_SOCKET, SO_REUSEADDR, 1, \"setsockopt(SO_REUSEADDR)\", aOutErr);")]),
    ("D02", "bad", N, [("mg::box::ERR_NET_DOWN, mg::box::ERR_NET_PROTOCOL, ", "mg::box::ERR_NET_DOWN, ")]),
    ("D02", "bad", N, [("mg::box::ERR_SYS_INTERRUPTED,", "mg::box::ERR_SYS_INTERRUPTED, mg::box::ERR_SYS_TOO_MANY_DESCRIPTORS,")]),
    ("D02", "bad", "box/Error.cpp", [("case ECONNRESET:\n\t\t\treturn ERR_NET_CLOSE_BY_PEER", "case ECONNRESET:\n\t\t\treturn ERR_NET_ABORTED")]),
    ("D02", "bad", "box/Error.cpp", [("\t\tcase ENFILE:\n", "")]),
    ("D02", "ok", "box/Error.cpp", [("\t\tcase EWOULDBLOCK:\n\t\t\treturn ERR_SYS_WOULDBLOCK;\n", ""), ("if (aSysCode == EAGAIN)", "if (aSysCode == EAGAIN || aSysCode == EWOULDBLOCK)")]),
    ("D02", "ok", N, [("\t\t\tif (aError != nonCritErr)\n\t\t\t\tcontinue;\n\t\t\treturn false;", "\t\t\tif (aError == nonCritErr)\n\t\t\t\treturn false;")]),
    ("D03", "bad", V, [("\t\t\tmg::net::SocketClose(sock);\n\t\t\treturn false;", "\t\t\treturn false;")]),
    ("D03", "bad", V, [("if (!SocketListen(mySocket, aBacklog, aOutErr))\n\t\t{\n\t\t\tClose();", "if (!SocketListen(mySocket, aBacklog, aOutErr))\n\t\t{")]),
    ("D03", "bad", V, [("res == mg::net::theInvalidSocket && aOutErr.IsSet()", "res == mg::net::theInvalidSocket")]),
    ("D03", "bad", V, [("mg::net::SocketClose(mySocket);\n\t\tmySocket = mg::net::theInvalidSocket;", "mg::net::SocketClose(mySocket);")]),
    ("D03", "bad", V, [("!mg::net::SocketFixReuseAddr(sock, aOutErr) ||\n\t\t\t", "")]) if 0 else
    ("D03", "bad", V, [("TCPServer::~TCPServer()\n\t{\n\t\tClose();", "TCPServer::~TCPServer()\n\t{")]),
    ("D03", "bad", T, [("\t\t\t\tmg::net::SocketClose(sock);\n", "")]),
    ("D03", "bad", T, [("\t\t\tmySocket = sock;\n\t\t\tmyState = TCP_SOCKET_STATE_CONNECTING;", "\t\t\tmySocket = sock;\n\t\t\tmyState = TCP_SOCKET_STATE_CONNECTED;")]),
    ("D03", "bad", T, [("\t\tmyOutput.Clear();\n", "")]),
    ("D03", "bad", T, [("\t\tmyOutput.Clear();\n\t\tmySendOffset = 0;", "\t\tmyOutput.Clear();")]),
    ("D03", "bad", T, [("(rc < 0 && aOutErr.IsSet()) || rc == 0", "rc < 0 && aOutErr.IsSet()")]),
    ("D03", "bad", T, [("(rc < 0 && aOutErr.IsSet()) || rc == 0", "rc <= 0")]),
    ("D03", "bad", T, [("SocketSend(mySocket, myOutput, mySendOffset, aOutErr)", "SocketSend(mySocket, myOutput, 0, aOutErr)")]),
    ("D03", "bad", T, [("myOutput.SkipData(mySendOffset, rc);", "uint32_t off = mySendOffset;\n\t\tmyOutput.SkipData(off, rc);")]),
    ("D03", "bad", T, [("\t\t\tif (!aOutErr.IsSet())\n\t\t\t\treturn true;\n\t\t\tClose();\n\t\t\treturn false;", "\t\t\tClose();\n\t\t\treturn false;")]),
    ("D03", "bad", T, [("TCPSocket::SendRef(\n\t\tconst void* aData,\n\t\tuint64_t aSize)\n\t{\n\t\tif (myState != TCP_SOCKET_STATE_CLOSED)\n\t\t\t", "TCPSocket::SendRef(\n\t\tconst void* aData,\n\t\tuint64_t aSize)\n\t{\n\t\t")]),
    ("D03", "bad", T, [("myOutput.AppendCopy(aData, aSize)", "myOutput.AppendRef(aData, aSize)")]),
    ("D03", "ok", T, [("\t\tint64_t rc = SocketSend(mySocket, myOutput, mySendOffset, aOutErr);", "\t\tconst mg::net::Socket sock = mySocket;\n\t\tint64_t rc = SocketSend(sock, myOutput, mySendOffset, aOutErr);")]),
    ("D03", "ok", V, [("\t\tif (!mg::net::SocketFixReuseAddr(sock, aOutErr) ||\n\t\t\t!mg::net::SocketBind(sock, aHost, aOutErr))\n\t\t{\n\t\t\tmg::net::SocketClose(sock);\n\t\t\treturn false;\n\t\t}\n\t\tmyState = TCP_SERVER_STATE_BOUND;\n\t\tmySocket = sock;\n\t\treturn true;", "\t\tbool ok = mg::net::SocketFixReuseAddr(sock, aOutErr);\n\t\tif (ok)\n\t\t\tok = mg::net::SocketBind(sock, aHost, aOutErr);\n\t\tif (ok)\n\t\t{\n\t\t\tmySocket = sock;\n\t\t\tmyState = TCP_SERVER_STATE_BOUND;\n\t\t}\n\t\telse\n\t\t{\n\t\t\tmg::net::SocketClose(sock);\n\t\t}\n\t\treturn ok;")]),
]
