D = "net/DomainToIP.cpp"
M = [
    ("D04", "bad", D, [("\t\t\tctx->ReturnTimeout();\n\t\t\tctx->PrivUnref();", "\t\t\tctx->ReturnTimeout();")]),
    ("D04", "bad", D, [("\t\t\tctx->ReturnTimeout();\n\t\t\tctx->PrivUnref();", "\t\t\tctx->PrivUnref();")]),
    ("D04", "bad", D, [("\t\t\tctx->ReturnTimeout();\n\t\t\tctx->PrivUnref();", "\t\t\tctx->PrivUnref();\n\t\t\tctx->ReturnTimeout();")]),
    ("D04", "bad", D, [("myDeadline <= ts)", "myDeadline >= ts)")]),
    ("D04", "bad", D, [("\t\t\tmyMainHeap.RemoveTop();\n\t\t\tmyMain.Remove(ctx);\n", "\t\t\tmyMainHeap.RemoveTop();\n")]),
    ("D04", "bad", D, [("\t\t\tmyMainHeap.RemoveTop();\n\t\t\tmyMain.Remove(ctx);\n", "\t\t\tmyMain.Remove(ctx);\n")]),
    ("D04", "bad", D, [("\t\t\tctx->PrivUnref();\n\t\t\tif (myMain.IsEmpty())\n\t\t\t\treturn;\n", "\t\t\tctx->PrivUnref();\n")]),
    ("D04", "bad", D, [("\t\t\tmyMainHeap.Remove(ctx);\n\t\t\tctx->Process();", "\t\t\tctx->Process();\n\t\t\tmyMainHeap.Remove(ctx);")]),
    ("D04", "bad", D, [("\t\t\tctx->Process();\n\t\t\tctx->PrivUnref();", "\t\t\tctx->Process();")]),
    ("D04", "bad", D, [("if (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n\t}\n\n\tvoid\n\tDomainToIPWorker::Cancel", "if (!wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n\t}\n\n\tvoid\n\tDomainToIPWorker::Cancel")]),
    ("D04", "bad", D, [("\t\tctx->PrivRef();\n", "")]),
    ("D04", "bad", D, [("\t\tctx->PrivRef();\n\n\t\tmyMutex.Lock();\n\t\tbool wasEmpty = myFront.IsEmpty();", "\t\tctx->PrivRef();\n\n\t\tbool wasEmpty = myFront.IsEmpty();\n\t\tmyMutex.Lock();")]),
    ("D04", "bad", D, [("aRequest.myCtx = nullptr;\n", "")]),
    ("D04", "bad", D, [("bool wasEmpty = myFrontCancel.IsEmpty();", "bool wasEmpty = myFront.IsEmpty();")]),
    ("D04", "bad", D, [("if (myMain.IsEmpty() && myFront.IsEmpty() && myFrontCancel.IsEmpty())", "if (myMain.IsEmpty() && myFront.IsEmpty())")]),
    ("D04", "bad", D, [("if (myMain.IsEmpty() && myFront.IsEmpty() && myFrontCancel.IsEmpty())", "if (myFront.IsEmpty() && myFrontCancel.IsEmpty())")]),
    ("D04", "bad", D, [("\t\tcancel = std::move(myFrontCancel);\n\t\tmyMutex.Unlock();", "\t\tmyMutex.Unlock();\n\t\tcancel = std::move(myFrontCancel);")]),
    ("D04", "bad", D, [("\t\tcancel = std::move(myFrontCancel);\n", "")]),
    ("D04", "bad", D, [("\t\t\tmyMainHeap.Push(ctx);\n", "")]),
    ("D04", "bad", D, [("\t\t\t\tctx->ReturnCancel();\n\t\t\t\tctx->PrivUnref();\n", "\t\t\t\tctx->ReturnCancel();\n")]),
    ("D04", "bad", D, [("\t\t\tif (ctx->myIndex >= 0)\n", "\t\t\tif (ctx->myIndex > 0)\n")]),
    ("D04", "bad", D, [("\t\t\t\tctx->PrivUnref();\n\t\t\t}\n\t\t\tctx->PrivUnref();", "\t\t\t\tctx->PrivUnref();\n\t\t\t}\n\t\t\telse\n\t\t\tctx->PrivUnref();")]),
    ("D04", "bad", D, [("ERR_BOX_CANCEL));", "ERR_BOX_TIMEOUT));")]),
    ("D04", "bad", D, [("ERR_BOX_TIMEOUT));", "ERR_BOX_CANCEL));")]),
    ("D04", "bad", D, [("\t\t}\n\t\tfreeaddrinfo(res);", "\t\t}")]),
    ("D04", "bad", D, [("\t\t}\n\t\tfreeaddrinfo(res);", "\t\t}"), ("\t\tstd::vector<DomainEndpoint> endpoints;\n", "\t\tfreeaddrinfo(res);\n\t\tstd::vector<DomainEndpoint> endpoints;\n")]),
    ("D04", "bad", D, [("if (endpoints.empty())", "if (!endpoints.empty())")]),
    ("D04", "bad", D, [("if (pos->ai_family != AF_INET && pos->ai_family != AF_INET6)", "if (pos->ai_family == AF_UNIX)")]),
    ("D04", "bad", D, [("if (rc == EAI_SYSTEM)", "if (rc != EAI_SYSTEM)")]),
    ("D04", "bad", D, [("\t\tif (myCtx != nullptr)\n\t\t\tmyCtx->PrivUnref();\n\t\tmyCtx = aOther.myCtx;", "\t\tmyCtx = aOther.myCtx;")]),
    ("D04", "bad", D, [("\t\tmyCtx = aOther.myCtx;\n\t\taOther.myCtx = nullptr;\n\t\treturn", "\t\tmyCtx = aOther.myCtx;\n\t\treturn")]),
    ("D04", "bad", D, [(": myCtx(aOther.myCtx)\n\t{\n\t\taOther.myCtx = nullptr;", ": myCtx(aOther.myCtx)\n\t{")]),
    ("D04", "bad", D, [("myCallback(myDomain.c_str(), {}, aError);", "myCallback(myDomain.c_str(), {}, nullptr);")]),
    ("D04", "bad", D, [("\t\t// +1 for being in the worker's queues.\n\t\tctx->PrivRef();\n", ""), ("\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n", "\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n\t\tctx->PrivRef();\n")]),
    ("D04", "bad", D, [("\t\tctx->myIsCancelled = true;\n", ""), ("\t\tmyFrontCancel.Append(ctx);\n\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n", "\t\tmyFrontCancel.Append(ctx);\n\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n\t\tctx->myIsCancelled = true;\n")]),
    # Behaviour is the same.
    ("D04", "ok", D, [("\t\t// +1 for being in the worker's queues.\n\t\tctx->PrivRef();\n", ""), ("\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n", "\t\tctx->PrivRef();\n\t\tif (wasEmpty)\n\t\t\tmyCond.Signal();\n\t\tmyMutex.Unlock();\n")]),
    ("D04", "ok", D, [("int batchSize = 10;", "int batchSize = 20;")]),
    ("D04", "ok", D, [("\t\t\tmyMainHeap.RemoveTop();\n\t\t\tmyMain.Remove(ctx);\n", "\t\t\tmyMain.Remove(ctx);\n\t\t\tmyMainHeap.RemoveTop();\n")]),
    ("D04", "ok", D, [("if (wasEmpty)\n\t\t\tmyCond.Signal();", "myCond.Signal();")]),
    ("D04", "ok", D, [("\t\t\t\tif (ts < deadline)\n\t\t\t\t{\n\t\t\t\t\tmyCond", "\t\t\t\tif (deadline > ts)\n\t\t\t\t{\n\t\t\t\t\tmyCond")]),
    ("D04", "ok", D, [("if (myMainHeap.Count() != 0)", "if (!myMain.IsEmpty())")]),
    ("D04", "ok", D, [("\t\twhile (!front.IsEmpty())\n\t\t{\n\t\t\tDomainToIPContext* ctx = front.PopFirst();", "\t\tDomainToIPContext* ctx;\n\t\twhile (!front.IsEmpty())\n\t\t{\n\t\t\tctx = front.PopFirst();"), ("\t\t\tDomainToIPContext* ctx = cancel.PopFirst();", "\t\t\tctx = cancel.PopFirst();")]),
    ("D04", "ok", D, [("\t\tif (myMain.IsEmpty() && myFront", "\t\tbool isIdle = myMain.IsEmpty();\n\t\tif (isIdle && myFront")]),
    ("D04", "ok", D, [("\t\t\tif (ctx->myIndex >= 0)\n\t\t\t{\n", "\t\t\tif (ctx->myIndex < 0)\n\t\t\t{\n\t\t\t\tctx->PrivUnref();\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\t{\n")]),
    ("D04", "ok", D, [("\t\t\tbool isFound = false;\n\t\t\tfor (const DomainEndpoint& e : endpoints)\n\t\t\t{\n\t\t\t\tif (e.myHost != point.myHost)\n\t\t\t\t\tcontinue;\n\t\t\t\tisFound = true;\n\t\t\t\tbreak;\n\t\t\t}\n", "\t\t\tbool isFound = false;\n\t\t\tfor (size_t i = 0; i < endpoints.size() && !isFound; ++i)\n\t\t\t\tisFound = endpoints[i].myHost == point.myHost;\n")]),
    ("D04", "ok", D, [("\t\tfreeaddrinfo(res);\n\n\t\tmg::box::Error::Ptr err;\n", ""), ("\t\t\tReturnEndpoints(endpoints);\n\t\t}\n", "\t\t\tReturnEndpoints(endpoints);\n\t\t}\n\t\tfreeaddrinfo(res);\n")]),
    ("D04", "ok", D, [("if (pos->ai_family != AF_INET && pos->ai_family != AF_INET6)\n\t\t\t\tcontinue;", "if (pos->ai_family == AF_INET || pos->ai_family == AF_INET6) {} else\n\t\t\t\tcontinue;")]),
]
