F = "box/SharedPtr.h"
R = "box/RefCount.h"
M = [
 ("B05","bad",R,[("DecrementFetchAcqRel","DecrementFetchRelease")]),
 ("B05","bad",R,[("newValue == 0;","newValue <= 1;")]),
 ("B05","bad",R,[("		int32_t newValue = myCount.DecrementFetchAcqRel();","		int32_t newValue = myCount.LoadAcquire() - 1;\n		myCount.StoreRelease(newValue);")]),
 ("B05","bad",F,[("		PrivRef();\n		PrivUnref(old);","		PrivUnref(old);\n		PrivRef();")]),
 ("B05","bad",F,[("		: myObject(aOther.myObject)\n	{\n		PrivRef();","		: myObject(aOther.myObject)\n	{\n")]),
 ("B05","bad",F,[("		T* res = myObject;\n		myObject = nullptr;\n","		T* res = myObject;\n")]),
 ("B05","bad",F,[("if (this != &aOther)","if (newObj != oldObj)")]),
 ("B05","bad",F,[("if (myRef.Dec()) delete this;","if (!myRef.Dec()) return; if (myRef.Get() != 0) delete this;")]),
 ("B05","ok",F,[("		if (myObject == aObject)\n			return;\n","")]),
 ("B05","ok",F,[("if (myRef.Dec()) delete this;","if (!myRef.Dec()) return; delete this;")]),
 ("B05","ok",R,[("return newValue == 0;","return !newValue;")]),
 ("B05","ok",R,[("		int32_t newValue = myCount.DecrementFetchAcqRel();","		int32_t newValue = myCount.FetchSubAcqRel(1) - 1;")]),
 ("B05","ok",F,[("		T* old = myObject;\n		myObject = nullptr;\n		PrivUnref(old);","		SharedPtrIntrusive<T> old;\n		old.myObject = myObject;\n		myObject = nullptr;")]),
]
