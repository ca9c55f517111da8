T = "box/Time.h"
U = "box/Time_Unix.cpp"
M = [
 ("B11","bad",T,[("if (ts >= UINT64_MAX - myValue)","if (ts > UINT64_MAX)")]),
 ("B11","bad",T,[("if (ts >= UINT64_MAX - myValue)","if (ts >= UINT64_MAX + myValue)")]),
 ("B11","bad",T,[("if (ts >= UINT64_MAX - myValue)","if (myValue > UINT32_MAX)")]),
 ("B11","bad",T,[("		if (myPoint.myValue == MG_TIME_INFINITE)\n			return theTimeDurationInf;\n","")]),
 ("B11","bad",T,[("		if (ts >= myPoint.myValue)\n			return TimeDuration(0);\n","")]),
 ("B11","bad",T,[("return TimeDuration(myPoint.myValue - ts);","return TimeDuration((uint32_t)(myPoint.myValue - ts));")]),
 ("B11","bad",T,[("return TimeDuration(myPoint.myValue - ts);","return TimeDuration(ts - myPoint.myValue);")]),
 ("B11","bad",T,[("int32_t aValue) : myValue(aValue >= 0 ? aValue : 0)","int32_t aValue) : myValue(aValue)")]),
 ("B11","bad",T,[("int64_t aValue) : myValue(aValue >= 0 ? aValue : 0)","int64_t aValue) : myValue(aValue >= 0 ? aValue : -aValue)")]),
 ("B11","bad",T,[("theTimePointInf{MG_TIME_INFINITE}","theTimePointInf{UINT32_MAX}")]),
 ("B11","bad",T,[("myType(TIME_LIMIT_DURATION), myDuration","myType(TIME_LIMIT_POINT), myDuration")]),
 ("B11","bad",U,[("ts.tv_nsec / 1000000;","ts.tv_nsec / 100000;")]),
 ("B11","bad",U,[("CLOCK_BOOTTIME","CLOCK_REALTIME")]),
 ("B11","bad",U,[("return ts.tv_sec * 1000000000 + ts.tv_nsec;","return (uint32_t)ts.tv_sec * 1000000000 + ts.tv_nsec;")]),
 ("B11","ok",T,[("if (ts >= UINT64_MAX - myValue)","if (myValue >= UINT64_MAX - ts)")]),
 ("B11","ok",T,[("		if (ts >= UINT64_MAX - myValue)\n			return theTimePointInf;\n		return TimePoint(myValue + ts);","		uint64_t res = myValue + ts;\n		if (UINT64_MAX - ts < myValue)\n			res = MG_TIME_INFINITE;\n		return TimePoint(res);")]),
 ("B11","ok",T,[("		if (ts >= myPoint.myValue)\n			return TimeDuration(0);\n		return TimeDuration(myPoint.myValue - ts);","		return TimeDuration(myPoint.myValue > ts ? myPoint.myValue - ts : (uint64_t)0);")]),
 ("B11","ok",U,[("		return ts.tv_sec * 1000 + ts.tv_nsec / 1000000;","		uint64_t res = ts.tv_nsec / 1000000;\n		res += (uint64_t)ts.tv_sec * 1000;\n		return res;")]),
 ("B11","ok",U,[("CLOCK_BOOTTIME","CLOCK_MONOTONIC")]),
]
