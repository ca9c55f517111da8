A = "box/Atomic.h"
W = "return myValue.compare_exchange_weak(aExpected, aValue,\n			std::memory_order_relaxed,\n			std::memory_order_relaxed);"
M = [
 ("B12","bad",A,[("using AtomicI16 = Atomic<int16_t>","using AtomicI16 = Atomic<uint16_t>")]),
 ("B12","bad",A,[("using AtomicU64 = Atomic<uint64_t>","using AtomicU64 = Atomic<uint32_t>")]),
 ("B12","bad",A,[("{ return myValue.fetch_add(aValue, std::memory_order_release) + aValue; }","{ return myValue.fetch_add(aValue, std::memory_order_release); }")]),
 ("B12","bad",A,[("{ return myValue.load(std::memory_order_acquire); }","{ return myValue.load(std::memory_order_relaxed); }")]),
 ("B12","bad",A,[("{ return myValue.store(aValue, std::memory_order_release); }","{ return myValue.store(aValue, std::memory_order_relaxed); }")]),
 ("B12","bad",A,[("{ return myValue.fetch_sub(1, std::memory_order_acq_rel) - 1; }","{ return myValue.fetch_sub(1, std::memory_order_release) - 1; }")]),
 ("B12","bad",A,[("{ return myValue.fetch_sub(1, std::memory_order_seq_cst) - 1; }","{ myValue.fetch_sub(1); return myValue.load() ; }")]),
 ("B12","bad",A,[("{ return myValue.fetch_and(aValue, std::memory_order_release); }","{ return myValue.fetch_or(aValue, std::memory_order_release); }")]),
 ("B12","bad",A,[("{ return myValue.exchange(aValue, std::memory_order_seq_cst); }","{ T v = myValue.load(); myValue.store(aValue); return v; }")]),
 ("B12","bad",A,[(W,"T old = aExpected;\n		return myValue.compare_exchange_weak(old, aValue,\n			std::memory_order_relaxed,\n			std::memory_order_relaxed);")]),
 ("B12","bad",A,[(W,W.replace("(aExpected, aValue","(aExpected, aExpected"))]),
 ("B12","bad",A,[(W,W.replace("return ","return !"))]),
 ("B12","bad",A,[("compare_exchange_strong(","compare_exchange_weak(")]),
 ("B12","bad",A,[("		Atomic(const T& aValue) : myValue(aValue) {}","		Atomic(const T& aValue) : myValue() { (void)aValue; }")]),
 ("B12","ok",A,[("{ return myValue.fetch_sub(1, std::memory_order_seq_cst) - 1; }","{ T v = FetchSub(1); return --v; }")]),
 ("B12","ok",A,[("{ return myValue.load(std::memory_order_acquire); }","{ return Load(); }")]),
 ("B12","ok",A,[("{ return myValue.store(aValue, std::memory_order_release); }","{ T v = aValue; myValue.store(v, std::memory_order_release); }")]),
 ("B12","ok",A,[(W,"bool ok = myValue.compare_exchange_weak(aExpected, aValue,\n			std::memory_order_relaxed);\n		if (ok)\n			return true;\n		return false;")]),
 ("B12","ok",A,[("{ return myValue.fetch_add(aValue, std::memory_order_release) + aValue; }","{ return FetchAddRelease(aValue) + aValue; }")]),
]
