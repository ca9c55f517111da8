// Instantiates the header-only templates of the repository, so that each of
// their members has a body to analyse even when the library itself does not
// use it. Never compiled into anything, only parsed.
#include "mg/box/Atomic.h"
#include "mg/box/BinaryHeap.h"
#include "mg/box/DoublyList.h"
#include "mg/box/ForwardList.h"
#include "mg/box/InterruptibleMutex.h"
#include "mg/box/MultiConsumerQueue.h"
#include "mg/box/MultiProducerQueueIntrusive.h"
#include "mg/box/RefCount.h"
#include "mg/box/SharedPtr.h"
#include "mg/box/Signal.h"
#include "mg/box/ThreadLocalPool.h"

namespace verif {
	struct Item
	{
		Item* myNext;
		Item* myPrev;
		int32_t myIndex;
		int32_t myValue;
		bool operator<=(const Item& aOther) const { return myValue <= aOther.myValue; }
		bool operator>=(const Item& aOther) const { return myValue >= aOther.myValue; }
	};
	class Shared
	{
	public:
		SHARED_PTR_API(Shared, myRef)
		virtual ~Shared() = default;
	private:
		mg::box::RefCount myRef;
	};
	class SharedChild final : public Shared
	{
		SHARED_PTR_RENEW_API(SharedChild)
	};
	class Pooled final : public mg::box::ThreadPooled<Pooled>
	{
		int myData;
	};

	inline void UsePtr()
	{
		SharedChild::Ptr child = SharedChild::NewShared();
		Shared::Ptr parent(child);
		Shared::Ptr parent2(std::move(child));
		parent = child;
		parent = std::move(child);
		Pooled* p = new Pooled();
		delete p;
	}

	inline void UseHeap(
		const Item& aItem,
		Item& aOut)
	{
		mg::box::BinaryHeapMin<Item> min;
		min.Push(aItem);
		min.Pop(aOut);
		min.RemoveTop();
		min.UpdateTop();
		mg::box::BinaryHeapMax<Item> max;
		max.Push(aItem);
		max.Pop(aOut);
		max.RemoveTop();
		max.UpdateTop();
	}
}
template class mg::box::Atomic<int32_t>;
template class mg::box::Atomic<uint64_t>;

template struct mg::box::DoublyList<verif::Item>;
template struct mg::box::ForwardList<verif::Item>;
template class mg::box::DoublyListIterator<verif::Item, &verif::Item::myNext>;
template class mg::box::DoublyListConstIterator<verif::Item, &verif::Item::myNext>;
template class mg::box::ForwardListIterator<verif::Item, &verif::Item::myNext>;
template class mg::box::ForwardListConstIterator<verif::Item, &verif::Item::myNext>;
template class mg::box::MultiProducerQueueIntrusive<verif::Item>;
template class mg::box::MultiConsumerQueue<verif::Item>;
template class mg::box::MultiConsumerQueueConsumer<verif::Item>;
template class mg::box::SharedPtrIntrusive<verif::Shared>;
template class mg::box::SharedPtrIntrusive<verif::SharedChild>;
template class mg::box::ThreadLocalPool<verif::Pooled, 16>;
template class mg::box::ThreadGlobalPool<verif::Pooled, 16>;
template class mg::box::BinaryHeap<verif::Item*, mg::box::BinaryHeapMaxPtrIntrusiveMethods<verif::Item, &verif::Item::myIndex>>;
template class mg::box::BinaryHeap<verif::Item*, mg::box::BinaryHeapMinPtrIntrusiveMethods<verif::Item, &verif::Item::myIndex>>;
template class mg::box::BinaryHeap<verif::Item*, mg::box::BinaryHeapMinPtrMethods<verif::Item>>;
template class mg::box::BinaryHeap<verif::Item*, mg::box::BinaryHeapMaxPtrMethods<verif::Item>>;

namespace verif {
	void AliasOfAtomic(mg::box::AtomicU8&, mg::box::AtomicU16&, mg::box::AtomicU32&, mg::box::AtomicU64&, mg::box::AtomicI8&,
		mg::box::AtomicI16&, mg::box::AtomicI32&, mg::box::AtomicI64&, mg::box::AtomicBool&, mg::box::AtomicVoidPtr&) {}
}
