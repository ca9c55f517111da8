F = "box/BinaryHeap.h"
M = [
 ("B09","bad",F,[("		Methods::SetIndex(myData[index], index);\n		PrivUpdateUp(index);","		PrivUpdateUp(index);")]),
 ("B09","bad",F,[("		Methods::SetIndex(myData[index], index);\n		PrivUpdateUp(index);","		Methods::SetIndex(myData[index], index);")]),
 ("B09","bad",F,[("		tree[0] = std::move(tree[count - 1]);\n		Methods::SetIndex(tree[0], 0);","		tree[0] = std::move(tree[count - 1]);")]),
 ("B09","bad",F,[("		Methods::SetIndex(tree[0], -1);\n		if (count == 1)","		if (count == 1)")]),
 ("B09","bad",F,[("		myData.pop_back();\n		PrivUpdateDown(0);\n		return true;","		PrivUpdateDown(0);\n		myData.pop_back();\n		return true;")]),
 ("B09","bad",F,[("		Methods::SetIndex(tree[index], index);\n		myData.pop_back();\n		PrivUpdate(index);","		Methods::SetIndex(tree[index], index);\n		myData.pop_back();\n		PrivUpdateDown(index);")]),
 ("B09","bad",F,[("		PrivUpdateUp(aIndex) || PrivUpdateDown(aIndex);","		PrivUpdateDown(aIndex);")]),
 ("B09","bad",F,[("		PrivUpdateUp(aIndex) || PrivUpdateDown(aIndex);","		PrivUpdateUp(aIndex);")]),
 ("B09","bad",F,[("		return (aIndex - 1) >> 1;","		return aIndex >> 1;")]),
 ("B09","bad",F,[("			if (rightChild >= count)\n				topChild = leftChild;\n			else if","			if (rightChild > count)\n				topChild = leftChild;\n			else if")]),
 ("B09","bad",F,[("			Methods::SetIndex(tree[aIndex], aIndex);\n			aIndex = topChild;","			aIndex = topChild;")]),
 ("B09","bad",F,[("			Methods::SetIndex(tree[aIndex], aIndex);\n			aIndex = parent;","			aIndex = parent;")]),
 ("B09","bad",F,[("while (Methods::IsLeftAbove(tree[topChild], tmp))","while (!Methods::IsLeftAbove(tree[topChild], tmp))")]),
 ("B09","bad",F,[("while (aIndex != 0 && Methods::IsLeftAbove(tmp, tree[parent]))","while (aIndex > 2 && Methods::IsLeftAbove(tmp, tree[parent]))")]),
 ("B09","bad",F,[("		tree[aIndex] = std::move(tmp);\n		Methods::SetIndex(tree[aIndex], aIndex);\n		return true;\n	}\n\n	template<typename T, typename Methods>\n	bool\n	BinaryHeap<T, Methods>::PrivUpdateDown","		tree[aIndex] = std::move(tmp);\n		return true;\n	}\n\n	template<typename T, typename Methods>\n	bool\n	BinaryHeap<T, Methods>::PrivUpdateDown")]),
 ("B09","bad",F,[("			return *aLeft >= *aRight;","			return *aRight >= *aLeft;")]),
 ("B09","bad",F,[("			return aLeft >= aRight;","			return aLeft <= aRight;")]),
 ("B09","bad",F,[("		aOutValue = std::move(myData[0]);","		aOutValue = std::move(myData.back());")]),
 ("B09","bad",F,[("		int32_t index = (int32_t)myData.size();\n		myData.push_back(aValue);","		T* tree = myData.data();\n		int32_t index = (int32_t)myData.size();\n		myData.push_back(aValue);\n		Methods::SetIndex(tree[0], 0);")]),
 ("B09","bad",F,[("		if (index + 1 == count)\n			return myData.pop_back();","")]),
 ("B09","ok",F,[("		T* tree = myData.data();\n		Methods::SetIndex(tree[0], -1);\n		if (count == 1)","		T* tree = &myData[0];\n		Methods::SetIndex(myData.front(), -1);\n		if (count < 2)")]),
 ("B09","ok",F,[("while (aIndex != 0 && Methods::IsLeftAbove(tmp, tree[parent]))","while (aIndex > 0 && !Methods::IsLeftAbove(tree[parent], tmp))")]),
 ("B09","ok",F,[("		return (aIndex << 1) + 1;","		return aIndex * 2 + 1;")]),
 ("B09","ok",F,[("		// The checks above repeat the while-condition so as to\n		// avoid creation of the temporary object when the\n		// target element is already in place.\n		T tmp = std::move(tree[aIndex]);\n		do {\n			tree[aIndex] = std::move(tree[parent]);\n			Methods::SetIndex(tree[aIndex], aIndex);\n			aIndex = parent;\n			parent = PrivParentIndex(aIndex);\n		} while (aIndex != 0 && Methods::IsLeftAbove(tmp, tree[parent]));\n		tree[aIndex] = std::move(tmp);\n","		for (;;) {\n			std::swap(tree[aIndex], tree[parent]);\n			Methods::SetIndex(tree[aIndex], aIndex);\n			aIndex = parent;\n			if (aIndex == 0)\n				break;\n			parent = PrivParentIndex(aIndex);\n			if (Methods::IsLeftAbove(tree[parent], tree[aIndex]))\n				break;\n		}\n")]),
 ("B09","ok",F,[("		PrivUpdateUp(aIndex) || PrivUpdateDown(aIndex);","		if (!PrivUpdateUp(aIndex))\n			PrivUpdateDown(aIndex);")]),
]
