LOCKFILES = ["ds/queue/queue.go","ds/stack/stack.go","ds/priorityqueue/priority_queue.go","ds/map/map.go","ds/map/multimap.go","ds/set/set.go","ds/set/multiset.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go","ds/ketama/ketama.go","ds/bloomfilter/bloom.go","utils/sync/locker.go"]
TB = " Trusts go/types and go/ssa, the analyzer itself, and the stated assumptions; the claim is about the source, nothing is executed."

prop("C01", "Goroutine-safe containers never race",
 "On a container created goroutine-safe, no two operations running in different goroutines ever access the same piece of its state without synchronisation when one of them modifies it; this includes operations that take a second container as operand, which must synchronise with that one too. Iterators handed out by an operation are excluded.",
 ["schedules"], "every interleaving of every pair of exported operations on the containers that offer the goroutine-safe option",
 "A data race needs a particular interleaving; the tests run almost everything in one goroutine and no test run can cover all schedules.",
 LOCKFILES, [("read/write lock taken by every operation", "ds/*: locker field, Lock/RLock at the top of each exported method"), ("second operand copied under its own lock", "ds/set/set.go: Union, Intersect, Diff")],
 "interprocedural effect analysis + path-sensitive lock typestate (lockset)",
 "Decides, for all inputs and schedules, that each access to guarded state is made with the owner's lock held in a sufficient mode: this implies race freedom under the stated assumptions (callbacks do not re-enter, RWMutex is correct)." + TB)

prop("C02", "Every lock taken is released, on every exit, without self-deadlock",
 "No operation of a goroutine-safe container can leave a lock held when it returns or when a caller-supplied function, an invalid argument or an empty container makes it panic. No operation can block on a lock it already holds, and combining two containers (also a container with itself, or in exchanged roles from two goroutines) cannot deadlock.",
 ["schedules", "fault_sequences"], "every path through every exported operation, including the ones left by a panic, under every interleaving",
 "Leaking a lock needs a panic at a particular point and shows only in the next operation; deadlock needs two goroutines to meet at the right moment.",
 LOCKFILES, [("deferred unlock", "ds/*: defer right after each acquisition"), ("one container's lock at a time", "ds/set/set.go")],
 "path-sensitive typestate of lock acquire/release with panic edges and deferred calls",
 "All paths of all exported operations, with helpers that lock inlined and panic edges at explicit panics, caller-supplied functions, unchecked assertions and callees that may do these. Run-time panics from indexing or nil are not treated as exits of their own." + TB)

prop("C03", "Each operation of a goroutine-safe container is one atomic step",
 "Every exported operation of a goroutine-safe container observes and changes that container inside one uninterrupted critical section, so that no other operation can take effect between the moment it inspects the container and the moment it acts on what it saw. A check made before the lock is taken, or in an earlier critical section, is never relied on.",
 ["schedules", "histories"], "every interleaving of exported operations on one container",
 "The window between two critical sections is a few instructions wide; tests cannot schedule another goroutine into it.",
 LOCKFILES, [("one Lock/Unlock pair around the whole operation", "ds/*: exported methods")],
 "path-sensitive lock typestate counting critical sections that touch guarded state",
 "On every path all accesses to one container's guarded state lie in a single critical section. Compound use by the caller (several calls) is not covered." + TB)

prop("C15", "Algorithms leave the caller's iterators where they were",
 "No algorithm that takes iterators moves the iterator objects its caller passed in. The algorithms that only inspect a range (counting, searching, minimum, maximum, predicates, binary search and bounds) also leave every element of it unchanged.",
 ["inputs", "programs"], "every container, range and element value an algorithm can be called with",
 "Tests pass freshly made temporaries and never look at the iterators or the elements again.",
 ["algorithm/const_op.go", "algorithm/op.go", "algorithm/sort/search.go", "algorithm/sort/sort.go", "algorithm/sort/stable_sort.go", "algorithm/sort/nth_element.go", "algorithm/sort/next_permutation.go"],
 [("iterators cloned before they are moved", "algorithm/*: Clone and IteratorAt")],
 "interprocedural write-effect analysis with class-hierarchy resolution of iterator calls",
 "Write sets over all iterator implementations in the module; caller-supplied predicates are assumed not to move what they are handed." + TB)

prop("C27", "Asking a container a question never changes it",
 "Operations that observe (sizes, lookups, element access, iteration, bounds, string forms, set algebra on its operands, iterator inspection) never modify the container, the elements it stores or any iterator. Advancing an iterator changes only that iterator, and storing through one never moves it.",
 ["inputs", "histories"], "every state of every container and every argument of every observing operation",
 "Tests check the answer, rarely the container afterwards, and never in all states.",
 ["ds/array/array.go","ds/vector/vector.go","ds/deque/deque.go","ds/list/bidlist/list.go","ds/list/simplelist/simplelist.go","ds/rbtree/rbtree.go","ds/rbtree/node.go","ds/map/map.go","ds/map/multimap.go","ds/set/set.go","ds/set/multiset.go","ds/skiplist/skiplist.go","ds/hamt/hamt.go","ds/bitmap/bitmap.go","ds/bloomfilter/bloom.go","ds/ketama/ketama.go","ds/slice/iterator.go"],
 [("read-only method bodies", "all observing methods of the ds packages")],
 "interprocedural write-effect (purity) analysis",
 "The write set of each observing operation on its receiver and container operands is empty, for all inputs; caller-supplied functions are assumed pure." + TB)

prop("C28", "Separate containers share no state",
 "Two containers created independently never influence each other: nothing an operation does writes state shared between instances. A container or byte slice produced as a copy (array and vector copies, list splicing, set algebra results, exported filter data) shares no storage with its source, so later changes to one never show in the other.",
 ["histories", "programs"], "every sequence of operations on any number of containers",
 "Tests use one container at a time, and compare a copy only right after it was made.",
 ["ds/array/array.go","ds/vector/vector.go","ds/list/bidlist/list.go","ds/set/set.go","ds/bloomfilter/bloom.go","ds/deque/pool.go"],
 [("copying constructors allocate fresh storage", "ds/array: NewFromArray; ds/vector: NewFromVector"), ("per-instance segment pool", "ds/deque/deque.go: New")],
 "interprocedural alias (escape) summaries",
 "Alias summaries show that no package variable is written or returned and no copy aliases its source; element values themselves are opaque and may be shared." + TB)

ENG = "abstract interpretation of the SSA (linear-inequality domain x shape domain x segmented array contents, loops by fixpoint with widening)"
prop("C05", "Built-in comparators are consistent total orders",
 "Every comparator the library provides answers 0 exactly for equal values, answers with opposite signs when its arguments are exchanged, is transitive, and orders values the way Go's own < does (false before true, complex numbers by real and then imaginary part). Reverse turns any comparator into the exact opposite order. NaN arguments are excluded.",
 ["inputs"], "every pair and triple of values of the type each comparator accepts, extremes of the type included",
 "Defects sit at extremes (overflow when subtracting) or in a single component, which no sample of pairs exhausts.",
 ["utils/comparator/comparator.go"], [("case distinction by < and ==", "utils/comparator: *Comparator, Reverse, OrderedTypeCmp")],
 ENG + " of every comparator over the three relations of an ordered pair, with wrapping arithmetic left opaque",
 "For each relation (less, equal, greater; per component) every path must return the required sign. Arithmetic that may wrap is treated as unknown, so an ordering by subtraction is reported." + TB)

prop("C13", "Binary search and bounds find the right position in any sorted range",
 "On a range sorted by the given comparator, LowerBound returns the first position whose element is not smaller than the value, UpperBound the first whose element is greater, and last when there is none; BinarySearch is true exactly when an equivalent element exists. All three terminate and only inspect elements inside the range, for every length and every multiplicity of the value.",
 ["inputs"], "every sorted range, sub-range and searched value, including empty ranges and ranges not starting at the container's first element",
 "Off-by-one errors show only for particular lengths, duplicates and positions of the value.",
 ["algorithm/sort/search.go"], [("halving with left/right iterators", "algorithm/sort/search.go: binarySearch, lowerBound, upperBound")],
 ENG + " with a ranking argument for termination",
 "Length, sub-range and the two positions where the comparison changes sign are symbolic, so all sorted inputs are covered; positions are taken not to overflow." + TB)

prop("C14", "Counting, finding, extrema and quantifiers answer for the whole range",
 "Count and CountIf return how many elements of [first,last) qualify; Find and FindIf return the first qualifying position or last; MaxElement and MinElement return the first of the largest or smallest elements, or last on an empty range; AnyOf, AllOf and NoneOf agree with their quantifiers, also on empty ranges. No element outside the range is consulted and every call terminates.",
 ["inputs"], "every container, every range of it, and every predicate or comparator",
 "Tests use one small container; the answer must be right for every length, position and mix of qualifying elements.",
 ["algorithm/const_op.go"], [("one pass from first to last", "algorithm/const_op.go: all exported functions")],
 ENG + " with ghost variables for what the predicate answered, and a ranking argument for termination",
 "A ghost record of the answers given so far is related to the result at every exit, for a range of symbolic length and arbitrary predicate answers." + TB)

prop("C04", "The goroutine-safe option is honoured and the lock never changes",
 "A container created with the goroutine-safe option really holds a read/write lock of its own (not shared with any other container, whatever order or number of options is given and even when the same option value is used for two containers), and one created without it pays for none. After construction no operation replaces or removes the lock, so the choice made at creation stays in force for the container's whole life.",
 ["configs", "histories"], "every list of options, every pair of containers built from the same options, and every later history of operations",
 "Which lock a container got is invisible to a test; a wrong one shows only as a race under the right interleaving.",
 LOCKFILES, [("WithGoroutineSafe option", "ds/*: WithGoroutineSafe, New"), ("FakeLocker default", "utils/sync/locker.go")],
 ENG + " of every constructor over option lists, plus a call-graph reachability rule for stores to the lock field",
 "Option lists up to two entries of any option type, two containers from the same option values; the store rule covers all exported methods." + TB)

prop("C11", "Invalid positions are refused and leave the container as it was",
 "Every positional operation of Vector, Array and SliceWrapper called with a position outside the container either panics (element access: At, Front, Back, PopBack) or does nothing, as documented, for every such position: negative, equal to the size, between size and capacity, or reversed ranges. In both cases size and content afterwards are exactly what they were.",
 ["inputs"], "every container of any size and capacity and every position or position pair outside it",
 "Tests try one or two bad positions, typically far out; the wrong ones are those next to the limits or inside the spare capacity.",
 ["ds/vector/vector.go", "ds/array/array.go", "ds/slice/slice_wrapper.go"], [("range checks before the access", "ds/vector/vector.go, ds/array/array.go, ds/slice/slice_wrapper.go: positional methods")],
 ENG,
 "Size, capacity, offset within the backing store, content and the invalid position are symbolic; every exit, normal or by panic, is checked. Integer overflow of positions is excluded." + TB)

prop("C12", "Random access iterators move, compare, clone and access as documented",
 "For the iterators of Vector, Array, SliceWrapper and Deque: Next and Prev move by exactly one and stop one past either end, IsValid is true exactly inside the container, IteratorAt and Clone give independent iterators at the stated position, Equal is true exactly for the same position of the same container, Value and SetValue reach exactly the element at the iterator's position and nothing else, and refuse positions outside the container.",
 ["inputs", "histories"], "every container, every iterator position (inside, one past either end) and every sequence of moves",
 "Tests walk one small container from begin to end; iterators at the limits, of other containers, or compared with each other are hardly touched.",
 ["ds/vector/iterator.go", "ds/array/iterator.go", "ds/slice/iterator.go", "ds/deque/iterator.go"], [("position + container pair", "ds/*/iterator.go"), ("iterator interfaces", "utils/iterator/iterator.go")],
 ENG,
 "Each method is analysed from an arbitrary valid iterator state; Deque element access is modelled by its size and position (its storage is the subject of another property)." + TB)

prop("C30", "Vector, Array and SliceWrapper hold exactly the documented sequence",
 "After every operation of Vector, Array and SliceWrapper with valid arguments, the container holds exactly the sequence its documentation describes: insertion shifts the tail up by one and keeps order, erasure closes the gap, Resize cuts, Fill, Set, Swap and Attach replace, Reserve and ShrinkToFit change capacity only; returned elements, slices, sizes and iterators denote the right positions; copies start equal to their source and no element outside the operation's range changes.",
 ["inputs", "histories"], "every content, size, capacity, position and range (by induction over operations: every history)",
 "Tests use a handful of small sequences; shifting and capacity handling go wrong at particular positions or when the backing store has or lacks room.",
 ["ds/vector/vector.go", "ds/array/array.go", "ds/slice/slice_wrapper.go"], [("append/copy/shift over the backing slice", "ds/vector/vector.go, ds/array/array.go, ds/slice/slice_wrapper.go")],
 ENG + " relating every element of the resulting sequence to the original one",
 "Sequence length, capacity, offset and every element are symbolic; loops that move elements are solved by segmented array invariants. Arithmetic overflow is excluded." + TB)

prop("C16", "Sort and Stable sort every range, in place, and Stable is stable",
 "After Sort or Stable on [first,last) the elements are in non-descending order of the comparator and are exactly the elements that were there before, each as often as before; after Stable elements the comparator finds equal keep their relative order. Elements outside the range are neither read nor written, and both terminate on every range, empty and one-element ranges included.",
 ["inputs"], "every range of every length and content, every total preorder",
 "Tests sort a few short random sequences; partitioning and merging go wrong for particular lengths, duplicates and splits only.",
 ["algorithm/sort/sort.go", "algorithm/sort/stable_sort.go"], [("median-of-three quick sort", "algorithm/sort/sort.go: quickSort, doPivot"), ("merge sort with a buffer", "algorithm/sort/stable_sort.go: mergeSort, merge")],
 ENG + ", elements abstracted to their side of an arbitrary threshold (0-1 principle) and one arbitrary marked element; recursion by induction over the length",
 "Since every threshold and every marked element is covered, the final order, stability and permutation hold for all contents of all lengths; termination by rankings and decreasing recursion. Position overflow is excluded." + TB)

prop("C17", "NthElement puts the right element at the requested position",
 "For 0 <= n < last-first, after NthElement the element at position first+n is one a sorted arrangement of the range would have there, and the range holds exactly the elements it held before. Elements outside the range are neither read nor written, and the call terminates.",
 ["inputs"], "every range of every length and content, every n, every total preorder",
 "The position is only wrong for particular partitions (two-element remainders, duplicates of the pivot), which random samples miss.",
 ["algorithm/sort/nth_element.go"], [("quick select", "algorithm/sort/nth_element.go: nthElement")],
 ENG + ", elements abstracted to their side of an arbitrary threshold together with the number of smaller elements, and one arbitrary marked element; recursion by induction over the length",
 "The number of elements below the threshold decides which class position n must have; checked at every exit for every threshold. Position overflow is excluded." + TB)

prop("C18", "Swap, Reverse and NextPermutation rearrange exactly as documented",
 "Swap exchanges exactly the two elements its iterators denote. Reverse turns the element at distance k from the front of [first,last) into the one at distance k from its back and changes nothing else, also on empty ranges. NextPermutation returns false and changes nothing when the range is in non-ascending order; otherwise it turns the range into the next greater permutation under the comparator and returns true. All stay inside the range and terminate.",
 ["inputs"], "every range of every length (odd, even, empty), every content with or without equal elements",
 "A test walks the permutations of three distinct elements; equal elements and longer tails behave differently.",
 ["algorithm/op.go", "algorithm/sort/next_permutation.go"], [("exchange from both ends", "algorithm/op.go: Reverse, Swap"), ("pivot search, exchange and reversal", "algorithm/sort/next_permutation.go")],
 ENG + " comparing an arbitrary position with the documented source of its element",
 "Length, content and the position inspected are symbolic; the pivot and its successor are those the comparator's answers establish. Position overflow is excluded." + TB)

prop("C06", "The linked list stays a well-formed ring with the documented content",
 "After every operation of the doubly linked List the nodes form one closed ring of exactly Len() nodes, linked consistently in both directions, each owned by the list, holding exactly the documented sequence: pushes and inserts add one element at the stated place, Remove and the pops take out exactly one, the Move operations reorder one node, PushBackList/PushFrontList append a copy. Nodes of another list or of none are refused, and traversals and iterators visit the sequence in order and stop when told to.",
 ["inputs", "histories"], "every length, content and choice of node or neighbouring nodes, in this list, another list or none (by induction: every history)",
 "Tests push and print a few elements; a wrong link shows only from the other direction, after a later operation, or for adjacent, first, last or foreign nodes.",
 ["ds/list/bidlist/list.go", "ds/list/bidlist/iterator.go"], [("ring of nodes with owner", "ds/list/bidlist/list.go"), ("list iterators", "ds/list/bidlist/iterator.go")],
 ENG + " with node arrays of symbolic length for the ring and every aliasing case of the node arguments",
 "Length, content and argument nodes are symbolic; each method is analysed once per relative position of its arguments, from any well-formed ring to a well-formed ring." + TB)

prop("C07", "The singly linked list keeps head, tail, length and order consistent",
 "After every operation of the simple list, following the links from the front reaches exactly Len() nodes, the last of which is the back node and ends the chain, and they hold the documented sequence: pushes add at the stated end, InsertAfter behind its node, Remove takes out exactly the given node after its predecessor, the Move operations reorder one node. Traversal visits them in order and stops when told to.",
 ["inputs", "histories"], "every length, content and choice of node (by induction: every history)",
 "A stale tail or a lost node shows only in a later operation on the other end.",
 ["ds/list/simplelist/simplelist.go"], [("head, tail and next links", "ds/list/simplelist/simplelist.go")],
 ENG + " with node arrays of symbolic length for the chain and every aliasing case of the node arguments",
 "Length, content and argument nodes are symbolic; each method is analysed from any well-formed list to a well-formed list; the caller is taken to pass nodes as documented." + TB)

prop("C25", "Queue is first-in first-out and Stack last-in first-out",
 "Over any container that behaves as the Container interface documents, Queue delivers elements in the order they were pushed and Stack in the opposite order: Front/Back/Top show exactly the element the order calls for without removing it, Pop removes and returns it, Size and Empty count, Clear empties, and the refusal of an empty container reaches the caller. New uses exactly the container asked for, or a fresh one of its own.",
 ["histories", "configs"], "every history of operations and every choice of underlying container",
 "Tests push a few values on the default container only.",
 ["ds/queue/queue.go", "ds/stack/stack.go", "ds/container/container.go"], [("delegation to the container", "ds/queue/queue.go, ds/stack/stack.go")],
 ENG + " over a modelled container of symbolic length and content",
 "The container is modelled by its documented behaviour; that the library's own containers have it is decided for the linked list by another property." + TB)

prop("C26", "The heap keeps its order and the priority queue delivers the minimum",
 "After heap.Init, Push, Pop, Remove and Fix no element precedes its parent, for every length and content and any answers of a total preorder; Pop removes and returns the element at the root, Remove the one at the given index; no element is lost or invented. The priority queue performs exactly the heap operation each of its methods stands for, so that Top and Pop always deliver an element no other element precedes, and refuses to do so when empty.",
 ["inputs", "histories"], "every heap of every length and content, every index, every total preorder",
 "Sift directions and the last-child boundary matter only for particular shapes and values.",
 ["ds/heap/heap.go", "ds/priorityqueue/priority_queue.go"], [("sift up and down", "ds/heap/heap.go: up, down"), ("element holder", "ds/priorityqueue/priority_queue.go: ElementHolder")],
 ENG + " over a modelled heap: the set of parent-child pairs in order, with one open position and the remembered answers of Less",
 "Every Swap must be justified by earlier answers of Less; at every exit all pairs are in order, for symbolic length. Transitivity of the comparator gives that the root is a minimum." + TB)

prop("C08", "The red-black tree stays balanced, linked, ordered and complete",
 "After every Insert, Delete and Clear the tree is a red-black tree: the root is black, no red node has a red child, every path down crosses the same number of black nodes, and every parent link is the reverse of a child link. Read in order it holds exactly the entries it should: Insert adds one entry, with its own value, behind every entry whose key is not greater and before every one whose key is greater (equal keys keep insertion order); Delete takes out exactly the given node's entry; Clear leaves none. Size counts them. Delete of nil does nothing. All terminate.",
 ["inputs", "histories"], "every red-black tree of every size and shape, every key under any total preorder (duplicates included), every node (by induction: every history)",
 "Rebalancing has mirror-image cases that need particular shapes several levels deep; an unbalanced or mislinked tree goes unnoticed until a later operation on it.",
 ["ds/rbtree/rbtree.go", "ds/rbtree/node.go"], [("insert and delete with fixup and rotations", "ds/rbtree/rbtree.go: Insert, Delete, rbInsertFixup, rbDeleteFixup, leftRotate, rightRotate"), ("successor", "ds/rbtree/node.go")],
 ENG + " with summaries for subtrees and root paths (black-height, colour, elements in order), unfolded where the code looks and folded at loop heads",
 "Tree size, shape, colours and content are symbolic; each operation is analysed from any red-black tree to a red-black tree with the specified in-order sequence, including parent links; loops are ranked. The comparator is taken to be a total preorder." + TB)

prop("C10", "Tree lookups and traversals find the right entry and visit every one in order",
 "FindNode and Find return an entry with the key exactly when there is one, and the first of several equal ones where the code promises the first; FindLowerBoundNode returns the first entry in order whose key is not less, FindUpperBoundNode the first whose key is greater, nil when there is none. First and Last, Next and Prev of nodes and iterators step through the entries in order, one by one, in both directions, and end with nil; Traversal visits every entry in order, stops at once when the visitor returns false, and nothing is changed. Key, Value and SetValue concern exactly the entry they are called on. All terminate.",
 ["inputs"], "every red-black tree of every size and shape, every key under any total preorder (duplicates included), every starting node",
 "The wrong one of several equal entries, or a step across a subtree boundary, depends on the shape the tree happens to have.",
 ["ds/rbtree/rbtree.go", "ds/rbtree/node.go", "ds/rbtree/iterator.go"], [("searches", "ds/rbtree/rbtree.go: FindNode, findLowerBoundNode, findUpperBoundNode"), ("successor and predecessor", "ds/rbtree/node.go"), ("iterator", "ds/rbtree/iterator.go")],
 ENG + " with summaries for subtrees and root paths; recursive searches by induction over the subtree; Traversal counted by the entries behind the cursor",
 "Tree size, shape and content are symbolic; the returned node's position among all entries is compared with the answers of the comparator known for the entries before and after it. The comparator is taken to be a total preorder." + TB)

SEQ = ENG + " over sequences of unknown length seen from one arbitrary key (entries before it, equal to it, behind it)"
prop("C23", "Maps and sets hold and find exactly the entries they were given",
 "Map and Set keep at most one entry per key, MultiMap and MultiSet as many as were inserted, later ones behind earlier equal ones. Insert on a present key of a Map replaces its value; on a Set it changes nothing. Erase removes the entry (MultiMap.Erase and MultiSet.EraseAll every one, MultiSet.Erase the first one) and no other. Get, Find, Contains and Count answer for the first entry or all entries with the key and report absence; LowerBound, UpperBound, Begin, First and Last deliver iterators at the documented entry; Size counts; Clear empties; Traversal visits every entry in order, each once, and stops when told to. Iterators step to the neighbouring entry, beyond the end become invalid, and read and write the entry they denote.",
 ["inputs", "histories"], "every content of every size, every key, every total preorder (by induction: every history)",
 "Tests use a few integer keys; duplicates, absent keys between present ones, and deletions that move entries between nodes behave differently.",
 ["ds/map/map.go", "ds/map/multimap.go", "ds/map/iterator.go", "ds/set/set.go", "ds/set/multiset.go", "ds/set/iterator.go"],
 [("find, then update or insert", "ds/map/map.go: Insert; ds/set/set.go: Insert"), ("search and delete until none is left", "ds/map/multimap.go: Erase; ds/set/multiset.go: EraseAll"), ("iterators over tree nodes", "ds/map/iterator.go, ds/set/iterator.go")],
 SEQ, "The operations of the tree are answered by the documented behaviour that C08 and C10 decide for it; a node whose entry may have moved when another was deleted may not be used again. The comparator is taken to be a total preorder." + TB)

prop("C29", "Union, Intersect and Diff are the set operations",
 "For two sets ordered alike, Union holds exactly the elements that are in either, Intersect those in both, Diff those in the receiver but not in the argument; each once, in a new set ordered by the same comparator. Neither operand changes, a set may be combined with itself, and the operations terminate.",
 ["inputs"], "every pair of sets of every size and content, the same set twice included",
 "A merge goes wrong for particular interleavings of the two sequences and at their tails.",
 ["ds/set/set.go"], [("merge of two ordered sequences", "ds/set/set.go: Union, Intersect, Diff")],
 SEQ, "Membership of one arbitrary element in the result is compared with its membership in the operands, for all four combinations; since the element is arbitrary this is the whole set operation. Tree operations are answered as C08 and C10 show." + TB)

prop("C19", "A Bloom filter never denies a value it was given",
 "After Add(v), Contains(v) is true whatever else is added, before or after, because both probe the same positions, computed from the value and the filter's parameters alone, and no operation clears a bit. Contains is true exactly when every probed bit is set, and changes nothing. Every probed position lies in the bitmap. A filter rebuilt by NewFromData from Data() has the same parameters and bits and so gives the same answers. New(m, k) makes an empty filter with k probes into m bits; GenHashInts delivers exactly n numbers that depend on its arguments only. The operations terminate. (Filters with m = 0 are out of scope.)",
 ["inputs", "histories"], "every filter size m > 0, every number of probes k, every filter content and every string (by induction: every history)",
 "A false negative shows up only for values whose probe positions fall on one particular place; tests add two strings to one filter.",
 ["ds/bloomfilter/bloom.go", "ds/bitmap/bitmap.go", "algorithm/hash/hash.go"],
 [("same probe sequence in both operations", "ds/bloomfilter/bloom.go: Add, Contains"), ("export and import", "ds/bloomfilter/bloom.go: Data, NewFromData"), ("hash numbers", "algorithm/hash/hash.go: GenHashInts")],
 ENG + "; hash numbers are uninterpreted terms over the value, the bitmap an uninterpreted set of positions; import and export compared byte range by byte range",
 "Add must mark and Contains must require exactly the positions of the same family of terms; the parameters of the serialised form are compared symbolically, field width, order and byte order included. The quality of the hash and the rate of false positives are not covered." + TB)

prop("C20", "The bitmap keeps exactly the bits that were set",
 "New(n) gives a bitmap of n bits rounded up to whole bytes, all clear. For a position below the size, Set makes that bit one, Unset makes it zero, and both report true and leave every other bit as it was; at or beyond the size they report false and change nothing. IsSet is true exactly for the set bits and false beyond the size, and changes nothing. Resize keeps every bit below both sizes, and bits that are new are clear; Clear clears all bits and keeps the size. NewFromData(Data()) has the same bits. No operation panics.",
 ["inputs", "histories"], "every size, every position (any uint64 below 2^62), every bitmap content (by induction: every history)",
 "Masks and byte offsets go wrong for particular bit positions or at the last partial byte; tests try a handful of positions.",
 ["ds/bitmap/bitmap.go"], [("byte and mask of a position", "ds/bitmap/bitmap.go: Set, Unset, IsSet"), ("copying resize", "ds/bitmap/bitmap.go: Resize")],
 ENG + " with bytes as vectors of eight symbolic bits",
 "The data is a byte sequence of unknown length with symbolic bits; each of the eight bit positions within an arbitrary byte is a clause of its own, and every other bit of every byte is compared. Mask tables and loops over bit numbers are not followed (such code would be reported as undecided)." + TB)

prop("C21", "The consistent-hash ring gives every key the next node's owner",
 "Add gives each node all of its replica positions that are still free and none to anybody else; a position already taken keeps its owner. Remove frees exactly the positions owned by the nodes named. Get delivers the owner of the first position at or behind the key's hash in ascending order, around the end to the first position, and reports false exactly when the ring is empty; it changes nothing, so the same key always gets the same node, and adding or removing one node moves no key between other nodes. Empty is true exactly when no position is taken; New uses the number of replicas asked for and orders positions as unsigned numbers.",
 ["inputs", "histories"], "every number of nodes in one call, every number of replicas, every ring content, positions that coincide by chance included (by induction: every history)",
 "A position lost on a collision, or left behind by Remove, needs two nodes to share a hash; the test only logs what it gets.",
 ["ds/ketama/ketama.go"], [("insert unless taken", "ds/ketama/ketama.go: Add"), ("erase if owned", "ds/ketama/ketama.go: Remove"), ("lower bound, else first", "ds/ketama/ketama.go: Get")],
 ENG + " seen from one arbitrary ring position; the ordered map is answered as C23 shows",
 "The position looked at may or may not coincide with any other, so collisions are covered. The same seed must be used by Add and Remove. GenHashInts is taken to be a function of its arguments (C19)." + TB)

prop("C22", "A traversal stops as soon as the visitor says so",
 "In every container's Traversal (both lists, red-black tree, maps, sets, skip list, HAMT), once the visitor has returned false it is not called again during that traversal.",
 ["inputs", "programs"], "every container content and structure, every point at which a visitor may stop",
 "The tests' visitors never stop, or stop at one place; nested containers such as the HAMT go wrong only when the stop happens inside an inner level.",
 ["ds/hamt/hamt.go", "ds/skiplist/skiplist.go", "ds/list/bidlist/list.go", "ds/list/simplelist/simplelist.go", "ds/rbtree/rbtree.go", "ds/map/map.go", "ds/map/multimap.go", "ds/set/set.go", "ds/set/multiset.go"],
 [("leave the loop when the visitor returns false", "ds/*: Traversal"), ("recursion reports that it was told to stop", "ds/hamt/hamt.go: traversal")],
 "path-sensitive typestate with interprocedural summaries (recursion and closures included)",
 "All paths of every function that is handed a visitor; boolean results of helpers are correlated with having been told to stop. Visitors kept in data structures or called through interfaces would be reported as undecided." + TB)

prop("C24", "The skip list maps every key to its last value",
 "Insert, Get and Remove on the skip list agree with a finite map; Traversal and Keys deliver the keys in ascending order, each once; Len counts them.",
 ["inputs", "histories"], "every history of operations and every outcome of the level generator",
 "The level structure depends on random heights; tests see a few of them.",
 ["ds/skiplist/skiplist.go"], [("search from the top level down", "ds/skiplist/skiplist.go: Get, findPrevNodes")],
 na="The structure is an array of chains of varying height, each a sublist of the one below, and the height is bounded by exponent arithmetic modulo 2^n-1: no abstract domain for nested sublists was built, and without one every store through prevs[i].next[i] is undecided.")

prop("C31", "The deque holds exactly the documented sequence",
 "PushFront, PushBack, Insert, PopFront, PopBack, At, Set, EraseAt, EraseRange and Clear change and read the deque as the corresponding operations on a sequence.",
 ["inputs", "histories"], "every history of operations, every size",
 "Segments wrap, fill, are recycled and redistributed at particular sizes only.",
 ["ds/deque/deque.go", "ds/deque/segment.go", "ds/deque/pool.go"], [("ring of segments, each a ring", "ds/deque/deque.go, ds/deque/segment.go")],
 "two-level inductive static analysis: each segment as a ring over a segment-wise array domain, the deque as a ring of segments described by how many elements each holds and which comes first",
 "All capacities of a segment, all contents, all layouts of the segment's ring; all numbers of segments, all layouts of the ring of segments, all positions; every clause starts from an arbitrary well-formed deque (inductive). The segments' operations are decided by themselves and then taken as what they were shown to be; the capacity of a segment (128) and sizes that do not overflow are taken as given." + TB)

prop("C32", "The HAMT maps every key to its last value",
 "Insert, Get and Erase on the HAMT agree with a finite map, also when hashes collide; Traversal, Keys and StringKeys deliver every entry once.",
 ["inputs", "histories"], "every history of operations and every distribution of hash values",
 "Splitting and merging of inner nodes needs keys whose hashes share digits.",
 ["ds/hamt/hamt.go"], [("bitmap-indexed children", "ds/hamt/hamt.go: BitmapNode.insert, find, erase")],
 na="Child positions are population counts of masked 64-bit bitmaps and the recursion follows six-bit digits of the hash: relating counts before and after setting a bit needs bit-vector reasoning that no linear or shape domain in reach provides.")

prop("C33", "Operations keep their stated cost",
 "Tree, heap and skip list operations are logarithmic, NthElement linear on average, access in vectors and deques constant.",
 ["inputs", "histories"], "every size",
 "Cost grows with sizes tests do not reach.",
 ["ds", "algorithm"], [("balanced trees", "ds/rbtree/rbtree.go")],
 na="Cost bounds quantify over probability (skip list heights, pivots) or over loop counts that depend on run-time contents; static ranking arguments here show termination only (balance itself is decided by C08).")
