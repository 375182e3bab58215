#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

S='include/efp/sequence.hpp'; PR='include/efp/prelude.hpp'; CY='include/efp/cyclic.hpp'
EN='include/efp/enum.hpp'; MA='include/efp/maybe.hpp'; CO='include/efp/concurrency.hpp'
ST='include/efp/string.hpp'; SO='include/efp/sort.hpp'; IO='include/efp/io.hpp'
FO='include/efp/format.hpp'; ME='include/efp/meta.hpp'; NU='include/efp/numeric.hpp'; SC='include/efp/scientific.hpp'

prop('C01','Array, ArrVec and Vector behave as value-semantic sequences',
 "After any history of construction, conversion from another sequence, push, emplace, pop, insert, erase, clear, resize, reserve, shrink, element write, copy and move (self-assignment and pushing or inserting one of the container's own elements included), an Array, ArrVec or Vector holds exactly the elements, in order, that the same operations give on a mathematical sequence, and shows the same ones through size, indexing, data, iteration, equality and the sequence trait. Copies are independent of their source, and a moved-from object can be reused. A request outside the contract (pop on empty, insert or erase past the end, exceeding a fixed capacity or size) raises the library's error and leaves the contents unchanged.",
 ['histories','inputs'],'every finite history of public operations on up to a few live containers, every element value, every size and capacity',
 'The tests run a handful of one- or two-step histories on three-element int containers; size/capacity relations, shrinking assignment, growth through aliasing and long mixed histories are not reached.',
 [S],[('value operations of the three owning sequences',S+': Array, ArrVec, VectorBase'),('growth by reserve/resize',S+': VectorBase::reserve, resize, push_back, insert')],
 [('abstract contents','finite sequence of values per container','observable via size/operator[]')],['return of every public call'])
prop('C02','Each element is created, used and destroyed exactly once, in owned storage',
 "For every history of operations on an owning type (Array, ArrVec, Vector, Vcb, Vcq, Enum, Maybe, Tuple, the queues, and the owning sequences returned by the sequence functions), each element object is created only in unoccupied and suitably aligned storage, is read, assigned or moved from only while alive, and is destroyed exactly once before its storage is released. Every heap block is released exactly once, by the matching deallocation. When the last owner is gone no element object and no heap block is left.",
 ['histories','inputs'],'every history of operations and every element type with non-trivial construction, copy, move and destruction, move-only types excepted',
 'The tests count MockRaii resources after one operation on freshly built containers; the order create/assign/destroy per address, insert/erase/resize/reassignment and wrapped cyclic buffers are never observed, and moved-from objects are not counted.',
 [S,CY,EN,MA,ME,PR,CO],[('placement new / explicit destructor calls in every container',S+', '+CY+', '+EN),('allocator traits construct/destroy/deallocate',S+': VectorBase'),('raw aligned storage',ME+': RawStorage')],
 [('live objects','set of addresses holding a live element','element special members'),('heap blocks','allocated blocks with their size and allocation form','global operator new/delete')],['element special member calls','operator new/delete'])
prop('C03','Vcq is a bounded FIFO dropping the oldest; Vcb is a sliding window',
 "A cyclic queue of capacity n >= 1 always holds, oldest first, the last n of the values pushed and not yet popped: pushing on a full queue discards exactly the oldest, popping returns and removes exactly the oldest. A cyclic buffer of size n >= 1 always shows exactly the last n values pushed (default values before that), oldest first. Size, emptiness, indexing, the contiguous data pointer, begin/end iteration and the sequence trait agree on these contents at every wrap position, and copying, moving and assigning (self-assignment included) preserve them and leave source and target independent.",
 ['histories','configurations'],'every push/pop/copy/move/assign history, every capacity, hence every read/write offset of the ring',
 'The tests push at most 8 integers into one queue of capacity 3 and check copy/move only for resource counts at offset 0 or when full, never for contents at a wrapped offset, and never iterate.',
 [CY],[('mirrored ring storage and read/write pointers',CY+': Vcb, Vcq push_back/pop_front'),('copy and move of a ring at any offset',CY+': Vcb, Vcq special members')],
 [('window','abstract sequence of at most n values','observable contents')],['return of every public call'])
prop('C04','An Enum holds exactly one alternative and match runs exactly its branch',
 "Through any history of construction, copy, move and assignment (self-assignment included) an Enum holds exactly the alternative and the value last given to it; index, access by type, access by position and equality all agree on it, and access to any alternative not held raises the library's error without changing the Enum. match calls exactly one branch exactly once, with the held value: the one that accepts the held alternative's type, and the wildcard branch only when no specific branch does, returning that branch's result. This holds for any number of alternatives up to the documented maximum of 256 and for every position of the held alternative.",
 ['histories','inputs','configurations'],'every history over several Enum objects, every number of alternatives 1..256 and every held position, every arrangement of branches',
 'The tests use 2 to 4 alternatives and single-step histories; the dispatch switch is stamped out per power of two up to 256 and each size class is separate code.',
 [EN],[('tag and raw storage with case dispatch',EN+': EnumBase, _EnumSwitch'),('overload set of branches with wildcard wrapper',EN+': match, Overloaded, WildCardWrapper')],
 [('held','(index, value) per Enum','index()/get()')],['return of every public call, branch invocations'])
prop('C05','Maybe is a lawful optional: functor, applicative and monad',
 "A Maybe is either empty or holds exactly one value through any history of construction, copy, move and assignment, and its emptiness queries and conversion to bool agree; reading the value of an empty Maybe raises the library's error. fmap, ap, bind (member, operator and free forms) and pure yield nothing exactly when some input or the bound function's result is nothing, call the function exactly once otherwise and never on nothing, and return its result. They satisfy the functor and monad laws.",
 ['inputs','histories','programs'],'every Maybe value, every function drawn from a family closed under composition, every chain of fmap/ap/bind',
 'The tests evaluate each combinator on one present and one empty value, and do not count calls or check the laws.',
 [MA,EN],[('Maybe specialisation and free combinators',MA)],None,['return of every combinator, calls of the supplied function'])
prop('C06','Mapping, folding and iteration visit every element once, in order',
 "map, map_with_index, for_each, for_each_mut, for_each_with_index(_mut), foldl, foldr, for_index, cartesian_for_each(_mut), cartesian_for_index and compose compute their mathematical definitions over every kind of sequence (owning, view, cyclic, STL), of any length and in any mixture of kinds. With several sequences they stop at the shortest (the cartesian forms run the full product, last sequence fastest); the supplied function is called exactly once per position, in index order (foldr from the right), with the elements at that position. The mutating forms change exactly the visited elements, and the others change nothing.",
 ['inputs','configurations'],'every function, every number and mixture of sequence kinds, every length including zero',
 'The tests use one or two fixed 3- or 5-element sequences and check results only, not the calls, unequal lengths, empty or mixed kinds.',
 [PR,NU],[('index loops over nth/length',PR),('minimum length of a pack',PR+': _min_length')],None,['return value, calls of the supplied function'])
prop('C07','Slicing returns in-place views that never leave the source',
 "take, drop, slice, tail, init, take_while and drop_while return a view that shows, without copying, exactly the elements of the mathematical definition at their original addresses, for run-time and compile-time counts, const and mutable sources and every contiguous sequence kind, views of views included. Counts and ranges beyond the end are clamped (a range that starts past the end or is reversed is empty), so no view ever reaches outside its source; the unsafe variants agree with the safe ones whenever the request is within bounds. head, last, tail and init of an empty sequence raise the library's error, and a view stays coherent with later writes to its source.",
 ['inputs','configurations'],'every length, every count or range including out-of-range ones, every source kind, nested views',
 'The tests use in-range requests on fixed 5-element sequences; slice, take_while and drop_while are not called at all.',
 [PR,S],[('view construction from data pointer and bounded length',PR+': take, drop, slice, tail, init'),('view types',S+': ArrayView, ArrVecView, VectorViewBase')],None,['returned view: size, elements, addresses'])
prop('C08','Result containers follow static knowledge: no allocation when bounded',
 "A sequence function returns a statically sized array when all argument sizes are known at compile time, a fixed-capacity vector when only capacities are known, and a heap vector only otherwise; the compile-time size or capacity of the result is the exact bound its definition gives (minimum for zips, sum for append, product for cartesian, n*(m+k)-k for intercalate, 0 when n is 0). The run-time length never exceeds that capacity. Neither computing such a bounded result nor any operation on Array, ArrVec, Vcb, Vcq, Enum, Maybe, Tuple or a view of trivially copyable elements allocates heap memory.",
 ['inputs','configurations'],'every function, every mixture of argument kinds, every input',
 'The tests check a few result types on one argument mixture; none observes allocation.',
 [PR,S,CY,EN],[('type-level result selection',PR+': NAryReturn, AppendReturn, ConcatReturn, IntercalateReturn, CartesianMapReturn, FilterReturn, ...')],None,['result type traits, calls of operator new'])
prop('C09','Every sort yields the ordered permutation; sort and sort_by are stable',
 "For every vector and every strict weak order, each sorting function (quicksort, heapsort, insertion sort, merge sort, the introspective sort, timsort, sort, sort_by, sort_unstable and sort_unstable_by) terminates with a permutation of its input that is non-decreasing in that order. sort, sort_by, timsort and insertion sort keep equal elements in their original relative order. Ranged forms change only their range.",
 ['inputs'],'every length (around and far beyond the internal run size), every value pattern, every comparator',
 'The tests sort one 11-element vector; merging of runs (more than 32 elements) and stability are never reached.',
 [SO],[('run building and merging',SO+': timsort_by, timsort_merge, insertion_sort_by_'),('partitioning, heap construction, merging',SO)],None,['contents after the call'])
prop('C10','BlockingQ is a linearizable FIFO and never strands a waiting consumer',
 "Under every interleaving of producers and consumers, the calls on a blocking queue take effect one at a time, each between its start and its return, as on a sequential FIFO: no element is lost, duplicated, invented or reordered, except that the bounded form drops exactly the oldest element when an enqueue finds it full. A dequeue never returns from an empty queue, whatever spurious wake-ups occur, and enqueue never blocks on consumers. Whenever the queue holds an element, no consumer stays blocked: it returns as long as threads are scheduled.",
 ['schedules','histories'],'every schedule of any number of producer and consumer threads, with spurious wake-ups, for bounded and unbounded forms and every capacity',
 'The concurrency tests are single-threaded: no schedule is exercised at all.',
 [CO,CY],[('mutex-protected queue with condition variable',CO+': BlockingQ::enqueue, dequeue')],
 [('queue','abstract FIFO contents','linearization inside the critical section')],['call and return of each operation'])
prop('C11','NonBlockingQ is linearizable and reports nothing only when empty',
 "Under every interleaving, the calls on a non-blocking queue take effect one at a time, each between its start and its return, as on a sequential FIFO: no element is lost, duplicated, invented or reordered, except that the bounded form drops exactly the oldest element when an enqueue finds it full. dequeue returns nothing exactly when the queue is empty at that moment, and is_empty is true exactly when it is empty at that moment. No call waits for another thread to enqueue or dequeue.",
 ['schedules','histories'],'every schedule of any number of threads mixing enqueue, dequeue and is_empty, bounded and unbounded forms, every capacity',
 'The concurrency tests are single-threaded and use only the unbounded form.',
 [CO,CY],[('mutex-protected queue',CO+': NonBlockingQ')],[('queue','abstract FIFO contents','linearization inside the critical section')],['call and return of each operation'])
prop('C12','DoubleBuffer hands over whole batches without loss or duplication',
 "With any number of producers and one consumer that alone swaps and drains, every interleaving behaves as if each call took effect at one instant: an enqueue appends to the back half, a swap exchanges the halves, a dequeue takes the oldest element of the front half, and emptiness refers to the front half. No element is visible before the swap that follows its enqueue, and none is lost, duplicated or reordered within its batch, except that a half that is full drops exactly its oldest element. Elements left in the front half at a swap stay ahead of later ones in the half they are in.",
 ['schedules','histories'],'every schedule of producers against the consumer, every capacity, every pattern of swaps and partial drains',
 'The tests are single-threaded, swap once, and always drain completely.',
 [CO,CY],[('spin lock around the back half and the swap',CO+': DoubleBuffer')],[('front, back','two bounded FIFOs','linearization under the spin lock')],['call and return of each operation'])
prop('C13','Concurrent use of the queues is free of data races and of deadlock',
 "When threads use a blocking queue, a non-blocking queue or a double buffer only through their public operations (with swap, dequeue and empty of a double buffer confined to one thread), no two conflicting memory accesses inside the library are unordered by synchronization, for elements as well as for the library's own state. No schedule deadlocks or spins forever except blocking dequeues on an empty queue.",
 ['schedules'],'every schedule of public operations by any number of threads, elements with non-trivial copies included',
 'The tests run one thread; a race needs two, and no race detector is run.',
 [CO],[('mutex / spin lock acquisition around every access',CO)],[('happens-before','vector clocks per thread, lock and location','every instrumented access')],['memory accesses and synchronization operations of the compiled code'])
prop('C14','String is a character sequence whose C string is always terminated',
 "After any history of construction, append, +=, assign, insert, push, pop, erase, resize, reserve, shrink, substr, copy and assignment (self-append and empty strings included), for every character type, a String holds exactly the characters the operations define, and its C string shows exactly those characters followed by a terminator, in valid storage. Comparison for equality (with Strings and C strings) holds exactly when the characters are the same, compare has the sign of the lexicographic order, and substr, copy and at respect their bounds and raise the library's error for a start beyond the end.",
 ['histories','inputs'],'every history, every length including zero and exactly full capacity, every character type',
 'The tests apply single operations to "Hello"; capacity boundaries, empty strings, self-append and unequal-length comparison are not reached.',
 [ST,S],[('character specialisation of the heap vector with a spare terminator slot',ST)],[('characters','abstract sequence','observable contents')],['return of every public call'])
prop('C15','File owns its handle once; bytes written are bytes read back',
 "Opening yields a File exactly when the underlying open succeeds; the handle is closed exactly once, by close or by the last owner, and moving or assigning a File transfers it without leaking or double-closing. Every byte given to a successful write, in text or binary mode and whatever its value, appears in the file in order at the current position and is read back unchanged; read_line returns each line without its newline, nothing only at the end, and read_lines returns exactly all remaining lines. seek and tell agree, and every operation on a closed or moved-from File reports failure without effect.",
 ['histories','inputs'],'every history of open, write, seek, read, move, close on one or several Files, every byte content and mode',
 'No test exercises files at all.',
 [IO,ST],[('FILE* ownership and move',IO+': File'),('read_line/read_lines loops',IO)],[('file system','path -> bytes; per File: handle, position, mode','after each call')],['return of every call, file contents, fopen/fclose calls'])
prop('C16','Formatting renders integers, text and sequences exactly as specified',
 "format renders every integer (all widths and signs, in decimal, hexadecimal, octal and binary) as its exact numeral, with the requested sign, prefix, zero padding, width, fill and alignment; booleans, characters and strings likewise with fill, alignment and precision; floating-point values in fixed, exponent and general notation with the digits correctly rounded to the requested precision (ties to even), and without precision as the shortest text that denotes them; and sequences as their elements in order separated by \", \" inside brackets. Literal text and doubled braces are copied, automatic and explicit argument numbers select the stated argument, and an ill-formed format string or a missing argument raises an error instead of producing text.",
 ['inputs','programs'],'every integer and finite floating-point value, every combination of format options, every sequence content and length, every argument order',
 'The tests format a few constants with mostly default options.',
 [FO,'include/efp/fmt/core.h','include/efp/fmt/format.h','include/efp/fmt/format-inl.h'],[('format string parser and integer/string writers','include/efp/fmt/core.h, format.h'),('sequence formatters',FO)],None,['returned String'])
prop('C17','Numeric reductions and scalar helpers equal their definitions',
 "sum, product, max_elem, min_elem and max_min of every non-empty sequence of any kind and any sign pattern equal the mathematical value whenever it is representable (the empty sum is 0 and the empty product 1). min, max, clamp, abs, square and the operator functions equal their definitions for every argument.",
 ['inputs'],'every sequence kind, length and sign pattern; integer and floating elements',
 'The tests reduce one ascending positive sequence; negative floating values, extremes at other positions and single elements are not reached.',
 [NU,ME],[('folds with neutral elements',NU)],None,['return value'])
prop('C18','Tuple keeps its components; equality, projection and match agree',
 "A Tuple returns through every projection (by index, first, second, match) exactly the component stored at that position, in order, and a write through a mutable projection changes exactly that component. Two Tuples are equal exactly when all their components are equal, and unequal otherwise. Copying and assigning preserve every component and leave the copies independent.",
 ['inputs','histories'],'every arity, every component position, every pattern of equal and unequal components',
 'The tests compare tuples that are equal or differ in one fixed place.',
 [ME],[('indexed leaves and recursive comparison',ME+': Tuple, TupleLeafComparatorImpl')],None,['return value'])
prop('C19','append, concat, intercalate, cartesian_map and from_function build exactly',
 "append is the concatenation of its arguments in argument order, concat that of the inner sequences in order, and intercalate puts the separator exactly between consecutive inner sequences. cartesian_map lists the function's value for every combination in lexicographic order with the last sequence varying fastest, and from_function holds f(0)..f(n-1), each computed by exactly one call. All hold for every number, kind and length of the arguments, empty ones included, and for element types with non-trivial copies.",
 ['inputs','configurations'],'every number, kind mixture and length of arguments, every element type',
 'The tests append equal sequences to themselves, so order is invisible; empty and mixed-length inner sequences are not covered.',
 [PR],[('result sizing and index bookkeeping',PR+': append, concat, intercalate, cartesian_map, from_function')],None,['return value, calls of the supplied function'])
prop('C20','Filtering and searching return exactly the matching positions',
 "filter keeps exactly the elements that satisfy the predicate, in order; elem and find are true exactly when a match exists, elem_index and find_index give the first matching position or nothing, elem_indices and find_indices give all matching positions in increasing order, and is_null is true exactly for length zero. This holds for every sequence kind, length (zero included), number and position of matches, and the predicate is called at most once per element, in order.",
 ['inputs','configurations'],'every sequence kind, length and pattern of matches',
 'The tests search two fixed sequences.',
 [PR],[('linear scans',PR+': filter, elem*, find*')],None,['return value, calls of the predicate'])
prop('C21','Statistics equal their textbook definitions on every sequence',
 "mean, rms, sse, mse, rmse and its normalised forms, variance and standard deviation, covariance, correlation, autocovariance and autocorrelation (with and without Bessel correction, adjusted or not, for every lag within the length), remove_dc, linear regression, regression against the index, and detrend equal their textbook definitions up to floating-point rounding. This holds for every sequence length for which the definition is meaningful, every container kind and sign pattern.",
 ['inputs','configurations'],'every length, lag, sign pattern and option combination',
 'The tests evaluate one ascending 5-element sequence per function.',
 [SC,NU],[('formulas over sum/mean/map',SC)],None,['return value'])
prop('C22','A view object is exactly the window it was made from',
 "An ArrayView, ArrVecView, VectorView or StringView always denotes the window it was last given: the same address and length, through construction from a pointer and length, default construction, copying, moving, assignment (to itself included) and conversion from a more fixed view kind to a more dynamic one. Every way of reading it (size, empty, indexing, data, iteration, length, nth, for_each) shows exactly the source's current elements in that window, so later writes to the source are visible, and no operation on views changes the source. Two non-empty views of one kind are equal exactly when they have the same address and length. A StringView made from a C string covers it up to its terminator, and equals a C string exactly when the characters and the length agree. A non-empty view of a null pointer is refused, as is resizing or reserving an ArrayView beyond its size.",
 ['histories','inputs'],'every history of making, copying, assigning, converting and comparing views, every window of the source, every write to the source in between',
 'The tests build one or two views and read them once; reassigned, converted and empty views and comparisons after conversion are not reached.',
 [S,ST],[('pointer/length pairs and their conversions',S+': ArrayView, ArrVecView, VectorViewBase'),('C string construction and comparison',ST+': VectorView specialization')],
 [('window','source offset and length per view object','data/size')],['return of every public call of the views'])
prop('C23','Compile-time constants, types and function pointers mean what they say',
 "The folds over literal lists (all, any, maximum, minimum, sum, product, foldl, and All, Any, Maximum, Mininum over constants) give the exact mathematical value in the element type, for every element type, length and sign, when evaluated by the compiler; so do the arithmetic and comparison of compile-time constants and the plain operators (add, sub, mul, div, mod, comparisons, logic, max, min). The type functions obey the language's rules: removing or adding const, references and pointers changes exactly that; PackAt, TupleAt and Find pick the position asked for or the first match; Arguments and FunctionPointerType list exactly the parameters and result of any function, member function or callable; IsInvocable and IsInvocableR hold exactly for the calls the language allows; MakeIndexSequence<n> is 0..n-1. A function pointer made by func_ptr from a callable calls exactly the object last bound for that callable's type, once per call, passing value and lvalue-reference parameters as declared and returning its result; binding one type of callable never disturbs another.",
 ['inputs','configurations','histories'],'every list of literals and types, every element type, every signature, every history of binding and calling',
 'The tests evaluate one ascending list of positive numbers per fold, two type lists, and one func_ptr call per callable.',
 [ME,'include/efp/c_utility.hpp'],[('folds and type functions',ME),('function pointer through a static object pointer','include/efp/c_utility.hpp: LambdaPointer, func_ptr')],
 [('bound object','the object last bound per type of callable','calls through the pointer')],['values and types computed by the compiler','calls through function pointers'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P),'properties')
