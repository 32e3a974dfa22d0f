ABSINT = 'path-sensitive abstract interpretation of API laws (trace partitioning, affine domain)'
ABSNOTE = ('Sound over-approximation of the C++ the extractor models; every abstract path from an arbitrary admissible start state is followed, loops to a fixpoint. '
           'A failure is reported only when a path with exact semantics reaches it; obligations lost to imprecision are counted as undecided in the evidence and stay quiet. '
           'Trusts clang\'s AST, the hand-written models of std:: functions, and sequential execution.')
PROPS = []


def P(**k):
    PROPS.append(k)


P(id='C01', title='ref_ptr holders keep the reference count equal to the number of holders',
  statement='Every counted ref_ptr owns exactly one reference on its object: constructing, copying, moving, converting, assigning (also to itself or from another holder of the same object), resetting, releasing, swapping and destroying holders leave the object\'s use count equal to the number of live counted holders. The object is destroyed exactly when the last of them goes, never earlier and never twice.',
  over=['histories', 'inputs'], quant='all counts, all alias relations between the two holders, owning and non-owning holders, null holders, every public ref_ptr operation',
  why='No test uses ref_ptr at all; a test would sample particular counts and alias patterns, while the guarantee is over every state of two holders.',
  files=['include/neolib/core/reference_counted.hpp', 'include/neolib/core/i_reference_counted.hpp'],
  mech=[('ref_ptr constructors, operator=, reset, release, detach, swap', 'include/neolib/core/i_reference_counted.hpp'), ('reference_counted_base::add_ref/release', 'include/neolib/core/reference_counted.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C02', title='Reference-counted objects die once and weak references observe it',
  statement='An object is destroyed when its strong count reaches zero unless it is pinned, exactly once; a weak reference to it reports expired from that moment on, yields the object only while it is alive, and the control block is freed exactly when neither the object nor any weak reference needs it.',
  over=['histories'], quant='all counts of strong and weak references, all orders of their release, pinned and unpinned objects',
  why='No test uses weak_ref_ptr; lifetime errors show as use-after-free or leaks that depend on the order of releases.',
  files=['include/neolib/core/reference_counted.hpp', 'include/neolib/core/i_reference_counted.hpp'],
  mech=[('reference_counted control block', 'include/neolib/core/reference_counted.hpp'), ('weak_ref_ptr', 'include/neolib/core/i_reference_counted.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C03', title='Scope guards restore what they saved on every exit',
  statement='A scope guard (scoped object, pointer, flag, atomic flag, counter, detail or conditional guard) puts back the state it found when its scope ends, normally or by an exception, including when guards of the same variable nest; an ignored or dismissed guard leaves the variable alone.',
  over=['histories', 'inputs'], quant='all saved values, all nesting orders, normal and exceptional exit',
  why='No test uses the guards; nesting and exceptional exits are the cases tests would miss.',
  files=['include/neolib/core/scoped.hpp'],
  mech=[('scoped_object, scoped_pointer, scoped_flag, scoped_atomic_flag, scoped_counter constructors and destructors', 'include/neolib/core/scoped.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C04', title='optional keeps its engagement, value and element lifetime in step',
  statement='A neolib::optional is engaged exactly when it was last given a value: construction, copy, move, assignment of a value, of none, of another optional or through i_optional, emplace, reset and swap leave engagement, value() and the comparisons telling the same story; value() of a disengaged optional throws; every element constructed is destroyed exactly once.',
  over=['histories', 'inputs'], quant='every start state of both operands (engaged or not, any value), every public operation, self assignment, access through the class and through the interface',
  why='Tests sample one or two engaged values; the wrong cases are state pairs (engaged onto disengaged, self, via interface).',
  files=['include/neolib/core/optional.hpp', 'include/neolib/core/i_optional.hpp'],
  mech=[('optional constructors, operator=, reset, emplace, swap, comparisons', 'include/neolib/core/optional.hpp'), ('i_optional', 'include/neolib/core/i_optional.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C05', title='variant holds exactly the alternative last stored, through either view',
  statement='A neolib::variant holds exactly the alternative it was last given, or none: construction, copy, move, assignment (also through i_variant, of an empty variant and of itself), get, visit and the comparisons agree between the class and its i_variant view on alternative and value; get of an alternative that is not held throws; every alternative constructed is destroyed exactly once.',
  over=['histories', 'inputs'], quant='every pair of alternatives (or none) and all values, every public operation, self assignment, access through the class and through the interface',
  why='No test uses the variant; errors hide in particular pairs of alternatives and in the interface paths.',
  files=['include/neolib/core/variant.hpp', 'include/neolib/core/i_variant.hpp'],
  mech=[('variant constructors, operator=, get, visit', 'include/neolib/core/variant.hpp'), ('i_variant', 'include/neolib/core/i_variant.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C06', title='any yields back exactly the value and type it was given',
  statement='A neolib::any reports and yields exactly the type and value last stored in it: construction, copy, move, assignment (also through i_any), emplace, reset and swap keep type(), has_value(), any_cast and unsafe_any_cast in agreement; any_cast to another type throws or yields null; comparisons are consistent; the contained value is destroyed exactly once.',
  over=['histories', 'inputs'], quant='all values, switches between types, empty and engaged operands, the class and the interface',
  why='any_cast of pointers and emplace were never instantiated by any test, and copying a non-const any overflowed the stack.',
  files=['include/neolib/core/any.hpp', 'include/neolib/core/i_any.hpp'],
  mech=[('any', 'include/neolib/core/any.hpp'), ('i_any', 'include/neolib/core/i_any.hpp')],
  technique=ABSINT, note=ABSNOTE)
P(id='C07', title='gap_vector is a sequence: same contents as a plain vector after any operation',
  statement='Wherever its gap lies, a neolib::gap_vector behaves as a sequence of its elements: insertion (of one element, of several, of a range, of one of its own elements), erasure, push, pop, assign, resize, reserve, clear, copy, move, self assignment and swap leave exactly the elements, in the order, that the same operation leaves in a std::vector; size(), indexing, forward and backward iteration and iterator arithmetic agree; returned iterators point at the element they should; every element constructed is destroyed exactly once and no dead element is read, assigned to or handed out.',
  over=['histories', 'inputs'], quant='all element values, all positions of the operation and of the gap within small vectors, element types with and without trivial copies, all capacities that force or avoid reallocation, unequal allocators',
  why='The one gap_vector test checks a few operations on trivially copyable elements; gap placement, reallocation and lifetime errors need particular sequences.',
  files=['include/neolib/core/gap_vector.hpp'],
  mech=[('gap_vector insert, erase, near_gap, make_gap, grow, swap', 'include/neolib/core/gap_vector.hpp'), ('gap_vector iterator', 'include/neolib/core/gap_vector.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Container sizes are concrete and small (up to about eight elements); contents and positions are arbitrary.')

P(id='C08', title='segmented_array has the same contents as a plain vector after any operation',
  statement='However its elements are spread over segments, a neolib::segmented_array behaves as a sequence of its elements: insertion (of one element, of several, of a range, of one of its own elements), erasure, push, pop, resize, clear, copy, move, assignment, self assignment and swap leave exactly the elements, in the order, that the same operation leaves in a std::vector; size(), indexing, forward and backward iteration and iterator arithmetic agree; returned iterators point at the element they should; every element constructed is destroyed exactly once and no dead element is read, assigned to or handed out.',
  over=['histories', 'inputs'], quant='all element values, all positions of the operation within small arrays, all ways small arrays split over segments',
  why='The segmented_array test is disabled in the build and samples one sequence of operations; segment boundaries are where it goes wrong.',
  files=['include/neolib/core/segmented_array.hpp', 'include/neolib/core/array_tree.hpp'],
  mech=[('segmented_array insert, erase, resize, swap', 'include/neolib/core/segmented_array.hpp'), ('array_tree index arithmetic', 'include/neolib/core/array_tree.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Container sizes are concrete and small; contents and positions are arbitrary.')
P(id='C09', title='vector, deque and list behave as std sequences, by class and by interface',
  statement='neolib::vector, deque, list and polymorphic::vecarray (a vector with room for some elements of its own), used directly or through i_vector, i_deque and i_list and their abstract iterators, behave as the sequence of their elements: push, pop, insert, erase (one element or a range), clear, resize, assign, copy, move, self assignment, front, back, iteration in both directions and the comparisons give what the std container gives; returned iterators point at the element they should; every element and every abstract iterator is destroyed exactly once.',
  over=['histories', 'inputs'], quant='all element values, all positions within small containers, mixed use of class and interface',
  why='The container test is disabled in the build; plugins only ever see the interfaces, which no test exercises.',
  files=['include/neolib/core/vector.hpp', 'include/neolib/core/deque.hpp', 'include/neolib/core/list.hpp', 'include/neolib/core/container_iterator.hpp', 'include/neolib/core/i_container.hpp', 'include/neolib/core/i_sequence_container.hpp', 'include/neolib/core/i_iterator.hpp', 'include/neolib/core/i_vector.hpp', 'include/neolib/core/polymorphic_vecarray.hpp'],
  mech=[('container adapters', 'include/neolib/core/vector.hpp'), ('abstract iterators', 'include/neolib/core/i_iterator.hpp'), ('container_iterator', 'include/neolib/core/container_iterator.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Container sizes are concrete and small; contents and positions are arbitrary.')

P(id='C10', title='Associative containers map each key to its values, by class and by interface',
  statement='neolib::pair, map, multimap, unordered_map, unordered_flat_map, unordered_multimap, set and multiset, used directly or through their interfaces and abstract iterators, behave as the table of their elements: insert, emplace, operator[], at, find, lower_bound, upper_bound, equal_range, erase (one element or a range), clear, assign, copy, move, self assignment, iteration (in key order, in both directions, where the container is ordered) and the comparisons give what the std container gives; a repeated key keeps its first value in the unique containers and every value in the multi ones; find of an absent key gives end() and at() of one throws; every element is destroyed exactly once.',
  over=['histories', 'inputs'], quant='all keys (every order and coincidence of them) and values, all positions within small containers, mixed use of class and interface',
  why='No test uses these wrappers; three of them did not even compile when used, and stepping a set iterator backwards did nothing.',
  files=['include/neolib/core/map.hpp', 'include/neolib/core/set.hpp', 'include/neolib/core/unordered_map.hpp', 'include/neolib/core/pair.hpp', 'include/neolib/core/mutable_set.hpp', 'include/neolib/core/i_map.hpp', 'include/neolib/core/i_set.hpp', 'include/neolib/core/i_unordered_map.hpp', 'include/neolib/core/container_iterator.hpp'],
  mech=[('map and multimap adapters', 'include/neolib/core/map.hpp'), ('set adapters over mutable_set', 'include/neolib/core/set.hpp'), ('hash map adapters', 'include/neolib/core/unordered_map.hpp'), ('pair', 'include/neolib/core/pair.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Container sizes are concrete and small; keys and values are arbitrary. The trees and hash tables of the standard library are modelled unbalanced and with one bucket.')
P(id='C11', title='Strings behave as the text they hold, by class, view and interface',
  statement='neolib::string and quick_string, used directly or through i_string and string_view (or i_string_view), behave as the sequence of characters they were given: construction (from text, part of a text, characters), assignment (including to itself, of a character, of part of itself), append, insert, replace, erase, resize, clear, swap, substr, indexing, iteration, size() and empty(), the find family (find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of), comparison in dictionary order and hashing of equal texts give what the same text in a std::string gives. Changing one string never changes another that was copied from it, although quick_string shares text.',
  over=['histories', 'inputs'], quant='all characters, all positions within short strings, owning and view states of quick_string, mixed use of class and interface',
  why='The string test samples conversions only; no test uses quick_string, whose find family, assignment of a character and views had four defects.',
  files=['include/neolib/core/string.hpp', 'include/neolib/core/i_string.hpp', 'include/neolib/core/string_view.hpp', 'include/neolib/core/i_string_view.hpp', 'include/neolib/core/quick_string.hpp'],
  mech=[('string adapter', 'include/neolib/core/string.hpp'), ('string_view', 'include/neolib/core/string_view.hpp'), ('quick_string', 'include/neolib/core/quick_string.hpp')],
  technique=ABSINT, note=ABSNOTE + ' String lengths are concrete and small; characters and positions are arbitrary.')
P(id='C12', title='String utilities split, trim, replace, match and unescape as documented',
  statement='neolib::tokens yields exactly the pieces between delimiters (any of a set of characters, or a whole sequence), with empty pieces kept or dropped as asked and never more than the maximum; remove_leading, remove_trailing and remove_leading_and_trailing remove exactly the given characters at the ends; replace_string replaces every occurrence from left to right and says whether it did, with or without spans; reverse_find_first_of and reverse_find_last_of search backwards; wildcard_match matches exactly the texts a pattern of ?, * and characters describes; unescape and parse_url_escapes decode every complete escape once and nothing else; format_result reports the span of each argument.',
  over=['inputs'], quant='all texts, delimiters and patterns of a few characters',
  why='The tests sample one call or none per function; the errors are in particular combinations (delimiter at the end, star followed by a repeated character, maximum reached at an empty token).',
  files=['include/neolib/core/string_utils.hpp'],
  mech=[('tokens', 'include/neolib/core/string_utils.hpp'), ('remove_leading_and_trailing, replace_string', 'include/neolib/core/string_utils.hpp'), ('wildcard_match, unescape, parse_url_escapes', 'include/neolib/core/string_utils.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Text lengths are concrete and small; characters are arbitrary (ASCII).')
P(id='C13', title='LEB128 encodings are the canonical ones and decode to the value',
  statement='For every value, ULEB128, SLEB128 and LEB128 produce the shortest little-endian base-128 encoding: every byte but the last, and only those, has the continuation bit; the payload bits, put together (and sign extended for SLEB128), give the value back; no shorter sequence would.',
  over=['inputs'], quant='every 64-bit unsigned, 64-bit signed and 32-bit unsigned value',
  why='No test uses the encoders; the wrong cases are at boundaries (sign bit of the last byte, the tenth byte) that samples miss.',
  files=['include/neolib/core/leb128.hpp'],
  mech=[('ULEB128, SLEB128, LEB128', 'include/neolib/core/leb128.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Shifts and masks are followed exactly as quotients and remainders by powers of two.')
P(id='C14', title='Small vectors behave as a vector wherever their elements are stored',
  statement='growable_static_vector (the vector behind small_vector, whose first elements live inside the object and the rest on the heap) behaves as a sequence while elements move between its own buffer and the heap: push_back, pop_back, insert (one, several, a range, a copy of an own element), erase, clear, resize, reserve, shrink_to_fit, construction, copy, move, assignment (also from itself), swap and the comparisons give what std::vector gives; two vectors never share storage, not even after a swap or a move; the maximum size is never exceeded (length_error instead); every element is destroyed exactly once.',
  over=['histories', 'inputs'], quant='all element values, all positions, sizes on both sides of the in-place limit',
  why='No test uses these vectors; the errors are in operations that mix an in-place vector with one on the heap (swap did).',
  files=['include/neolib/core/static_vector.hpp', 'include/neolib/core/small_buffer_allocator.hpp', 'include/neolib/core/small_vector.hpp', 'include/neolib/core/vecarray.hpp'],
  mech=[('in-place allocator and its propagation', 'include/neolib/core/small_buffer_allocator.hpp'), ('growable_static_vector', 'include/neolib/core/static_vector.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Container sizes are concrete and small; contents and positions are arbitrary.')
P(id='C15', title='Events call each subscribed slot once, in order, and survive their own slots',
  statement='A synchronous trigger of an event calls every slot subscribed when it starts, exactly once, with the arguments, the priority ones first (the newest foremost) and the others in order of subscription, until one accepts the event; the result says whether one did, and acceptance never outlives its trigger or reaches another event. A slot unsubscribed (sink cleared, replaced or ended, slot removed) is not called by any later trigger; a sink may outlive its events and a slot may trigger events (also the same one), add slots, unsubscribe itself, throw or destroy the event without harm to the running trigger, other events or later triggers. Asynchronous calls wait for the queue to be pumped and are then made exactly once, in order, unless the event or the slot is gone; where duplicates are excluded (trigger type or stateless slot) one call per slot is queued, with the latest arguments.',
  over=['histories', 'inputs'], quant='all arguments, which slots accept, throw, unsubscribe or destroy, which have priority; one thread',
  why='No test uses events; six defects were in what slots do to the event that calls them.',
  files=['include/neolib/task/event.hpp', 'include/neolib/task/i_event.hpp', 'src/task/event.cpp', 'include/neolib/core/lifetime.hpp', 'include/neolib/core/scoped.hpp'],
  mech=[('event::sync_trigger and async_trigger', 'include/neolib/task/event.hpp'), ('slot and sink', 'include/neolib/task/i_event.hpp'), ('async_event_queue', 'src/task/event.cpp'), ('destroyed_flag', 'include/neolib/core/lifetime.hpp')],
  technique=ABSINT, note=ABSNOTE + ' One thread is followed: races between threads are not covered.')
P(id='C16', title='A jar finds each item by its own cookie until it is removed',
  statement='basic_jar (jar, also through i_jar) and basic_std_vector_jar give each item a cookie no other item in the jar has, and operator[], find, contains, item_cookie, iteration and at_index all agree on which item a cookie stands for, whatever items were removed, in whatever order, before; remove and erase remove that item only and return an iterator to the item now in its place; an absent cookie is not found (cookie_invalid), one in use is refused (cookie_already_added), cookies freed or returned are used again and when none are left cookies_exhausted is thrown, each time; copies and moved jars behave the same and share nothing; an item whose construction throws leaves the jar unchanged. A cookie reference (basic_cookie_ref_ptr) counts exactly one reference with its consumer from construction to destruction, through copies, moves and assignments.',
  over=['histories', 'inputs'], quant='all item values, all choices of items to remove within small jars, all orders of operations sampled by the laws',
  why='No test uses jars; the index tables are kept by swapping with the last item, which goes wrong only for particular removal orders.',
  files=['include/neolib/core/jar.hpp', 'include/neolib/core/i_jar.hpp'],
  mech=[('basic_jar', 'include/neolib/core/jar.hpp'), ('basic_std_vector_jar', 'include/neolib/core/jar.hpp'), ('basic_cookie_ref_ptr', 'include/neolib/core/jar.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Jar sizes are concrete and small; values and choices are arbitrary.')
P(id='C17', title='Services are found under their identity, one provider at a time',
  statement='There is at most one service provider: using it before it is allocated, or allocating a second one, throws. A service registered under its interface identity is the one found under it, and only under it, until it is unregistered or replaced; a service that is not registered is not found (service_not_found); service<S>() starts a service exactly once, on first use, and uses one that another module registered. Setting another provider moves every registration to it; setting the one in use again changes nothing. Every lock taken is released. A shared thread-local variable is allocated once per name, keeps its memory and is initialised once; a different size is refused unless allowed.',
  over=['histories'], quant='orders of registration, use, removal and migration of services; one thread',
  why='No test touches the registry everything else hangs on; errors need two services, a migration or a repeated call to show.',
  files=['src/core/service.cpp', 'include/neolib/core/service.hpp', 'include/neolib/core/i_service.hpp', 'src/app/shared_thread_local.cpp', 'include/neolib/core/uuid.hpp'],
  mech=[('service_provider', 'src/core/service.cpp'), ('service<S>() and its cached pointer', 'include/neolib/core/service.hpp'), ('shared_thread_local', 'src/app/shared_thread_local.cpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C18', title='A lifetime flag always tells the state of its subject, even after its end',
  statement='An object with a lifetime is in the state it was made with (alive by default); only an object being created comes alive, only one not yet destroyed starts to be destroyed, any can be declared destroyed, and an object is alive until its destructor has run and destroyed afterwards. A destroyed_flag or destroying_flag, its copies, moves and assignments, tell the current state of their subject and of no other object, also when the subject is known by another base class, and remain valid after it is gone.',
  over=['histories'], quant='all states and transitions, copies, moves and assignments of flags, subjects that end first',
  why='Events, timers and tasks rely on these flags to survive callbacks that destroy them; no test uses them.',
  files=['include/neolib/core/lifetime.hpp', 'include/neolib/core/i_lifetime.hpp', 'src/core/lifetime.cpp'],
  mech=[('lifetime', 'include/neolib/core/lifetime.hpp'), ('lifetime_flag', 'src/core/lifetime.cpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C19', title='Settings keep one value per key and apply, discard and announce every change',
  statement='Settings without a file keep each registered setting under its key, once, in order of registration; it has its default value until one is applied. A value set is seen as a modification (unless it equals the present value) until it is applied, which makes it the value, or discarded, which restores the present one; changing a setting at once applies it; only optional settings can be cleared, back to the default. The changing and changed events of the setting and of the settings, and one settings-changed event per category, are raised exactly when something changed. A deleted setting is announced, no longer found, and the others stay. Category and group titles and friendly texts are those registered. A setting keeps its constraints; setting values compare, copy and convert by type, set state and value.',
  over=['histories'], quant='arbitrary values, defaults and constraints; choices of keys, of setting and of history; integer, boolean, string and enumeration settings',
  why='No test covers the settings; applications store all user configuration through them.',
  files=['include/neolib/app/settings.hpp', 'src/app/settings.cpp', 'include/neolib/app/setting.hpp', 'include/neolib/app/setting_value.hpp', 'include/neolib/app/i_setting_value.hpp', 'include/neolib/app/i_setting.hpp', 'include/neolib/app/i_settings.hpp', 'include/neolib/app/setting_constraints.hpp'],
  mech=[('settings', 'src/app/settings.cpp'), ('setting', 'include/neolib/app/setting.hpp'), ('setting_value', 'include/neolib/app/setting_value.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C20', title='Versions, enumerations, uuids and numbers compare and convert by value',
  statement='A version has the four numbers and the name it was made of, whether from numbers, from another version or from text ("1.2.3.4 name", missing parts are 0 or empty); versions are equal exactly when their four numbers are, and are ordered lexicographically by major, minor, maintenance and build number. The text of a declared enumerator is the one declared and converts back to it, by function and by enumeration object; other text is refused (changing nothing) or gives nothing; a value without enumerator is never shown as the text of an enumerator and is refused where an enumerator is required. Enumeration objects (basic_enum) hold, compare, assign, copy and clone by value, through class and interface. Uuids are equal exactly when every part is and are ordered by their parts. The integer of a decimal text is its value (with its sign); string_to_number gives the smallest kind of number that holds it, a double for a fraction or an exponent, and refuses what is no number.',
  over=['inputs'], quant='arbitrary numbers in every part of versions, enumerations and uuids; texts of 0 to 5 parts with arbitrary digits',
  why='No test covers any of this; settings, plugins and persisted data rely on it.',
  files=['include/neolib/app/version.hpp', 'include/neolib/core/enum.hpp', 'include/neolib/core/i_enum.hpp', 'include/neolib/core/uuid.hpp', 'include/neolib/core/string_numeric.hpp'],
  mech=[('version', 'include/neolib/app/version.hpp'), ('basic_enum', 'include/neolib/core/enum.hpp'), ('enum_to_string', 'include/neolib/core/i_enum.hpp'), ('string_to_number', 'include/neolib/core/string_numeric.hpp')],
  technique=ABSINT, note=ABSNOTE + "  boost.spirit's number parsers are assumed to do what they document (laws/shim/boost/spirit); how a value without enumerator is shown in hexadecimal is not analysed.")
P(id='C21', title='A segmented tree is traversed in preorder and counts its nodes rightly',
  statement='After any sequence of insertions (first, last or before any sibling, below any node), erasures of any node with what is below it, sorting, clearing, copying, moving and assigning, a segmented_tree is traversed in preorder, forwards and backwards, by every kind of iterator; each node keeps its value, depth, parent, children in order and number of descendants; size() counts all nodes. Nodes below one whose children are skipped, and only those, are left out by skip iterators and by ksize(), in whatever order nodes are skipped, unskipped, added and erased. Iterators convert, compare, increment (prefix and postfix) and reach their node by position. Copies are independent. Every element is destroyed exactly once.',
  over=['inputs', 'histories'], quant='trees of up to 6 nodes with arbitrary values, two children per segment, every choice of position of each operation',
  why='No test covers trees; every node move relinks parents, and the counts are maintained along ancestor chains.',
  files=['include/neolib/core/segmented_tree.hpp', 'include/neolib/core/tree.hpp', 'include/neolib/core/segmented_array.hpp'],
  mech=[('segmented_tree', 'include/neolib/core/segmented_tree.hpp'), ('node', 'include/neolib/core/segmented_tree.hpp')],
  technique=ABSINT, note=ABSNOTE + '  Sizes are concrete and small; values and positions are arbitrary.')
P(id='C22', title='An indexitor keeps its elements in order and finds them by foreign index',
  statement='After any sequence of insertions (one, several, ranges, with or without skips), erasures, pops, resizes, clears, copies, assignments and swaps, an indexitor holds the elements a plain vector would hold, with their share of the foreign index and their skips before and after; iterators, positions, index and subscript agree with it, forwards and backwards. The foreign index of an element is the sum of all shares and skips before it plus the skip before it, that of end() is the sum of all. find_by_foreign_index gives the element whose share contains the index, with its foreign index, or end() where the index is skipped or past the end. Updating a foreign index keeps the element and all others. Copies are independent and keep the skips.',
  over=['inputs', 'histories'], quant='indexitors of up to 7 elements with arbitrary values at every position; shares of the foreign index that tell every sum apart (arbitrary ones for searching)',
  why='No test covers it; it is a balanced tree whose sums and links are patched on every rotation.',
  files=['include/neolib/core/indexitor.hpp', 'include/neolib/core/index_array_tree.hpp'],
  mech=[('indexitor', 'include/neolib/core/indexitor.hpp'), ('index_array_tree', 'include/neolib/core/index_array_tree.hpp')],
  technique=ABSINT, note=ABSNOTE + '  Sizes are concrete and small; values and positions are arbitrary.')
# ---- properties this family does not decide here
NAWHY = 'No static argument in reach decides it: '
P(id='N01', title='JSON text written and read again is the same document',
  statement='Writing any JSON document and parsing the result gives an equal document, in strict and relaxed mode and in every encoding.',
  over=['inputs'], quant='every document, every encoding', why='Tests parse a handful of documents.', files=['include/neolib/file/json.hpp', 'include/neolib/file/json.inl'], mech=[('basic_json::do_read, do_write', 'include/neolib/file/json.inl')],
  na=NAWHY + 'it equates two unbounded character streams through the decimal conversion of floating-point numbers (stream insertion and extraction), which the affine domain does not carry; JSON structure alone would be a different, weaker property.')
P(id='N02', title='XML text written and read again is the same document',
  statement='Writing any XML document and parsing the result gives an equal tree with equal attributes and text.',
  over=['inputs'], quant='every document', why='No test covers it.', files=['include/neolib/file/xml.hpp'], mech=[('basic_xml::read, write', 'include/neolib/file/xml.hpp')],
  na=NAWHY + 'an unbounded stream comparison with entity replacement; the loop invariant relates two character streams, outside the abstract domain.')
P(id='N03', title='UTF-8, UTF-16 and UTF-32 conversions are inverse on well-formed text',
  statement='Converting well-formed text between UTF-8, UTF-16 and UTF-32 and back gives the same text; malformed input never reads past its end.',
  over=['inputs'], quant='every code point sequence', why='Tests convert a few strings.', files=['include/neolib/core/string_utf.hpp'], mech=[('utf8_to_utf16, utf16_to_utf8, utf8_to_utf32', 'include/neolib/core/string_utf.hpp')],
  na=NAWHY + 'the conversions go through std::codecvt facets of the C++ runtime, whose code is not part of the analysed source.')
P(id='N04', title='Matrix, quaternion and easing arithmetic is numerically right',
  statement='Vector, matrix, quaternion and easing functions give the mathematically defined result within rounding.',
  over=['inputs'], quant='all floating-point operands', why='Tests compare a few products.', files=['include/neolib/core/numerical.hpp', 'include/neolib/core/easing.hpp', 'include/neolib/core/simd.hpp'], mech=[('basic_matrix, basic_quaternion, ease', 'include/neolib/core/numerical.hpp')],
  na=NAWHY + 'non-linear real arithmetic with rounding, partly in vector intrinsics; an affine domain can neither express the products nor bound the error.')
P(id='N05', title='Random numbers are in range, uniform and reproducible',
  statement='Each generator yields numbers in the requested range with the stated distribution and repeats its sequence for the same seed.',
  over=['inputs', 'histories'], quant='all seeds and ranges', why='A distribution is not decided by samples of a test.', files=['include/neolib/core/random.hpp'], mech=[('basic_random', 'include/neolib/core/random.hpp')],
  na=NAWHY + 'a statement about distributions of modular arithmetic and of std::random engines, not about reachable states.')
P(id='N06', title='Timers fire once per period, never early, and stop when cancelled',
  statement='A timer fires not before its duration has passed, once per period while it waits, and never after it was cancelled or destroyed.',
  over=['schedules'], quant='all schedules of the I/O service and all clocks', why='Tests do not run an I/O service.', files=['src/task/timer.cpp', 'src/task/timer_object.cpp'], mech=[('timer::handler, timer_object', 'src/task/timer.cpp')],
  na=NAWHY + 'it quantifies over elapsed time and over the scheduler of boost::asio, both outside the source.')
P(id='N07', title='Every task given to a thread pool is run, and fairly',
  statement='Every started task is eventually run by one thread, tasks of higher priority before those of lower priority, and stopping waits for the running ones.',
  over=['schedules'], quant='all interleavings of producers and workers', why='No test uses the pool.', files=['src/task/thread_pool.cpp', 'src/task/thread.cpp'], mech=[('thread_pool, thread_pool_thread', 'src/task/thread_pool.cpp')],
  na=NAWHY + 'a liveness property of condition variables under every interleaving; static analysis would need a fair-scheduling model checker, a different family.')
P(id='N08', title='Network packets arrive complete, in order and once',
  statement='Packets sent over a connection arrive complete, in the order they were sent and once, or the connection reports an error.',
  over=['schedules', 'fault_sequences'], quant='all splits of the byte stream and all connection failures', why='No test opens a connection.', files=['include/neolib/io/packet_connection.hpp', 'include/neolib/io/packet_stream.hpp'], mech=[('packet_connection, packet_stream', 'include/neolib/io/packet_connection.hpp')],
  na=NAWHY + 'the order of completion handlers is decided by boost::asio and the peer at run time; its code and model are not part of the source.')
P(id='N09', title='Archives are extracted byte for byte',
  statement='Extracting a member of a zip or gzip file gives exactly the bytes that were compressed, or an error if the file is damaged.',
  over=['inputs', 'fault_sequences'], quant='every archive', why='No test opens an archive.', files=['src/file/zip.cpp', 'src/file/gunzip.cpp'], mech=[('zip::extract, gunzip', 'src/file/zip.cpp')],
  na=NAWHY + 'the bytes are produced by zlib, whose code is not in the repository; only its call sites are visible here.')
P(id='N10', title='The balanced trees keep logarithmic height',
  statement='The red-black tree and the array trees keep a height logarithmic in their size after every operation.',
  over=['histories'], quant='all histories of insertions and removals', why='Tests do not look at the shape.', files=['include/neolib/core/red_black_tree.hpp', 'include/neolib/core/array_tree.hpp'], mech=[('red_black_tree::insert, remove', 'include/neolib/core/red_black_tree.hpp')],
  na=NAWHY + 'a colour and black-height invariant over unbounded heaps needs an inductive shape analysis; small sizes, which C08 and C22 decide for the contents, say nothing about growth.')
P(id='C23', title='Each entity has at most one record per component, found by its id',
  statement='A component holds one record for each entity that was given one and not for others: populate adds the record or changes the one there is and returns it, access with creation adds an empty one, destroying frees its handles once and removes just that record; every other entity keeps its record, and record, entity and reverse index lead to each other, for any order of steps. An entity without a record has none to show and none to destroy; missing data and data of the wrong size are refused and change nothing. Copies, assignments, sorting, taking and applying a snapshot keep every record with its entity; a snapshot keeps the values of its time.',
  over=['inputs', 'histories'], quant='components of up to five records for any of six entities, arbitrary values, every choice of the entity at every step, up to five steps; single-threaded locking',
  why='No test covers the entity component system; its index vectors are patched in place when records move.',
  files=['include/neolib/ecs/component.hpp'],
  mech=[('component', 'include/neolib/ecs/component.hpp'), ('i_component', 'include/neolib/ecs/i_component.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C24', title='intrusive_sort sorts its range by the swaps it makes, whatever the order',
  statement='After intrusive_sort the range is in the order of the comparison given (by default, ascending), for any values, equal ones included, and any lengths; it moves elements only through the swapper it is given, each element is still there once, whatever is kept beside the range follows it, and nothing outside of the range is touched.',
  over=['inputs'], quant='up to five arbitrary values, runs of nine, turned, reversed or folded, eight values of which two are exchanged, up to sixteen values of which all but three arbitrary ones are equal, which reaches the bound on recursion, and three or four different values placed anywhere among equal ones',
  why='No test covers it; the heap sort it falls back to is reached only by unusual inputs.',
  files=['include/neolib/core/intrusive_sort.hpp'],
  mech=[('intrusive_sort, partition, heapsort', 'include/neolib/core/intrusive_sort.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C25', title='Entities keep ids and records of their own from creation to destruction',
  statement='Every live entity has an id no other live entity has, never the null id, and exactly the component records it was created or populated with; destroying it, at once, deferred or by the end of its entity object, removes all its records and no others, and its id may be used again. Shared component data is kept by name. Creation and destruction are announced once with the id, destruction while the records are still there (unless silent); deferred creations and destructions happen once, when committed. Archetypes, components and systems are registered once under their id, components and systems are made once, when first asked for; systems are paused and resumed together, also those made while paused, told of new components and terminated with the ecs. Each handle has an id of its own by which it is found, replaced and released, without changing others; ids never given are refused.',
  over=['inputs', 'histories'], quant='up to five entities with any choice of two components, every choice of what is destroyed, arbitrary values; up to four handles; single-threaded locking, no system threads',
  why='No test covers the entity component system; ids and table slots are recycled.',
  files=['src/ecs/ecs.cpp', 'include/neolib/ecs/ecs.hpp', 'include/neolib/ecs/i_ecs.hpp', 'src/ecs/entity.cpp'],
  mech=[('ecs', 'src/ecs/ecs.cpp'), ('i_ecs helpers', 'include/neolib/ecs/i_ecs.hpp'), ('entity', 'src/ecs/entity.cpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
P(id='C26', title='Iterators that hide or join others move and compare as those they hold',
  statement='any_iterator, any_const_iterator and generic_iterator (also specialised) hold an iterator of any type and size, in place or allocated: they move, by steps or by a distance, compare and give their element as it does; post-increment returns where it was. Copies and assignments, to itself or across types, are independent, and every iterator made is destroyed once. A cast to another type, or moving or comparing an empty one, is refused. A zip_iterator moves all its iterators together, refers to all their elements, and iter_swap exchanges the elements of all. any_ref and any_const_ref refer to the object itself, through copies and assignments, until reset; a cast to another type or of an empty one is refused.',
  over=['inputs', 'histories'], quant='iterators of six types from 24 to 112 bytes at any position of a short range, arbitrary element values, distances of up to one, every pair of kept in place and allocated',
  why='No test covers these headers; the wrapped object is placed, copied and destroyed by hand.',
  files=['include/neolib/core/any_iterator.hpp', 'include/neolib/core/generic_iterator.hpp', 'include/neolib/core/zip_iterator.hpp', 'include/neolib/core/any_ref.hpp'],
  mech=[('any_iterator, any_const_iterator', 'include/neolib/core/any_iterator.hpp'), ('generic_iterator', 'include/neolib/core/generic_iterator.hpp'), ('zip_iterator, iter_swap', 'include/neolib/core/zip_iterator.hpp'), ('any_ref, any_const_ref', 'include/neolib/core/any_ref.hpp')],
  technique=ABSINT, note=ABSNOTE + '  Sizes are concrete; positions, values and choices are arbitrary.')
P(id='C27', title='Vectors, swizzles and matrices compute componentwise as mathematics says',
  statement='A basic_vector holds the components it is made of, missing ones zero; too long a list of components or columns throws std::out_of_range. +, -, *, scaling, min, max, negation, lerp and midpoint go by component, dot and cross products are as defined; vectors are equal where all components are, ordered by the first that differs. A swizzle reads and writes exactly the components it names, in order. Matrices are columns: sums go by element, products are rows by columns, with vectors and vertex arrays too, also for the 4x4 SIMD forms; transposition exchanges rows and columns; a matrix is the identity only where all its elements say so; translation and scaling touch only their elements.',
  over=['inputs'], quant='all integer components of vectors of 1 to 4, 2x2 and 2x3 matrices with arbitrary elements, 3x3 and 4x4 matrices with some arbitrary elements; the 4x4 forms over the reals, rounding aside',
  why='A test samples a few numbers; a wrong index or sign shows only for some elements.',
  files=['include/neolib/core/numerical.hpp', 'include/neolib/core/swizzle.hpp', 'include/neolib/core/simd.hpp'],
  mech=[('basic_vector, basic_matrix, matrix_array', 'include/neolib/core/numerical.hpp'), ('swizzle', 'include/neolib/core/swizzle.hpp'), ('avx_simd_fma_4d, avx_simd_mul_4d', 'include/neolib/core/simd.hpp')],
  technique=ABSINT, note=ABSNOTE + '  Floating-point rounding is not considered: the 4x4 forms are decided over exact arithmetic.')
P(id='C28', title='Bounding boxes contain, meet and join exactly what they span',
  statement='An axis-aligned box (basic_aabb) or rectangle (basic_aabb_2d) contains a point, or a box, exactly when it lies within it in every direction; two intersect exactly when they meet (touching included) in every direction. The union reaches from the lesser lower to the greater upper corner in each direction. The box of some points is the least that contains them all, that of none is empty at the origin. Extents are the differences of the corners, the origin their middle, the volume the product of the extents (the area for a rectangle or a flat box). Boxes are equal where both corners are, and ordered by z, y, x of the lower, then of the upper corner.',
  over=['inputs'], quant='all integer corners and points, sets of up to three points',
  why='A test samples a few boxes; a comparison that is wrong in one direction shows only for some positions.',
  files=['include/neolib/core/numerical.hpp'],
  mech=[('aabb_contains, aabb_intersects, aabb_union', 'include/neolib/core/numerical.hpp'), ('to_aabb, to_aabb_2d', 'include/neolib/core/numerical.hpp'), ('aabb_extents, aabb_origin, aabb_volume', 'include/neolib/core/numerical.hpp')],
  technique=ABSINT, note=ABSNOTE + '  Corners are integers (volume of a box in space: exact reals).')
P(id='C29', title='Packets take from a byte stream exactly the bytes that belong to them',
  statement='A packet holds exactly the characters it was made of, copied, cloned, assigned or took; copies and clones (of the same type) are separate; asking an empty packet for data throws packet_empty. A binary packet takes everything it is offered and appends it in order. A string packet takes delimiters (CR, LF) before a line up to and including the first LF, then the characters of the line unchanged, appended to what it holds, then the delimiters after it up to and including the first LF; it is complete (take_some returns true) once an LF, or a delimiter after some content, has been met, never earlier, and takes nothing where there is nothing. So the non-empty lines of a stream are the same wherever the stream is cut into pieces.',
  over=['inputs', 'histories'], quant='arbitrary characters in pieces of up to three, streams of up to seven characters cut anywhere, empty or begun packets',
  why='No test covers packets; where the network cuts a stream is not under the control of a test.',
  files=['include/neolib/io/string_packet.hpp', 'include/neolib/io/binary_packet.hpp', 'include/neolib/io/i_packet.hpp'],
  mech=[('basic_string_packet::take_some', 'include/neolib/io/string_packet.hpp'), ('basic_binary_packet', 'include/neolib/io/binary_packet.hpp'), ('i_basic_packet', 'include/neolib/io/i_packet.hpp')],
  technique=ABSINT, note=ABSNOTE + ' Sizes are concrete and small; values and choices are arbitrary.')
