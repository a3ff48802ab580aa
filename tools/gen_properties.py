#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook)))
p('C01', 'Bit primitives match their mathematical definitions for every input',
  'Population count, lowest/highest set bit index, k-th set bit, byte swaps, endian load/store, bit reading and writing, 64x64 to 128 bit multiplication, static log2/size helpers and the unaligned readers of the public bit header give exactly the value of their mathematical definition for every input of their domain, and touch only the bytes they are given.',
  ['inputs'], 'every 8/16/32/64 bit operand, every bit rank and every byte count of the domain',
  'the tests sample a few operands; the containers rely on every operand (occupancy masks, hash tags, bucket capacities)',
  ['seq/bits.hpp'], [('popcnt64/32/16/8, bit_scan_forward/reverse, nth_bit_set', 'seq/bits.hpp'), ('byte_swap_16/32/64, write_LE/BE_*, read_LE/BE_*', 'seq/bits.hpp'), ('umul128, static_bit_scan_reverse, count_digits', 'seq/bits.hpp')])
p('C02', 'A tagged pointer keeps its pointer and its tag independent',
  'For every sufficiently aligned pointer and every tag value that fits the tag bits, a tagged pointer returns exactly the pointer and the tag it was built from. Changing one leaves the other unchanged, and comparison/conversion follow the stored pointer and tag.',
  ['inputs', 'histories'], 'every aligned pointer, every tag, every sequence of updates',
  'the tree containers store millions of tagged child pointers; tests sample a few addresses',
  ['seq/tagged_pointer.hpp'], [('tagged_pointer::set_ptr / set_tag / set_full / ptr / tag', 'seq/tagged_pointer.hpp')])
p('C03', 'Hash functions read only their input and depend only on its value',
  'Hashing a byte range always terminates, reads no byte outside the range, and gives the same value for equal bytes whatever their address or alignment. Values that compare equal (integers, floating point numbers including both zeros, strings of the different string classes, pointers, pairs and tuples) hash equally, including between the heterogeneous string types used for transparent lookup.',
  ['inputs'], 'every length, address, alignment and content',
  'an out-of-range read or an address dependent result shows only for particular lengths/alignments; tests hash a handful of strings',
  ['seq/hash.hpp', 'seq/internal/hash_impl.hpp', 'seq/internal/hash_utils.hpp'], [('hash_bytes_murmur64 / hash_bytes_fnv1a / hash_bytes_komihash', 'seq/internal/hash_impl.hpp'), ('hasher<T>', 'seq/hash.hpp')])
p('C04', 'Integer to text conversion is exact, minimal and never overruns the buffer',
  'Converting any integer to text in any base from 2 to 36 writes exactly its canonical digits (with the requested sign, prefix, case and minimum width) and returns the end of that text. When the buffer is too short an error is returned and nothing is written outside of it; the written size never depends on bytes outside the text.',
  ['inputs'], 'every integer of every type, base, formatting option, character type and buffer size',
  'tests print random samples in large buffers; off-by-one digits and overruns need particular magnitudes/buffer sizes',
  ['seq/charconv.hpp'], [('to_chars (integers)', 'seq/charconv.hpp'), ('write_integral, count_digits, lookup tables', 'seq/charconv.hpp')])
p('C05', 'Text to integer conversion accepts exactly valid numbers and gives their value',
  'Reading an integer in base 2 to 36 from any character range consumes exactly the longest valid number, returns its value and a pointer just after it, fails with an error and leaves the value untouched when there is none, and never reads outside of the range. Whatever integer to text conversion writes is read back as the same value.',
  ['inputs'], 'every text of every length, base, integer and character type',
  'the reader is a hand written loop with table lookups; tests parse well formed samples',
  ['seq/charconv.hpp', 'seq/type_traits.hpp'], [('from_chars (integers)', 'seq/charconv.hpp'), ('read_integral', 'seq/charconv.hpp')])
p('C06', 'Floating point text conversions stay within their stated precision',
  'Writing a floating point value in fixed, scientific or general format gives a syntactically valid number within one unit of the last requested digit of the value, and reading it back gives the value to within a few units in the last place; signs, zeros, infinities and NaN are preserved. No conversion reads or writes outside its buffer.',
  ['inputs'], 'every finite value, format, precision and buffer size',
  'rounding carries, power-of-ten boundaries and exponent boundaries are rare inputs that random tests do not hit',
  ['seq/charconv.hpp'], [('to_chars (floating point), write_double, u_double', 'seq/charconv.hpp'), ('from_chars (floating point), read_double', 'seq/charconv.hpp')])
p('C07', 'Formatting produces the aligned, padded text of its arguments',
  'Formatting any combination of values with any width, alignment, fill character, base, precision and slot arrangement yields the concatenation of each argument\'s text, padded with the fill character to at least the requested width on the requested side, and never truncated unless a maximum width is requested. Streaming, converting to a string, writing into a bounded buffer and joining give the same text, and the bounded form writes at most the given number of characters.',
  ['inputs', 'histories'], 'every value, width, alignment, nested slot and output kind',
  'tests check some fixed examples',
  ['seq/format.hpp'], [('fmt / ostream_format / width_format', 'seq/format.hpp'), ('fmt::to / join / pos', 'seq/format.hpp')])
p('C08', 'Small strings behave like std::string for every operation and length',
  'Every sequence of string operations (construction, assignment, append, insert, erase, replace, resize, find family, comparison, copy, move, swap, conversions), for any content and lengths around the small buffer boundary, gives the same text, size and results as std::string, and keeps the text null terminated. No operation reads or writes outside the string storage, leaks, or lets a moved, copied or swapped string share storage with another.',
  ['histories', 'inputs'], 'every sequence of operations, contents, lengths and character types',
  'the storage switches between several representations at boundary lengths; tests exercise few sequences across them',
  ['seq/tiny_string.hpp'], [('tiny_string storage (small, heap, shared capacity)', 'seq/tiny_string.hpp')])
p('C09', 'A devector behaves like a double-ended vector after any sequence of operations',
  'After any sequence of pushes, pops, insertions, erasures, resizes, assignments, moves, swaps and reservations at both ends or in the middle, a devector holds exactly the elements a reference sequence would hold, in order and contiguously. Every element is constructed and destroyed exactly once, capacity reservations are honoured, and no storage is leaked or accessed outside its bounds.',
  ['histories', 'inputs'], 'every sequence of operations, element type and size',
  'the element block slides inside its allocation depending on history; tests follow a few scripted histories',
  ['seq/devector.hpp'], [('devector::grow_back / grow_front / emplace / resize / resize_front / erase', 'seq/devector.hpp')], [('start/end/capacity', 'element window inside the allocation', 'DEVectorData')])
p('C10', 'A tiered vector behaves like a sequence container after any operations',
  'After any sequence of pushes, pops, positional insertions and erasures, resizes, range insertions, assignments, copies, moves and swaps, a tiered vector holds exactly the elements a reference sequence would hold, in order, reachable by index and by iterators in both directions. Every element is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'every sequence of operations, element type, bucket size',
  'correctness depends on bucket sizes, circular buffer rotations and cascades between buckets reached only by long histories',
  ['seq/tiered_vector.hpp'], [('CircularBuffer push/pop/insert/erase', 'seq/tiered_vector.hpp'), ('BucketManager insert/erase/resize buckets', 'seq/tiered_vector.hpp')])
p('C11', 'A sequence keeps its elements, their order and their addresses',
  'A stable sequence container holds exactly the elements that were added and not removed, in push order at both ends, and iteration in both directions visits each of them once. Elements never move: addresses and iterators to an element stay valid until it is erased, whatever else is added or removed; every element is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'every sequence of pushes, pops, insertions, erasures, resizes, sorts, copies, moves',
  'free-slot management inside chunks depends on the erase history; tests follow scripted histories',
  ['seq/sequence.hpp'], [('sequence chunks, free lists and firstFree masks', 'seq/sequence.hpp')])
p('C12', 'Flat sets and maps behave like ordered associative containers',
  'Every sequence of insertions, range insertions, erasures, lookups, bound queries, assignments, merges and swaps on a flat set, multiset, map or multimap gives the contents, order, return values and sizes of the ordered reference container. Bound queries return the position defined by the ordering for every sorted content and key, and elements with equal keys keep a consistent order.',
  ['histories', 'inputs'], 'every sequence of operations, keys, comparators',
  'the branch-free search and the range-insert merge have boundary cases by size and key position',
  ['seq/flat_map.hpp', 'seq/internal/binary_search.hpp', 'seq/tiered_vector.hpp'], [('lower_bound search', 'seq/internal/binary_search.hpp'), ('flat_set/flat_map insert, erase, merge', 'seq/flat_map.hpp')])
p('C13', 'Ordered hash sets and maps hold unique keys and keep insertion order',
  'Every sequence of insertions, erasures, lookups, rehashes, sorts, assignments and swaps on an ordered hash set or map gives the membership, return values and sizes of a reference set, whatever the hash collisions. Iteration visits the elements in insertion order (including pushes at front and back) and element addresses stay valid until erasure.',
  ['histories', 'inputs'], 'every sequence of operations, keys, hash functions including degenerate ones',
  'probe distances, saturation and rehash happen only for particular collision patterns',
  ['seq/ordered_map.hpp', 'seq/sequence.hpp'], [('robin-hood table of ordered_set', 'seq/ordered_map.hpp')])
p('C14', 'Radix sets and maps behave like sorted unique associative containers',
  'Every sequence of insertions (hinted and range), erasures, lookups, bound and prefix queries, copies, moves and swaps on a radix set or map gives the contents, sorted order, return values and sizes of the reference sorted container, for integer, floating point, string and tuple keys. Iteration in both directions visits every element exactly once in key order.',
  ['histories', 'inputs'], 'every sequence of operations, key type and key distribution',
  'node splits, prefix compression and merges depend on bit patterns of the key population',
  ['seq/radix_map.hpp', 'seq/internal/radix_tree.hpp'], [('RadixTree insert/erase/lower_bound/prefix', 'seq/internal/radix_tree.hpp')])
p('C15', 'Radix hash sets and maps behave like unordered associative containers',
  'Every sequence of insertions, erasures, lookups, reservations, copies, moves and swaps on a radix hash set or map gives the membership, mapped values, return values and sizes of the reference unordered container, whatever the hash collisions, and iteration visits each element exactly once.',
  ['histories', 'inputs'], 'every sequence of operations, keys, hash functions including degenerate ones',
  'directory splits and leaf overflow depend on hash bit patterns',
  ['seq/radix_hash_map.hpp', 'seq/internal/radix_tree.hpp'], [('radix hash tree insert/erase/rehash', 'seq/internal/radix_tree.hpp')])
p('C16', 'Concurrent maps used by one thread behave like unordered maps',
  'Every sequence of insertions, insert-or-visit, erasures, conditional erasures, visits, merges, rehashes, copies, moves and swaps on a concurrent set or map gives the membership, mapped values, return values, visit counts and sizes of a reference unordered container, whatever the hash collisions. Each element is constructed and destroyed exactly once.',
  ['histories', 'inputs'], 'every sequence of operations, keys and hash functions',
  'chunk chaining and rehash paths depend on collisions',
  ['seq/concurrent_map.hpp', 'seq/internal/concurrent_hash_table.hpp'], [('concurrent_map / concurrent_set operations', 'seq/concurrent_map.hpp'), ('ConcurrentHashTable', 'seq/internal/concurrent_hash_table.hpp')])
p('C17', 'Concurrent maps are linearizable under any interleaving',
  'Under any interleaving of concurrent insertions, erasures, visits and rehashes, each operation on a key takes effect atomically once: no insertion is lost, no key is duplicated, no visitor sees a partially built element, and no operation accesses freed memory or deadlocks.',
  ['schedules', 'histories'], 'every interleaving of any number of threads and operations',
  'tests run a few thread schedules',
  ['seq/concurrent_map.hpp', 'seq/internal/concurrent_hash_table.hpp', 'seq/lock.hpp'], [('per-node locks and rehash handshake', 'seq/internal/concurrent_hash_table.hpp')])
p('C18', 'Spin locks give mutual exclusion between writers and readers',
  'Under any interleaving of any number of threads, while one thread holds a lock exclusively no other thread holds it exclusively or shared; a successful try-lock means the lock is held and a failed one leaves it unchanged. Unlocking makes exactly the held mode available again.',
  ['schedules'], 'every interleaving of any number of threads over the lock operations',
  'tests run some schedules; mutual exclusion concerns all of them',
  ['seq/lock.hpp'], [('spinlock, shared_spinner atomic words', 'seq/lock.hpp')])
p('C19', 'Sorting and merging give a sorted permutation and stable sorts keep order',
  'Sorting any range with any strict weak order gives a sorted permutation of the input and the stable sort keeps the relative order of equivalent elements, for random access, bidirectional and forward iterators and with any buffer size. Merging sorted ranges, in place or not, reversing runs and the other ordering algorithms likewise keep exactly the input elements and the documented order.',
  ['inputs'], 'every range content, length, run structure, comparator and buffer size',
  'run detection and merge paths depend on the run structure of the data',
  ['seq/algorithm.hpp'], [('net_sort, merge_sort, inplace_merge, reverse_runs', 'seq/algorithm.hpp')])
p('C20', 'A type-erased value holds exactly one object with the stored type and value',
  'A type-erased value returns exactly the object stored in it, reports its type, and refuses to give it as an unrelated type. Copies are independent, moves and swaps transfer the object, every stored object is constructed and destroyed exactly once, and hashing, comparison, formatting and conversion agree with those of the stored object.',
  ['histories', 'inputs'], 'every sequence of assignments, moves, copies and casts over every storage size and type',
  'small/big, trivial/non trivial and registered/unregistered types take different paths',
  ['seq/any.hpp'], [('hold_any / any storage and type operations', 'seq/any.hpp')])
p('C21', 'Containers stay valid and leak nothing when an element operation throws',
  'When a constructor, copy, assignment or comparison of an element throws at any point of a container operation, the exception reaches the caller, every element and every block of memory is released exactly once, and the container is still usable and destructible. Operations documented with the strong guarantee leave the contents unchanged.',
  ['fault_sequences', 'histories'], 'every operation, every index of the element operation that throws',
  'the tests throw at a few places; each operation has many throw points',
  ['seq/devector.hpp', 'seq/tiered_vector.hpp', 'seq/sequence.hpp', 'seq/flat_map.hpp', 'seq/ordered_map.hpp', 'seq/radix_map.hpp', 'seq/radix_hash_map.hpp', 'seq/any.hpp'],
  [('cleanup handlers of the containers', 'seq/*.hpp')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
