"""What decides each property: contract files (specs/, proved by irv) and bounded stand-ins (bounded/, labelled bounded)."""
TRUSTED = [
    'irv (verification condition generator of /verif/irv: LLVM IR semantics, memory model, loop cutting)',
    'clang 18 front end and the LLVM 18 passes run before extraction (inlining, sroa, instcombine, simplifycfg): the IR is taken as the meaning of the C++ source',
    'z3 5.3 / cvc5 1.1.2 answers "unsat"',
    'libstdc++ headers are inlined and verified with the code; libc calls (malloc, memcpy, memcmp, strlen ...) are modelled by contracts in irv/externs.py',
]
TECH = 'contract-based deductive verification: contracts on the real C++ code, VCs from its LLVM IR, SMT'
MIX = TECH + '; bounded differential stand-in where out of reach'
PROPS = {}
NOT_APPLICABLE = {}

PROPS['C01'] = dict(
    level='proof', technique=TECH,
    level_note='Every contract of the bit functions is discharged for all inputs by the solvers; trusts the irv VC generator, clang 18 lowering and the SMT solvers. Only the branches selected for x86-64 gcc/clang builds are covered.',
    specs=[dict(file='bits.cpp', budget=400)],
    bounded=[],
    assumptions=['little-endian x86-64 build; the big-endian and MSVC alternatives are not compiled here'],
)
PROPS['C02'] = dict(
    level='proof', technique=TECH,
    level_note='All accessors and modifiers of tagged_pointer are proved for every aligned address and tag (several alignments and pointee types); trusts irv, clang lowering and the solvers.',
    specs=[dict(file='tagptr.cpp')], bounded=[],
    assumptions=['pointers are 64 bit integers (x86-64)'],
)
PROPS['C04'] = dict(
    level='proof', technique=MIX,
    level_note='Base 10 conversion is proved exact for all values of u8/u16/i16/u32 and (by value range, all ranges in the thorough tier) u64, for every buffer size; other bases, prefixes, widths and the remaining types are covered by a bounded differential stand-in (labelled bounded, not proved).',
    specs=[dict(file='tochars.cpp', only='.*(u8_10|u16_10|i16_10|u32_10|u64_10a|u64_10g)$', only_thorough='.*(u8_10|u16_10|i16_10|u32_10|u64_10[a-g])$', budget=300)],
    bounded=[dict(file='intconv.cpp', name='to_chars', bound='random and boundary values of every type, bases 2..36, options, buffer sizes 0..130', quick=['to', 60000], thorough=['to', 2000000])],
    assumptions=['proof harnesses use non null buffers of any size up to 2^20 characters'],
)
PROPS['C05'] = dict(
    level='proof', technique=MIX,
    level_note='Base 10 reading (int8, int32, int64, uint64; narrow characters) is proved against the definition of the longest valid number for texts of any length; wide characters and bases 2 and 36 are proved in the thorough tier; the remaining combinations and the round trip are covered by a bounded differential stand-in (labelled bounded).',
    specs=[dict(file='fromchars.cpp', only='.*(i32_10|u64_10|i64_10|i8_10)$', only_thorough='.*', budget=500)],
    bounded=[dict(file='intconv.cpp', name='from_chars', bound='random texts up to 80 characters, every type, bases 2..36', quick=['from', 200000], thorough=['from', 5000000])],
    assumptions=['values wrap modulo 2^N when the text exceeds the type (the library documents no overflow detection)'],
)
def sd(cont, ty, quick, thorough, name, fuse=0, **k):
    return dict(file='seqdiff.cpp', name=name, flags=['-DCONT=%d' % cont, '-DTY=%d' % ty] + (['-DFUSE=1'] if fuse else []), quick=[quick], thorough=[thorough], bound='generated histories of up to ~500 operations, sizes mostly under 200, compared after every operation with std::deque/std::vector', **k)
TYN = ['int', 'tracked', 'tracked throwing move', 'tracked relocatable', 'std::string', 'pod40', 'uint8_t', 'unique_ptr', 'double']
PROPS['C03'] = dict(
    level='proof', technique=MIX,
    level_note='For messages of every length and address the three byte hashes are proved to terminate, to read the message only and to depend on no address or mutable global; the scalar, pair and tuple hashers are proved congruent with ==, the view and string_view hashers proved to hash exactly the characters. Owning strings and hash equality across string classes are covered by a bounded differential stand-in.',
    specs=[dict(file='hash.cpp')],
    bounded=[dict(file='hashdiff.cpp', name='hash_equality', bound='random byte strings up to 600 bytes at random alignments, strings up to 200 characters of 1, 2 and 4 bytes', quick=[60000], thorough=[3000000])],
    assumptions=['std::hash of the types without a seq specialization is trusted'],
)
PROPS['C06'] = dict(
    level='exploration', technique='bounded differential stand-in (floating point arithmetic of the conversions is outside the reach of the verifier)',
    level_note='Floating point rounding is out of reach of the contracts: only bounded exploration against printf/strtod with stated tolerances, nothing proved.',
    specs=[], bounded=[dict(file='floatconv.cpp', name='float_conversions', bound='random doubles and floats in [1e-290,1e290], precision 0..15, all formats and random buffer sizes', quick=[300000], thorough=[20000000])],
    assumptions=['tolerances: reading 4e-15 relative (double), 6e-7 (float); writing one unit of the last requested digit'],
)
PROPS['C09'] = dict(
    level='proof', technique=MIX,
    level_note='Each operation of devector (push/emplace/pop at both ends and anywhere, arguments that alias an element, erase, reserve*, resize*, shrink_to_fit, clear, assign, copy, move, swap) is proved, for trivially copyable elements, from an ARBITRARY valid devector (any capacity up to 2^40, any position of the elements in the storage, any contents) to give the sequence of elements the specification states, a valid devector again (type invariant: block size, alignment, bounds, one live block) and no leak; the contracts therefore compose over histories of any length. Insertion of a range and elements with non trivial copy/move are covered by the bounded differential stand-in only.',
    specs=[dict(file='devector.cpp', flags=['-DVF_T=uint8_t'], budget=500),
           dict(file='devector.cpp', flags=['-DVF_T=uint32_t'], only='.*(push_back|push_front|pop|reserve|shrink_to_fit|copy|move_assign|swap|clear)$', only_thorough='(?!insert_self).*', budget=500)],
    bounded=[sd(0, t, 150000, 3000000, 'devector_' + TYN[t].replace(' ', '_')) for t in range(8)],
    assumptions=['sizes and capacities up to 2^40 elements', 'the allocator is std::allocator and allocation succeeds (failures: C21)', 'grow_capacity is used through its contract, itself proved'],
)
CN = ['devector', 'tiered_vector', 'tiered_2_8', 'tiered_4_4', 'sequence']
def sdn(c, t): return CN[c] + '_' + TYN[t].replace(' ', '_')
PROPS['C10'] = dict(
    level='proof', technique=MIX,
    level_note='Two layers are proved. (1) The circular bucket: each operation (push at both ends, rotations, pop at both ends, emplace and erase anywhere, the erase/insert combinations used to shift elements between buckets) is proved, for trivially copyable elements, from an ARBITRARY valid bucket of any power of two capacity up to SEQ_MAX_BUCKET_SIZE (any begin position, fill and contents) to give exactly the sequence stated and a valid bucket again. (2) The addressing of the bucket manager with any number of buckets: position to bucket and offset, element access, and the iterators (begin, end, deref, ++, --, index, +n and -n, block iteration) denote the position they should. The composition of both (insertion and erasure over several buckets, bucket size changes, resize) and elements with non trivial copy/move are covered by the bounded differential stand-in only.',
    specs=[dict(file='circular.cpp', flags=['-DVF_T=uint64_t'], budget=500),
           dict(file='circular.cpp', flags=['-DVF_T=uint32_t'], budget=600),
           dict(file='tiered.cpp', only='.*(random_access|positions|iterator_begin_end|iterator_deref|iterator_increment|iterator_decrement|iterator_decrement_end|iterator_index|block_iterator)$', only_thorough='.*', budget=600)],
    assumptions=['trivially copyable elements in the proofs', 'type invariant of the bucket manager assumed by the addressing proofs: its buckets have the positions and sizes the manager records; that insertion and erasure over several buckets keep it is bounded only'],
    bounded=[sd(c, t, 250000, 4000000, sdn(c, t)) for c, t in ((1, 0), (1, 1), (1, 3), (1, 4), (2, 0), (2, 3), (3, 0), (3, 1))],
)
PROPS['C11'] = dict(
    level='proof', technique=MIX,
    level_note='The chunk operations (push at both ends with and without a new chunk, insertion into a free slot, pop at both ends, erase) and the iterators (begin, end, ++, --, order, element) are proved for trivially copyable elements from an ARBITRARY valid sequence: any number of chunks, any occupation, any free list; only the neighbourhood of the operation exists in memory, every other link leads to an inaccessible object, so the frame is proved too: all other elements keep value, place and order, iterators stay valid, chunks are freed when and only when they are empty. Range erase, resize, assign, sort, shrink_to_fit, jumps over several chunks and elements with non trivial copy/move are covered by the bounded differential stand-in only.',
    specs=[dict(file='sequence.cpp', flags=['-fno-access-control'], only='(push_back_empty|push_front_empty|push_back_chunk|push_front_chunk|ends|push_back_room|push_front_room|pop_back|pop_front|insert_free|iterators|erase_only|erase_first_full|erase_last_full|erase_middle_full|erase_middle_free_first)$', only_thorough='.*', budget=600),
           dict(file='sequence.cpp', flags=['-fno-access-control', '-DVF_PAD=4'], only='(push_back_empty|push_front_empty|push_back_chunk|push_front_chunk|ends|erase_first_full|erase_last_full)$', only_thorough='.*', budget=600)],
    assumptions=['chunk indexes are within +-2^60 (they start at 0 and move by one)', 'allocation succeeds (failures: C21)'],
    bounded=[sd(4, t, 400000, 4000000, sdn(4, t)) for t in (0, 1, 2, 3, 4, 5, 6, 8)],
)
PROPS['C21'] = dict(
    level='proof', technique=MIX,
    level_note='Proved for arbitrary devectors and arbitrary leaves of the radix containers, with the allocation failing or the constructor of the new element throwing at any point: the exception reaches the caller, the container is valid, nothing leaks and nothing is released twice; insertions at the ends, reserve, shrink_to_fit and insertions in a leaf leave the contents unchanged. The other containers, and element types whose copies, moves, assignments or comparisons throw, are decided by bounded histories only, with a failure injected in every kind of element operation and allocation.',
    specs=[dict(file='devector_throw.cpp', only='throw_.*', budget=500), dict(file='radix.cpp', only='throw_.*', budget=300)],
    assumptions=['hash, equality and comparison functors do not throw', 'grow_capacity is used through its contract, proved in C09', 'the proofs use trivially copyable elements: only allocations and the construction of the new element fail'],
    bounded=[sd(c, t, 250000, 4000000, 'throwing_' + sdn(c, t), fuse=1) for c, t in ((0, 1), (0, 2), (0, 3), (1, 1), (1, 3), (2, 3), (4, 1), (4, 2), (4, 3))],
)
ACN = ['flat_set', 'flat_map', 'flat_multiset', 'flat_multimap', 'ordered_set', 'ordered_map', 'radix_set', 'radix_map', 'radix_hash_set', 'radix_hash_map']
AKN = ['int', 'uint64', 'string', 'tiny_string', 'tracked', 'double', 'int8', 'wstring', 'tuple', 'int64', 'float', 'uint16', 'vector_int64', 'u16string']
def ad(cont, key, quick, thorough, ty=0, hm=0, stable=1, fuse=0, **k):
    name = ('throwing_' if fuse else '') + ACN[cont] + '_' + AKN[key] + ('_' + TYN[ty].replace(' ', '_') if ty else '') + ('_hash%d' % hm if hm else '') + ('' if stable else '_unstable')
    flags = ['-DCONT=%d' % cont, '-DKEY=%d' % key, '-DTY=%d' % ty, '-DHM=%d' % hm, '-DSTABLE=%d' % stable] + (['-DFUSE=1'] if fuse else [])
    return dict(file='assocdiff.cpp', name=name, flags=flags, quick=[quick], thorough=[thorough], bound='generated histories of up to ~1200 operations, sizes mostly under 300 (some up to a few thousands), compared after every operation with a reference list of pairs', **k)
ATHO = 1500000
PROPS['C12'] = dict(
    level='proof', technique=MIX,
    level_note='The searches every lookup of the flat containers goes through are proved for sorted ranges of any length and any contents: the lower bound and equality search of arithmetic and generic (three way or less) comparisons, with unique and duplicate keys, return the first position not less than the key and whether an equal element exists. The range operations (insertion of a range, merge, sort and unique) and the use of the searches by the containers are covered by the bounded differential stand-in.',
    specs=[dict(file='search.cpp', budget=500)],
    assumptions=['the comparator is a strict weak order and depends on its arguments only'],
    bounded=[ad(c, k, 60000, ATHO, ty=t, stable=s) for c, k, t, s in ((0, 0, 0, 1), (0, 2, 0, 0), (0, 4, 0, 0), (1, 0, 1, 1), (1, 2, 0, 1), (1, 3, 5, 0), (2, 0, 0, 0), (2, 4, 0, 1), (3, 0, 0, 1), (3, 5, 1, 0))],
)
PROPS['C13'] = dict(
    level='proof', technique=MIX,
    level_note='Proved for hash tables of any power of two size and any contents that satisfy the invariant of the table: the encoding of a slot; lookup in robin hood and in linear probing mode finds exactly the key that is present; the slot of an element is found; insertion in linear mode takes the first free slot and changes no other; removal in linear mode; the order of the distances implies what lookup needs (lemma). Backward shift removal is proved per table size, for tables of 2 to 16 slots (quick) and to 256 (thorough): bounded in the size of the table, not in its contents. Robin hood insertion, rehash, and the iteration order (the sequence below is proved under C11) are covered by the bounded differential stand-in.',
    specs=[dict(file='robin.cpp', flags=['-fno-access-control'], only_thorough='erase_robin_[5-8]', budget=600)],
    assumptions=['hash and equality depend on their arguments only and are consistent', 'at most one element of the table is equal to the key', 'the slots of the table are reached through 64 bit accesses at multiples of 8'],
    bounded=[ad(c, k, 60000, ATHO, ty=t, hm=h) for c, k, t, h in ((4, 0, 0, 0), (4, 2, 0, 0), (4, 4, 0, 1), (4, 0, 0, 3), (5, 0, 1, 0), (5, 2, 0, 6), (5, 4, 1, 4), (5, 0, 0, 2), (5, 3, 5, 0), (4, 8, 0, 5))],
)
PROPS['C14'] = dict(
    level='proof', technique=MIX,
    level_note='Proved: the radix key of every integer and floating point value preserves order and equality and gives any group of its bits exactly; the bits, order and equality of string keys of any length and any contents (one, two and four byte characters); the byte mask of the small hashes; lookup and insertion position in a leaf of any size and contents (8 byte group search, exact for present and absent keys); layout, capacity and alignment of leaves; insertion and erasure in leaves of every capacity, with and without reallocation, keep all other elements and their small hashes in order and give the blocks back. The SSE search of leaves, the directories of the tree, vector nodes, range insertion and the iterators are decided by bounded differential histories only.',
    specs=[dict(file='radix.cpp', only='(key_.*|bits_.*|less_.*|equal_.*|movemask|leaf_find.*|layout_.*|insert_.*|erase_.*)', budget=500)],
    assumptions=['keys are not NaN and not zeros of both signs', 'at most one element of a leaf is equal to the key', 'compute_lower_bound is used through its contract (the search it calls is proved in C12)', 'leaves hold trivially relocatable 8 byte elements in the insertion and erasure contracts'],
    bounded=[ad(c, k, 60000, ATHO, ty=t) for c, k, t in ((6, 0, 0), (6, 2, 0), (6, 6, 0), (6, 8, 0), (6, 5, 0), (7, 1, 1), (7, 2, 1), (7, 3, 0), (7, 7, 0), (7, 9, 5), (7, 12, 1), (6, 13, 0))],
)
PROPS['C15'] = dict(
    level='proof', technique=MIX,
    level_note='Proved: the radix key of a hash container is the hash value and gives any group of its bits exactly; lookup in an unordered leaf of any size and contents is exact for present and absent keys; layout and capacity of leaves; insertion (with and without reallocation) and erasure keep all other elements and their small hashes and give the blocks back. The SSE search of leaves, the directories of the tree, vector nodes and the iterators are decided by bounded differential histories only.',
    specs=[dict(file='radix.cpp', only='(hashed_key|key_u64|movemask|uleaf_.*|ulayout_.*|uinsert_.*|uerase_.*)', budget=500)],
    assumptions=['hash and equality depend on their arguments only and are consistent', 'at most one element of a leaf is equal to the key', 'leaves hold trivially relocatable 8 byte elements in the insertion and erasure contracts'],
    bounded=[ad(c, k, 60000, ATHO, ty=t, hm=h) for c, k, t, h in ((8, 0, 0, 0), (8, 2, 0, 0), (8, 4, 0, 1), (8, 0, 0, 3), (9, 0, 1, 0), (9, 2, 1, 6), (9, 4, 0, 4), (9, 0, 0, 2), (9, 3, 5, 0), (8, 1, 0, 5))],
)
PROPS['C21']['bounded'] += [ad(c, k, 40000, ATHO, ty=t, hm=h, stable=s, fuse=1) for c, k, t, h, s in ((0, 4, 0, 0, 1), (1, 0, 1, 0, 0), (4, 4, 0, 1, 1), (5, 0, 1, 0, 1), (7, 2, 1, 0, 1), (7, 0, 1, 0, 1), (9, 4, 1, 3, 1), (8, 4, 0, 1, 1))]
PROPS['C18'] = dict(
    level='proof', technique=MIX,
    level_note='Rely/guarantee contracts: every operation of spinlock and of shared_spinner over 8, 16, 32 and 64 bit words is proved against every behaviour of any number of other threads that respect the contract (ghost state: exclusive holders, shared holders, readers about to undo their count; before each atomic operation the word takes any value the invariant allows); every atomic operation of the code is one of the allowed transitions, with acquire/release ordering where the lock is taken or given back; a lemma shows that the transitions preserve the invariant: at most one writer and no reader with it. The atomic operations are taken as sequentially consistent between them. Progress under a fair scheduler and the executable schedules are covered by a bounded exploration of all schedules of small programs with few preemptions.',
    specs=[dict(file='locks.cpp', flags=['-fno-access-control'], budget=300)],
    bounded=[dict(file='lockexp.cpp', name='schedules', opt=['-O1', '-fsanitize=undefined', '-fno-sanitize-recover=undefined'], bound='all programs of 2 threads with up to 2 lock operations each and of 3 threads with one, up to 3 (quick) or 5 (thorough) preemptions at the atomic operations, capped number of schedules per program', quick=[3, 2, 20000], thorough=[5, 4, 400000])],
    assumptions=['callers unlock only what they hold and lock only what they do not', 'fewer than 2^14 threads use a 16 bit shared_spinner at a time (2^30 and more for the wider ones)', 'sched_yield and the clock have no effect on the lock'],
)
NOT_APPLICABLE.pop('C18', None)
PROPS['C19'] = dict(
    level='proof', technique=MIX,
    level_note='Proved: merge_forward (the kernel of every merge and sort of the file) for bidirectional ranges of any length and any order of their elements: each position gets the element of the stable merge, each element is written once, only elements of the ranges are read; the small insertion sorts (1 to 5 elements) and swap_branchless for every order; the 8 element network (thorough tier) for every weak order. Run detection, the two-ended and unbalanced merges, in place merges with any buffer size, and the complete sorts are covered by a bounded differential stand-in against the standard stable algorithms (labelled bounded, not proved).',
    specs=[dict(file='sort.cpp', only='.*(merge_forward|insertion_.|swap_branchless)$', only_thorough='.*', budget=300)],
    bounded=[dict(file='sortdiff.cpp', name='sort_relocatable', flags=['-DTY=0'], quick=[60000], thorough=[1000000], bound='generated ranges of up to 20000 elements (mostly under 300), 12 run structures, 3 orders, vector, list and deque, predefined and exact size buffers'),
             dict(file='sortdiff.cpp', name='sort_tracked', flags=['-DTY=1'], quick=[20000], thorough=[400000], bound='as above with elements that record that they were moved from')],
    assumptions=['the order given by the caller is a strict weak order', 'the contract of merge_forward is stated without the debug checks (NDEBUG)'],
)
NOT_APPLICABLE.update({
    'C07': 'Formatting is a deep expression template over std::string, streams and the number writers: its contract is a statement about the text of arbitrary nested arguments, whose verification conditions (variable size string buffers through many inlined layers) are out of reach of the generator built here. The number writers it calls are under contract in C04; padding and slots are not.',
    'C08': 'tiny_string was read but not brought under contract: its operations go through heap or inline storage selected at run time and memmove over symbolic overlapping lengths. Defects seen while reading are listed in DESIGN.md (find of the empty string, replace with a position in another string, self-aliasing arguments): the stated equivalence with std::string does not hold of the current code and the repairs are not small.',
    'C16': 'The concurrent tables build their node arrays from SIMD group probes, chained overflow nodes and lazily allocated shards; the sequential contract would need an abstract view of linked nodes of any length, which the generator supports only through a neighbourhood (as in C11) that was not built for this structure in the time available.',
    'C17': 'Linearizability quantifies over schedules of code that mixes locks, heap reclamation and atomics; rely/guarantee contracts were built for the locks themselves (C18), but the table operations above them are beyond the sequential generator.',
    'C20': 'Type erasure works by tables of function pointers filled per type: the generator resolves indirect calls only when the target is a constant, so a contract over any stored type cannot be stated; not decided.',
})
