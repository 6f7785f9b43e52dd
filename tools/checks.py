"""Registry: how each property is decided. run.py reads it; MANIFEST.json is generated from it by tools/mkmanifest.py."""
T_MON = 'runtime monitoring: reference-model oracle over ASan/UBSan-instrumented and plain executions'
A_REF = 'the reference model in harness/ref.hpp states the property correctly (written without library code)'
SCOPES = ['g17scope0', 'c20scope64', 'g11scope5', 'c17spaces']
CHECKS = {}
def add(pid, rule, note, assumptions=None, **kw):
    d = dict(technique=T_MON, rule=rule + ' Non-trivial = distinct by content hash of the judged case.', note=note,
             assumptions=assumptions if assumptions is not None else [A_REF])
    d.update(kw)
    CHECKS[pid] = d

add('C01', 'texts: every digit string of 1-4 digits in each octet, all short strings over small alphabets, every byte value at every position of valid texts, valid texts and their mutations, over-long and wrapping numbers; each judged through every parse entry point (char, wchar_t, UTF-8/16/32, arrays, throwing and error-code).',
    'Exhaustive over the enumerated families (octet digits, short alphabets, single-byte edits), sampled beyond; judges the real parser in 4 build configurations.', fuzz=(60000, 64))
add('C02', 'texts: all strings up to length 6 (thorough 8) over {: 1 0 f . % G}; every shape (groups before/after ::, group lengths 0-5, dotted tail, scope kinds); every byte value replaced/inserted at every position of six valid texts; scopes of every length to 69; valid spellings, mutations and long token sequences; through every parse entry point.',
    'Exhaustive over the enumerated families, sampled beyond; also in the configurations with other scope limits.', quick_extra=['g17scope0', 'g11scope5'], extra=SCOPES, fuzz=(60000, 100))
add('C03', 'texts: every prefix number to 1299 with leading zeros, numbers wrapping at every power of two, every mask and hostmask with every bit flipped, every (host bit, prefix) pair, short strings, single-byte edits, valid/mutated/long texts; strict and non-strict.',
    'Exhaustive over prefix numbers, masks and host-bit positions; sampled beyond.', extra=['g17scope0', 'c17spaces'], quick_extra=['g17scope0'], fuzz=(40000, 100))
add('C05', 'addresses: every zero/non-zero group pattern, every value of every group and octet, generated addresses and networks; every format, every string type, conversion operator, std::to_string and streams compared with the reference printer.',
    'Exhaustive over zero patterns and single groups; sampled over combinations.', fast_scale=4.0, extra=['c20scope64', 'g17scope0', 'c17ns'])
add('C06', 'objects: every zero pattern, every prefix, scopes, generated addresses and networks, alternative spellings; printed in every format and character type, parsed back, printed again.',
    'The oracle is the object itself (bytes, scope, prefix, family).', fast_scale=4.0, extra=['c20scope64', 'g11scope5', 'c17spaces'])
add('C11', 'addresses: every single bit, every byte value at every position, all 16-bit halves, random; every constructor/factory/accessor compared with the reference byte order.',
    'Exhaustive over single bits and bytes; sampled over combinations.', fast_scale=5.0)
add('C12', 'pairs/triples of addresses, scopes, networks: adjacent byte values at every position, prefix pairs, near pairs; all six operators, <=>, hashes and sorted containers compared with the reference order.',
    'Exhaustive over adjacent byte values and prefix pairs; sampled beyond; both with and without <=>.', fast_scale=5.0, quick_extra=['g20nospace'], extra=['g20nospace', 'c20scope64'])
add('C13', 'every prefix with 24 address patterns, prefix lengths to the extremes of size_t, random pairs; all attributes against arithmetic; factory against parser.',
    'Exhaustive over prefix lengths.', fast_scale=5.0)
add('C14', 'network pairs: every prefix pair nested/adjacent/apart, every first differing bit, neighbours of each other, all networks of small spaces; relations against interval arithmetic.',
    'Exhaustive over prefix pairs and divergence positions; scope-less networks for subnet relations.', fast_scale=5.0)
add('C19', 'addresses: edges of every special block with every bit flipped, every top 16 bits, fine sub-blocks exhaustively, mapped addresses, random; thorough: IPv4 space at /24 granularity fully. All eight predicates on concrete and any type.',
    'Block tables re-stated independently in the reference; boundaries exhaustive.', fast_scale=3.0)
add('C20', 'networks: every block crossed with every prefix length and its neighbours, all IPv4 networks to /16, random; all eight predicates on concrete and any type.',
    'Exhaustive over IPv4 networks to /16 and over block x prefix.', fast_scale=3.0)
add('C21', 'addresses: the three embedding prefixes with every bit flipped, every payload octet, random; extraction and reverse pointers against arithmetic.',
    'Exhaustive over single-bit departures from the prefixes and single octets.', fast_scale=5.0)
add('C09', 'operand pairs: bit patterns (runs, single bits, limb edges), every shift amount 0..300 and around every power of two, quotient/remainder built to hit the division estimate edges, mixed built-in types; every operator against native 128-bit and bignum arithmetic.',
    'Oracle: compiler-native unsigned __int128 plus schoolbook reference.', ['the native unsigned __int128 of gcc/clang computes modulo 2^128'], fast_scale=5.0)
add('C10', 'values: every power of two/ten and its neighbours, random; every base, width, fill; texts around 2^128 in each base, single-byte edits; doubles around every representable boundary.',
    'Oracle: native 128-bit arithmetic and schoolbook digit conversion.', ['unsigned __int128 <-> double conversions of the compiler runtime round to nearest'], fast_scale=4.0, fuzz=(60000, 140))
add('C15', 'networks: every prefix length at several positions incl. both ends of the address space; full iteration for up to a few thousand hosts, boundary windows beyond; forward, reverse, index, size on concrete and any type.',
    'Full enumeration for small networks, windows at both ends for larger ones.', ['the sequence model in harness/seqmon.hpp states the usable hosts correctly', A_REF], fast_scale=4.0)
add('C16', 'networks x (diff, new prefix): every prefix pair, both ends of the address space, inadmissible and overflowing arguments; subnets and supernet on concrete and any type.',
    'Full enumeration for small counts, windows beyond; error arguments to the extremes of size_t.', ['the sequence model in harness/seqmon.hpp states subnets correctly', A_REF], fast_scale=4.0)
add('C18', 'histories of random moves (++,--,+=,-=,+,-,next,prev,advance,index) on forward/reverse iterators of hosts and subnets sequences, shadowed by a position model.',
    'Random walks with signed offsets up to the sequence length.', ['the position model in harness/seqmon.hpp is correct', A_REF], fast_scale=4.0)
add('C04', 'objects of both families, random and at block edges; every query, conversion, formatting, comparison, enumeration and error outcome of the any type judged against the concrete type in lockstep; texts read by all three types; the two families mixed in one operation.',
    'Oracle: the concrete types (judged by the other properties).', ['the concrete types are right (C01-C03, C05-C21)'], fast_scale=3.0, extra=['c20scope64', 'g17scope0'])
add('C17', 'every prefix-length pair at five positions of the address space, all pairs of networks of two 32-address spaces, random and non-included pairs; the yielded networks recorded and judged as a set (siblings, conservation of size, disjointness).',
    'Exhaustive over prefix pairs and two small spaces per family.', fast_scale=2.0)
add('C07', 'texts: fixed malformed texts, every string up to 4 of {1 . : / % 0 a \\xC3}, valid/mutated addresses and networks in every character type; from_address/subnets/supernet/address_exclude with arguments to the extremes of size_t; scope ids; literals as functions. Error-code form (clean and stale), throwing form and no-exception form run side by side and the reported kind checked against the text.',
    'The truth of each reported kind is a predicate over the text, not the exact code of the implementation.', fast_scale=4.0, extra=['c20scope64', 'g17scope0', 'c14utf8san'])
add('C08', 'unit sequences planted into valid texts: every 16-bit unit, surrogate pairs in and out of order, 32-bit units equal to ASCII modulo every power of two, every 1- and 2-byte UTF-8 sequence, overlong/truncated/stray forms of every ASCII character, three-byte sequences; every encoding of generated texts; as string, view into a longer buffer, array, scope id and number, error-code and throwing form.',
    'Exhaustive over single 16-bit units and UTF-8 byte pairs at sampled positions; includes a build where char is UTF-8.', fast_scale=3.0, quick_extra=['g20utf8'], extra=['g20utf8', 'c14utf8san'], fuzz=(40000, 100))
add('C22', 'scope texts: every ASCII character at every position, every length to 80, numbers around every power of two/ten and 2^32 with leading zeros, prefixes/extensions of the present scope; histories of set/clear/copy/assign/swap/convert/parse/network round trips over a pool of objects shadowed by a model, every object and pair re-judged after every step.',
    'Histories sampled; single-character and length families exhaustive; all scope limits (0, 5, 16, 64) and the spaces option.', fast_scale=6.0, quick_extra=SCOPES, extra=SCOPES)
add('C29', 'fixed_strings of capacities 0-40 over random and boundary contents, every ASCII character, every pair of strings up to length 3 over a 3-letter alphabet at equal and different capacities, non-ASCII units of every character type; byte arrays of 0-33 bytes with near-equal pairs and writes through every accessor; histories of optional assignments. Reference: std::string, std::array and a presence model.',
    'Exhaustive over short string pairs and single characters; sampled beyond. C++20 and earlier comparison operators both built.', ['std::string and std::array of the standard library behave as specified'], fast_scale=10.0, quick_extra=['g20nospace'], extra=['g20nospace'])
add('C28', 'histories of 18 kinds of copy/move/assign/swap/self-operations/containers/optionals/in-place changes over a pool of objects of each of the six types (the any types switching families), shadowed by a model, every slot re-judged after every step and whole objects compared attribute by attribute with freshly made ones; conversions; copies of iterators and sequences stepped independently; numbers.',
    'Histories sampled; stale state shows as an attribute differing from a fresh object of the same value.', fast_scale=5.0, quick_extra=['g17scope0'], extra=['c20scope64', 'c17ns'])
add('C23', 'objects written to narrow and wide streams in random histories of manipulators, widths, fills, flags and other output, every operation mirrored with a plain string on a twin stream; texts of valid/malformed tokens and odd whitespace read under random strictness, prior failures and exception masks, mirrored by a string extraction; round trips of mixed sequences.',
    'Histories sampled; the twin stream supplies the state, width, fill and consumption expected of a token.', ['the standard library string inserter and extractor behave as specified', A_REF], fast_scale=6.0, extra=['c20scope64', 'g17scope0'])
add('C25', 'a catalogue of 26 operation kinds (parsing in every character type, formatting, predicates, attributes, sequences, relations, numbers, building blocks, scopes, factories) on generated inputs, recorded in 21 (thorough 37) builds and compared case by case by an offline checker; a program instantiating every public template, and every public header included first, in every standard of both compilers.',
    'Records of all builds must be identical; options are compared on the inputs they do not concern. A build that does not compile is a violation.',
    ['the standard library and both compilers implement the same semantics', 'a build that deviates is in the minority or differs from another'],
    plugin='p_matrix', technique='runtime monitoring: offline comparison of recorded results across build configurations')
add('C24', 'generated cases of 17 operation kinds (array and view parsing in every character type, literals, parse<"...">, queries, scopes, ordering, attributes, relations, hosts, subnets, supernet, exclusion, from_address, 128-bit arithmetic and text, containers, and sweeps that evaluate every shift, bit, prefix length or one-unit change of a text inside one constant expression), each evaluated by the constant evaluator of the compiler and by the compiled program on laundered arguments, in 11 builds (gcc and clang, C++14 to C++23, with and without exceptions).',
    'A case must be a constant exactly when the run-time call does not report an error (C++20: both directions, by a concept; C++14/17 and without exceptions: the cases the reference accepts), and the values must be equal; the constant evaluator rejects undefined behaviour.',
    ['the constant evaluators of gcc and clang detect undefined behaviour', A_REF], plugin='p_constexpr', technique='runtime monitoring: lockstep of constant evaluation (as undefined-behaviour interpreter) and execution')
Q26 = ['g20san', 'c17san', 'g11', 'c14nx', 'ptrpair', 'msan', 'memcheck']
add('C26', 'the catalogue of 26 operation kinds with a balanced allocation ledger; hostile texts of every unit type (random units, tokens, long repetitions, near-valid texts) through every reading entry point with the text at an inaccessible page; texts of up to a million units; extreme moves inside sequences; hostile streams; every allocation of an operation failing in turn.',
    'Monitors: ASan+UBSan on two compilers, guard pages, ASan pointer-pair checking, MSan, valgrind memcheck, an allocation ledger with injected failures, a CPU watchdog, and coverage-guided fuzzing under ASan+UBSan.',
    ['what the sanitizers and memcheck do not report on an execution is not undefined behaviour of it', 'MSan: code of the standard library itself counts as initialising'],
    technique='runtime monitoring: sanitizers (ASan, UBSan, MSan), memcheck, guard pages, allocation ledger and fault injection over hostile workloads',
    quick=Q26, thorough=Q26 + ['g11san', 'c20san', 'c23', 'g14', 'memcheck-c', 'g23scope5san', 'c20spacessan', 'c14utf8san', 'c20scope64', 'g17scope0'], fast_scale=1.5, san_scale=1.0, san_stride=1, thorough_scale=20, thorough_san_scale=15, fuzz=(60000, 120))

Q27 = ['c17tsan', 'g20tsan', 'g11', 'c14nx']
add('C27', 'fresh processes (cold start) in which 2-17 threads run random operations of 32 kinds (parsing, formatting, streams, exceptions, queries, sequences, relations, numbers, containers), on their own objects or looking at the same const objects, with random start delays; the same operations repeated afterwards by a single thread; operations run by a static initialiser and again later.',
    'Monitors: ThreadSanitizer on every access (halting on the first race) in two compilers, and equality of every result with the single-threaded repetition; overlap of operations measured from unsynchronised time stamps. Non-trivial = distinct observed interleaving (start order).',
    ['ThreadSanitizer sees the accesses of the library (all of it is in headers compiled with it)', 'the standard library and C runtime are thread-safe as specified'],
    technique='runtime monitoring: ThreadSanitizer and single-thread oracle over multi-threaded cold-start workloads',
    quick=Q27, thorough=Q27 + ['c11tsan', 'g14nxtsan', 'c23tsan', 'g17', 'c23'], fast_scale=2.0, thorough_scale=15)
