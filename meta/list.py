IN = ['inputs']
NOTE = ('All inputs, all loop iterations, no bound: every obligation (memory safety, loop invariants, termination, postcondition) of the '
        'functions under contract is discharged by z3/cvc5 from the IR of the current sources. Trusted: clang/LLVM front end, the irvc core, '
        'the solver, and the listed library models; a native sanitizer run of the same sources cross-checks the models and replays counterexamples. ')

prop('C01', 'UTF-8 validation and encoding detection are exact and stay in bounds',
     'For every byte string, the length detector reports at each position exactly the length of the character that starts there - a lead byte '
     '00-7F, C2-DF, E0-EF or F0-F4 followed by the right number of continuation bytes inside the string - and reports an error otherwise; '
     'a string is accepted as UTF-8 exactly when it splits completely into such characters. No byte outside the given view is read.',
     IN, 'all byte strings of any length (below 2^40)',
     'The suite samples a few literal strings; truncated sequences at the end of a view, and every combination of lead and continuation bytes, are not enumerated.',
     ['src/jogasaki/utils/utf8_utils.cpp', 'src/jogasaki/utils/utf8_utils.h'],
     [('detect_next_encoding classifies the byte at an offset', 'src/jogasaki/utils/utf8_utils.cpp'),
      ('is_valid_utf8 walks the view character by character', 'src/jogasaki/utils/utf8_utils.cpp')],
     NOTE)

prop('C02', 'Log sanitizers emit only printable, faithful text',
     'For every input, the UTF-8 sanitizer copies each well-formed printable character unchanged and renders every byte of every ill-formed or '
     'control character as \\x{hh} (two lower-case hex digits), in order and with nothing added or lost; the control-character converter keeps '
     'each printable ASCII byte, replaces each control byte below 0x20 by "!", and drops bytes with the top bit set. Neither reads outside the view.',
     IN, 'all byte strings of any length (below 2^40)',
     'Tests use a dozen strings; correctness of overlong forms, surrogates, truncation at the end, and multi-byte controls needs all byte combinations at all positions.',
     ['src/jogasaki/utils/sanitize_utf8.cpp', 'src/jogasaki/utils/convert_control_characters.cpp'],
     [('validate_utf8_sequence and escape_byte', 'src/jogasaki/utils/sanitize_utf8.cpp'),
      ('per-byte replacement', 'src/jogasaki/utils/convert_control_characters.cpp')],
     NOTE + 'std::stringstream is a trusted model.')

prop('C03', 'Base64 encoding and decoding are exact inverses and the recogniser is exact',
     'For every byte string, encode_base64 yields the standard padded base64 text: four alphabet characters per started group of three bytes, each '
     'character holding its six bits in order, one or two "=" only at the end. decode_base64 maps every text over the alphabet (up to the first "=") '
     'to the bytes its characters encode, so decode(encode(x)) = x. is_base64 accepts exactly the non-empty texts whose length is a multiple of four, '
     'made of alphabet characters with at most two "=" and those only at the very end. No byte outside the view is read.',
     IN, 'all byte strings / texts of any length (below 2^40)',
     'No existing test; every group position, remainder class and bit pattern at any length must hold.',
     ['src/jogasaki/utils/base64_utils.cpp', 'src/jogasaki/utils/base64_utils.h'],
     [('bit accumulator loops', 'src/jogasaki/utils/base64_utils.cpp')],
     NOTE + 'decode_base64 is specified for texts over the alphabet only (its documented input).')

prop('C04', 'Hexadecimal literals are decoded exactly or rejected',
     'For every text, hex_to_octet succeeds exactly when the text has even length and consists of hexadecimal digits of either case; the result then '
     'has one byte per digit pair with the pair\'s value, in order, regardless of what the output string held before. Nothing outside the text is read.',
     IN, 'all texts of any length (below 2^40) and any previous content of the output string',
     'Tests sample a few literals; all digit pairs in all positions, odd lengths, and reused output strings are not covered.',
     ['src/jogasaki/utils/hex_to_octet.cpp', 'src/jogasaki/utils/hex_to_octet.h'],
     [('digit pair loop', 'src/jogasaki/utils/hex_to_octet.cpp')],
     NOTE)

prop('C05', 'CHAR, VARCHAR, BINARY and VARBINARY values keep their bytes and their order',
     'For every byte sequence, a text or binary value built from it (inline, borrowed or copied into a memory resource, or concatenated from two values) '
     'has exactly its length and bytes as seen by size, empty, view and string conversion; copies and concatenations own their bytes in the resource. '
     'Comparison of any two values, whatever their internal forms, is the unsigned lexicographic byte order with a proper prefix first, and ==, !=, <, >, <=, >= '
     'all agree with it.',
     IN, 'all pairs of byte sequences (each below 2^40 bytes) and all four combinations of the inline and the out-of-line representation',
     'Tests use a few short and long ASCII strings; the boundary between the two representations, high-bit bytes and equal prefixes in mixed forms need all inputs.',
     ['src/jogasaki/accessor/text.cpp', 'src/jogasaki/accessor/text.h', 'src/jogasaki/accessor/binary.h'],
     [('short/long representation and constructors', 'src/jogasaki/accessor/text.cpp'), ('comparison operators', 'src/jogasaki/accessor/text.cpp'),
      ('binary wrapper', 'src/jogasaki/accessor/binary.h')],
     NOTE + 'memory_resource::allocate and memcmp/memcpy are assumed contracts.')

prop('C06', 'In-page allocation never hands out overlapping, misaligned or outside regions',
     'For every page state, requested size and power-of-two alignment, allocation at the back of a page returns an aligned region that lies inside the page and '
     'behind every live region, with no more padding than the alignment needs, and returns null exactly when the region does not fit (then nothing changes); '
     'remaining() is exactly the largest size that still fits. Deallocation at the front or back is accepted exactly for a region at that end of the live area and '
     'releases exactly that region; an emptied page (from the back) starts over.',
     IN, 'all page states (lower bound <= upper bound <= page size), all 64-bit sizes, all 64 power-of-two alignments, all page addresses',
     'The paged memory resource tests exercise a few sizes and alignments and do not even build without the sibling libraries; boundary sizes near the page end or near 2^64 are not sampled.',
     ['src/jogasaki/memory/details/page_allocation_info.cpp', 'src/jogasaki/memory/details/page_allocation_info.h', 'src/jogasaki/memory/page_pool.h'],
     [('try_allocate_back / remaining', 'src/jogasaki/memory/details/page_allocation_info.cpp'), ('try_deallocate_front / try_deallocate_back', 'src/jogasaki/memory/details/page_allocation_info.cpp')],
     'All page states, sizes, alignments and page addresses; loop-free code, every obligation discharged by z3/cvc5 from the IR of the current sources. Deallocation contracts assume the region lies in the page '
     '(other addresses are covered by the native replay driver only).')

prop('C07', 'Aligned buffers keep size, content and alignment; power-of-two rounding is exact',
     'For every state and argument: an aligned buffer has the requested size and a capacity of at least that, its storage starts at a multiple of its '
     'alignment; resize keeps every byte up to the smaller of the two sizes and releases the old storage exactly when it relocates; shrink_to_fit leaves '
     'capacity = size with the content unchanged; copying and assigning from another buffer or a byte view reproduces exactly its bytes, moving transfers '
     'them; newly obtained storage beyond the copied content is zero. Nothing is read or written outside the storage, and storage is released exactly once. '
     'round_up_to_power_of_two / round_down_to_power_of_two return the smallest power of two not below / the largest not above their argument.',
     IN, 'all buffer states, sizes below 2^40 and power-of-two alignments up to 2^40; all 64-bit arguments of the rounding functions',
     'Unit tests exercise a handful of sizes; relocation, shrink, self-assignment, empty sources and alignments above the default are reached by few of them.',
     ['src/jogasaki/data/aligned_buffer.h', 'src/jogasaki/data/aligned_buffer.cpp', 'src/jogasaki/utils/round.h'],
     [('storage, resize, copy and assignment', 'src/jogasaki/data/aligned_buffer.cpp'), ('bit twiddling', 'src/jogasaki/utils/round.h')],
     NOTE + 'aligned_alloc / operator new are assumed contracts.')

SHIM = ('The sibling libraries (takatori, mpdecimal, glog) are not installed: small stand-in headers under /verif/shims are used for the value types they define '
        '(date, time_of_day, time_point, decimal triple), exceptions carry no trace and log output is dropped. ')
CODEC = ['src/jogasaki/kvs/coder.cpp', 'src/jogasaki/kvs/coder.h', 'src/jogasaki/kvs/writable_stream.h', 'src/jogasaki/kvs/writable_stream.cpp',
         'src/jogasaki/kvs/readable_stream.h', 'src/jogasaki/kvs/readable_stream.cpp', 'src/jogasaki/utils/decimal.cpp', 'src/jogasaki/utils/coder.cpp', 'docs/dataformat-ja.md']

prop('C08', 'Encoded keys sort exactly as their values and have the documented byte format',
     'For every column value the encoder writes exactly the documented bytes: integers, dates and times big-endian with the sign bit flipped; floats ordered numerically with -0 equal to +0 '
     'and NaN greatest; decimals as the minimal-width two\'s complement of the coefficient at the declared scale; character strings followed by a four-byte terminator and CHAR padded with '
     'blanks, BINARY padded with zero bytes; nullable fields prefixed with 0x80 (null) or 0x81; descending (and value) encodings are the bitwise complement. Hence byte-wise comparison of composite keys '
     'compares them column by column in value order, nulls first. Values that do not fit the declared length, character strings with a zero byte and decimals that would be rounded or exceed '
     'the precision are rejected with the documented status; a too small buffer is reported, or only measured when the caller asked for that, and nothing is written past it.',
     IN, 'all values of every supported column type, all declared lengths (below 2^40) / precisions 1..39 / scales, ascending, descending and undefined order, all buffer capacities, any earlier decimal status flags',
     'The codec tests need the sibling libraries and do not build here; upstream they sample a few dozen values. Order preservation quantifies over all pairs of values.',
     CODEC, [('encode / encode_nullable', 'src/jogasaki/kvs/coder.cpp'), ('key_encode, write', 'src/jogasaki/kvs/writable_stream.h'), ('write_decimal, do_write', 'src/jogasaki/kvs/writable_stream.cpp'),
             ('make_signed_coefficient_full', 'src/jogasaki/utils/decimal.cpp')],
     NOTE + SHIM + 'Order preservation is proved as lemmas over the proved byte formats. The decimal library\'s rescale is an assumed contract (exact result or inexact flag, digit count); '
     'bytes_required_for_digits is an assumed contract checked by complete native enumeration of its 40 values.')

prop('C09', 'Stored keys and values decode to what was encoded; malformed bytes are rejected',
     'For every column type and order, decoding what the encoder wrote yields the original value (NULL included; floats up to NaN payload and sign of zero) and consumes exactly the encoded bytes; '
     'skipping a field consumes exactly as much as decoding it. For arbitrary bytes, decoding never reads outside the record and never throws: it reports data corruption exactly when the bytes are '
     'too short for a whole value, the text terminator is missing, the nullity flag is invalid or a decimal coefficient exceeds 128 bits, and otherwise returns the value the bytes denote.',
     IN, 'all byte strings shorter than 2^40, every supported column type, order and nullability, precisions 1..39, BINARY lengths below 2^40',
     'Malformed records are not generated by the tests at all, and the codec tests do not build here.',
     CODEC, [('decode / decode_nullable / consume_stream', 'src/jogasaki/kvs/coder.cpp'), ('key_decode, read', 'src/jogasaki/kvs/readable_stream.h'), ('read_decimal, validate_decimal_coefficient', 'src/jogasaki/utils/decimal.cpp')],
     NOTE + SHIM + 'Fixed-length octet columns are under contract with an explicit length (the SQL front end always supplies one).')

prop('C10', 'Result sets are written in the documented format and only that format is read',
     'For every value, each entry writer produces exactly the bytes of the documented Tsubakuro result set format, with the shortest form of every integer, count and decimal coefficient '
     '(embedded in the header where the format allows); it returns true and advances by that length when the entry fits in the remaining buffer, and otherwise returns false, writes nothing past the '
     'end, leaves the position alone and does not throw. For arbitrary bytes, each entry reader returns the value the bytes denote and consumes exactly that entry if they are a well-formed entry of '
     'the requested kind (integers in shortest form, 32-bit fields and sizes in range, coefficients within +/-(2^128-1)), and otherwise reports an input error, leaves the position alone and never reads past the end. '
     'Reading back a written entry gives the original value.',
     IN, 'all values of every entry kind (bit strings and datetime intervals excepted), all buffer capacities and all input byte strings below 2^40',
     'The serializer tests need the sibling libraries and do not build here; upstream they sample a few values per kind, ample buffers and almost no malformed input.',
     ['src/jogasaki/serializer/value_output.cpp', 'src/jogasaki/serializer/value_input.cpp', 'src/jogasaki/serializer/base128v.cpp', 'docs/data-serde-ja.md'],
     [('variable length integers', 'src/jogasaki/serializer/base128v.cpp'), ('write_* and room checks', 'src/jogasaki/serializer/value_output.cpp'), ('read_* and requires_entry', 'src/jogasaki/serializer/value_input.cpp')],
     NOTE + SHIM + 'Bit string and datetime interval entries are not under contract.')

prop('C11', 'Records compare by first differing field; equal records hash and route alike',
     'For any number of fields of any kinds, nullabilities and record layouts (both sides may differ in layout), the record comparator returns a value whose sign is decided by the first field that differs: '
     'nulls before values, integers, dates and times numerically, floating point numbers with -0 equal to +0 and every NaN equal and greatest, strings and octets byte-wise, reversed for descending fields (nulls too), '
     'and zero exactly when all fields are equal; a field without an explicit descending order is ascending. Values equal under equal_to are exactly those neither of which is less. '
     'Records that compare equal have the same hash, whatever their layout or the bit pattern of their values (NaN payloads, signs of zero, bytes behind a null), hence the same partition, and a partition number is always below the number of partitions.',
     IN, 'all records with up to 2^20 fields of every field kind, all field layouts inside the record, both nullabilities, all orderings, all partition counts above zero',
     'The comparator, hash and partitioner tests need the sibling libraries and do not build here; upstream they sample a handful of records. Agreement of hash and comparison quantifies over all pairs of records.',
     ['src/jogasaki/executor/comparator.h', 'src/jogasaki/executor/less.h', 'src/jogasaki/executor/equal_to.h', 'src/jogasaki/executor/hash.h', 'src/jogasaki/executor/partitioner.cpp', 'src/jogasaki/executor/compare_info.cpp'],
     [('comparator, compare_field', 'src/jogasaki/executor/comparator.h'), ('value order and equality', 'src/jogasaki/executor/less.h'), ('hash, hash_field', 'src/jogasaki/executor/hash.h'),
      ('partitioner', 'src/jogasaki/executor/partitioner.cpp'), ('orderings', 'src/jogasaki/executor/compare_info.cpp')],
     NOTE + SHIM + 'Decimals compare by value through the decimal library (assumed order); equal decimals of different exponents are outside the hash claim. std::hash of dates, times and decimals is assumed to be a function of the value.')

SQLSHIM = ('The sibling libraries (takatori, yugawara, mpdecimal) are not installed: the expression tree, types and decimals are small stand-ins under /verif/shims_sql and /verif/shims. ')
prop('C12', 'An SQL expression evaluates to what SQL says, for every operand value',
     'For operands of any value, NULL and errors included: an error of an operand is the result; arithmetic and comparisons give NULL for a NULL operand; numeric operands are brought to the wider common type first; '
     'results inside the range of the type are exact (IEEE 754 for floating point, the decimal library for decimals); division by zero and quotients out of range are arithmetic errors and never crash; '
     'comparisons follow the order of the values (NaN greatest, -0 equal to 0); AND, OR, NOT are three-valued; IS NULL, IS TRUE, IS FALSE, IS UNKNOWN and IS [NOT] DISTINCT FROM are never NULL; '
     'CASE and COALESCE give the first alternative that applies, converted to the type of the expression, and do not evaluate the others; a cast applies its loss policy to itself only; '
     'a variable is NULL exactly if its null flag is set; a condition holds only if it is true; evaluation never ends by an exception.',
     IN, 'every node kind over all operand values and kinds, every number of CASE and COALESCE alternatives; integer overflow of +, -, * and unary minus is left unspecified',
     'The evaluator tests need the sibling libraries and do not build here; upstream they evaluate selected literals. The rules are universally quantified over operand pairs of all kinds.',
     ['src/jogasaki/executor/expr/evaluator.cpp', 'src/jogasaki/executor/expr/evaluator.h', 'src/jogasaki/executor/expr/error.cpp', 'src/jogasaki/data/any.cpp', 'src/jogasaki/accessor/const_record_ref.cpp'],
     [('engine::operator() for every node kind', 'src/jogasaki/executor/expr/evaluator.cpp'), ('values', 'src/jogasaki/data/any.cpp'), ('null flags', 'src/jogasaki/accessor/const_record_ref.cpp')],
     NOTE + SQLSHIM + 'Per node: the values of its operands are arbitrary (the contract of the recursive dispatch), so the statement holds for trees of any depth by induction. Floating-point operators, decimal operators, '
     'text order and concatenation (C05) are uninterpreted functions applied to the right arguments. Function calls, large objects, LET, immediates and LIKE are not covered; conversions are calls to the (assumed) conversion functions.')

prop('C13', 'Values and record streams of user-defined functions arrive intact and in order',
     'A record handed between the engine and a user-defined function is the sequence of values added to it, and a reader gets each value once, in order, with its kind and content, NULL or a read as another kind giving no value and moving on to the next one; '
     'reset empties it, an assignment takes over values and error and leaves the source empty. A record stream delivers the records pushed before its end exactly once, in order, with their errors reported as errors, then reports its end for ever; '
     'closing it discards what was not read, pushing after the end has no effect, asking without waiting never blocks, and a waiting reader sleeps only while there is nothing to read, is woken by a push, the end, a close or a move, and a timed wait that gives up changes nothing, for every interleaving of readers and writers.',
     ['inputs', 'schedules', 'histories'], 'all values, all sequences of operations, all interleavings of threads on one stream (monitor reasoning)',
     'No test of the repository touches these records; interleavings of pushes, reads, ends and closes cannot be enumerated by tests.',
     ['src/jogasaki/udf/generic_record_impl.cpp', 'src/jogasaki/udf/generic_record_impl.h', 'src/jogasaki/udf/error_info.cpp'],
     [('values and cursor', 'src/jogasaki/udf/generic_record_impl.cpp'), ('stream queue, mutex and condition variable', 'src/jogasaki/udf/generic_record_impl.cpp')],
     NOTE + 'Threads: the mutex protects the queue and the flags; at every lock these take arbitrary values (what other threads may have done), every unlock must leave a permitted atomic step, and every step that makes a sleeper\'s condition true must notify after it. '
     'That a notified thread is scheduled in the end is assumed. std::vector, std::queue, std::mutex, std::condition_variable are library contracts.')

prop('C14', 'Latches and waits release every waiter exactly when released; use counts are exact',
     'A thread waiting on a latch returns once the latch is released, at once if it was released before, and never earlier; a timed wait says truthfully whether it was, and a reset makes the latch as new. '
     'A thread waiting for an atomic value to change returns only when the value differs and is always woken by a notification that follows the change; storing, loading and compare-exchange act on the one value, and the wait itself changes nothing. '
     'A use count is the number of live copies, through copy, move, assignment and reset.',
     ['schedules', 'histories'], 'all interleavings of waiters, releasers and notifiers (monitor reasoning); all values; all copy histories of a counter',
     'Tests use one waiter and sleeps; a lost wake-up needs one particular interleaving between the check and the sleep.',
     ['src/jogasaki/utils/latch.cpp', 'src/jogasaki/utils/latch.h', 'src/jogasaki/utils/waitable_atomic.h', 'src/jogasaki/utils/use_counter.cpp'],
     [('latch', 'src/jogasaki/utils/latch.cpp'), ('waitable atomic', 'src/jogasaki/utils/waitable_atomic.h'), ('use counter', 'src/jogasaki/utils/use_counter.cpp')],
     NOTE + 'Threads: as in C13; the value of a waitable atomic may change at any time, the notification has to pass through the mutex after the change. Memory is sequentially consistent (the code uses no weaker order). '
     'std::mutex, std::condition_variable and std::atomic are library contracts.')

prop('C15', 'A user may do exactly what was granted to the user or to everybody, across restarts',
     'Granting adds exactly the actions granted to that user (or to everybody) and revoking removes exactly those revoked; no other user is affected. Holding ALL (control) covers every action and '
     'stands alone; revoking it leaves nothing. A user is allowed a set of actions exactly if each one is covered by a grant to the user or to everybody. '
     'Privileges written to a stored table definition and read back are the same, for every user and for everybody; a user without privileges has no entry.',
     ['inputs', 'histories'], 'all sets of actions, all user names, all maps of users, stored definitions with any number of entries (loop invariants)',
     'Tests grant and revoke a few combinations for two or three users; privileges are decided by set algebra over all combinations.',
     ['src/jogasaki/auth/action_set.cpp', 'src/jogasaki/auth/authorized_users_action_set.cpp', 'src/jogasaki/auth/fill_action_set.cpp', 'src/jogasaki/storage/storage_manager.h'],
     [('sets of actions', 'src/jogasaki/auth/action_set.cpp'), ('grants by user', 'src/jogasaki/auth/authorized_users_action_set.cpp'), ('stored form', 'src/jogasaki/auth/fill_action_set.cpp'),
      ('decision', 'src/jogasaki/storage/storage_manager.h')],
     NOTE + 'The map of users is a library contract seen through one arbitrary user: every access has to use that name and no other entry changes. Which action a statement needs (executor.cpp) is not covered: it needs the SQL compiler.')

prop('C16', 'Table locks: a writer is alone, and nothing stays locked or gets lost',
     'While a statement holds a table exclusively nobody else holds it, and while statements share it no writer gets it, for every interleaving; a lock is refused only while another '
     'statement holds the table (or the table is unknown). Locking a list of tables takes all of them or none; tables the own transaction holds exclusively are not locked again. '
     'The list of a lock is exactly what it holds, releasing some tables releases exactly those, and the end of a lock releases the rest. '
     'A transaction references each table it uses once, whatever threads it uses, and gives every reference back at its end.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of the atomic operations of any number of threads, all lists of tables of any length (loop invariants), all tables',
     'Tests lock and unlock a few tables from one thread; exclusion is decided for every state another thread may leave between two atomic accesses.',
     ['src/jogasaki/storage/storage_manager.cpp', 'src/jogasaki/storage/storage_manager.h', 'src/jogasaki/storage/shared_lock.cpp', 'src/jogasaki/storage/unique_lock.cpp', 'src/jogasaki/storage/storage_list.h', 'src/jogasaki/storage/reference_scope.cpp', 'src/jogasaki/utils/subtract_vectors.h'],
     [('one table: state word', 'src/jogasaki/storage/storage_manager.h'), ('lists of tables', 'src/jogasaki/storage/storage_manager.cpp'), ('release at the end of a statement', 'src/jogasaki/storage/shared_lock.cpp'),
      ('release by a definition statement', 'src/jogasaki/storage/unique_lock.cpp'), ('tables used by a transaction', 'src/jogasaki/storage/reference_scope.cpp')],
     NOTE + 'Rely-guarantee on the state word: every atomic access sees an arbitrary state the other threads may have left, and each successful exchange must be one of the four steps of a readers-writer lock; the exclusion of holders is then '
     'an inductive lemma over those steps. Lists, maps and sets of the standard library are contracts seen through one arbitrary table. Waiting for a table is done by the callers (not covered).')

prop('C17', 'LIKE matches exactly the texts its pattern describes',
     'For every text, pattern and escape character, LIKE is TRUE exactly if the text can be divided among the items of the pattern: a literal character stands for itself, _ for exactly one '
     'character (not byte), % for any characters including none, and a character after the escape character for itself. It always comes to an end. An operand which is NULL or invalid UTF-8 gives NULL; '
     'an escape text of more than one character, and a pattern that ends with an odd number of escape characters, give an error; an error of an operand is the result.',
     ['inputs'], 'all texts, patterns and escape characters of any length, by loop invariants and induction',
     'Tests match a few patterns; the backtracking after % must be right for every combination of multi-byte characters, wildcards and escapes.',
     ['src/jogasaki/executor/expr/evaluator.cpp', 'src/jogasaki/utils/utf8_utils.cpp'],
     [('search with backtracking', 'src/jogasaki/executor/expr/evaluator.cpp'), ('pattern to tokens', 'src/jogasaki/executor/expr/evaluator.cpp'), ('NULL, errors and escape', 'src/jogasaki/executor/expr/evaluator.cpp')],
     NOTE + 'The text matching the rest of the pattern from a place on is an uninterpreted relation unfolded by its definition; the search is proved against it, with the induction steps that make the '
     'greedy search (only the last % is ever extended) complete as lemmas. The tokens of a pattern are compared with its items through an uninterpreted monoid.')

prop('C18', 'A transaction is ended once, and not while its tasks are at work',
     'Whatever the interleaving of requests and tasks of one transaction: at most one of commit and abort is accepted, once, and the decision stands. A commit is accepted only while no task is at work '
     '(otherwise the transaction is going to abort), no task enters after the decision, and exactly one caller is told that the abort is to be carried out: the one after which no task is at work. '
     'Tasks bound to a worker are all bound to the same one as long as there are any. The state of a transaction never goes back, an outcome never changes except to unknown or from available to stored, and the way to each outcome is open. '
     'The first error reported for a transaction is kept, later ones are refused. Commit and abort reach the engine exactly once, and table locks and references are kept until the engine has answered and given back then. No two transactions share a number.',
     ['schedules', 'histories'], 'all interleavings of the atomic operations of any number of threads, all states',
     'Tests end a transaction from one thread; the races of commit, abort and running tasks are decided for every state another thread may leave between two atomic accesses.',
     ['src/jogasaki/transaction_context.cpp', 'src/jogasaki/transaction_context.h', 'src/jogasaki/termination_state.h', 'src/jogasaki/transaction_state.cpp'],
     [('termination manager', 'src/jogasaki/transaction_context.cpp'), ('bits of the termination state', 'src/jogasaki/termination_state.h'), ('worker of a transaction', 'src/jogasaki/transaction_context.cpp'),
      ('states and transitions', 'src/jogasaki/transaction_state.cpp'), ('commit and abort', 'src/jogasaki/transaction_context.cpp'), ('first error', 'src/jogasaki/transaction_context.cpp')],
     NOTE + 'Rely-guarantee on the words: every atomic access sees an arbitrary value the other threads may have left, and each successful exchange must be one of the allowed steps; that a transaction ends once, that a '
     'commit finds no task at work and that one caller carries out the abort are inductive lemmas over those steps. The engine is behind a contract. How the task scheduler and the requests use these operations is not covered.')

# ---- not applicable: properties a user relies on which contracts on sequential code cannot express here ----
prop('N01', 'Committed transactions are serializable and aborted ones leave nothing behind',
     'Whatever the interleaving of concurrent transactions, the committed ones have the effect of some serial order, and an aborted transaction leaves no effect visible.',
     ['schedules', 'histories'], 'all interleavings of concurrent transactions', 'Tests run a few fixed interleavings.',
     ['src/jogasaki/kvs/transaction.cpp', 'src/jogasaki/transaction_context.cpp'], [('delegates to the transaction engine', 'src/jogasaki/kvs/transaction.cpp')],
     na='Isolation is implemented by the transaction engine behind sharksfin, whose source is not part of this repository and not installed; the '
        'code here only forwards calls. A contract for the engine would be an assumption that already states the property.')
prop('N03', 'A commit waiting for durability is answered once, and only after it is durable',
     'A request that waits for durability is answered exactly once: never before its durability marker is reached, and always after it is.',
     ['schedules', 'crash_points'], 'all interleavings of marker updates and registrations, and all crash points',
     'Tests call the manager from one thread or with a few timings.', ['src/jogasaki/durability_manager.cpp', 'src/jogasaki/durability_callback.cpp'],
     [('wait list and instant update', 'src/jogasaki/durability_manager.cpp')],
     na='The guarantee rests on a lock-free hand-off between threads (atomic flag and concurrent priority queue) and on the datastore\'s marker; the sequential '
        'verifier cannot express it, and the transaction and request types are not buildable here.')
prop('N04', 'The step scheduler runs every task once, after its inputs, and always finishes',
     'For every plan graph and schedule, each task runs exactly once, only after the steps it depends on have produced their data, and the job always completes or reports an error.',
     ['schedules', 'inputs'], 'all plan graphs, task counts and schedules', 'Tests use a few graphs and schedules.',
     ['src/jogasaki/scheduler/dag_controller_impl.cpp', 'src/jogasaki/scheduler/statement_scheduler_impl.cpp'],
     [('state machine of steps', 'src/jogasaki/scheduler/dag_controller_impl.cpp')],
     na='Ordering and liveness over thread schedules; needs concurrency reasoning and the tateyama task scheduler, neither of which is available to this verifier.')
prop('N06', 'Sequence numbers handed out are never reused, also after a crash',
     'No identifier generated for a row or a generated column is ever handed out twice, whatever the interleaving of transactions and at whatever point the server stops.',
     ['crash_points', 'schedules'], 'all crash points and interleavings', 'Tests do not crash the server.',
     ['src/jogasaki/executor/sequence/manager.cpp', 'src/jogasaki/executor/sequence/sequence.cpp'], [('sequence manager', 'src/jogasaki/executor/sequence/manager.cpp')],
     na='Depends on the log datastore and on concurrent increments; persistence and crash are outside the semantics of the sequential verifier, and the storage interface is not installed.')
