"""Which check decides which property."""
import os
import vf
import text_check
import num_check
import write_check
import io_check
import bind_check
import doc_check
import map_check
import array_check
import string_check, util_check
import mem_check
import thread_check
import config_check
import float_check
import lanes_check

TEXT_ASSUME = ['numeric locale is C', 'TLC, gcc and its sanitizers are trusted', 'python float() rounds decimal literals correctly (cross-checked by C03 in TLA+)']
CHECKS = {}


def add(prop, run, technique, note, assumptions=(), level='model_checking', **kw):
    CHECKS[prop] = dict(run=run, technique=technique, note=note, assumptions=list(assumptions), level=level, **kw)


TEXT_NOTE = ('TLC enumerates all texts over 17 alphabets up to a bound (1.4 million texts) from the reader machine of JsonText.tla, which TLC checks against the RFC 8259 grammar of RFC8259.tla; '
             'each text is read by the real parser under address and undefined-behaviour sanitizers. Random, mutated and long documents are evaluated by the same specification. Bounded, not a proof.')
add('C01', text_check.run_text, 'TLA+ reader machine checked by TLC against the RFC grammar; enumerated texts replayed into the parser', TEXT_NOTE, TEXT_ASSUME)
add('C02', text_check.run_text, 'TLA+ reader machine; value of every enumerated text compared with the parsed tree', TEXT_NOTE, TEXT_ASSUME)
add('C04', text_check.run_text, 'TLA+ reader machine; status, line, column and message of every enumerated text compared', TEXT_NOTE, TEXT_ASSUME)
add('C05', text_check.run_text, 'TLA+ generated texts and random bytes replayed into the parser under sanitizers', TEXT_NOTE, TEXT_ASSUME)

add('C03', num_check.run, 'TLA+ exact decimal arithmetic (Decimal.tla) judges recorded literal/double pairs with TLC',
    'Decimal.tla states with exact integer arithmetic when a double is the nearest one to a literal; TLC evaluates it for every recorded pair, including all exact midpoints chosen; neighbours of every double are shown to be refused. Bulk pairs use python exact conversion, which is cross-checked. Sampled, not exhaustive over 2^64 doubles.',
    ['numeric locale is C', 'IEEE 754 doubles'])
add('C07', write_check.run, 'documents enumerated by TLC are written by the code and the files read back by the TLA+ reader machine (Layout.tla)',
    'Files written by the real code are read by the reader machine of JsonText.tla: RFC text, same value, member order, no repeated member, indentation per depth; byte identity of a second write. Documents: enumerated by TLC, every BMP character in strings (a seventh in the quick tier), names, random.', TEXT_ASSUME)

IO_NOTE = ('FileIO.tla models the system calls and every way of cutting requests; TLC shows that the outcome depends on the plan only, enumerates the plans (every cut pair, every failing byte offset, every failing call), '
           'each is executed against the real code on a real file, and TLC judges the recorded calls. Calls other than open, read, write, close and fstat are not faulted.')
add('C08', io_check.run_write, 'TLA+ model of file output (FileIO.tla); TLC-enumerated fault plans executed, recorded system calls judged by TLC', IO_NOTE, ['interposition by the linker on open, read, write, close, fstat'])
add('C09', io_check.run_read, 'TLA+ model of file input (FileIO.tla); TLC-enumerated fault plans executed, recorded system calls judged by TLC', IO_NOTE, ['interposition by the linker on open, read, write, close, fstat'])

BIND_NOTE = ('Binding.tla defines fitting, loading and storing for all types built from strings, numbers, booleans, nulls, sequences, maps and structures; TLC checks the laws of the binding and enumerates documents and data around every type. '
             'The types - every supported container of every leaf, and random nested structures - are compiled into a program in which the real templates are instantiated, and the answers are compared with what TLC computes. Structures and documents are bounded and sampled.')
BIND_ASSUME = ['a structure with member functions is used at the root or as an element of a container (as a named member it does not compile)', 'the names bound in one structure are distinct']
for _p, _t in (('C10', 'statuses of validation and deserialisation'), ('C11', 'delivered data'), ('C12', 'documents made and data read back')):
    add(_p, bind_check.run, 'TLA+ semantics of structure binding (Binding.tla), laws checked by TLC; enumerated documents and data replayed into compiled structures: ' + _t, BIND_NOTE, BIND_ASSUME, build_is_violation=True)

add('C06', doc_check.run, 'TLA+ state machine of a document object (Document.tla); TLC-enumerated and simulated histories replayed step by step',
    'Document.tla has the root as its state and every operation with every kind of outcome as transitions; TLC checks that the last thing put there is what is there, enumerates all histories of two operations (three in the thorough tier) out of 43 and simulates histories of twelve. Status, position, root and delivered data are compared after each operation.',
    ['out of memory is left to C13'])

add('C13', mem_check.run, 'TLA+ state machine of a document with refused memory (Memory.tla) and of ownership (Heap.tla); TLC-enumerated histories replayed with every single request refused, heap traces judged by TLC',
    'Memory.tla adds to Document.tla the failure of an operation for want of memory; TLC checks that the document is then empty or the last thing put there, and enumerates histories of three operations. Each is run once for every request for memory in its second operation, with that request refused; outcomes must be among those of the specification, and TLC judges the recorded heap traces: each block released once, in its form, and none left. Types as in C10-C12.',
    ['lookups by name outside of the operations (FindNumber and the like) end the program when there is no memory for the name'], build_is_violation=True)

add('C14', map_check.run, 'TLA+ specification of maps (SortedMap.tla) refined by a balanced tree (GenMap.tla); every balanced tree up to a size x every operation replayed, recorded histories judged by TLC',
    'TLC visits every balanced tree over 9 keys (11 in the thorough tier) and shows that the tree model refines the map; every operation on every one of them, followed by more, is executed by the real code, and TLC judges each step of the recorded history: contents, order in both directions and by index, balance, ownership, results, destroyed elements. Histories of two maps are simulated by TLC; larger maps (150 elements) at random.',
    ['the key of an element does not change while it is in a map'])

add('C15', array_check.run, 'TLA+ specification of arrays as sequences (Arrays.tla); histories enumerated and simulated by TLC replayed into nine kinds of arrays with tracked elements',
    'TLC enumerates every history of three operations (all positions that matter, several initial sizes around the growth thresholds) and simulates histories of twenty-five; after every operation the contents, results and returned pointers are compared, and elements that know whether they live make sure that each is constructed and destroyed exactly once; memory is balanced at the end.',
    ['an element of the array itself is not passed to its append and insert', 'constructors of elements do not throw (out of memory is left to C13)'])

add('C16', string_check.run, 'TLA+ specification of strings as byte sequences (Strings.tla); histories enumerated and simulated by TLC replayed into dynamic and fixed strings',
    'TLC enumerates every operation on every pair of strings and every two operations, with lengths at every place where the storage of a string changes, and simulates histories of twelve and fourteen operations; length, bytes and all comparisons are compared after every operation, fixed strings lie between guards, texts end where their memory ends, and memory is balanced at the end.',
    ['a pointer into the own buffer of a string is not passed to its operations (the string object itself may be)', 'the bytes that SetStringLength adds are undefined until they are written', 'uint64 numbers from 2^63 are excluded', 'floats are left to C22'])

add('C17', util_check.run_unicode, 'TLA+ specification of UTF-8 and UTF-16 (Unicode.tla), laws checked by TLC; every character, byte sequence and text enumerated by TLC replayed',
    'TLC goes through the characters in blocks, every one of them, through all sequences of four bytes at the boundaries of the encoding, and through texts, byte strings and unit strings up to three and four parts, checks that encoding and decoding are inverses, and computes every result with every output limit; the code is run with texts that end where their memory ends and outputs between guards.',
    ['counting functions are given well-formed UTF-8', 'surrogates in UTF-8 are tolerated as three-byte sequences'])

add('C18', util_check.run_compare, 'TLA+ definitions of comparisons and searches (Compare.tla), order laws checked by TLC; all pairs up to a length replayed',
    'TLC enumerates pairs of texts over boundary letters, digits, quotes and path characters, checks that every order is total and transitive and agrees with equality, and computes every comparison with every limit and every search; longer pairs are simulated.',
    ['FindText is not asked for the empty text and FindUnquotedChar not for a quote'])

add('C19', util_check.run_integers, 'TLA+ definition of digits by bytewise division (Integers2.tla), laws checked by TLC; integers and texts enumerated by TLC replayed',
    'TLC computes the digits of integers given as bytes - boundaries, powers, patterns, random ones - checks that reading them gives the integer back, and enumerates texts for the readers; every conversion with every output limit is compared, between guards.',
    ['types have four characters, or three after a zero byte', 'uint64 numbers from 2^63 are excluded'])

add('C20', thread_check.run, 'TLA+ model of threads (Threads.tla); TLC-enumerated schedules with suspension inside operations replayed into real threads under the thread sanitizer',
    'Threads.tla interleaves threads whose operations are suspended in the middle; TLC checks that each gets what it would get alone and enumerates schedules. They are replayed in real threads: hand-over happens at requests for memory, releases and system calls inside the operations, with relaxed atomics, so that the thread sanitizer sees no order between the threads and reports every conflicting access whatever the timing. Free runs besides.',
    ['suspension happens at allocations and system calls only; between them the thread sanitizer decides', 'memory allocation and the C library are thread safe'])

add('C21', config_check.run, 'the answers that the TLA+ specifications (JsonText, Binding, Document) define, enumerated by TLC, asked of the library built in every configuration',
    'One set of histories of documents, texts, structures and data is computed by TLC and put to the library as built by both compilers at several optimisation levels with and without standard-library support and exceptions: a covering selection of seven in the quick tier, all forty in the thorough one. Standard containers are replaced by those of the library where support is off. Written bytes must be the same in all.',
    ['C++17', 'Linux on x86-64'], build_is_violation=True)

add('C24', lanes_check.run, 'TLA+ definitions of vector, rounding and integer helpers (Lanes.tla), laws checked by TLC; calculations enumerated by TLC replayed in four builds',
    'TLC combines arguments for every helper - vectors of integers, multiples of a fraction around zero and around 2^23, patterns of bits, integers given by their bits - and computes exact results; laws tie the definitions to each other. The library calculates them with vector instructions, with wide ones (if the processor has them), without any, and optimised. Square roots of squares must be right to one part in 131072.',
    ['finite arguments in the domain of the helper (a result that can be represented, arguments of one sign up to 2^23 where the name says so)', 'trigonometric, exponential and logarithmic functions are left to C25', 'x86-64'])

add('C22', float_check.run_display, 'TLA+ definition of good texts for floats (Display.tla, exact decimal arithmetic); texts recorded from the code judged by TLC',
    'Floats of every exponent, around decimal boundaries, with runs of zeros and nines, of few digits and at random are displayed by the code with every amount of space between guards, by functions and by both kinds of strings; TLC judges in exact arithmetic whether each text is a number near enough to its float. Texts of other floats are shown to be refused.',
    ['in the plain range (from 0.0001 to 100000) digits are cut after several zeros or nines, which costs up to 0.000011', 'subnormal floats are displayed as zero, by design'])

add('C25', float_check.run_elementary, 'TLA+ definitions of the elementary functions by their series in exact decimal arithmetic (Reals.tla, Elementary.tla), laws checked by TLC; results recorded from three builds judged by TLC',
    'Arguments at the places of the tables, at the boundaries of quadrants, at limits and at random are given to the functions in three builds; TLC decides whether each result is near enough to the function, computed with twelve decimals, or, for inverse functions, whether the function of the result is near enough to the argument. The series are tied to each other by laws; results that are slightly off are shown to be refused.',
    ['arguments of sine and cosine up to 1000, of the tangent up to 100 and not within 0.05 of its poles', 'exponents of the exponential function from -87', 'powers with whole exponents between -5 and 5'])

add('C26', util_check.run_copying, 'TLA+ specification of a memory and the operations on its parts (Copying.tla), laws checked by TLC; histories enumerated and simulated by TLC replayed',
    'TLC enumerates every operation on a memory of twelve bytes, every two on a smaller one, and simulates histories on memories of 40 and 700 bytes; copying, filling, clearing, copying texts with and without limits, measuring, reinterpreting bits, hexadecimal digits and distances of addresses. After every operation of the library the result and the whole memory, which has nothing readable around it, are compared.',
    ['parts that are copied do not overlap'])

NOT_APPLICABLE = {
    'C23': 'The configuration without system libraries cannot be compiled on Linux (the engine headers it needs are not in the repository), so there is no implementation to bind a specification to.',
}


def known_findings(prop):
    path = os.path.join(vf.VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            pre = 'finding: property=%s ' % prop
            if line.startswith(pre):
                out.append(line[len(pre):].strip())
    return out
