#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
J='Code/Json4C4/C4Json.cpp'; H='Code/Json4C4/C4Json.h'; T='Code/Terathon/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A text is accepted exactly when it is a JSON text of RFC 8259",
  "Parsing a text buffer succeeds if and only if the text is a JSON text according to the grammar of RFC 8259, for every kind of value at the root and with white space wherever the grammar allows it. The only departures are: an escaped NUL (\\u0000) is rejected, brackets nested deeper than 1024 are rejected, surrogate code units encoded as three UTF-8 bytes are tolerated inside strings, and NUL bytes may follow the text.",
  ["inputs"],"every byte sequence offered as a text",
  "The tests parse two fixed documents and a couple of fixed syntax errors; the property is about all texts, and most illegal texts differ from a legal one in a single byte.",
  [J,T+"TSText.cpp"],[("value dispatch and literals",J+": ParseValue / ArrayValue::Parse / ObjectValue::Parse"),("string and number scanners",J+": ReadStringLiteral, ReadDoubleLiteral, IsValidFloatLiteral"),("UTF-8 validation",T+"TSText.cpp: ValidateUnicodeChar")],
  observe=["status returned by StructuredData::Parse"])
p("C02","The parsed document is the value that the text denotes",
  "After a successful parse the document tree holds exactly the value of the text: every string with its escapes and surrogate pairs decoded to UTF-8, every array element in order, every object member under its decoded name, every literal with its type, at any size and depth. Of several members with the same name the first one counts, and looking a member up by name and type finds it exactly when it is there with that type.",
  ["inputs"],"every accepted text",
  "The tests compare a few members of two documents; escapes, surrogate pairs, repeated names, deep nesting and long arrays are not reached.",
  [J,H,T+"TSText.cpp"],[("unescaping",J+": ReadStringEscapeChar, ReadStringLiteral"),("UTF-8 encoding",T+"TSText.cpp: WriteGlyphCodeUTF8"),("tree construction",J+": ArrayValue::Parse, ObjectValue::Parse, InsertAccountedMapElement"),("lookup by name",J+": ObjectValue::FindString ... FindJsonObjectValue")],
  observe=["GetRootJsonValue, GetDataAsPointerTo, AsJsonObjectValue, FindX"])
p("C03","Numbers are read to the nearest double and survive writing bit for bit",
  "The double held for a number literal is the one nearest to the literal's exact decimal value (ties to even, overflow to infinity, the sign of zero kept), for every literal of any length and exponent. Writing any finite double and parsing the written text gives back the identical bits.",
  ["inputs"],"every number literal; every finite double",
  "A handful of literals is tested; wrong rounding shows only on literals within a fraction of an ulp of a midpoint, on subnormals, or on long literals.",
  [J],[("literal to double",J+": ReadDoubleLiteral"),("double to literal",J+": NumberValue::Write (17 significant digits)")],
  observe=["bits of GetDataAsPointerTo<double>()"])
p("C04","A rejected text is reported with the right status, line, column and message",
  "For every rejected text the status names what was wrong, and line and column (both counted from 1, columns in bytes, lines ended by line feeds) give the place: the offending byte for structural errors, the first byte of the token for bad literals and numbers (for a leading zero, its first digit), and the first byte after the opening quote for bad strings. Every status has its own descriptive message, and a parse result is rendered as that message followed by the line and column when there is a position.",
  ["inputs"],"every rejected text, every status and every position",
  "Two fixed errors are tested; positions depend on everything that precedes the error.",
  [J],[("error position",J+": ComputeErrorPosition / StructuredData::Parse"),("messages",J+": StatusToString, ParseResultToString")],
  observe=["ParseResult, StatusToString, ParseResultToString"])
p("C05","Any bytes can be parsed without a crash, a hang or a bad memory access",
  "Parsing an arbitrary buffer - empty, unterminated, binary, cut anywhere, with NULs inside, huge, or nested arbitrarily deep - always returns, reads nothing outside the buffer, has no undefined behaviour, and destroying or reusing the document afterwards is safe. A buffer of fewer than two bytes and a buffer that does not end with a NUL are refused as such.",
  ["inputs"],"every buffer contents and size",
  "No test offers malformed encodings, cut texts or deep nesting, and none runs under a memory checker.",
  [J,T+"TSText.cpp"],[("bounds by the NUL terminator",J+": StructuredData::Parse"),("nesting limit",J+": MAX_NESTING_DEPTH"),("byte classification",J+": ReadUnicodeEscapeCode, ComputeFloatLiteralLength")],
  observe=["address and undefined-behaviour sanitizers, process exit"])
p("C06","A document is always either empty or exactly the last thing put into it",
  "Over every sequence of parsing, serialising, validating, deserialising and writing on one document object, the root is what the last successful parse or serialisation put there. A syntax error leaves the document empty; a failure before the text is looked at (a missing, unreadable or too large file, a too small or unterminated buffer) leaves it as it was; validating, deserialising and writing never change it, and on an empty document they report invalid structured data.",
  ["histories"],"every sequence of operations on a document",
  "Each test uses a fresh document for one parse; reuse after errors is not tested.",
  [J,H],[("root replacement",J+": StructuredData::Parse; "+H+": SerializeFrom, DeserializeTo, Validate")],
  state=[("rootJsonValue","the document's root",H)],observe=["GetRootJsonValue after each call"])
p("C07","Writing a document and parsing the file gives the same document back",
  "For every document whose numbers are finite, writing succeeds and the file is a JSON text of RFC 8259 that denotes the same value, with the members of every object in the order in which they were added and every line indented by its nesting depth, for any indentation width and white-space indentation character. Writing the re-parsed document with the same settings produces the identical bytes, and a document with a non-finite number is refused instead of being written as something else.",
  ["inputs","configurations"],"every document and indentation",
  "The tests never read a written file back; strings with quotes, control characters, empty containers and repeated names are not reached.",
  [J],[("writers",J+": *Value::Write, WriteStringLiteral"),("insertion order",J+": ObjectValue::insertionOrder")],
  observe=["bytes of the written file"])
p("C08","Writing reports success only when the file holds the complete text",
  "Whatever the operating system does with the individual writes - short writes, errors at any point including the final close - a write that reports success has replaced the file's whole previous contents with the complete text in order, and otherwise it reports a failure (open errors and write errors distinguished). After an error nothing more is written, and the file descriptor is always closed exactly once; with nothing to write the file is not touched.",
  ["fault_sequences","histories"],"every sequence of short and failing system calls during a write, and every previous content of the file",
  "The tests write to a healthy file system only and ignore what was there before.",
  [J],[("write loop",J+": File::WriteFile, CloseFile, OpenFile"),("status",J+": StructuredData::Write")],
  observe=["open/write/close calls and the resulting file"])
p("C09","Parsing a file gives exactly what parsing its bytes gives",
  "Whatever the sizes in which the operating system delivers the bytes, parsing a file gives the result of parsing its contents as a buffer; files larger than 65534 bytes are refused as too large. A file that cannot be opened, that fails while being read or that ends early is reported as an open or read error and never parsed partially, one whose size cannot be determined is refused, and the descriptor is always closed exactly once.",
  ["fault_sequences","inputs"],"every file content and size, every sequence of short and failing reads",
  "The tests read small healthy files.",
  [J],[("read loop",J+": File::ReadFile, GetFileSize, StructuredData::Parse(fileName)")],
  observe=["open/fstat/read/close calls and the ParseResult"])
p("C10","Validation says exactly whether a document fits a structure",
  "Validating a document against a user structure succeeds if and only if every required member is present with a value of the right kind, recursively through nested structures, sequences and maps, and every optional member that is present fits. Otherwise it reports the first mismatch in declaration order - name not present or invalid value type - and deserialising the same document into that structure reports the same status.",
  ["inputs","programs"],"every document and every supported structure",
  "The tests validate one fitting document against one structure.",
  [H,J],[("validation",H+": Validate, ValidateProto and overloads")],observe=["Status of Validate and DeserializeTo"])
p("C11","A successful deserialisation delivers the document's values",
  "When deserialising succeeds every bound member equals the document's value - strings, numbers, booleans, sequences replaced as a whole with all elements in order, maps with every member of the document, nested structures recursively, whatever the target held before. Optional members that are absent, map entries that the document does not mention, and everything not bound keep their values.",
  ["inputs","programs"],"every document, structure and prior content of the target",
  "One structure with one document is tested.",
  [H,J],[("deserialisation",H+": Deserialize, DeserializeProto and overloads; "+J+": std::string specialisation")],observe=["contents of the target"])
p("C12","Serialising and deserialising gives the same data back",
  "For every value of every supported type - Terathon and standard strings, numbers, booleans, nulls, arrays, vectors, maps, nested structures with optional members - serialising it and deserialising the result into a fresh object (directly, or through a written file) gives equal data, and the document produced validates. The document has the shape declared: one member per declared name in declaration order (optional ones included), arrays for sequences, objects for maps in key order; serialising again replaces the document completely. Data that are not structures, serialised onto a value that exists, take the place of its data if it is of their kind; otherwise they are refused and it stays as it is.",
  ["inputs","programs"],"every value of every supported type",
  "The tests serialise nothing that they read back.",
  [H,J],[("serialisation",H+": Serialize, SerializeProto and overloads, CreateValueFor")],observe=["the document tree and the target"])
p("C13","Nothing leaks and nothing breaks when memory runs out",
  "Every allocation made while parsing, writing, validating, serialising or deserialising is released exactly once when its owner is destroyed, reused or fails. If any single memory allocation fails during such a call, the call returns the exception status without leaking or crashing, and the document remains usable and destructible.",
  ["fault_sequences","histories"],"every operation and every allocation in it that may fail",
  "No test counts allocations or makes one fail.",
  [J,H,T+"TSArray.h",T+"TSString.cpp",T+"TSMap.cpp"],[("exception barrier",H+": MayThrow"),("ownership",H+": OwningPointer, PurgeAccountedMapElements; "+J+": destructors")],
  observe=["counting operator new/delete"])
p("C14","The map keeps its elements sorted, unique, balanced and owned",
  "Over every history of inserting, finding, replacing, removing, detaching and deleting elements, a map holds exactly the elements inserted and not removed, in ascending key order in both directions and by index, with at most one element per key where unique insertion is used. Its tree stays height balanced (subtree heights differ by at most one at every node), every element knows the map it is in, finding returns the element of that key, and purging or destroying the map destroys each element it holds exactly once.",
  ["histories"],"every sequence of map operations",
  "Maps are tested only through a few object members inserted in one order; rebalancing after removals is never reached.",
  [T+"TSMap.cpp",T+"TSMap.h"],[("AVL rotations",T+"TSMap.cpp: InsertLeftSubnode, InsertRightSubnode, RemoveBranchNode, RemoveMapElement, ReplaceMapElement")],
  state=[("balance","height difference kept per node",T+"TSMap.h")],observe=["iteration, operator[], GetLeft/RightSubnode, GetOwningMap, destructors"])
p("C15","Arrays behave as sequences and destroy every element exactly once",
  "Over every history of appending, inserting, removing, resizing, reserving, copying, moving, clearing, purging and searching, an array holds the sequence that the operations define, whatever its capacity and with or without built-in storage. Every element object constructed is destroyed exactly once, and what a removed, cleared or replaced element owned is released; elements taken away at the end go in reverse order. Elements stay where they are while the storage reserved or used before suffices, which is kept until the array is purged.",
  ["histories"],"every sequence of array operations, element type and built-in capacity",
  "Arrays are only appended to in the tests.",
  [T+"TSArray.h"],[("growth",T+"TSArray.h: SetArrayCapacity, ReserveArrayElementCount"),("insertion and removal",T+"TSArray.h: InsertArrayElement, RemoveArrayElement(s)")],observe=["elements, counts and element lifetimes"])
p("C16","Strings behave as byte sequences, and fixed ones truncate within their size",
  "Over every history of constructing, assigning, appending, concatenating, resizing, cutting, copying, moving, purging and comparing, a dynamic string holds exactly the bytes that the operations define, always NUL terminated and independent of the strings it was made from. A fixed-size string never writes outside its storage, and holds as much of the result as fits.",
  ["histories"],"every sequence of string operations, lengths and sizes",
  "Only short assignments and concatenations are exercised.",
  [T+"TSString.cpp",T+"TSString.h"],[("storage",T+"TSString.cpp: Resize, SetStringLength"),("fixed strings",T+"TSString.h: String<maxLen>")],observe=["contents, length, sanitizer"])
p("C17","UTF-8 and UTF-16 conversions are exact inverses on valid text",
  "Encoding any Unicode character to UTF-8 or from UTF-16 and decoding it gives the same character with the right number of bytes or units, whole texts convert between UTF-8 and UTF-16 without loss, and the counts of characters, bytes and units agree with the text. Validation accepts exactly the well-formed UTF-8 sequences (surrogates tolerated), and a conversion that is given a limited amount of space stops at a whole character and writes nothing beyond it.",
  ["inputs"],"every Unicode text and every output limit",
  "The tests contain ASCII text only.",
  [T+"TSText.cpp",T+"TSText.h"],[("codec",T+"TSText.cpp: ReadUnicodeChar, WriteUnicodeChar, ValidateUnicodeChar, ConvertWideTextToString, ConvertStringToWideText")],observe=["returned codes, counts and buffers"])
p("C18","Text comparison and search follow one consistent definition",
  "Equality, less-than and less-or-equal comparisons of texts (plain, length-limited, case-insensitive, number-aware) and the comparison operators of strings and keys agree with each other, are consistent and transitive, and order texts as their definitions say. Searching for a character, a text, a quoted or a case-insensitive text returns the first position at which it occurs, or says that there is none, for all inputs; hash values calculated at compile time and at run time are the same.",
  ["inputs"],"every pair and triple of texts",
  "No test compares or searches texts.",
  [T+"TSText.cpp",T+"TSString.cpp"],[("comparisons",T+"TSText.cpp: CompareText..., CompareNumberedText..."),("search",T+"TSText.cpp: FindChar, FindText, FindTextCaseless ...")],observe=["results of the functions"])
p("C19","Integers convert to text and back without loss",
  "Every 32-bit and 64-bit integer, signed or unsigned, converts to the decimal or hexadecimal digits of its value, and reading those digits gives the integer back; with limited space nothing is written outside it. Reading stops at the first byte that is not part of the number and reports how many bytes were used.",
  ["inputs"],"every integer and every output limit",
  "No test converts integers.",
  [T+"TSText.cpp",T+"TSString.cpp"],[("conversions",T+"TSText.cpp: IntegerToString, Integer64ToString, ReadInteger, ReadFloat, ReadString, ReadType; Code/Terathon/TSString.cpp: IntegerToHexString8, TypeToString ...")],observe=["buffers and returned lengths"])
p("C20","Distinct documents can be used from different threads",
  "Threads that parse, validate, deserialise, serialise and write with documents of their own get the results they would get alone, under every schedule, without data races. Documents that no thread modifies can be read - validated, deserialised, looked up - by several threads at the same time.",
  ["schedules"],"every interleaving of threads working on distinct documents or reading a shared one",
  "The tests are single threaded.",
  [J,H],[("no shared mutable state",J)],observe=["results per thread and the thread sanitizer"])
p("C21","Every build configuration behaves the same",
  "With standard-library support on or off, with or without C++ exceptions, at any optimisation level and with either compiler, the library compiles and parsing, writing, validating, serialising and deserialising give the same results for the same inputs.",
  ["configurations","inputs"],"every supported build configuration",
  "The tests are run in one configuration.",
  [H,J],[("configuration switches",H+": JSON4C4_DISABLE_STD_SUPPORT, MayThrow")],observe=["outputs of differently built libraries"])
p("C22","Floats are displayed as numbers that are near enough to them",
  "The display conversion writes every normal float as a decimal number: from 0.0001 to 100000 in plain notation within 0.000011 of it (within 0.00000025 if seven decimals are shown or its decimals contain few zeros and nines), otherwise with a power of ten within 17 parts in a million; zeros and subnormals as 0.0, infinities and NaNs as INF and NAN, each but the zeros with its sign. Strings built from or assigned a float hold that text. With limited space nothing is written outside it, the text is terminated and its length returned; it is the beginning of the number in plain notation, 0 for a zero, nothing or the whole word for infinities and NaNs.",
  ["inputs"],"every 32-bit float and every output limit",
  "No test displays a float.",
  [T+"TSText.cpp",T+"TSString.h"],[("conversion",T+"TSText.cpp: FloatToString"),("strings",T+"TSString.h: String(float), operator =(float)")],observe=["texts and returned lengths"])
p("C23","The build without system libraries behaves like the standard one",
  "Built for the game engine without the system's number conversions, the library parses and writes the same values.",
  ["configurations"],"the engine configuration","The configuration is not built by the tests.",[J],[("own conversions",J+": ReadDoubleLiteral without JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS")])
p("C24","The arithmetic helpers compute exactly what they say",
  "Integer helpers (absolute value, sign, minimum and maximum, clamping to zero, modular increment and decrement, exchange, leading zeros, logarithms and powers of two) give the exact result for every argument whose result is representable. Rounding (floor, ceiling, fraction), sign, minimum, maximum and clamping of floats are exact. Vector operations act lane by lane - or as dot, cross and projection products, transformations, shuffles, packing and unpacking - exactly wherever the results are representable, and stores write only the lanes they name, with vector instructions, with wide ones and without any. Square roots and inverse square roots are right to one part in 131072.",
  ["inputs","configurations"],"every argument in the domain of a helper",
  "No test uses the helpers.",
  [T+"TSBasic.h",T+"TSMath.h",T+"TSSimd.h",T+"TSMath.cpp"],[("integers",T+"TSBasic.h"),("rounding",T+"TSMath.h; Code/Terathon/TSSimd.h: VecFloor, VecCeil, VecFloorCeil"),("lanes",T+"TSSimd.h")],observe=["results"])
p("C25","The elementary functions of floats are accurate",
  "Sine and cosine (also calculated together) are within three ten-millionths plus 1.3 ten-millionths of the argument, the tangent correspondingly, inverse tangents within half a millionth (of two arguments: 0.7 millionths, in the right quadrant), inverse sines and cosines within five millionths; the exponential function is right to 0.6 parts in a million and infinite or zero beyond the range of floats, the logarithm within three ten-millionths plus 1.5 parts in ten million of itself, minus infinity for zero and NaN for negative numbers; powers with whole exponents are right to one part in a hundred thousand; the constants are right to three parts in twenty million, with and without vector instructions.",
  ["inputs","configurations"],"every finite argument in the stated domain (angles up to 1000), every constant",
  "No test uses the functions.",
  [T+"TSMath.cpp",T+"TSMath.h"],[("tables and series",T+"TSMath.cpp: Sin, Cos, Tan, CosSin, Arcsin, Arccos, Arctan, Exp, Log")],observe=["results"])
p("C26","Copying, filling and measuring touch exactly the bytes they name",
  "Copying a part of memory to another, filling it with a byte and clearing it give exactly the bytes asked for, for every size and place, and leave all others as they are. Copying a text copies its bytes and the terminator and returns its length; with a limit it copies at most so many bytes, looks at no more of the source, and always terminates the result, which for a limit of zero or less is empty. Looking at the bits of a number as another type, at its hexadecimal digits or at distances of addresses gives what the memory holds.",
  ["histories","inputs"],"every memory, place, size and limit of parts that do not overlap",
  "No test calls these functions.",
  [T+"TSText.cpp",T+"TSPlatform.h"],[("texts",T+"TSText.cpp: CopyText, GetTextLength, hexDigit"),("memory",T+"TSPlatform.h: CopyMemory, FillMemory, ClearMemory, asfloat, asint, asuint, GetPointerAddress")],observe=["returned lengths and the whole memory"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
