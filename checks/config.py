def parts(name, n):
	return [(name, ['-DPART=%d' % i]) for i in range(n)]

CHECKS = {
 'C01': dict(sources=parts('c01.cpp', 3), bounds='every combination of domain values (integer limits, powers of 2 and 10, all binary exponents, all 1 and 2 byte strings, special strings, '
	'containers of 0 to 3 elements) for 170 type shapes up to 4 levels deep, each read into a fresh object and into differently filled ones, written into a string, '
	'an expanding buffer and a streaming buffer'),
 'C02': dict(sources=parts('c02.cpp', 3), bounds='every combination of domain values for 170 type shapes as in C01; all documents of up to 5 (thorough 6) values assembled through the writer interface '
	'with sizes known or unknown and first members omitted, and of up to 2 (3) members assembled through the fillers; every Unicode character in strings, all pairs of ASCII characters in strings and keys; '
	'every binary exponent of doubles and powers of 2 and 10 as integers',
	binding='the text produced by the real writer is parsed by a strict RFC 8259 parser of the harness and the structure is compared with what was to be written'),
 'C03': dict(sources=parts('c03.cpp', 3), bounds='valid documents for 75 type shapes with every value of the domains, laid out canonically in 2 to 16 whole-document styles and with up to 1 or 2 (thorough one more) local deviations: whitespace at any place, '
	'order of members, form of escapes in strings and names, form of numbers, unknown members with any of 22 values or 8 names at any place, absent members of objects, text behind the document; all \\u escapes',
	binding='the reader of the code under test reads each generated document and the target is compared with the structure it was generated from'),
 'C04': dict(sources=['c04.cpp'], bounds='14 target types and skipping; every prefix of 27 documents; every byte inserted or replaced at every place; every pair of changes (special character inserted or replaced, characters erased or repeated, rest cut or doubled), '
	'in documents of over 24 characters only changes followed by cutting at every place unless thorough; all sequences of up to 4 (5) of 21 tokens; all sequences of 1 or 2 bytes; up to 60000 repetitions of 21 openings',
	binding='every input is an exactly sized heap block read by the real reader under AddressSanitizer; the oracle is the set of documented exceptions, a position within the input and an error for cut documents'),
 'C05': dict(sources=parts('c05.cpp', 4), bounds='every combination of domain values for 170 type shapes up to 4 levels deep, with size prefixes of 8, 16 and 32 bits, read fresh, repeated, followed by other data and into filled objects; '
	'sizes around 2^7, 2^8, 2^15, 2^16 with 8, 16, 32 bit prefixes, texts of sizes around 2^31 and 2^32; all 8 and 16 bit integers, all 16 bit floats, every binary exponent of float and double; an object of 13 members with declared numeric types; all numeric types used directly',
	binding='the bytes written by the real writer are compared with those of an independent encoder in the harness and read back by the real reader'),
 'C06': dict(sources=['c06.cpp'], bounds='20 target types with size prefixes of 8, 16 and 32 bits: every cut, every byte inserted or replaced at every place, pairs of changes with special bytes, all sequences of up to 5 (thorough 6) bytes from an alphabet of 7, '
	'all sequences of 2 bytes, sizes around 2^31 and 2^32; a server with 3 objects and 15 methods: streams of 1 to 3 of 17 messages cut at every place or byte by byte, every byte of a message replaced, every size claimed, responses around the limits of sizes and of buffers',
	binding='each input is decoded by an independent decoder in the harness that tells if it is complete, its value, the calls it contains and the bytes of the responses; the real decoder and server must agree with it on all of these'),
 'C07': dict(sources=['c07.cpp'], bounds='6 methods with arguments of all integer widths, floats, booleans and strings called through the HTTP client and a form, and the same data in a query: every Unicode character, all sequences of up to 4 (thorough 5) of 23 special pieces, all combinations of domain values, every binary exponent; '
	'received data: all strings of up to 3 of 20 characters in every form (plain, plus, percent escape, numeric entity, either case), all orders and absences of 4 fields with 18 unknown fields anywhere, unknown fields made of up to 4 (5) of 12 pieces',
	binding='the real client encodes and the real servers decode; the methods note their arguments, which are compared with the values passed or with those given by an independent decoder'),
 'C08': dict(sources=parts('c08.cpp', 7), flags=['-O0'], thorough_flags=['-DALL'], bounds='about 650 (thorough 1600) classes: all ordered pairs of 9 (14) types of members in three places and all triples of 6 types, without anything in between, with members in between that are not reflected (uninitialised, initialised with special bytes, complex), with default values, '
	'all rotations of 13 types in a class of 13 members with empty, long and similar names, nested and derived classes; 4 values of each member',
	binding='each object is written as JSON and binary by the real code and compared with its members accessed directly; it is read from independently made documents, whole, reversed and with single members, into fresh and filled objects'),
 'C10': dict(sources=['c10.cpp'], bounds='13 requests differing in method, version, headers, size, body and closing: one in up to 3 chunks cut at every place, two in up to 2 (thorough 3) chunks, three (4) whole or byte by byte, every incomplete one; '
	'8 methods with all combinations of 10 paths, 6 bodies and presence of headers with up to 1 (2) deviations in version, capitalisation, whitespace, order and presence of other headers, whole, byte by byte and cut anywhere; '
	'bodies of 0 to 200000 bytes; sequences of 3 of 10 requests to real responders of methods, forms and JSON-RPC cut at every place',
	binding='a reference model in the harness tells the sequence of responses, the calls of responders and the bytes left unread; the real session must agree with it on all executions'),
 'C11': dict(hang_s=60, sources=['c11.cpp'], bounds='responses of about 110 (thorough 1500) sizes around those of buffers, of known and unknown size, failing in the middle or at the end, of wrong size; sizes around all powers of 10 up to 100 MB (1 GB); all sequences of up to 3 of 26 requests with different results; 5 other sizes of buffers; '
	'all pairs of 26 calls of methods through queries, forms and JSON-RPC with texts of 13 sizes; files of 20 sizes from both file servers; responses of up to 2^32 + 5 bytes of known size',
	binding='a strict parser of HTTP responses in the harness splits the bytes sent by the real session and the responses are compared with those given by a reference model'),
 'C12': dict(sources=['c12.cpp'], bounds='6 requests between two others: every byte replaced by or preceded by every byte, pairs of changes (22 replacements) anywhere; all sequences of up to 5 (thorough 6) of 19 tokens after 3 beginnings; all inputs of 1 or 2 bytes; 60 values of Content-Length with 3 methods; '
	'12 paths with 32 parameters or bodies in servers of methods, forms and JSON-RPC; every byte of bodies replaced; up to 120000 bytes of headers without an end; each whole, in halves and byte by byte',
	binding='every input is an exactly sized heap block given to the real session under AddressSanitizer; the bytes consumed, the well-formedness of responses, the calls made and independence of chunks are checked on every execution'),
 'C13': dict(sources=['c13.cpp'], bounds='all pairs of messages of 28 sizes (1 to 20000, around 1, 2 and 3 times the sizes 1024, 2048 and 3072) received in chunks of one of 11 kinds (all the space, one byte, up to the end of message and around, half...) with up to 1 (thorough 2) deviations; '
	'12 sequences of messages with all sequences of 4 (5) kinds of chunks and then of 1 (2) of 6 kinds; a second message of 8 sizes at each of 3072 offsets; messages cut at each of 4100 places; long streams; disconnecting by the handler, error or end of stream at each round',
	binding='the real buffer is driven like the network layer drives it; the handler in the harness knows the stream and checks every byte passed to it, in memory checked by AddressSanitizer'),
 'C14': dict(sources=['c14.cpp'], bounds='all sequences of 6 (thorough 7) events at 3 clients (connect, whole or partial or several messages, close, reset, message that is refused or makes the handler throw, failed accept) with up to 1 (2) places where the server does not get to run; '
	'2 to 5 clients dropped in all orders in 7 ways with new ones connecting; every call of send giving any of 9 results with up to 2 (3) of them other than complete; every sequence of up to 4 results of accept; parts and errors of receiving; run() and runARound(); three clients of JSON-RPC and binary servers with all triples of 12 or 7 streams in 1 to 4 parts',
	binding='the real server runs on a network simulated by replacing the calls of libc; the harness knows what each client should get and checks it, the open sockets and the living sessions after every event'),
 'C15': dict(sources=['c15.cpp'], bounds='clients of JSON-RPC, plain HTTP and the binary protocol with 3 sizes of prefixes: 4 triples of calls fetched in all 6 orders with the responses cut at any place, byte by byte or at any 2 places (thorough 3); '
	'all sequences of calling, delivering parts, polling and fetching up to a depth; every method with domain values in small pieces; interrupted and partial operations of the network; responses of 64 sizes around those of buffers; all permutations of 4 binary responses; waiting calls among pending ones; answers computed by the real servers; direct HTTP requests',
	binding='the real client runs on a network simulated by replacing the calls of libc; the harness reads the requests the client really sent, composes the answers independently and compares what each future gives with the answer to that very request'),
 'C16': dict(sources=['c16.cpp'], bounds='about 20 to 150 wrong answers (errors, statuses, other identifiers, types and values, missing results, text that is not JSON, responses cut at every place) to 11 calls at each of 3 places among correct ones, fetched in 3 orders, delivered in 5 ways, followed by further calls; '
	'the connection ending or failing after every byte of 3 responses with all orders of fetching; the same with a server that accepts the client again, followed by 1 to 3 more calls (around the boundaries of responses, everywhere in thorough); each call of send or connect failing in each way; failures in the real servers',
	binding='the real client runs on a network simulated by replacing the calls of libc; the harness knows which calls got a complete right answer and which did not'),
 'C26': dict(sources=['c26.cpp'], bounds='all sequences of up to 6 (thorough 7) operations (call, move, move assign, poll, fetch, destroy, answer arrives rightly or wrongly) on 2 futures of numbers, text, lists and nothing and up to 4 (5) on 3 futures; futures of local calls; '
	'all sequences of up to 4 (5) operations on futures of the real clients with answers arriving whole, in parts or when waited for; destroying futures after the connection was lost',
	binding='a model of who holds which call and what has arrived tells the outcome of every operation; the real futures and clients must agree with it on every step'),
 'C17': dict(sources=['c17.cpp'], bounds='13 methods at 2 places with all domain values; 30 identifiers with 5 methods in all 24 orders of members and 3 layouts; 7 kinds of methods (with 17 unknown and 6 of wrong types), 10 kinds of parameters, 5 identifiers, 6 versions in all orders of members; '
	'all batches of up to 3 (thorough 4) of 19 elements and batches of up to 180; 6 requests cut at every place and with every byte replaced, removed or preceded by 18 others; 19 elements followed by 11 unreadable ones',
	binding='a model of JSON-RPC 2.0 tells the calls and responses; the responses of the real server are read with an independent strict reader of JSON and the calls noted by the methods are compared'),
 'C18': dict(sources=parts('c18.cpp', 8), bounds='methods taking and returning each of 50 types with all domain values: alone, without result, only returned, in the middle of others, twice, as a constant reference after the parent; 10 methods of 0 to 7 arguments with 3 sets of values; '
	'all subsets of named arguments in all orders (up to 5 (thorough 7) permuted) with unknown ones; all triples of calls of the 10 methods in turns; each called locally, through futures, JSON-RPC and binary clients with 3 sizes of prefixes and raw requests of JSON, queries and forms, on objects at depths 0, 1 and 2 among decoys; arguments and results of up to 16 MiB around every power of 10 and some others',
	binding='the real clients are connected to real sessions of servers; the methods note their arguments and parents, which are compared with the values passed, as the results are with those the methods return'),
 'C19': dict(sources=['c19.cpp'], bounds='all trees of up to 4 (thorough 5) methods and objects up to 3 levels deep with names of 4 similar ones, assembled in 3 ways (owned, referred from below, referred from above): every string of up to 4 characters used in the names and separators as a path, all sequences of indexes; '
	'15 bigger trees (13 methods, 8 levels, 200 siblings, unusual characters): each change of a character (18 replacements) or a name in each path, joined paths; the paths constructed by clients of all protocols; objects of 255 to 700 methods',
	binding='each path is sent to real servers of JSON-RPC, queries, forms and the binary protocol; each method notes its identifier and the set of paths is known from the description the tree was built from'),
 'C20': dict(sources=['c20.cpp'], bounds='all sequences of up to 4 (thorough 5) operations from nothing and up to 3 (4) from 7 assembled states on 2 holders, 2 dynamic objects, 2 typed holders and 2 static objects (creating 7 kinds of content, moving, assigning, self-assigning, adding, referring, wrapping, attaching a client, copying, destroying), destroyed in 2 orders; '
	'all rotations of 8 kinds of content added 20 (70) times with nesting; all sequences of 3 (4) copies, assignments, swaps and growths of vectors of 4 kinds of static objects with other objects inside, with copying failing at any of 5 places',
	binding='a model knows what is held where; after each sequence every method is called through a real server of JSON-RPC and by clients and must run once with its state and parent; lives of captured objects are counted under AddressSanitizer'),
 'C21': dict(sources=parts('c21.cpp', 6), bounds='methods with each of 158 types in 4 places at 3 depths; triples of types referring to the same ones, every two of them in 4 by 4 (quick: 4) places, nested or not; all trees of up to 4 (thorough 5) methods and objects of 6 kinds; static objects of up to 13 methods and 7 parameters, single methods, '
	'8 by 8 names and addresses with special characters; recursive and mutually recursive types, types with similar names; describing in the middle of adding methods and calling them',
	binding='the description given by the real code is read with an independent strict reader of JSON and compared with one derived from the types by the harness, up to the choice of names of types, which must be one to one'),
 'C22': dict(sources=['c22.cpp'], bounds='all sequences of up to 5 (thorough 6) of 16 parts (separators, dots, names inside and outside, encoded ones, null, the absolute path of the folder...); up to 4 (5) after a slash for 7 spellings of the folder; '
	'all strings of up to 8 (9) of 5 characters; all strings of up to 2 bytes; every byte inserted or replacing another in the names of files; paths of up to 360000 bytes; up to 4 parts through HTTP; both servers each time',
	binding='the real servers run in a scratch folder among similar files with different contents; every file they open is watched by replacing the calls of libc and the answers are compared with the set of files put there'),
 'C23': dict(hang_s=60, sources=['c23.cpp'], bounds='files of every size up to 9000 (thorough 70000) and around powers of two up to 1 MiB (16 MiB), with all contents of 1 or 2 bytes and up to 5 (7) of 9 unusual parts; 28 extensions in all capitalisations in 8 places, from disk or generated; '
	'all combinations of 9 (11) files in folders; generators of up to 4 (5) chunks of 11 sizes; all histories of up to 4 (5) of 11 changes (files put, erased, generated, reloads...); reading in pieces of 8 by 8 sizes; opening or one of 5 reads failing; files changing at each read; sparse files of up to 2^32 + 5 bytes',
	binding='files are put into a scratch folder and downloaded through the real HTTP session from both servers; the responses are read with a strict parser and compared with what was put there; failures and changes come at chosen calls of libc'),
 'C24': dict(sources=['c24.cpp', ('c24.cpp', ['-DPART=1', '-fno-sanitize=address', '-fsanitize=thread'])], bounds='all pairs of 16 programs of threads (downloading one or two files, files changed or erased and reloaded, generated files added, resetting...) of which at least one changes something, in all orders of locking and sending '
	'with up to 2 (thorough 3) switches at other operations (files, unlocking, parts of content); the pairs with 1 (2) preemption anywhere including every allocation, also under ThreadSanitizer; all triples with up to 1 (2) preemption, also under ThreadSanitizer switched when waiting or finishing',
	binding='the real server is run by real threads, only one at a time, passed control at calls of libc (locks, files, allocations) replaced by the harness; the results must correspond to some order of operations respecting their times'),
 'C25': dict(
	sources=[('c25.cpp', ['-DPART=0']), ('c25.cpp', ['-DPART=1'])],
	bounds='26 argument types (numbers, texts, booleans, arrays, maps, classes nested to depth 3, recursive ones, members with odd names) x every value of an alphabet of right ones, of 24 general values and of every right value with '
		'any one part (to depth 3, thorough 4) replaced by a wrong one; all pairs of 8 types as arguments with up to 7 values each and an optional third one; 39 odd names (not identifiers, quotes, line ends, ends of comments, names of '
		'built-in properties) as methods, objects (all pairs, to depth 3) and arguments; 30 names of types; 3 (thorough 4) calls started and answered in every order with 6 kinds of answers; 10 combinations of address and environment; '
		'4 ways of failing to obtain the description',
	binding='bomba.js of the tree runs in Node.js with stand-ins only for the network; descriptions are made by the code of the tree from real objects and requests are processed by its real JSON-RPC server, whose answers are given back',
	trusts='Node.js as the environment (browsers differ only by presence of window and fetch here)',
	cost='about 3 minutes', quick_s=500, thorough_s=3000),
 'C27': dict(
	sources=['c27.cpp'],
	bounds='methods with arguments of 23 types in 4 combinations; all trees of up to 3 (thorough 4) methods and objects of depth up to 3 with names to be humanised; the GUI of the whole service, of every object and of single methods; '
		'another GUI filled in or not; two uses of any methods with both values of up to three fields',
	binding='bomba.js of the tree runs in Node.js with stand-ins for the network and the page; the check finds buttons and fields in the page, fills them in and presses them; requests are processed by the real JSON-RPC server',
	trusts='a stand-in for the document with elements, their attributes, texts and events (no layout)',
	cost='about 3 minutes', quick_s=500, thorough_s=3000),
 'C28': dict(sources=['c28.cpp', ('c28.cpp', ['-fno-sanitize=address', '-fsanitize=thread'])], bounds='all sequences of up to 3 (thorough 4) operations (connecting, sending a message, a part of one or one that ends the connection, closing, measuring, waiting until everything is answered) '
	'with 4 ways of running and stopping the server, in all orders with the worker switched up to 3 (4) times at any lock or call of the network; sequences of up to 2 (3) with 1 (2) switches also at allocations; all also under ThreadSanitizer with 2 (3) switches',
	binding='the real server is run by its real thread, only one at a time, passed control at calls of libc (locks, network, threads) replaced by the harness, over a network in memory; sessions check that they are used only while the server exists'),
 'C09': dict(hang_s=60, sources=['c09.cpp'], bounds='all sequences of up to 4 (buffers of 1, 2, 3, 8 bytes) or 3 (64, 1024 bytes) operations, one more in the thorough tier; '
	'operations: append a character, C string, span, string view of 0, 1, 2 and around 1x, 2x, 3x, 6x the static size; clear; flush; up to 2^32 + 100 bytes appended to fixed and streaming buffers in one or two parts'),
}
NOT_APPLICABLE = {}
