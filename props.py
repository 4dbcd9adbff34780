LIB = 'unmodified sources of /repo/src compiled with AddressSanitizer: '
T = dict(bin='sim_txn')
TTL_REAL = [LIB + 'emv_ttl.c']
KERNEL_REAL = [LIB + 'emv.c, emv_tal.c, emv_ttl.c, emv_app.c, emv_tlv.c, emv_dol.c, emv_fields.c, iso8825_ber.c, iso8859_boost.cpp, emv_debug.c']
STUB = ['card (scripted EMV card model)', 'reader link (block or character mode, segmentation and faults decided by the seed)', 'memory allocator (ledger, fill patterns, failures)', 'clock']
SCENE = ('Each run draws a terminal configuration, a card (directory, applications, file control information, processing options, records; well-formed or damaged) and a reader link '
         '(whole-command or procedure-byte mode, response splitting, wrong-length retries, warnings, faults at chosen steps) from the seed, executes the transaction through the public functions and compares every step with an independent reference model.')
TTLR = ('Each run draws a link mode, a sequence of 1 to 10 commands of all four cases (raw and through the SELECT, READ RECORD, GET PROCESSING OPTIONS wrappers) with random data, buffer sizes and card answers, '
        'and lets the simulated card and reader split the exchange in every legal way; every transmission and result is compared with a reference model of the protocol and end to end with what the card saw and produced.')
A = ['the card and reader models cover the ISO 7816-4/EMV exchange as described in DESIGN.md', 'sampling: a clean batch is evidence, not proof']
P = dict(bin='sim_pcsc')
SVC = ['PC/SC service (readers, cards, event queue, simulated time, handle ledger, errors at any call)', 'memory allocator (ledger, fill patterns, failures)', 'clocks']
A2 = ['the simulated service follows the PC/SC calls as pcsc-lite implements them', 'sampling: a clean batch is evidence, not proof']
W = dict(bin='sim_tool')
WHOLE = 'unmodified sources of /repo/tools and /repo/src compiled with AddressSanitizer: emv-tool.c with main renamed, print_helpers.c, pcsc.c and the whole library'
WSTUB = SVC + ['card (scripted EMV card model)', 'standard input, output and error', 'exit and usage errors', 'iso-codes and MCC tables (not loaded)']
PROPS = {
 'P01': dict(T, quick=500000, rule=TTLR, real=TTL_REAL, stub=STUB, assumptions=A),
 'P02': dict(T, quick=500000, rule=TTLR, real=TTL_REAL, stub=STUB, assumptions=A),
 'P03': dict(T, quick=300000, rule=TTLR + ' Reader faults (errors, empty, truncated, corrupted, extended, oversized, repeated answers, stray procedure bytes) are injected at chosen steps; part of the runs are whole transactions.', real=KERNEL_REAL, stub=STUB, assumptions=A + ['the reader never writes beyond the buffer it is given']),
 'P04': dict(T, quick=120000, rule='Each run plays a card or reader that never ends the exchange of its own accord (endless records, occurrences, status bytes, procedure bytes, mixtures) against every operation; an operation must return within a fixed number of reader calls and a CPU-time bound.', real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P05': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P06': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P07': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P08': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P09': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P10': dict(T, quick=300000, rule=SCENE, real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P11': dict(T, quick=120000, rule='Each run lives through 1 to 4 earlier sessions (complete, abandoned, in odd order, with reader faults, on one or two contexts), then runs a transaction and compares all observations and exchanges with the same transaction on a new context with different memory contents; at the end the allocation ledger must be empty.', real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P12': dict(T, quick=120000, rule='Each run measures the allocations of a transaction, then repeats it with one allocation, or all from one on, failing (during configuration, parameters or any operation); afterwards it clears the context or repeats the transaction without failures.', real=KERNEL_REAL, stub=STUB, nontrivial='at least one allocation was refused', assumptions=A + ['allocations inside the C++ standard library and boost are not failed']),
 'P13': dict(T, quick=120000, rule='Each run executes the same transaction three times: debugging off, full, and with drawn sources, level and output function, with three different clock behaviours (normal, jumping, wrapping, negative, failing), and compares results, exchanges and the filtered event streams.', real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P14': dict(P, quick=900000, rule='Each run draws one to three answers-to-reset (as EMV cards have them with T=0 or T=1, or of any structure; all historical byte formats), lets the power-up truncate, corrupt, extend or shorten them (including every truncation of one), delivers part of them through a simulated reader, and compares acceptance and every decoded parameter with a reference decoder.', real=[LIB + 'iso7816.c, iso7816_compact_tlv.c, emv.c, pcsc.c'], stub=SVC, assumptions=A2 + ['acceptance of an answer followed by further bytes is not judged']),
 'P15': dict(P, quick=2000000, rule='Each run draws one to four readers, a queue of timed events (insertions, removals, unplugged readers, unrelated changes, cards taken by others, clock jumps, service errors), call latencies and failures, and up to four waits with drawn timeouts (including zero and unlimited); result, reader and simulated time are compared with the recorded presence of cards.', real=[LIB + 'pcsc.c'], stub=SVC, assumptions=A2),
 'P16': dict(P, quick=2000000, rule='Each run is a sequence of 3 to 14 operations (initialise, connect, disconnect, exchange, read ATR, release) with card swaps, unplugged readers, cards taken by others in between, service errors at any or one call and failing allocations; the service ledger checks every handle, and results are compared with the cards really present.', real=[LIB + 'pcsc.c'], stub=SVC, assumptions=A2 + ['a connection whose closing failed is not judged until the context is released']),
 'P17': dict(P, quick=800000, rule='Each run draws one to four readers with feature and property answers (well-formed, damaged, refused, failing with a length, oversized), service errors at one call of the initialisation, and compares every feature and property with the answers really delivered; afterwards every reader must still be usable.', real=[LIB + 'pcsc.c'], stub=SVC, assumptions=A2),
 'P18': dict(W, quick=300000, rule='Each run starts the whole program with drawn options against the simulated service: one to three readers, cards (well-formed or damaged, any ATR, any known data elements), insertion and removal at any time, failing calls and exchanges, failing allocations, and cardholder input of any kind in any pieces, ending or failing anywhere. The recorded exchange is replayed through the library and the reference model to obtain the outcomes, menus and data the program must have printed.', real=[WHOLE], stub=WSTUB, assumptions=A2),
 'P19': dict(W, quick=500000, rule='Each run starts the whole program with drawn transaction type and amounts (valid, edge and invalid), time zone and clock (calendar edges, jumps, seconds passing between reads) against a card whose processing options ask for drawn data; every processing-options command the card receives is compared with an independent encoding of the request at a second within the start of the transaction.', real=[WHOLE], stub=WSTUB, assumptions=A2),
 'P20': dict(bin='sim_decode', quick=200000, rule='Each run draws a decoding mode and data (random, structured TLV with known tags, data object lists, cut or damaged), decodes it once given as argument and once arriving on standard input in drawn pieces over differently filled memory, and compares output, exit code and consumption; malformed arguments, failing reads and failing allocations must be refused; TLV, BER, DOL, tag list and ISO 8859 text output, and what elements and status words mean, is compared with a reference decoder.', real=['unmodified sources of /repo/tools and /repo/src compiled with AddressSanitizer: emv-decode.c with main renamed, print_helpers.c and the whole library'], stub=['standard input, output and error', 'exit and usage errors', 'memory allocator (ledger, fill patterns, failures)', 'iso-codes and MCC tables (not loaded)'], assumptions=['nesting of generated structures is drawn up to 65536 levels', 'sampling: a clean batch is evidence, not proof']),
 'P21': dict(bin='sim_codes', quick=40000, rule='Each run is a history of 1 to 4 loads (all tables, the ISO tables, the merchant categories; default, given or empty paths) of drawn files from a simulated disk: complete, with structural mistakes, damaged, truncated at any byte, missing, unreadable, with read errors or short reads, and with failing allocations; result and every lookup (directly and through the description of data fields) are compared with an independent strict JSON reader.', real=['unmodified sources of /repo/src compiled with AddressSanitizer: isocodes_lookup.cpp, mcc_lookup.cpp, emv_strings.c; the installed json-c'], stub=['disk (files, open and read errors, short reads)', 'C++ allocator (failures)', 'standard error'], assumptions=['allocations inside json-c are not failed', 'content on which JSON readers differ (raw control characters, duplicate members) is not judged', 'sampling: a clean batch is evidence, not proof']),
 'P22': dict(T, quick=40000, rule='Each run sets up two or three transactions, each with its own context, reader and card, runs each alone and then all together on cooperative tasks that a seeded scheduler switches at reader calls, memory requests and debug events (several policies), with reader faults or refused allocations in one of them; exchanges, results, data and debug events of each must equal those of the transaction alone, and the allocation ledger must be empty at the end.', real=KERNEL_REAL, stub=STUB + ['threads (cooperative tasks under a seeded scheduler)'], assumptions=A + ['switches happen at reader calls, memory requests and debug events, not between arbitrary instructions']),
 'P23': dict(T, quick=150000, rule='Each run is a history of operations on two data lists and two application lists (push, pop, find, append, parse of well-formed or damaged data, creation of applications, sort, remove, clear), with allocations failing at drawn points; after every operation contents, results and ends of the lists are compared with reference sequences, and the allocation ledger must be empty at the end.', real=KERNEL_REAL, stub=STUB, assumptions=A),
 'P24': dict(W, quick=150000, rule='Each run starts the whole program against one to three readers with drawn names, feature and property answers (well-formed, damaged, refused), card states and movements, service errors, latencies and failing allocations; the printed list of readers, the announcement of the card and the terminal data shown are compared with an independent rendering of what the service delivered and held at that time.', real=[WHOLE], stub=WSTUB, assumptions=A2 + ['properties of a reader whose property list is malformed are not judged']),
 'P25': dict(T, quick=150000, rule='Each run plays a transaction against a drawn card and, before, between and after its steps, computes the length of, steps through and builds the data for lists that the card gave and for drawn ones (well-formed, damaged, with large lengths), from the data lists of the transaction in drawn order, into buffers of exactly, more or less than the size needed; everything is compared with the reference model.', real=KERNEL_REAL, stub=STUB, assumptions=A + ['how elements of the card itself are fitted to a different length is not judged']),
 'P26': dict(bin='sim_decode', quick=400000, rule='Each run draws an answer to reset (as EMV cards have it with T=0 or T=1, or of any structure; all historical byte formats), in a third of the runs as a faulty power-up delivers it (cut, corrupted, extended), describes single bytes and lists into buffers of drawn size, and runs the whole decoder on it, as argument and from standard input in drawn pieces with failing reads and refused memory; every line is compared with a reference description.', real=['unmodified sources of /repo/tools and /repo/src compiled with AddressSanitizer: emv-decode.c with main renamed, print_helpers.c and the whole library'], stub=['standard input, output and error', 'exit and usage errors', 'memory allocator (ledger, fill patterns, failures)'], assumptions=['a second interface byte of the same kind for the same protocol, and bytes after the answer, are not judged', 'wording of the status words is not judged']),
 'P27': dict(T, quick=150000, rule='Each run plays a transaction against a drawn card and, before, between and after its steps, describes elements of the transaction and drawn ones (known tags with digits, text, bits or arbitrary content of any length, commands) into ample and into short buffers of drawn content; the text must be the same each time, that of the reference for plain formats, in short buffers a part of it, and the transaction unchanged.', real=KERNEL_REAL, stub=STUB, assumptions=A + ['names from code tables are not judged']),
 'P28': dict(W, quick=250000, rule='Half of the runs start the whole program with debug output at a drawn level, of drawn sources and in either style, on drawn cards, readers, link faults, memory shortages and cardholder input; the others play transactions and single commands over block and character-level links with faults, print reports of every kind, and describe commands and status words in buffers of any size. Every report is compared with its reference rendering, and the reported commands, transmissions and responses with what the simulated card received and answered at that time.', real=[WHOLE], stub=WSTUB, assumptions=A2 + ['wording of element names in the trees is not judged']),
}
