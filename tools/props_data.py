TR = ["src/lexer.rs", "src/parser.rs", "src/translator.rs", "src/types.rs", "src/format_c.rs"]

prop("P01", "Expressions mean what they say",
     "For every well-typed expression, the built program computes the value and side effects that the operators, their precedence and the grouping written in the source prescribe (C99 rules), however deeply operators, casts, calls, indexes, member accesses and parentheses are nested. Precedence and grouping are never lost or changed by the translation, and no valid expression is rejected.",
     ["programs", "inputs"], "every well-typed expression and every operand value",
     "The samples and library tests contain a few hundred fixed expressions; precedence and grouping bugs need a particular pair of operators nested on a particular side.",
     TR, [("operator precedence climbing", "src/parser.rs"), ("parenthesisation of operands", "src/format_c.rs"), ("operator strength table", "src/cspec.rs")],
     "differential runtime monitor: generated expressions are built by che, run, and every result compared with an independent evaluator",
     "seeded random expression trees plus every pair of adjacent operators, compared with an independent int32 evaluator and a fully parenthesised C reference",
     observe=["stdout of the built program"])

prop("P02", "Control flow follows the source",
     "For every well-formed program the statements of the built program execute in the order the source prescribes: if/else chains, while and for loops (with break, continue, early return), switch over integers and characters with several labels per case, switch over strings with a default, and nested or recursive calls visit exactly the prescribed statements. Conditions and switch subjects are evaluated exactly once per visit.",
     ["programs", "inputs"], "every nesting of control statements and every path through it",
     "Tests run a few fixed programs; a control-flow defect needs a specific nesting (continue inside a switch inside a for, else binding, a string switch in a loop).",
     TR, [("statement parsing", "src/parser.rs"), ("switch translation", "src/translator.rs"), ("statement rendering", "src/format_c.rs")],
     "trace monitor: programs instrumented to log every statement and condition; the trace is checked against an interpreter of the same program",
     "hundreds of random programs, full event trace compared with an independent interpreter",
     observe=["event trace printed by the built program"])

prop("P03", "Literals and layout are preserved",
     "Every integer, floating, character and string literal (with all escape sequences, adjacent string pieces and any printable or non-ASCII bytes) has in the running program exactly the value it has in the source. Comments, whitespace, line breaks and line endings between tokens never change what a program means.",
     ["programs", "inputs"], "every literal and every layout of a token sequence",
     "The lexer unit tests hold about a dozen tokens; escapes, pieces and comment placement combine freely.",
     ["src/lexer.rs", "src/buf.rs", "src/parser.rs", "src/format_c.rs"],
     [("tokenizer", "src/lexer.rs"), ("literal rendering", "src/format_c.rs")],
     "value monitor: programs dump the bytes of their literals, compared with an independent decoder; layouts are mutated and outputs compared",
     "thousands of random literals and layout mutations, byte-exact comparison",
     observe=["bytes printed by the built program"])

prop("P04", "Declarations, types and initialisers keep their meaning",
     "Structures, unions, enumerations, arrays, type aliases, function types, module variables and their positional, designated or indexed initialisers have in the built program the sizes, offsets, constants and initial values that C99 gives them, with everything not initialised being zero. Functions may be used before their definition, in any order, with any supported form of parameters; a name declared again in an inner scope, with any type, means the inner thing there and the outer one elsewhere; and a module of valid declarations is never rejected.",
     ["programs"], "every module made of valid declarations, in any order",
     "The tests contain a small fixed set of declarations, always in friendly order.",
     ["src/preparser.rs", "src/parser.rs", "src/translator.rs", "src/format_c.rs"],
     [("forward declarations and ordering of types", "src/translator.rs"), ("declaration rendering", "src/format_c.rs")],
     "differential layout monitor: programs print every size, offset, constant and initial value; compared with an independently written C rendering",
     "hundreds of random modules; every observation compared with a hand-rendered C reference built by gcc",
     observe=["sizes, offsets and values printed by the built program"])

prop("P05", "Modules are isolated, single and reachable by every import form",
     "For every graph of modules, a program can use exactly the public functions, types and constants of the modules it imports directly, whatever directories the files lie in and however the imports spell their paths; same-named private and public items of different modules never interfere. A module imported along several ways exists once, with one state, while use of private, transitive or missing names, missing files and import loops are refused with a diagnostic.",
     ["programs", "configurations"], "every acyclic and cyclic module graph, directory layout, import spelling, working directory and language home",
     "The samples hold three or four small import graphs; a leak or a duplicate needs a particular sharing, naming or directory relation.",
     ["src/build.rs", "src/resolve.rs", "src/preparser.rs", "src/parser.rs", "src/translator.rs"],
     [("project loading and loop detection", "src/build.rs"), ("import resolution", "src/resolve.rs"), ("name prefixing", "src/translator.rs")],
     "differential monitor: random multi-directory projects observed against a reference interpretation, plus planted isolation breaches that must be refused",
     "220 random projects and 17 kinds of breach in random projects per quick run",
     observe=["stdout of the built program", "exit status and diagnostics of che"])

prop("P06", "Ill-formed programs are refused with a diagnostic that names the place",
     "A program that breaks a rule of the language (undefined, unused or duplicate names, wrong argument counts, mismatched types, missing returns, misplaced statements, malformed syntax) is refused wherever in the program the mistake is: exit status 1, no executable, and a message naming the offending file and line.",
     ["programs"], "every rule the language enforces and every place it can be broken in",
     "The samples exercise a handful of mistakes at the top of tiny files; a check is lost when it is skipped for one statement kind or nesting.",
     ["src/parser.rs", "src/translator.rs", "src/types.rs", "src/node_queries.rs", "src/main_build.rs"],
     [("scope and usage checks", "src/translator.rs"), ("type checks", "src/types.rs"), ("error reporting", "src/main_build.rs")],
     "rejection monitor: about 190 kinds of mistakes planted one at a time in otherwise valid programs, in many statement contexts; the control without the mistake must build",
     "every kind of mistake in several nestings; the verdict, the artefacts and the reported position are observed",
     observe=["exit status, stderr and created files of che build"])

prop("P07", "The translator always finishes and never crashes",
     "For every input file, whatever bytes it holds, every command of the translator finishes in time and memory proportional to the input and ends with success or with an ordinary diagnostic, never with an internal panic, a stack overflow or a hang.",
     ["inputs"], "every sequence of bytes as a source file, including truncated and mutated real programs",
     "Unit tests feed a dozen well-formed snippets; crashes live in truncated and malformed inputs.",
     ["src/buf.rs", "src/lexer.rs", "src/preparser.rs", "src/parser.rs", "src/translator.rs", "src/types.rs"],
     [("lexer", "src/lexer.rs"), ("parser", "src/parser.rs"), ("translator", "src/translator.rs")],
     "fuzzing under a panic/timeout/memory monitor: truncations, token and byte mutations, splices and generated garbage through the real binary",
     "about 10 thousand inputs per quick run, each run observed for panics, signals, time and memory",
     observe=["exit status and stderr of che"])

prop("P08", "A failure at run time stops the program and says where and why",
     "When a panic statement is reached, in any position and nesting, the program stops there: it prints the source file, line and column of that statement and the formatted message (with its arguments evaluated exactly once), runs nothing after it and exits with status 1. A panic that is not reached has no effect, and the checked allocation form always yields usable zeroed memory or stops the program the same way.",
     ["programs", "inputs", "fault_sequences"], "every position of a panic, every message, every allocation size including failing ones",
     "The tests contain no panic that fires; positions and formats are only visible when it does.",
     ["src/translator.rs", "src/format_c.rs", "src/lexer.rs"],
     [("panic translation", "src/translator.rs"), ("calloc! helper", "src/translator.rs")],
     "fault-injection monitor: every panic of a generated program is fired in turn and its report compared with the position computed from the source; allocations are failed",
     "hundreds of fired panics per quick run, exact comparison of stdout, stderr and status",
     observe=["stdout, stderr and exit status of the built program"])

prop("P09", "All commands agree with the sources and with each other",
     "For every project, building, installing, running and generating C all yield the same program; repeating a build changes nothing, and the next build after an edit reflects the edit. The dependency tree and the export listing show exactly the imports and the public items with their signatures, run passes arguments, input and exit status through, misuse of any command exits with status 1 and a message, and no command modifies the sources.",
     ["programs", "histories", "configurations"], "every project and every sequence of commands on it, one at a time",
     "The tests run each command on a few fixed files and never compare them or repeat them.",
     ["src/main.rs", "src/main_build.rs", "src/main_run.rs", "src/main_genc.rs", "src/main_install.rs", "src/main_deptree.rs", "src/main_exports.rs", "src/build.rs", "src/format_che.rs"],
     [("commands", "src/main.rs"), ("build pipeline", "src/build.rs")],
     "cross-command monitor: command sequences over random projects, artefacts and outputs compared with each other and with a model",
     "100 random projects times all commands per quick run",
     observe=["stdout, exit status and files produced by each command"])

prop("P10", "The test command's verdicts are true",
     "For every tree of test files, the test command runs each test exactly once and reports success for it if and only if it builds and exits with status 0; the summary counts are right and the exit status is 0 if and only if every test passed and every given directory could be read, whatever the tests print and however many fail.",
     ["configurations", "inputs"], "every tree of test files, outcome and output",
     "The suite only ever runs the command over passing tests; a false verdict shows only with failing ones.",
     ["src/main_test.rs", "src/build.rs"],
     [("test runner", "src/main_test.rs")],
     "exactly-once and verdict monitor: generated test trees whose tests log their own execution; the report is compared with the known outcomes",
     "90 random trees, 18 kinds of outcomes, hundreds of verdicts per quick run",
     observe=["stdout and exit status of che test", "execution log written by the tests"])

prop("P11", "Containers and memory streams keep exactly what was put in them",
     "For every sequence of operations, vectors, maps, string tables, growing buffers, linked lists, string builders, memory files and bounded readers and writers answer every query as a plain mathematical list, map or byte string would, whatever the keys, values, sizes and byte contents. They touch no memory outside their own, and freeing one returns everything it allocated.",
     ["histories", "inputs"], "every history of operations, element size, key (empty and binary ones included), growth step and content",
     "Each container has one short test with a few elements; growth boundaries, replaced values, empty keys, byte 255 and leaks never show there.",
     ["lib/clip/vec.c", "lib/clip/map.c", "lib/clip/map2.c", "lib/clip/stringtable.c", "lib/clip/buffer.c", "lib/clip/llist.c", "lib/strbuilder.c", "lib/mem.c", "lib/writer.c", "lib/reader.c"],
     [("growth and storage", "lib/clip/vec.c"), ("key lookup", "lib/clip/map.c"), ("memory stream", "lib/mem.c")],
     "model-based runtime monitor: random operation histories on the real containers under ASan+UBSan, each observation compared with a Python model, allocated bytes accounted before and after",
     "2500 histories, about 100 thousand operations per quick run",
     observe=["replies of the harness program", "sanitizer reports", "allocated bytes"])

prop("P12", "Compressed and bit-packed data comes back exactly",
     "Bits written in either bit order occupy the bytes that order prescribes and are read back in sequence, with the end of data reported and never invented. Every message compressed with LZW over its alphabet, or encoded with a Huffman code built from a text or from a canonical description, decodes to exactly the same message, however the input is cut into reads, and the Huffman code is as short as an optimal one.",
     ["inputs"], "every message, alphabet size, bit order, code shape and read chunking",
     "The tests round-trip one sentence and one random text; code-width changes, dictionary resets and extreme code lengths need particular lengths and alphabets.",
     ["lib/bits.c", "lib/compress/lzw.c", "lib/compress/huffman.c"],
     [("bit order", "lib/bits.c"), ("code widths and dictionary resets", "lib/compress/lzw.c"), ("tree building", "lib/compress/huffman.c")],
     "round-trip and reference-encoder monitor under ASan+UBSan, with messages aimed at code-width, dictionary and byte boundaries",
     "2700 messages per quick run",
     observe=["replies of the harness program", "sanitizer reports"])

prop("P13", "Digests and byte encodings agree with their published definitions",
     "For every message, whatever its length and bytes, MD5 and SHA-1 digests and their textual forms equal the standard ones, and digest objects can be reused after a reset. Hexadecimal, URL and endian encodings produce the standard bytes, read back the same values, and report it when the output does not fit or the input ends.",
     ["inputs"], "every message length (padding boundaries included) and content",
     "The tests digest a few short ASCII strings; padding boundaries, empty input and bytes over 127 are not among them.",
     ["lib/crypt/md5.c", "lib/crypt/sha1.c", "lib/enc/hex.c", "lib/enc/urlencode.c", "lib/enc/endian.c"],
     [("padding", "lib/crypt/md5.c"), ("block processing", "lib/crypt/sha1.c"), ("byte order", "lib/enc/endian.c")],
     "differential monitor against independent implementations (Python's hashlib and codecs) under ASan+UBSan, every length around the block boundaries",
     "2300 messages per quick run",
     observe=["replies of the harness program", "sanitizer reports"])

prop("P14", "JSON documents are read and written without losing or inventing anything",
     "Every valid JSON document is parsed into exactly the value the standard gives it - escapes and surrogate pairs decoded, numbers to the last bit, later repeated keys winning - and everything that is not a document (cut, unbalanced, misplaced or missing punctuation, text after the value) is refused with an error and no value. Formatting a value gives valid JSON which is parsed back to the same value; copies, replaced entries and failures keep values intact and lose no memory.",
     ["inputs", "histories"], "every text, valid or broken, of any string content, number form, width and nesting up to hundreds of levels (zero characters, lone surrogates, and numbers over 98 characters excepted)",
     "The tests parse and re-encode a dozen short texts; no escapes, fractions, long strings, odd keys or repeated ones are among them.",
     ["lib/formats/json.c", "lib/tokenizer.c", "lib/strbuilder.c"],
     [("parser", "lib/formats/json.c"), ("formatter", "lib/formats/json.c"), ("number scanner", "lib/tokenizer.c")],
     "differential monitor against Python's json under ASan+UBSan with heap accounting: generated valid documents in random spellings and mutated broken ones; parsed tree, formatted text, clone and reparse all compared",
     "6600 documents and histories per quick run",
     observe=["replies of the harness program", "sanitizer reports", "allocated bytes"])

prop("P15", "CSV tables, bencoded data and config files come back field by field",
     "A CSV table is read into exactly its rows and values whatever quotes, commas, line breaks, lengths and empty values it has, and a table that was written reads back the same. Bencoded values and torrent descriptions are written and read exactly, with the byte ranges and the info hash right; data that is cut or broken is refused and nothing outside the data is touched; config files yield exactly their key-value pairs without comments.",
     ["inputs"], "every table, bencoded value within 32-bit numbers and nesting of 10, torrent description within the documented field sizes, config file with lines up to 255 bytes",
     "The tests write one bencoded dictionary and convert one table; quotes, empty last values, long fields, extreme numbers and truncated data are not among them.",
     ["lib/formats/csv.c", "lib/formats/bencode.c", "lib/formats/bencode_writer.c", "lib/formats/torrent.c", "lib/formats/conf.c", "lib/tokenizer.c"],
     [("quoted values", "lib/formats/csv.c"), ("node stack and lengths", "lib/formats/bencode.c"), ("info hash", "lib/formats/torrent.c")],
     "differential monitor against Python's csv module and reference encoders under ASan+UBSan: random tables, values, torrents and config files, mutated bencode",
     "2800 tables, documents and files per quick run",
     observe=["replies of the harness programs", "written files", "sanitizer reports"])

prop("P16", "Strings, tokens, lines and UTF-8 are handled exactly and within their buffers",
     "Splitting, trimming, comparing and formatting strings, cutting input into tokens with exact positions, reading lines and bytes, and printing tables give for every text exactly the documented result, whatever its length and bytes and however the input arrives in pieces. Every Unicode character is encoded, decoded, counted, searched and case-mapped as Unicode prescribes, malformed sequences count as one replacement character per byte, and no operation touches memory outside the given strings and buffers.",
     ["inputs", "histories"], "every text without zero bytes, buffer size, chunking of the input and sequence of token operations (lookahead up to 100 bytes)",
     "The tests trim and split a few short ASCII strings; buffer edges, multi-byte and malformed text, long runs and short reads are not among them, and the UTF-8 and tokenizer modules have no tests.",
     ["lib/strings.c", "lib/tokenizer.c", "lib/linereader.c", "lib/bytereader.c", "lib/utf.c", "lib/table.c"],
     [("lookahead cache", "lib/tokenizer.c"), ("UTF-8 coding and case tables", "lib/utf.c"), ("string operations", "lib/strings.c")],
     "model-based monitor under ASan+UBSan: random operation sequences on exactly sized buffers, every reply compared with Python models; all characters round-tripped and case-mapped",
     "10000 requests, 20000 token operations and 170000 characters per quick run",
     observe=["replies of the harness program", "sanitizer reports"])

prop("P17", "HTTP messages, URLs and CGI headers are written and read exactly, or refused",
     "Requests and responses are read into exactly their method, address, path, query, file name, status, headers (found whatever the case of the name) and body, however the bytes arrive and with several messages in a row; a built request has exactly the given parts with parameters encoded and can be read back. URLs and CGI header blocks are taken apart exactly, file extensions get their registered media types, and whatever is cut, malformed or larger than the fixed limits is refused without touching memory outside the message.",
     ["inputs"], "every message, URL and header block, of any size, cut or mangled anywhere, in any chunking",
     "The tests read one request, one response and one URL, all well-formed and short.",
     ["lib/protocols/http.c", "lib/protocols/cgi.c", "lib/url.c", "lib/mime.c", "lib/enc/urlencode.c", "lib/tokenizer.c"],
     [("request reader", "lib/protocols/http.c"), ("response reader", "lib/protocols/http.c"), ("URL parser", "lib/url.c")],
     "differential monitor against reference parsers under ASan+UBSan: random valid, truncated, oversized and mutated messages fed in random chunks",
     "6300 messages per quick run",
     observe=["replies of the harness program", "sanitizer reports", "allocated bytes"])

prop("P18", "Threads, locks and pipes deliver exactly once, in order, without races",
     "Values written into a pipe by any number of threads are each read exactly once, in the order they were written, writers wait while the pipe is full and readers while it is empty, and closing the pipe lets every waiting reader finish after the last value; writing after that is refused aloud. Locks exclude each other, condition variables wake whoever is waiting, every started thread runs and is joined, and no schedule leads to a data race, a thread left waiting forever, or memory that is not given back.",
     ["schedules", "histories"], "every schedule, number of producers and consumers, spurious wakeup and moment of closing",
     "No test starts a thread; the failures depend on the interleaving.",
     ["lib/os/threads.c"],
     [("pipe ring and waits", "lib/os/threads.c"), ("start and join", "lib/os/threads.c")],
     "ThreadSanitizer and ASan builds plus a pthread shim injecting pauses and spurious wakeups; recorded event logs checked offline for exactly-once, per-producer and real-time FIFO order; hang watchdog",
     "1200 runs per quick run, distinct interleavings counted",
     observe=["event logs of all threads", "sanitizer reports", "hangs", "allocated bytes"])

prop("P19", "The web server sends exactly the file asked for, only its own, and lives on",
     "Every client that asks for a file inside the served directory, by whatever spelling of the path, gets exactly its bytes with the right length and media type, and for everything else - missing files, directories, any path or link leading out of the directory - it gets a complete 404 response, in the order asked, also when many requests share a connection and many clients are served at once. No client, however it behaves (garbage, oversized or cut requests, stalling, leaving in the middle, failing scripts, more clients than descriptors), stops the server, holds up others, or makes it touch memory it shouldn't, and nothing of a client is kept after it left; the load tool reports every request once with its status.",
     ["histories", "schedules", "inputs", "fault_sequences"], "every sequence of requests and mix of concurrent, slow, hostile and vanishing clients (scripts: those with up to 4096 bytes of output)",
     "The server has no tests; the failures need hostile paths, dropped connections or concurrency.",
     ["prog/webserver/webserver.c", "prog/webserver/srvcgi.c", "prog/exab/exab.c", "lib/protocols/http.c", "lib/os/net.c", "lib/os/fs.c", "lib/mime.c"],
     [("path containment", "prog/webserver/webserver.c"), ("responses", "lib/protocols/http.c"), ("connections", "lib/os/net.c"), ("load tool", "prog/exab/exab.c")],
     "the real server built with ASan+UBSan, TSan and plain, in a scratch directory beside canary files, under random correct and hostile concurrent clients; every response checked byte by byte against the directory, canary and descriptor monitors",
     "3000 exchanges per quick run",
     observe=["every byte sent by the server", "sanitizer and race reports", "open descriptors", "the server's survival"])

prop("P20", "Files, processes and connections carry exactly what is put in, and close",
     "Files are written and read back byte for byte, sizes, kinds, names, extensions and real paths are told as the system has them, directories list each entry once, and whatever does not exist or does not fit the buffer is reported as a failure. Started programs get exactly the given arguments, environment and input with its end, their output, errors and exit status come back whole, and parallel jobs each run exactly once and are finished on return; connections carry all bytes in order both ways, addresses are parsed and formatted exactly, and no operation, successful or failed, leaves descriptors or memory behind.",
     ["inputs", "histories", "fault_sequences"], "every file content and path, argument, environment and input, exit status or signal, number of jobs, message size and chunking, refused or malformed address (inputs and outputs read one after the other: the unread one within a pipe's capacity)",
     "The tests write one short file, run two programs and parse two addresses; sizes, failures and leftovers are not looked at.",
     ["lib/os/fs.c", "lib/os/proc.c", "lib/os/net.c", "lib/os/self.c", "lib/reader.c", "lib/writer.c"],
     [("file access", "lib/os/fs.c"), ("process start and wait", "lib/os/proc.c"), ("sockets", "lib/os/net.c")],
     "model-based monitor under ASan+UBSan: random file histories against the real directory, helper programs and socket peers that record what they get, descriptor and heap accounting",
     "4700 requests per quick run",
     observe=["replies of the harness program", "real files", "what helper processes and peers received", "open descriptors", "sanitizer reports"])

prop("P21", "Times, durations, subtitles and cue sheets are read and written exactly",
     "Times in ISO form with any zone and fraction are read, subtracted, converted to local time and written exactly, the current time is that of the clock, sleeping lasts as long as asked, and durations are formatted and parsed exactly in every supported form. Every subtitle of an SRT or WebVTT file comes out once, with its number, times and text, also after its times are adjusted linearly, and every track of a cue sheet with its title and position to the frame; broken, oversized or cut files are refused or read without touching memory outside the buffers.",
     ["inputs", "configurations"], "every time from 1970 on, zone, duration, subtitle file (lines up to 4 KB, SRT texts up to 1 KB) and cue sheet (titles up to 99 bytes), cut or mangled anywhere",
     "The tests parse one cue sheet with whole seconds and convert one subtitle file; the time module has no tests.",
     ["lib/time.c", "lib/formats/srt.c", "lib/formats/vtt.c", "lib/formats/cue.c", "prog/srtadjust/srtadjust.c", "prog/srt2jsonl/srt2jsonl.c", "prog/vtt2jsonl/vtt2jsonl.c"],
     [("time conversion", "lib/time.c"), ("subtitle blocks", "lib/formats/srt.c"), ("tracks", "lib/formats/cue.c")],
     "differential monitor against Python's datetime and exact fractions under ASan+UBSan, in several time zones; random, cut and mangled subtitle files through the real programs",
     "8900 requests and files per quick run",
     observe=["replies of the harness program", "output of the subtitle programs", "the system clock", "sanitizer reports"])

prop("P22", "Pictures and sound keep every pixel and sample, written or read",
     "Drawing, pasting, enlarging and blending change exactly the pixels they should, coordinates outside the picture are refused, and a picture written as PNG (in every color mode), BMP or PPM is a valid file which decodes to the same pixels. Sound files of one or two channels and 16 or 24 bits are read sample by sample whatever extra blocks they have and however they end, are written so that they read back the same, and clips are mixed, normalized, stretched and cut at silences exactly; splitting an MP3 by a track list puts every frame into exactly one track, starting within a frame of its time, and damaged files never lead outside the buffers.",
     ["inputs", "histories"], "every picture and sequence of operations (colors within 0..255), color mode, number of colors, sample format, block layout, stretch factor, track list and MP3 of constant or variable rate at 44.1 kHz, cut or mangled sound files",
     "There are no tests for pictures or sound.",
     ["lib/image.c", "lib/formats/png.c", "lib/formats/bmp.c", "lib/formats/ppm.c", "lib/formats/wav.c", "lib/sound.c", "lib/formats/mp3.c", "prog/mp3cuespl/mp3cuespl.c", "prog/wav/wav.c", "prog/wavcue/wavcue.c"],
     [("chunks and checksums", "lib/formats/png.c"), ("sample reader", "lib/formats/wav.c"), ("frame reader", "lib/formats/mp3.c")],
     "model-based monitor under ASan+UBSan with heap accounting; written files decoded by independent decoders (zlib, struct); conservation of MP3 frames over the tracks",
     "4600 pictures, clips and files per quick run",
     observe=["replies of the harness program", "written files", "output of the sound programs", "sanitizer reports", "allocated bytes"])

prop("P23", "Options are parsed exactly and the text tools lose nothing",
     "Command-line flags, groups of flags, values, positional arguments and subcommands are taken exactly as given, and unknown flags, missing values, wrong counts and numbers that are malformed or out of range are refused with a message and status 1. The converters between CSV, JSON lines and tables, the column cutter, the range packer, the log formatters and the dated log write for every input exactly the records, fields and lines it holds, in order, whatever their length; the line-ending converter changes exactly the trailing spaces and line ends of the files that need it and never damages a file.",
     ["inputs", "configurations"], "every set of up to 32 options and 10 subcommands and every list of arguments; every text input (up to 100 columns or header names where the tools state that limit, log times in ISO form); every list of files for the line-ending converter",
     "The tests parse one command line and run five of the tools on one tiny input each.",
     ["lib/opt.c", "prog/csv2json/csv2json.c", "prog/jsonl2csv/jsonl2csv.c", "prog/json-table/json-table.c", "prog/multicut/multicut.c", "prog/trim/trim.c", "prog/logfmt/logfmt.c", "prog/decompose/decompose.c", "prog/zipranges/zipranges.c", "prog/datelog/datelog.c"],
     [("option parser", "lib/opt.c"), ("rewriting of files", "prog/trim/trim.c"), ("tables from lines", "prog/json-table/json-table.c")],
     "differential monitor: every run of the real programs under ASan+UBSan compared (output, status, files) with an independent model",
     "5700 runs of the programs per quick run",
     observe=["output and exit status of the programs", "files written", "sanitizer reports"])

prop("P24", "Statistics, random numbers and Fourier transforms are right for all inputs",
     "Counts, sums, averages, deviations, extremes and percentiles of every series of values, in any order of adding and asking, and the sliding average and statistics of columns printed by the programs agree with their definitions; the histogram puts every value into exactly one of the equal bins that cover all values and draws it within the given width. Random numbers stay within their range, repeat for the same seed, differ for others and are fair, choices follow the given frequencies, and generated strings and words consist of the asked characters or of pairs seen in the input. Complex arithmetic and the Fourier transform of every length, in both directions and in place, agree with their definitions up to rounding.",
     ["inputs", "histories"], "every series, column file (up to 10 columns), window, number of bins, seed, frequency table, alphabet, word list and transform length",
     "There are no tests for statistics, random numbers or transforms.",
     ["lib/stats.c", "lib/rnd.c", "lib/math/complex.c", "lib/fft.c", "prog/stats/stats.c", "prog/hist/hist.c", "prog/avg/avg.c", "prog/rand/rand.c", "prog/markov/markov.c"],
     [("percentile cache", "lib/stats.c"), ("generator", "lib/rnd.c"), ("bin search", "prog/hist/hist.c"), ("butterflies", "lib/fft.c")],
     "differential monitor against definitions computed in Python, chi-square monitors of fairness at 7.5 sigma, program runs under ASan+UBSan with heap accounting",
     "3700 requests and runs per quick run",
     observe=["replies of the harness program", "output of the programs", "sanitizer reports", "allocated bytes"])

prop("P25", "Regular expressions find the leftmost longest match with right groups",
     "For every expression in the documented notation and every text or range of a text, matching finds the leftmost and among those the longest match or none when there is none, the reported groups belong to a possible way to match that text, and substitution inserts exactly the matched pieces and never writes more than the given room. Expressions that don't follow the notation are refused with a message, texts of bytes and of runes give the same result, and every expression is answered without touching memory outside its own.",
     ["inputs"], "every expression (up to 31 groups, 16 classes and the documented nesting), text in UTF-8, start and end, number of wanted groups, template and room",
     "There are no tests for regular expressions.",
     ["prog/libregexp9/regexp9.c", "prog/libregexp9/libregexp9.c", "lib/utf.c"],
     [("compiler", "prog/libregexp9/regexp9.c"), ("machine", "prog/libregexp9/regexp9.c")],
     "differential monitor against an independent exhaustive matcher (all parses) under ASan+UBSan with heap accounting",
     "9200 expressions and texts per quick run",
     observe=["replies of the harness program", "output of the program", "sanitizer reports", "allocated bytes"])

prop("P26", "Emulated machines run their programs exactly and leave the terminal as it was",
     "Every program image that fits into memory runs as the LC-3 or CHIP-8 machine defines it: its output, screens, sound signals, reaction to keys and the exit status are those of the machine, no key typed gets lost, and the disassembler lists every instruction with its address and operands. Images that don't fit, instructions a machine can't carry out and wrong commands end with a message, no program reaches memory outside the machine, and the terminal is back in its former state after the end or an interrupt.",
     ["inputs", "histories"], "every image, every instruction with every operand, every input and arrival of keys",
     "There are no tests for the emulator besides its build.",
     ["prog/emu/lc3.c", "prog/emu/chip8.c", "prog/emu/chip8instr.c", "prog/emu/emu.c", "lib/os/term.c"],
     [("lc3", "prog/emu/lc3.c"), ("chip8", "prog/emu/chip8.c"), ("disassembler", "prog/emu/chip8instr.c"), ("terminal", "lib/os/term.c")],
     "differential monitor against independent models of both machines under ASan+UBSan, with sleeps replaced and a real terminal",
     "1300 machine programs per quick run",
     observe=["output and screens", "exit status", "terminal attributes", "sanitizer reports"])

prop("P27", "XML is walked as written, damage is reported, generated documents are valid",
     "For every document of elements and attributes within the stated limits, entering, passing over and leaving elements in any order shows exactly the names, attribute values and nesting of the document, and a document that is cut off, wrongly nested or not of this kind ends in a reported error, never in a crash, an endless loop or silently wrong data. Element and attribute definitions are read exactly as written, or refused when malformed or too large. The document generator only writes well-formed documents that obey its definition, with every number, word and choice within the range asked for.",
     ["inputs", "histories"], "every document, sequence of moves, damage, definition and text template",
     "The one test walks one fixed document; moves in any order, damage, definitions and generated documents are not tested.",
     ["lib/formats/xml.c", "lib/formats/dtd.c", "lib/ipsum.c", "prog/xmlgen/xmlgen.c"],
     [("cursor", "lib/formats/xml.c"), ("definitions", "lib/formats/dtd.c"), ("texts", "lib/ipsum.c"), ("generator", "prog/xmlgen/xmlgen.c")],
     "monitor of cursor traces against a model of the tree, damage injection, and a validator of generated documents, under ASan+UBSan",
     "1000 documents walked or damaged, 1000 moves' scripts, 16 generated documents per quick run",
     observe=["cursor observations", "error reports", "definition trees", "generated documents", "sanitizer reports"])

prop("P28", "Torrents describe their files exactly; seeding and downloading keep every byte",
     "A torrent made of a file holds its name, its length and the hash of every piece, and the contents of any torrent file are reported as they are. A seeder tells good pieces from damaged or missing ones and sends every connected peer exactly the bytes it asks for, however its messages are cut; nothing that peers or the tracker send (requests outside of a piece, foreign, malformed or unasked messages, broken and too many connections) stops it, changes files or gets anything else. A download asks for every piece once, calls a piece good only when its hash is right, never touches a file outside of its directory, and ends with exactly the described files.",
     ["inputs", "histories", "fault_sequences"], "every torrent layout, piece size, slice, cutting of messages, damage and behaviour of peers",
     "The one snapshot of the program (which fails) prints one torrent; no test connects to it.",
     ["prog/torrent/files.c", "prog/torrent/peer.c", "prog/torrent/peerproto.c", "prog/torrent/ioloop.c", "prog/torrent/tracker.c", "prog/torrent/cmd_create.c", "prog/torrent/cmd_info.c", "prog/torrent/cmd_seed.c", "prog/torrent/cmd_download.c"],
     [("slices to files", "prog/torrent/files.c"), ("messages", "prog/torrent/peerproto.c"), ("connections", "prog/torrent/ioloop.c"), ("peer states", "prog/torrent/peer.c")],
     "recorded conversations of the real program with scripted peers and a tracker, judged against a model of the protocol and of the files, under ASan+UBSan, in a private network namespace",
     "8 seeding and 12 download sessions with some 100 peers, 3500 slices and messages per quick run",
     observe=["messages sent to peers and tracker", "files on disk", "output", "sanitizer reports"])

prop("P29", "The Lisp interpreter evaluates every program as the language says",
     "A program given to the interpreter, as a file or line by line, prints exactly what the rules of the language say: forms are read and printed faithfully, arguments are evaluated in order, variables have dynamic scope, macros, optional and remaining parameters, numbers, strings, lists, vectors, predicates and the functions of its own library give their defined results. An error in reading or evaluating is reported with its kind and value, or caught by the matching handler; it undoes exactly the bindings and depth of what it left, and the program goes on with the next form. No program, however wrong or deeply recursive, corrupts memory or ends the interpreter otherwise.",
     ["programs", "histories"], "every program (well-formed, ill-typed, with wrong numbers of arguments, cut and mangled), recursion depth and sequence of errors",
     "The one unit test interns symbols and pushes two bindings; nothing evaluates a program.",
     ["prog/wisp/eval.c", "prog/wisp/eater.c", "prog/wisp/mem.c", "prog/wisp/mp.c", "prog/wisp/hashtab.c", "prog/wisp/util.c", "prog/wisp/wisp.c"],
     [("evaluation and scoping", "prog/wisp/eval.c"), ("reading", "prog/wisp/eater.c"), ("object pools", "prog/wisp/mem.c"), ("symbols", "prog/wisp/hashtab.c")],
     "outputs of the real interpreter on generated programs, judged against an own model of the language, under ASan+UBSan, also with an allocator that shows each object's lifetime to the sanitizer",
     "some 550 programs, 40000 lines of output and 3000 errors of 14 kinds per quick run",
     observe=["output", "reports of errors", "exit status", "sanitizer reports"])
