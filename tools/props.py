prop("P01", "KDBX: what is exported is what is imported, attribute by attribute",
     "Every attribute of the object model (metadata, groups, entries, fields, attachments, auto-type, history, custom icons "
     "and custom data) that a KDBX export writes is read back by a KDBX import from the same place of the document, with the "
     "inverse encoding, into the same attribute of the same kind of object. No attribute the import can fill is dropped by the "
     "export, and no two attributes share or swap a place. (Custom icons without data and custom data items without a key "
     "have no meaning and are skipped by the import; white space around texts is normalised by the XML parser; the date "
     "2999-12-28T22:59:59Z stands for no time.) A time the document cannot express and a tree nested more deeply than "
     "the import accepts (P31) are refused.",
     ["inputs"], "every database an application can build or import",
     "The tests round-trip two sample files; an attribute those files leave at its default, or two attributes holding equal "
     "values there, can be dropped or swapped unnoticed.",
     ["src/kdbx.cc", "src/kdbx.hh", "src/util.cc"],
     [("XML writer", "src/kdbx.cc KdbxFile::WriteMeta/WriteGroup/WriteEntry/WriteXml"),
      ("XML reader", "src/kdbx.cc KdbxFile::ParseMeta/ParseGroup/ParseEntry/ParseXml")],
     ["KdbxFile::Export", "KdbxFile::Import"],
     "Correspondence of places and encodings is decided; byte-level correctness of the XML library is trusted, and text is "
     "compared modulo surrounding white space, which the XML parse options drop.")

prop("P02", "KDB: what is exported is what is imported, field by field",
     "Every group and entry attribute that a KDB export writes is framed as a numbered, sized field and is read back by a KDB "
     "import from the record field with the same number, with the inverse encoding, into the same attribute. No attribute the "
     "import can fill is dropped by the export, and groups precede entries. Texts are kept up to their first NUL character; times "
     "are kept to the second in local time (0 and -1 both mean no time), and a time the format cannot hold is refused.",
     ["inputs"], "every database representable in the KDB format",
     "The tests round-trip a few sample files whose attributes mostly hold defaults.",
     ["src/kdb.cc", "src/kdb.hh"],
     [("record writer", "src/kdb.cc KdbFile::WriteGroup/WriteEntry"), ("record reader", "src/kdb.cc KdbFile::ReadGroup/ReadEntry")],
     ["KdbFile::Export", "KdbFile::Import"],
     "Correspondence of field numbers, sizes, attributes and encodings is decided, down to the bits of packed times; the tree is "
     "the subject of P24. Entries held directly by the unnamed root group are outside the format.")

prop("P03", "Header attributes survive export and import",
     "Every cryptographic attribute of a database (seeds, initialisation vector, rounds, cipher, compression, inner stream key) "
     "that an export uses is recorded in the file header under the number and size under which the import reads it back into the "
     "same attribute. Every value an export can record passes the import's checks, or the export refuses it.",
     ["inputs", "configurations"], "every combination of cipher, compression, seeds and round counts",
     "Tests use the few header configurations of the sample files.",
     ["src/kdb.cc", "src/kdbx.cc"], [("header writer", "Export of src/kdb.cc and src/kdbx.cc"), ("header reader", "Import of both")],
     ["KdbFile::Export/Import", "KdbxFile::Export/Import"],
     "Header records of both formats, by symbolic correspondence of written and read records.")

prop("P04", "Import derives the same key and cipher as the export used",
     "With the header fields an export recorded, an import derives the same content key, initialisation vector, cipher, inner "
     "keystream and compression mode as the export used, from the same composite key. The content key depends on all of the "
     "caller's key components, both seeds and the exact number of transformation rounds.",
     ["inputs", "configurations"], "every key, seed, round count and cipher choice",
     "Tests use a handful of keys and round counts; a derivation that ignores a part of them, or truncates the count, agrees with "
     "itself in a round trip.",
     ["src/key.cc", "src/kdb.cc", "src/kdbx.cc", "src/cipher.cc"],
     [("key derivation", "src/key.cc Key::Resolve/Transform"), ("per-format final key", "Import and Export of src/kdb.cc, src/kdbx.cc")],
     ["Key", "KdbFile", "KdbxFile"],
     "Symbolic equality of the derivations; SHA-256, AES and the cipher implementations themselves are trusted.")

prop("P05", "An import returns a database only for authentic content",
     "An import returns a database only after the file signature and version were recognised, the decrypted content was "
     "authenticated against everything the format stores for that purpose (content digest, start bytes, header digest), and all "
     "data used was actually read. Content that fails authentication is reported as an error, never as a database.",
     ["inputs", "fault_sequences"], "every file, truncated, modified or opened with a wrong key",
     "Tests try a wrong password and intact files; a skipped or weakened check is only visible on particular damaged files.",
     ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc"],
     [("KDB content digest", "src/kdb.cc KdbFile::Import"), ("KDBX start bytes and header hash", "src/kdbx.cc KdbxFile::Import/ParseMeta")],
     ["KdbFile::Import", "KdbxFile::Import"],
     "Must-hold facts on every successful path, which digest covers which bytes, and read status of every value that reaches the "
     "result.")

prop("P06", "Checksummed blocks deliver only verified bytes, in order",
     "The block stream hands out bytes only after the stored digest over exactly those bytes was verified and the block had the "
     "next index, and reports the end only at a well-formed terminating block. The writer frames all bytes put into it exactly "
     "once, in order, with matching digest, size and index, and ends with exactly one terminating block per export.",
     ["inputs", "fault_sequences"], "every sequence of blocks, intact or damaged, and every sequence of writes",
     "Tests use a few short streams; reordered, truncated or resized blocks and failed writes are not sampled.",
     ["src/stream.cc", "src/stream.hh"],
     [("reader", "src/stream.cc hashed_istreambuf::underflow"), ("writer", "src/stream.cc hashed_ostreambuf::FlushBlock/overflow/sync")],
     ["hashed_istreambuf", "hashed_ostreambuf", "KdbxFile"],
     "Value numbering of digest, size and index against the bytes handed out or written.")

prop("P07", "Block chaining and padding are exact and checked",
     "Encryption combines each block with the previous ciphertext block, starting from the initialisation vector, and appends "
     "padding bytes equal to their number, a whole block when the content fills its last block; decryption inverts this. "
     "Decryption rejects ciphertext that is not a whole number of blocks and padding that is not exactly of that form, and removes "
     "exactly the padding.",
     ["inputs"], "content of every length",
     "Tests use a few fixed vectors; lengths and padding bytes that matter are a small fraction of the inputs.",
     ["src/cipher.cc"], [("encrypt_cbc", "src/cipher.cc"), ("decrypt_cbc", "src/cipher.cc")], ["encrypt_cbc", "decrypt_cbc"],
     "Value numbering of the chaining variable plus finite evaluation of the padding conditions over all 16 residues and all 256 "
     "padding values.")

prop("P08", "An export returns normally only if the file was written completely",
     "When an export returns without an exception, every write of every layer between the content and the destination file, "
     "including the final flush and close, has succeeded and been checked. A failed write at any point surfaces as an exception.",
     ["fault_sequences", "crash_points"], "a write failing at any point of any export",
     "Tests write to a working disk; no write ever fails.",
     ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc"],
     [("exporters", "Export of src/kdb.cc and src/kdbx.cc"), ("output stream buffers", "src/stream.cc sync/overflow")],
     ["KdbFile::Export", "KdbxFile::Export"],
     "Write-status analysis on the event graph of both exports; durability of the operating system's buffers is outside.")

prop("P09", "A refused export leaves an existing destination untouched",
     "An export opens its destination for writing only after everything that can fail for reasons other than the destination "
     "itself has succeeded, so an export refused because of its database or key leaves an existing file as it was. Imports open no "
     "file for writing and an export opens no file but its destination.",
     ["inputs", "fault_sequences"], "every database and key an export refuses",
     "Tests never export over an existing file with a database that is refused.",
     ["src/kdb.cc", "src/kdbx.cc"], [("exporters", "Export of src/kdb.cc and src/kdbx.cc")],
     ["KdbFile::Export", "KdbxFile::Export"],
     "Ordering of throw points against the open event on all paths. Failures while writing the destination itself can still leave "
     "a partial file; the property does not cover them.")

prop("P10", "Nothing confidential is written unencrypted",
     "Everything derived from the database content, the password or the key reaches the destination file only through the bulk "
     "cipher (or as a digest defined by the format); only header attributes are written in the clear. No import or export writes "
     "such data to any other file, to the standard streams or to the environment.",
     ["inputs"], "every database and key",
     "A plaintext leak leaves every round-trip test passing.",
     ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc"], [("exporters", "Export of src/kdb.cc and src/kdbx.cc")],
     ["destination file", "standard streams"],
     "Explicit information flow only: implicit flows and memory disclosure are outside.")

prop("P11", "Operations fail only with the library's documented exceptions",
     "Importing, exporting, loading a key file and the other public operations end either normally or with an exception of the "
     "library's exception hierarchy, whatever the file contains. A file that does not exist is reported as file-not-found before "
     "anything else happens.",
     ["inputs", "fault_sequences"], "every file content, key file and database",
     "Tests feed a few malformed files; exceptions thrown by conversions and containers need specific malformed values.",
     ["src/kdb.cc", "src/kdbx.cc", "src/key.cc", "src/util.cc", "src/base64.hh"],
     [("conversions", "src/kdbx.cc, src/util.cc"), ("exception hierarchy", "src/exception.hh")], ["public operations"],
     "Exception effects of the library's own code and of the modelled library calls; memory exhaustion excluded.")

prop("P12", "No input aborts the process",
     "No assertion, abort, terminate or exit can be triggered by the content of a file, by the database given to an operation, or "
     "by the state of the caller's streams.",
     ["inputs", "fault_sequences"], "every file and database",
     "Assertions that depend on input hold for the tested files.",
     ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc", "src/key.cc", "src/cipher.cc"],
     [("assertions", "every assert in src/")], ["process exit"],
     "Every assertion and abort reachable from the public operations is shown infeasible or independent of input; others are "
     "violations only when their condition depends on input.")

prop("P13", "No operation dereferences an empty pointer",
     "Optional parts of a database (root group, metadata, binaries, icons, groups referred to by metadata) and lookups that can "
     "fail are tested before use in every operation, so no well-formed sequence of calls on a partially filled database and no file "
     "crashes the process.",
     ["inputs", "histories"], "every partially filled database and every file",
     "Tests build complete databases or import complete files.",
     ["src/kdb.cc", "src/kdbx.cc", "src/group.cc", "src/entry.cc", "src/metadata.cc"],
     [("pointer members of the model", "src/database.hh, src/group.hh, src/entry.hh, src/metadata.hh")], ["public operations"],
     "Nullness facts at every dereference; element pointers inside the model's containers are assumed non-null.")

prop("P14", "Exporting, rendering and comparing do not change the database",
     "Exporting a database, rendering it as JSON and comparing it leave every part of it unchanged; in particular two exports of "
     "the same database write the same content.",
     ["histories"], "every database and sequence of operations on it",
     "Tests export once and compare the re-imported copy, not the original.",
     ["src/kdb.cc", "src/kdbx.cc", "src/group.cc", "src/entry.cc", "src/metadata.cc"],
     [("read-only operations", "Export, ToJson and operator== in src/")], ["Database after the operation"],
     "Effect analysis: every store of the operations' call closure is shown to target something other than the argument's object "
     "graph.")

prop("P15", "One file object can be used for any sequence of imports and exports",
     "The result of an import or export does not depend on earlier uses of the same file object, whether they succeeded or failed.",
     ["histories", "fault_sequences"], "every sequence of operations on one file object, including failed ones",
     "Tests use each file object for one import or one import followed by one export.",
     ["src/kdbx.cc", "src/kdbx.hh", "src/kdb.hh"],
     [("reset", "src/kdbx.cc KdbxFile::Reset")], ["KdbxFile", "KdbFile"],
     "Read-before-reset analysis of every member of the file objects.",
     [("per-operation pools", "binaries, icons and groups collected during an operation", "src/kdbx.hh KdbxFile")])

prop("P16", "Independent objects can be used from different threads",
     "The library keeps no modifiable process-wide state and calls no library function with hidden shared state, so operations on "
     "unrelated objects do not influence each other under any interleaving.",
     ["schedules"], "every interleaving of operations on distinct objects",
     "Tests are single-threaded.",
     ["src"], [("static variables", "src/*.cc, src/*.hh")], ["public operations on distinct objects"],
     "Enumerates every variable with static storage duration and every external function called.")

prop("P17", "Equality of groups, entries and their parts compares everything",
     "Two groups or entries, and likewise their fields, attachments, binaries, icons, protected values and auto-type settings, that "
     "differ in any stored attribute, in the number or in the order of their parts compare unequal, and two that agree in all of "
     "them compare equal; != is the negation of ==. Custom icons of groups and entries and the last visible entry are compared by "
     "identity. An icon's identifier and the compression flag of a binary are deliberately not compared.",
     ["inputs"], "every pair of objects",
     "Tests compare equal objects; a field left out of the comparison is invisible to them and hides every defect behind it.",
     ["src/group.cc", "src/entry.cc", "src/metadata.cc", "src/util.hh"],
     [("operator==", "src/group.hh, src/entry.hh, src/metadata.hh, src/binary.hh, src/icon.hh, src/security.hh, src/temporal.hh")],
     ["operator==", "operator!="],
     "Field coverage of every comparison operator, the pairing of the compared fields, and length awareness of container "
     "comparisons.")

prop("P18", "Accessors, copies and moves keep values",
     "Reading an attribute after setting it gives the value that was set, setting one attribute leaves all others unchanged, and "
     "copying or moving an object transfers all of its attributes.",
     ["inputs", "histories"], "every value and every attribute",
     "Tests touch a few attributes and mostly through files.",
     ["src/database.hh", "src/group.hh", "src/entry.hh", "src/metadata.hh", "src/security.hh", "src/binary.hh", "src/icon.hh"],
     [("accessors", "the model classes' headers in src/")], ["model classes"],
     "Symbolic result of every accessor and special member function, including conversions between parameter, member and result "
     "types.")

prop("P19", "No behaviour depends on uninitialised storage",
     "Every scalar attribute of a newly created object has a defined value, and no branch, written byte, digest or formatted text "
     "depends on storage that was never written, also when a read came up short.",
     ["inputs", "fault_sequences"], "every construction path, truncated file and partially filled database",
     "Uninitialised storage usually happens to hold zero in a short test.",
     ["src"], [("constructors", "the model classes in src/"), ("file buffers", "src/kdb.cc, src/kdbx.cc, src/io.cc")],
     ["model attributes", "exported files"],
     "Definite initialisation over all paths of all library functions.")

prop("P20", "Protected values use the keystream identically on both sides",
     "Every value marked as protected in an exported document is combined with the inner keystream exactly once before it is "
     "written, and every value so marked is combined exactly once when imported. Both sides consume one keystream, byte by byte, in "
     "the order of the document the export writes, so every protected value is recovered.",
     ["inputs"], "every number and arrangement of protected values, groups, entries, histories and attachments",
     "The sample files contain few protected values; an order mismatch needs particular nestings.",
     ["src/kdbx.cc", "src/kdbx.hh"],
     [("writer", "src/kdbx.cc WriteEntry/WriteGroup"), ("reader", "src/kdbx.cc ParseEntry/ParseGroup")],
     ["Protected values in the document", "imported values"],
     "Order of keystream-consuming events and their places on both sides, and agreement with the protection mark.")

prop("P21", "JSON output is well formed for every content",
     "Every text of the database that appears in the JSON rendering is escaped, so that no attribute value can break out of its "
     "string or corrupt the structure, and every brace, bracket and separator is balanced for every shape of the database.",
     ["inputs"], "every attribute value, including quotes, backslashes and control characters",
     "Tests compare a fixed sample without special characters.",
     ["src/group.cc", "src/entry.cc", "src/metadata.cc", "src/util.cc", "src/format.hh"],
     [("ToJson", "src/group.cc, src/entry.cc, src/metadata.cc"), ("escaping", "src/util.cc json_escape")], ["ToJson"],
     "Taint from text attributes to the output stream, and structure of the output around conditional parts.")

prop("P22", "Key files are accepted only in their defined forms",
     "A key file sets the key only when it is a valid XML key file whose data decodes to exactly 32 bytes, or consists of "
     "exactly 64 hexadecimal digits. Any other key file is refused, and a refused key file leaves the key as it was.",
     ["inputs", "fault_sequences"], "every key file",
     "Tests load a few well-formed key files.",
     ["src/key.cc"], [("key file loading", "src/key.cc Key::SetKeyFile")], ["Key"],
     "Path facts at every store to the key, and value numbering of the decoded digits.")

prop("P23", "Stored counts and sizes are exact and never truncated",
     "Every count, size and length an export stores equals the number of items or bytes it describes, and a value that does not "
     "fit the stored width is refused instead of being truncated.",
     ["inputs"], "every size of every attribute",
     "Tests use small values only.",
     ["src/kdb.cc", "src/kdbx.cc", "src/stream.cc"], [("record sizes", "src/kdb.cc, src/kdbx.cc")],
     ["exported files"],
     "Pairing of stored sizes with the bytes written and range facts at every narrowing conversion.")

prop("P24", "KDB group hierarchy is rebuilt exactly",
     "A KDB import rebuilds the group tree that the levels in the file describe, attaches every entry to the group it names, and "
     "rejects level sequences and group references that describe no tree; an export writes levels and references that describe the "
     "database's tree. (Trees nested more deeply than a fixed limit are refused in both directions, P31.)",
     ["inputs"], "every tree shape",
     "The sample files contain shallow trees.",
     ["src/kdb.cc"], [("tree reconstruction", "src/kdb.cc KdbFile::Import"), ("flattening", "src/kdb.cc KdbFile::Export")],
     ["KdbFile"],
     "Inductive invariant over the table of open groups, checked on the loop's transfer function, plus value flow of the group "
     "numbers.")

prop("P25", "Compressed streams are complete and bounded",
     "The decompressing stream hands out exactly the bytes decompression produced and reports the end only at the end of the "
     "compressed data, a truncated or corrupt stream being an error. The compressing stream consumes all bytes put into it, writes "
     "all bytes compression produced, finishes the compressed data exactly once, and both sides use the same container format.",
     ["inputs", "fault_sequences"], "every content size and compression ratio, and every truncation",
     "Tests compress short texts that fit one buffer.",
     ["src/stream.cc", "src/stream.hh"],
     [("decompression", "src/stream.cc gzip_istreambuf::underflow"), ("compression", "src/stream.cc gzip_ostreambuf::overflow/sync")],
     ["gzip_istreambuf", "gzip_ostreambuf"],
     "Typestate of the compression library's stream object plus value numbering of the released ranges; the library itself is "
     "trusted.")

prop("P26", "References inside a database designate its own parts",
     "After an import, every group, icon and binary that the metadata or an entry refers to is the one carrying the stored "
     "identifier in the same imported database. An absent identifier yields no reference; an unknown icon or binary identifier "
     "yields none either, an unknown group identifier at most an empty placeholder group outside the tree.",
     ["inputs"], "every arrangement of references",
     "Tests compare by value; a reference to a detached copy looks equal.",
     ["src/kdbx.cc", "src/kdb.cc"], [("identifier pools", "src/kdbx.cc KdbxFile")], ["imported Database"],
     "Origin of the object each reference is set to, and of the key it is looked up with.")

prop("P27", "Every index and pointer into a buffer stays inside it",
     "No import, export or key operation reads or writes outside the buffer it works on, for any file content and any attribute "
     "length.",
     ["inputs"], "every file, attribute length and stored size",
     "Tests use well-formed lengths only.",
     ["src"], [("indexing", "src/kdb.cc, src/kdbx.cc, src/key.cc, src/stream.cc, src/cipher.cc, src/base64.hh")],
     ["memory safety of public operations"],
     "Interval and fact reasoning at every subscript, bulk copy and stream read.")

prop("P28", "Base64 text and bytes correspond exactly",
     "Encoding any byte sequence gives its standard base64 text (RFC 4648 alphabet, '=' padding, no line breaks). Decoding that "
     "text, with or without white space between its characters, gives back exactly the bytes. Text that contains other "
     "characters, has a length (white space not counted) that is no multiple of four, or has padding anywhere but in place of the "
     "last one or two characters is refused with an exception of the library.",
     ["inputs"], "every byte value at every position, every combination of letters, padding, white space and foreign characters",
     "Tests encode and decode a handful of fixed strings; most byte values, paddings and malformed forms never occur.",
     ["src/base64.hh"], [("encoder", "src/base64.hh base64_encode"), ("decoder", "src/base64.hh base64_decode")],
     ["base64_encode", "base64_decode"],
     "Bit-level value-flow analysis of both functions: outputs as canonical functions of the input bits, compared with the RFC; "
     "characters as classes of the alphabet.")

prop("P29", "The ciphers compute the published functions",
     "For every 256 bit key, initialisation vector and block, the Twofish and AES ciphers encrypt and decrypt as published and "
     "decryption inverts encryption; the Salsa20 cipher produces the published key stream for every key and nonce, block after "
     "block, its block number being counted in 64 bits. Using a block cipher object does not change what it computes later, and it "
     "hands out the initialisation vector it was given.",
     ["inputs"], "every key, vector, block and block number",
     "Test vectors touch a few keys and blocks; a wrong substitution table entry, a lost carry or a data dependent slip stays "
     "unnoticed, and a cipher that is only self-consistent locks out every other program.",
     ["src/cipher.cc", "src/cipher.hh"],
     [("Twofish", "src/cipher.cc TwofishCipher"), ("AES", "src/cipher.cc AesCipher"), ("Salsa20", "src/cipher.cc Salsa20Cipher")],
     ["AesCipher", "TwofishCipher", "Salsa20Cipher"],
     "Bit-level value-flow analysis: the ciphers' outputs as canonical value graphs over the bits of key, vector and block, compared "
     "with graphs built from the published definitions; AES of the cryptographic library is uninterpreted.")

prop("P30", "Every operation comes to an end",
     "No import, export, key or text operation of the library loops forever, whatever the file, key file, document or compressed "
     "data contains and however the file ends: an input that is cut short or makes no progress ends in an error. (Excluded: objects "
     "the caller links into a cycle, and the time taken by the number of key transformation rounds a file asks for.)",
     ["inputs", "fault_sequences"], "every file content, text, container size and every point at which input ends or fails",
     "A test that meets an endless loop does not fail, it hangs; the inputs that provoke one (truncation inside a header, a counter "
     "at the end of its type, a failing read that is not an end of file) are not among the samples.",
     ["src"], [("record loops", "src/kdb.cc, src/kdbx.cc"), ("document loops", "src/kdbx.cc"),
               ("compression loops", "src/stream.cc"), ("block and key loops", "src/cipher.cc, src/key.cc, src/random.cc")],
     ["every public operation"],
     "Ranking argument per loop and calling context: counters against the value ranges of their bounds, iterators and siblings that "
     "advance, transfers passed on every path whose failure leaves the loop, progress contract of zlib.")

prop("P31", "Nesting in a file is limited",
     "However deeply a file nests groups in groups or histories in histories, importing it cannot exhaust the stack: every function "
     "an import calls recursively counts its depth against a fixed limit, the level of an imported group is limited as well, and a "
     "file beyond the limit is refused with an exception of the library. An export refuses what the import of the same format would "
     "refuse for this reason.",
     ["inputs"], "every nesting depth",
     "The sample files nest two or three levels; a stack overflow needs thousands and kills the process instead of failing a test.",
     ["src/kdbx.cc", "src/kdb.cc", "src/util.hh"],
     [("document recursion", "src/kdbx.cc ParseGroup/ParseEntry/WriteGroup/WriteEntry"), ("KDB levels", "src/kdb.cc KdbFile::Import/Export"),
      ("tree traversal", "src/util.hh dfs")],
     ["KdbFile", "KdbxFile"],
     "Strongly connected components of the call graph, depth parameters and the conditions that hold at each recursive call; the "
     "stack space of one level is taken to be at most a few tens of kilobytes.")
