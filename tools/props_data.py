p("C01", "Saving and reopening a database loses and changes nothing",
  "For every database whose texts are XML-representable (and whose groups are nested at most 1000 levels), saving it to any writer and opening the produced bytes with the same credentials succeeds and returns the same database: comment, compression, rounds, version, every meta setting, custom data, custom icons, attachments, the ordered tree of groups and entries with all their fields, strings, binaries, associations, times and history. Plain/protected status, empty values, whitespace and Unicode are preserved exactly. Only the generator name (always the library's own) and the recomputed parent links may differ.",
  ["inputs"], "every representable Database value (any tree shape, any field values and sizes, both compressions, any credentials)",
  "The unit and integration tests round-trip one empty Database::new and one fixed fixture; no populated group, entry, history item, attachment, custom icon or unusual text is ever written and read back.",
  [F+"kdb2_writer.rs", F+"kdb2_reader.rs", F+"kdb2_xml_writer.rs", F+"kdb2_xml_reader.rs", F+"xml.rs", T+"database.rs"],
  [("paired XML writer and reader functions per element", F+"kdb2_xml_writer.rs / kdb2_xml_reader.rs"), ("field-by-field transfer of XmlData and MetaData into Database", T+"database.rs open_kdb2")],
  ["Database::save output bytes", "Database::open result, all public fields"])
p("C02", "A database never opens with different credentials",
  "A file saved under one set of credentials (password, key file, or both) opens only with exactly those credentials: any other password, however similar, any other key file, and any other combination of the two yields an error and never a database. The error is not a panic and no content is returned.",
  ["inputs"], "every pair of distinct credentials, especially near misses (case, whitespace, prefix, NUL, one key bit, password versus key file versus both), over any saved database",
  "One test tries one wrong password on one fixture; near misses and key-file/password combinations are never tried.",
  [T+"composite_key.rs", T+"transformed_key.rs", T+"master_key.rs", F+"kdb2_reader.rs"],
  [("SHA-256 of the credential parts, AES key transformation, master key", T+"composite_key.rs, transformed_key.rs, master_key.rs"), ("start bytes comparison", F+"kdb2_reader.rs read")],
  ["Database::open result"])
p("C03", "Opening arbitrary or malformed data returns a result and never panics",
  "Database::open, KeyFile::open and the value parsers return Ok or Err for every byte sequence, including damaged, truncated or hostile files whose encryption is valid but whose inner payload, block stream, compressed data or XML is malformed. They never panic, abort, exhaust the stack, overflow arithmetic or keep reading after the end of the input.",
  ["inputs"], "every byte sequence given to the readers (key transformation rounds bounded, element nesting up to 120000, payloads up to a few MiB)",
  "Tests open three valid fixtures and never feed malformed data past the header; each parser branch needs its own malformed input, under valid encryption.",
  [F+"kdb2_reader.rs", F+"kdb2_xml_reader.rs", F+"xml.rs", F+"kf_reader.rs", "src/crypto/aes256.rs", "src/compression/gzip.rs", T+"color.rs"],
  [("Result-returning readers for every header, block and element", F+"kdb2_reader.rs, kdb2_xml_reader.rs, kf_reader.rs")],
  ["Database::open / KeyFile::open return or unwind"])
p("C04", "Any modified or truncated file is rejected or reads back identically",
  "If the bytes of a saved file are changed in any way (bits flipped, bytes replaced, inserted, deleted, blocks swapped, file truncated or extended), opening it with the correct credentials either fails with an error or returns exactly the content that was saved. Changing any byte of the unencrypted header always fails. A file whose recorded header hash is anything but the hash of its header is rejected.",
  ["inputs", "fault_sequences"], "every modification of every saved file (modifications that only raise the key transformation rounds beyond 2^17 are excluded for cost)",
  "No test modifies a file; each corruption position and kind exercises a different one of the signature, header hash, start bytes, block hash and block order checks.",
  [F+"kdb2_reader.rs", T+"database.rs", "src/io/log_reader.rs"],
  [("header hash stored inside the encrypted XML and compared on open", T+"database.rs open_kdb2, "+F+"kdb2_writer.rs write"), ("per-block SHA-256, block numbering and final block", F+"kdb2_reader.rs read_xml_bytes")],
  ["Database::open result compared with the saved content"],
  [("header_hash", "SHA-256 over all header bytes, kept inside the encrypted part", F+"kdb2_writer.rs")])
p("C05", "Saved files are standard KDBX 3.1 readable by other implementations",
  "Every saved file is a well-formed KDBX 3.1 file that an independent implementation of the format decodes, with the same credentials, to exactly the content of the database: signatures, version, required header fields and sizes, key derivation, AES-CBC payload, start bytes, hashed blocks, compression, header hash, well-formed XML with the standard element names, value encodings, attachment references and protected-value stream in document order.",
  ["inputs"], "every representable Database value, both compressions, any rounds and credentials",
  "The library's tests only read back its own output, so any mistake made symmetrically in writer and reader goes unseen; no independent decoder is consulted.",
  [F+"kdb2_writer.rs", F+"kdb2_xml_writer.rs", F+"xml.rs", F+"kdb2.rs", "src/crypto/*.rs", T+"stream_key.rs", T+"transformed_key.rs"],
  [("header, block and XML writers", F+"kdb2_writer.rs, kdb2_xml_writer.rs"), ("crypto wrappers", "src/crypto")],
  ["bytes produced by Database::save, decoded by the harness's own KDBX decoder"])
p("C06", "Standard KDBX 3.1 files from other programs open to their exact content",
  "Any standard KDBX 3.1 file, as KeePass-compatible programs write it, opens with the right credentials to exactly the content it holds, whatever its legitimate layout: any header order, any split of the payload into hashed blocks, compression on or off, any element order, indentation, CDATA sections, comments, character references, attribute or boolean casing, self-closing empty elements, protected or compressed attachments, and unknown elements such as deleted-object lists, which are ignored. A missing header hash is accepted.",
  ["inputs"], "every model content crossed with every layout choice the format allows",
  "Three small fixtures produced by two programs are opened, and only is_ok() is asserted; layout variations and content are never compared.",
  [F+"kdb2_reader.rs", F+"kdb2_xml_reader.rs", F+"xml.rs", "src/compression/gzip.rs", "src/crypto/*.rs"],
  [("header loop accepting any order", F+"kdb2_reader.rs read"), ("block reassembly", F+"kdb2_reader.rs read_xml_bytes"), ("event-driven XML reader", F+"kdb2_xml_reader.rs")],
  ["Database::open result compared with the harness's model of the file"])
p("C07", "Protected values and stored content never appear in clear",
  "A value marked protected never appears in clear (raw or merely base64/hex encoded) in the XML inside a saved file: it is encrypted with the file's inner stream, with no part of the keystream reused. No stored text, protected or not, appears in clear in the saved file outside the header comment, and the debug representation of databases, groups, entries and keys, and whatever is printed while saving, opening and searching, never reveals protected values or key material.",
  ["inputs"], "every database with protected and plain values in active and history entries, every save",
  "No test looks at the produced bytes, at the inner XML or at Debug output for secrets.",
  [F+"kdb2_xml_writer.rs", F+"kdb2_writer.rs", T+"string_value.rs", T+"binary_value.rs", T+"entry.rs", T+"composite_key.rs"],
  [("Salsa20 inner stream applied in document order", F+"kdb2_xml_writer.rs write_string_section, write_binary_section"), ("SecStr storage", T+"string_value.rs")],
  ["bytes of Database::save", "decrypted XML", "format!(\"{:?}\") of public types"])
p("C08", "Every save and every new identity uses fresh randomness",
  "Each save draws new master seed, transform seed, initialization vector, protected stream key and stream start bytes: across any number of saves, even of the same database in immediate succession, none of these values or any part of them repeats, is constant, or is derived from the content. New entries, groups and key files likewise get unique random identifiers and keys.",
  ["histories"], "every sequence of saves and constructions in a process",
  "Tests compare two draws of the random generator; nothing looks at what a save actually writes in the header, over many saves.",
  [F+"kdb2_writer.rs", "src/crypto/random_gen.rs", T+"key_file.rs", T+"entry_uuid.rs", T+"group_uuid.rs", T+"custom_icon_uuid.rs"],
  [("OS random generator per save", "src/crypto/random_gen.rs, "+F+"kdb2_writer.rs write")],
  ["header fields of saved files", "Entry::new().uuid, Group::new().uuid, KeyFile::new*().key"])
p("C09", "Results do not depend on how the stream splits reads and writes",
  "Opening a database or key file gives the same result however the reader delivers its bytes (one at a time, short reads at any boundary, interrupted reads), and saving produces a complete, valid file however few bytes the writer accepts per call. A successful save has delivered every byte of the file to the writer.",
  ["inputs", "schedules"], "every file crossed with every sequence of read/write chunk sizes and interruptions a Read or Write implementation may legally exhibit",
  "Tests use files and in-memory cursors, which always satisfy a request in one call.",
  ["src/io/log_reader.rs", "src/io/log_writer.rs", F+"kdb2_reader.rs", F+"kdb2_writer.rs", F+"kf_reader.rs", F+"kf_writer.rs", T+"database.rs"],
  [("exact reads and complete writes; header log records the bytes transferred", "src/io/log_reader.rs, log_writer.rs, "+F+"kdb2_reader.rs, kdb2_writer.rs")],
  ["Database::open/save and KeyFile::open/save over adversarial Read/Write"])
p("C10", "I/O failures at any point surface as errors",
  "If the reader fails or ends early at any point while a database or key file is opened, or the writer fails or stops accepting data at any point while one is saved, the operation returns an error: never a panic, never Ok. (A stream cut exactly where the remaining bytes are a complete key file, such as 32 bytes, is a valid key file.) The database being saved is unaffected and a later save of it succeeds.",
  ["crash_points", "fault_sequences"], "every call index and byte offset of the read and write sequence, every error kind, over generated databases and key files",
  "No test injects an I/O failure.",
  ["src/io/log_reader.rs", "src/io/log_writer.rs", F+"kdb2_reader.rs", F+"kdb2_writer.rs", F+"kf_writer.rs", F+"kf_reader.rs"],
  [("error propagation with ? at every read and write", F+"kdb2_writer.rs, kdb2_reader.rs")],
  ["result of open/save under an injected fault at each point"])
p("C11", "Key files survive saving and opening in every format",
  "A key file of any format (binary, hexadecimal, XML) that is saved and opened again has the same key bytes and the same format, and the produced bytes are the standard encoding of that format. A 32-byte file is read as a binary key, a 64-character hexadecimal file (either case) as a hex key, an XML 1.00 key file in any layout as an XML key, and anything else is rejected with an error.",
  ["inputs"], "every 32-byte key, every format, every XML layout, and every non-key-file byte sequence",
  "Tests open one fixture per format and check only the format; keys, round trips and rejects are sampled once.",
  [F+"kf_reader.rs", F+"kf_writer.rs", T+"key_file.rs"],
  [("length-based format detection", F+"kf_reader.rs read"), ("per-format writers", F+"kf_writer.rs")],
  ["KeyFile::save bytes", "KeyFile::open result"])
p("C12", "Credentials combine into keys exactly as KeePass specifies",
  "For every password and key file the composite key equals the KeePass definition: SHA-256 over the concatenation of the SHA-256 of the UTF-8 password, if any, and the key-file key, if any; and the key actually encrypting a saved file is the composite key transformed by the file's seed and number of AES rounds, hashed, and mixed with the master seed. Distinct credentials give distinct composite keys (a key file that holds the very hash of a password stands for that password).",
  ["inputs"], "every password (any Unicode, any length), every key, every rounds count and seed",
  "Each derivation is pinned on one hard-coded vector; lengths, Unicode and round counts are not varied.",
  [T+"composite_key.rs", T+"transformed_key.rs", T+"master_key.rs", "src/crypto/sha256.rs"],
  [("hashing of the credential parts", T+"composite_key.rs"), ("AES-ECB rounds", T+"transformed_key.rs"), ("seed mixing", T+"master_key.rs")],
  ["CompositeKey::unsecure", "decryptability of saved files by the harness's own derivation"])
p("C13", "Searches return exactly the matching entries and groups",
  "find_entries returns, once each, exactly the current entries anywhere in the tree of which at least one plain string contains the text ignoring case, and find_groups exactly the groups, including the root, whose name does; protected values and history items never match, and the empty text matches every entry holding a plain string and every group. The mutable variants return the same results in the same order and edits through them affect exactly those objects.",
  ["inputs"], "every tree and every search text, including Unicode case pairs, text in different strings and levels, and texts occurring only in protected values, keys or history",
  "Four tests search one fixture-like tree with one word each; completeness, exactness and Unicode case are not explored.",
  [T+"database.rs", T+"group.rs"],
  [("breadth-first walk with lowercase containment on plain strings", T+"database.rs find_*, entry_contains_string")],
  ["Database::find_entries/_mut, find_groups/_mut"])
p("C14", "Lookup by identifier finds the entry or group wherever it is",
  "get_entry and get_group return an object with exactly the requested identifier if and only if the tree holds one at any depth (the root group included, history items excluded), and None otherwise. The mutable variants find the same object, and changes made through them are visible at its place in the tree and nowhere else.",
  ["inputs"], "every tree and every present or absent identifier, including near-identical identifiers and those that only occur in history or reference fields",
  "Tests look up one object directly below the root.",
  [T+"database.rs", T+"group.rs"],
  [("breadth-first walk comparing UUIDs", T+"database.rs get_*")],
  ["Database::get_entry/_mut, get_group/_mut"])
p("C15", "Tree editing and traversal behave like an ordered tree",
  "After any sequence of adding and removing entries and groups, a group holds exactly the objects added and not removed, in order of addition; removal takes out exactly the first direct child with the identifier, returns it intact, and changes nothing when there is none. Iteration, shared or mutable, visits the group and every descendant exactly once, parents before children, level by level in order, and modifications made while visiting reach exactly the visited group, and subgroups added to or removed from it then are, or are not, visited in turn.",
  ["histories"], "every sequence of add, remove, move and iterate operations on trees of any shape",
  "Tests add or remove one object and iterate a fixed five-group tree.",
  [T+"group.rs"],
  [("Vec-backed children; queue-based iterators", T+"group.rs Iter, IterMut")],
  ["Group public fields and return values after each operation"],
  [("todo queue", "groups still to visit", T+"group.rs Iter/IterMut")])
p("C16", "Entry and time accessors read back exactly what was set",
  "Each entry setter (title, username, password, URL, notes, other) stores exactly the given text under its own key, readable through its getter and visible to other(), replaces any previous value, stores only the password as protected, and leaves every other field untouched; getters return None for absent keys and read plain and protected values alike. The time accessors of entries and groups set and return exactly their own field.",
  ["histories"], "every sequence of setter calls with any text and key on any entry or group",
  "Tests call each setter once with one value on a new entry.",
  [T+"entry.rs", T+"group.rs", T+"times.rs", T+"string_value.rs"],
  [("strings map keyed by StringKey", T+"entry.rs"), ("Times implementations", T+"entry.rs, group.rs")],
  ["Entry getters and strings map", "Times getters and public fields"])
p("C17", "Value conversions are total, exact and inverse to each other",
  "Color text conversion accepts exactly '#' followed by six hexadecimal digits in either case, yields those components, rejects everything else with an error without panicking, and writing then reading a color is the identity. Icon and obfuscation numbers convert exactly for their defined ranges (0-68 and 0-1), inversely in both directions, and are errors otherwise; string keys map standard names ignoring case to their own kind and every other name to itself, inversely.",
  ["inputs"], "every string and every 32-bit number",
  "Tests sample valid colors and tabulated icons; arbitrary strings (multi-byte, signs, spaces) and out-of-range numbers are not explored.",
  [T+"color.rs", T+"icon.rs", T+"obfuscation.rs", T+"string_key.rs"],
  [("from/to functions", T+"color.rs, icon.rs, obfuscation.rs, string_key.rs")],
  ["Color::from_hex_string/to_hex_string, Icon/Obfuscation::from_i32/to_i32, StringKey::from_string/to_string"])
p("C18", "Invalid headers are rejected with the error naming the problem",
  "A file whose header has one defect is rejected with exactly the corresponding error and its details: wrong signature, KeePass 1 or unknown database type, unknown header field, wrong size of a fixed-size field, unsupported cipher, compression or inner stream, or a missing required field. Header validation does not depend on the order of the fields or on the other fields' values.",
  ["inputs"], "every header field crossed with every wrong size, value, position and omission, in every field order",
  "No test opens a file with a defective header.",
  [F+"kdb2_reader.rs", T+"database.rs", T+"error.rs", "src/common.rs"],
  [("size and value checks per header field, get_header for missing ones", F+"kdb2_reader.rs"), ("signature checks", T+"database.rs open")],
  ["Error variant and payload returned by Database::open"])
p("C19", "The payload block stream is verified block by block",
  "The decrypted payload is accepted only if it starts with the header's start bytes and consists of blocks numbered consecutively from zero, each with the correct hash, closed by an empty block with an all-zero hash. A wrong number, a wrong hash, or a bad final block, at any position in a stream of any number of blocks, is rejected with the error for that problem, and a stream that ends early is rejected with an error.",
  ["inputs"], "every block sequence (1 to many blocks, any sizes) with every single defect at every position",
  "No test reads a multi-block payload or a defective one.",
  [F+"kdb2_reader.rs"],
  [("block loop", F+"kdb2_reader.rs read_xml_bytes"), ("start bytes comparison", F+"kdb2_reader.rs read")],
  ["Error variant returned by Database::open for harness-encrypted payloads"])
p("C20", "Opened databases link every group and entry to its containing group",
  "After opening any file, every entry and every group below the root carries the identifier of the group that directly contains it as its parent, at every depth and regardless of the element order in the file, and the root group's parent is nil. This also holds after edits that moved objects to other groups, once the database is saved and reopened.",
  ["inputs", "histories"], "every tree shape, element order (identifier before or after the children) and sequence of moves",
  "No test reads the parent fields of an opened multi-level database.",
  [F+"kdb2_xml_reader.rs", T+"group.rs", T+"entry.rs"],
  [("parents assigned once the containing group's identifier is known", F+"kdb2_xml_reader.rs read_group")],
  ["Entry.parent, Group.parent after Database::open"],
  [("parent", "identifier of the containing group", T+"entry.rs, group.rs")])
p("C21", "Omitted optional elements take the documented defaults",
  "Opening a file that omits any subset of the optional elements succeeds, gives every omitted setting its default (the same as in a newly created database, entry or group; an omitted generator name is empty, an omitted identifier nil), and leaves every element that is present unaffected. A file without a group tree yields an empty root group named Root, and a file without a header comment has no comment.",
  ["inputs"], "every subset of omitted elements at every level of every content",
  "No test opens a file with missing elements; default constructors are tested only in isolation.",
  [F+"kdb2_xml_reader.rs", T+"xml_data.rs", T+"entry.rs", T+"group.rs", T+"database.rs", "src/common.rs"],
  [("Default implementations filled by the reader", T+"xml_data.rs, entry.rs, group.rs"), ("fallback root group", T+"database.rs open_kdb2")],
  ["Database::open result"])
p("C22", "Sessions of edits, saves and reopens never lose or resurrect anything",
  "Over any history of opening, editing through the public API (adding, removing, moving, searching and changing entries, groups, attachments and settings), changing credentials, saving and reopening, each reopened database equals the state at its last save, with nothing from before reappearing. Only the credentials in force at that save open the file, and saving an unchanged reopened database again preserves everything.",
  ["histories"], "every sequence of edits, credential changes, saves and reopens",
  "Tests perform a single save and a single open of an unedited database.",
  [T+"database.rs", T+"group.rs", T+"entry.rs", F+"kdb2_writer.rs", F+"kdb2_reader.rs"],
  [("composite key kept in the database and used on save", T+"database.rs"), ("full rewrite on save", F+"kdb2_writer.rs")],
  ["Database state after each reopen"])
p("C23", "Saving refuses content the format cannot represent",
  "Whenever save returns Ok, the bytes it produced open again with the same credentials to the same content; content that the format cannot hold (characters not allowed in XML, protected texts that are not UTF-8, a header comment longer than 65535 bytes, groups nested more than 1000 levels) makes save return an error instead of producing a damaged file. Saving a KeePass 1 database is refused with an error before anything is written. (A custom string key that differs from a standard key only in case is that standard key.)",
  ["inputs"], "every Database value, representable or not",
  "Tests never save a database with unusual content and never check what happens to unrepresentable content.",
  [F+"kdb2_writer.rs", F+"kdb2_xml_writer.rs", F+"xml.rs", T+"database.rs"],
  [("validation while writing", F+"xml.rs write_string, "+F+"kdb2_writer.rs write_comment"), ("database type dispatch", T+"database.rs save")],
  ["Database::save result and the reopened content"])
p("C24", "Malformed values inside a file are rejected, never guessed",
  "A file in which a known element holds a value that is not valid for its type (boolean, number, date, identifier, base64, color, icon, obfuscation, compressed data, attribute; nothing at all where a boolean, number, date, identifier, icon or obfuscation has to stand), or lacks the key or value of a string, attachment, custom-data item or custom icon, or whose XML is not well formed or has a foreign root element, is rejected with an error. It is never opened with a default or partially read value in that place.",
  ["inputs"], "every known element at every level crossed with every kind of malformed value",
  "No test opens a file with a malformed value.",
  [F+"kdb2_xml_reader.rs", F+"xml.rs"],
  [("typed read functions returning XmlError", F+"xml.rs")],
  ["Database::open result for harness-encrypted XML with one defect"])
p("C25", "Memory use is proportional to the data",
  "Opening and saving never need more memory than a fixed amount plus a small multiple of the data itself (the file and the document it decrypts and decompresses to): sizes, counts and lengths that a damaged or hostile file merely claims, without holding that much data, do not make the library allocate them. Repeated opening, failing and saving leaves nothing allocated.",
  ["inputs"], "every file, especially those whose block sizes, field lengths or compressed sizes claim far more than the file holds, and every content of any size",
  "No test measures allocation or opens a file with a false size.",
  [F+"kdb2_reader.rs", F+"kdb2_xml_reader.rs", F+"kf_reader.rs", "src/compression/gzip.rs", "src/crypto/aes256.rs", "src/io/log_reader.rs", "src/io/log_writer.rs"],
  [("block data read through a limited reader instead of a buffer of the claimed size", F+"kdb2_reader.rs read_xml_bytes"), ("growing output buffers", "src/compression/gzip.rs, src/crypto/aes256.rs")],
  ["bytes the allocator holds while Database::open, Database::save and KeyFile::open run"])
p("C26", "Operations do not influence each other",
  "What an operation returns depends only on its own arguments: opening, failing to open, saving, searching and key derivation give the same results whatever other files, credentials and operations came before in the process, including files that share salts, credentials, rounds or content with it, after operations whose stream failed or panicked, from inside the stream of another operation, and while other threads work on other databases or share the same one.",
  ["histories", "schedules"], "every sequence of operations on any files and every concurrent mix of such sequences",
  "Each test performs one operation on one database on one thread.",
  [F+"kdb2_reader.rs", F+"kdb2_writer.rs", T+"database.rs", T+"composite_key.rs", T+"transformed_key.rs", T+"master_key.rs", "src/crypto/*.rs"],
  [("no global state; everything passed as arguments", "src/")],
  ["results of Database::open/save, KeyFile::open/save, CompositeKey, searches in sequences and on parallel threads"])
p("C27", "Failures reveal no secrets",
  "The error of a failed operation, through Display, Debug and its sources, and whatever the operation prints to the standard streams, never contain a password, key material or a protected value, in any readable form: not when a database is opened with wrong credentials, or is damaged or malformed at or around its protected values, not when saving fails because of them or of the writer, and not when a key file is malformed. (Errors may name XML elements.)",
  ["inputs", "fault_sequences"], "every failing open or save of every database with secrets and every malformed key file",
  "No test looks at the text of an error.",
  [T+"error.rs", F+"xml.rs", F+"kdb2_xml_reader.rs", F+"kdb2_xml_writer.rs", F+"kf_reader.rs"],
  [("messages built from positions and kinds, not values", F+"xml.rs read_err, "+T+"error.rs")],
  ["Error through Display, Debug and source()", "standard output and standard error of the process"])
p("C28", "Comparison is exact and copies are faithful and independent",
  "Two databases, groups, entries, keys or key files compare equal if and only if they agree in everything they hold: every setting, string, protected or plain status, attachment, link, time and the order of children and history. A clone equals its original, credentials included, and neither changes when the other is changed or dropped.",
  ["inputs"], "every value and every single difference from it, in every field at every depth",
  "Tests compare only freshly built identical values; no test compares values that differ in one field or changes one of two copies.",
  [T+"database.rs", T+"group.rs", T+"entry.rs", T+"string_value.rs", T+"binary_value.rs", T+"composite_key.rs", T+"key_file.rs"],
  [("derived PartialEq and Clone", "src/types/*.rs")],
  ["== and clone() of the public types"])
p("C29", "New objects start in the documented state",
  "A new database, group, entry or key file is in the documented initial state whatever happened before: empty, with the default settings, the current time in every time field, no parent, and a fresh random identifier (nil for the Default values); a new database has the given key, an empty root group named Root, and can be saved and opened at once; a new key file of each kind holds 32 bytes and has that kind.",
  ["histories"], "every sequence of constructions and other operations, any names and credentials",
  "Tests construct one object each and check some of its fields.",
  [T+"database.rs", T+"entry.rs", T+"group.rs", T+"key_file.rs", "src/common.rs", T+"entry_uuid.rs", T+"group_uuid.rs"],
  [("constructors and Default implementations", T+"database.rs, entry.rs, group.rs, key_file.rs")],
  ["fields of values returned by new() and default()"])
p("C30", "Errors name what went wrong",
  "Every error identifies its cause: a failure of the stream while opening or saving is returned as Error::Io with the kind, system error code and message the stream gave, and as the error's cause (only the XML writer of key files wraps it in its text); a stream that ends inside the header or accepts no more bytes is an I/O error of the matching kind (UnexpectedEof, WriteZero); wrong credentials are InvalidKey or a crypto error; malformed XML content of a file with a valid key is an XML or header hash error; invalid key files and colours are reported as the documented variant; the text of every error tells its details, and errors that differ in kind or details have different texts.",
  ["inputs", "fault_sequences"], "every failure kind, message and position, all wrong credentials, damage in any element, all values an error carries",
  "Tests check a handful of error variants and no texts; nothing checks that a stream's own error arrives unchanged.",
  [T+"error.rs", T+"color.rs", T+"icon.rs", T+"obfuscation.rs", "src/format/kdb2_reader.rs", "src/format/kf_reader.rs", "src/format/xml.rs", "src/io/log_reader.rs", "src/io/log_writer.rs"],
  [("Error and its conversions", T+"error.rs"), ("raising sites", "src/format/*.rs, src/types/database.rs")],
  ["error values returned by open, save and the conversions, with their Display text and cause"])
p("C31", "Identifiers and small values behave as the values they hold",
  "Entry, group and custom icon identifiers, binary identifiers and keys, string keys, comments, associations, colours, icons, versions, rounds and the enumerations are equal exactly when what they hold is equal; their order is total and agrees with equality (identifiers by their bytes, names by their text, rounds and versions by number); equal values hash alike, so sets and maps keyed by them hold one item per value and find each again; identifiers print as the usual hyphenated form of the UUID they hold; default and nil identifiers are all zero.",
  ["inputs"], "all tuples of values, equal, differing in one byte, bit or character, or permuted",
  "Tests check nil identifiers and one printed form; laws over pairs and triples of values need generated values.",
  [T+"entry_uuid.rs", T+"group_uuid.rs", T+"custom_icon_uuid.rs", T+"string_key.rs", T+"binary_id.rs", T+"binary_key.rs", T+"version.rs", T+"transform_rounds.rs", T+"icon.rs", T+"color.rs"],
  [("derived and manual comparison, order, hash and Display implementations", "src/types/*.rs")],
  ["results of ==, cmp, hash, Display, and look-ups in maps and sets"])
p("C32", "Protected values and composite keys leave no readable copy in released memory",
  "While a database is opened, saved, copied, compared, searched, read through its accessors, formatted, edited and given back, no heap memory that is given back (freed, or left behind by growing) holds, readable, a protected string or attachment that the database was built with, that the file holds encrypted, or that is set from an owned text; replaced, removed and dropped protected values are wiped, in entries, history items and copies alike. The same holds for the composite key, and for the key of a key file while it is copied, dropped or made into a composite key. (Outside: the caller's own texts and passwords, reading and writing key files, failed operations on invalid values, the stack, and the key schedules of the cipher library.)",
  ["histories"], "every history of opening, editing, copying, saving and dropping databases and keys that hold protected values",
  "No test looks at memory; whether a value is wiped depends on which operation gives it back, and a copy made on the way is invisible in every result.",
  [T+"string_value.rs", T+"binary_value.rs", T+"composite_key.rs", T+"key_file.rs", T+"entry.rs", F+"xml.rs", F+"kdb2_xml_writer.rs", "src/crypto/salsa20.rs"],
  [("SecStr holds protected values and keys and wipes them when dropped", T+"string_value.rs, binary_value.rs, composite_key.rs, key_file.rs"), ("decryption and encryption straight from and to it", F+"xml.rs, kdb2_xml_writer.rs")],
  ["blocks of memory given back to the allocator"])
p("C33", "The work grows no faster than the content",
  "The processor time of opening and of saving a database, and of cloning, comparing, searching, visiting (read-only or mutably), looking up, removing and adding entries and dropping, grows at most about in proportion to the content: to the number of entries, groups, history items, strings, protected strings, attachments, pooled attachments, custom icons, custom data items and associations, to the length of texts and attachments, and, for opening, to the number of hashed blocks, pieces of text, comments, references, unknown or repeated elements and attributes in the file. (The nesting depth, which the XML parser pays for, and the transformation rounds are excepted.)",
  ["inputs"], "every kind of content and combination of kinds, at every size",
  "Tests use databases of a few entries and measure nothing; work that grows with the square of the content looks the same on them and makes a database of a real size unusable.",
  [F+"kdb2_reader.rs", F+"kdb2_xml_reader.rs", F+"kdb2_xml_writer.rs", F+"xml.rs", "src/io/log_reader.rs", "src/format/kdb2_writer.rs", T+"database.rs", T+"group.rs"],
  [("one pass over the XML events, hashed blocks and tree", F+"*.rs, src/io, "+T+"group.rs")],
  ["processor time of the thread that calls the operation"])
p("C34", "Nothing but the given streams is used",
  "Opening, saving, copying, comparing, searching, visiting and editing databases, and reading and writing key files, exchange nothing with the surroundings but through the given reader or writer, the system's random numbers and its clock (and the messages on standard error, see C27): whatever the content, and whether or not they succeed, no file is opened, created, renamed or removed, no connection made, no program started, and no variable of the environment asked for or set.",
  ["inputs", "histories", "fault_sequences"], "every content, history of operations, damaged input and failing stream",
  "No test observes side effects; what is written aside only for some content or on some failure leaves every result unchanged.",
  [T+"database.rs", T+"key_file.rs", F+"kdb2_reader.rs", F+"kdb2_writer.rs", F+"kdb2_xml_reader.rs", F+"kf_reader.rs", "src/crypto"],
  [("everything read and written through the given Read or Write", T+"database.rs, key_file.rs")],
  ["calls of the C library for files, sockets, processes and the environment, on the thread that calls the operation"])
