p("C06","No archive can crash its reader",
 "Opening any file as an archive and then looking up, listing, reading and verifying ends in a result or an error, whatever the file's bytes: no panic, no arithmetic overflow, no access outside a buffer, no endless loop and no attempt to allocate more memory than the file's own size can justify. This covers every header, table, file entry, sector table, special file and the codecs implemented in this repository.",
 ["inputs"],"all file contents up to the bound: header fields, table contents, entries, stored data",
 "tests open well-formed archives and a few truncated ones; the crashing inputs combine a particular field value with a particular position or flag",
 ["mopaq/src/archive.rs","mopaq/src/header.rs","mopaq/src/tables","mopaq/src/compression","mopaq/src/special_files"],[("opening","mopaq/src/archive.rs load_tables"),("reading","mopaq/src/archive.rs read_file, read_sectored_file"),("tables","mopaq/src/tables/het.rs HetTable::read, mopaq/src/tables/bet.rs BetTable::read, mopaq/src/tables/common.rs read_bytes_at"),("codecs","mopaq/src/compression/algorithms")],["Archive::open","Archive::read_file","Archive::list_all","decompress","HetTable::read","BetTable::read"])
p("C07","The built-in codecs are the format's and give back what they were given",
 "Sparse compression loses nothing: decompressing what it produced gives the original bytes, for every arrangement of zero runs and literals, and every token of a sparse stream is expanded as the format prescribes. ADPCM streams decode to exactly the samples the format prescribes for one and two channels, and encoding a signal and decoding it keeps the number of samples, the first sample of each channel, and never leaves a sample further off than the step to it (or 2048). Data that does not shrink is returned as it is, data a codec cannot represent is refused, and every flag byte names its own method.",
 ["inputs"],"all data, streams and flag bytes up to the bound",
 "tests compress a few texts and sine waves; errors at run-length limits, at the ends of the step table or at clamping need particular inputs",
 ["mopaq/src/compression"],[("sparse","mopaq/src/compression/algorithms/sparse.rs"),("ADPCM","mopaq/src/compression/algorithms/adpcm.rs"),("dispatch","mopaq/src/compression/compress.rs, mopaq/src/compression/decompress.rs, mopaq/src/compression/methods.rs")],["compress","decompress","CompressionMethod::from_flags"])

p("C08","The attributes reported for a file are those stored for it",
 "Whatever the (attributes) file contains, the CRC, time, MD5 and patch mark reported for each file are the ones stored for that file's block, nothing is reported that is not stored, a truncated file or another version is refused, and attributes written by the library read back as they were, for every combination of attribute kinds and every number of files.",
 ["inputs"],"all contents of the (attributes) file, all flag combinations",
 "tests parse two or three files with fixed values; mistakes in the position of a later array or in the patch bit of the ninth file need particular flags and counts",
 ["mopaq/src/special_files/attributes.rs","mopaq/src/archive.rs"],[("parsing","mopaq/src/special_files/attributes.rs Attributes::parse"),("writing","mopaq/src/special_files/attributes.rs Attributes::to_bytes"),("loading","mopaq/src/archive.rs load_attributes")],["Attributes::parse","Attributes::to_bytes","Archive::load_attributes","Archive::get_file_attributes"])
p("C09","Listings name exactly the files there are",
 "A list file is read line by line: names keep their characters, comments, blank lines and text behind a semicolon are left out, whatever the line ends. Listing an archive gives the listed files that exist, in the list's order, with their own sizes, flags and hashes; listing all entries gives every block in use exactly once. An archive the library built lists every file that was added.",
 ["inputs"],"all list file texts, all hash and block table contents, all sets of added files",
 "tests list archives with a complete, ordinary list file; shared blocks, deleted entries, repeated names and unusual line ends need particular contents",
 ["mopaq/src/special_files/listfile.rs","mopaq/src/archive.rs","mopaq/src/builder.rs"],[("list file","mopaq/src/special_files/listfile.rs parse_listfile"),("listing","mopaq/src/archive.rs list, list_all, list_with_hashes, list_all_with_hashes"),("generating","mopaq/src/builder.rs prepare_listfile")],["Archive::list","Archive::list_all","Archive::list_with_hashes","Archive::list_all_with_hashes","parse_listfile"])
p("C10","An archive appears at its path complete or not at all",
 "If any operation on the file system fails while an archive is built, or the process stops at any point, the destination still holds what it held before, or the complete new archive; a build that reports success has produced the complete archive, a build that fails reports it and leaves no temporary file behind, and short writes and reads do no harm.",
 ["crash points","faults"],"every operation of the build as the point of failure or of a stop",
 "no test makes an operation fail or stops a build; each point of failure is a different run",
 ["mopaq/src/builder.rs"],[("building","mopaq/src/builder.rs build"),("writing","mopaq/src/builder.rs write_archive, write_file, write_header")],["ArchiveBuilder::build"])
p("C11","The integrity status of a version 4 archive tells what was changed",
 "In an archive the library built, every stored digest is the MD5 of its part and the reported status is valid throughout, wherever the archive starts in the file. If a part or its stored digest is changed, the status of that part, and of no other table, becomes invalid, or the archive cannot be opened. Archives of other versions have no status.",
 ["inputs"],"all stored digests, changes in every part",
 "tests look at intact archives; a digest that is not compared, compared in part or taken over the wrong range still reports them valid",
 ["mopaq/src/archive.rs","mopaq/src/builder.rs"],[("checking","mopaq/src/archive.rs validate_v4_md5_checksums"),("writing","mopaq/src/builder.rs finalize_v4_header_md5, write_hash_table, write_block_table, write_het_table, write_bet_table")],["Archive::get_info","ArchiveBuilder::build"])
p("C12","A file with a checksum is given out only if it agrees with it",
 "Reading a single-unit file that has a checksum succeeds if and only if the contents, after decryption and decompression, have the stored checksum, and then gives exactly these contents. So a change of any single byte of a stored file or of its checksum is reported and never passed on as data.",
 ["inputs"],"all contents and all stored checksums, every changed byte",
 "tests read intact files and one with an obviously wrong checksum; a checksum compared in part or taken over the wrong data needs particular values",
 ["mopaq/src/archive.rs","mopaq/src/builder.rs"],[("checking","mopaq/src/archive.rs read_file"),("writing","mopaq/src/builder.rs write_file")],["Archive::read_file","ArchiveBuilder::generate_crcs"])

p("C13","A signature is valid only for the archive it was made for",
 "The digest a weak signature is checked against covers every byte from the start to the end of the archive, with the signature file itself taken as zeros, and nothing outside; it does not depend on how much is read at a time. A decrypted weak or strong signature is accepted exactly if it is the correctly padded digest of the right size, in every byte. Files that are too short, empty or without their mark are not taken for signatures, and an archive without a signature, or with a made-up one, is never reported as validly signed.",
 ["inputs"],"all decrypted blocks and digests, all positions of the signature in the archive, all signature files",
 "tests check the absence of signatures and one digest; no archive with a valid signature can be made without Blizzard's keys, so acceptance is never exercised",
 ["mopaq/src/crypto/signature.rs","mopaq/src/archive.rs"],[("digest","mopaq/src/crypto/signature.rs calculate_mpq_hash_md5"),("padding","mopaq/src/crypto/signature.rs verify_weak_block, verify_pkcs1_v15_md5, verify_mpq_strong_signature_padding"),("parsing","mopaq/src/crypto/signature.rs parse_weak_signature, parse_strong_signature"),("status","mopaq/src/archive.rs verify_signature")],["Archive::verify_signature","calculate_mpq_hash_md5","parse_weak_signature","parse_strong_signature"])
p("C14","The C interface is a safe set of handles with cursors",
 "A handle returned by the C interface works until it is closed and never again, whatever other handles are opened and closed; any other value is refused with an error and nothing else happens. Reading returns the next bytes of the file from the cursor, never more than asked for or than are left, and writes nothing behind them; moving the cursor by any 64-bit distance from the start, the current place or the end goes to that place, to the end if it lies behind it, and is refused before the start. Enumeration reports every file once, stops when told to and lets the callback use the archive; verification tells intact from damaged files and returns; information is written only into buffers large enough for it.",
 ["inputs","histories"],"all handle values, all distances and read counts, all sequences of opening and closing",
 "tests open one archive and read a file from its start; a stale handle, a distance with the top bit set or a callback that uses the archive needs a particular call",
 ["storm-ffi/src/lib.rs"],[("handles","storm-ffi/src/lib.rs SFileOpenArchive, SFileCloseArchive, SFileOpenFileEx, SFileCloseFile"),("cursor","storm-ffi/src/lib.rs SFileReadFile, SFileSetFilePointer, SFileGetFileSize"),("enumeration","storm-ffi/src/lib.rs SFileEnumFiles"),("verification","storm-ffi/src/lib.rs SFileVerifyFile, SFileVerifyArchive"),("information","storm-ffi/src/lib.rs SFileGetFileInfo")],["SFileOpenArchive","SFileOpenFileEx","SFileReadFile","SFileSetFilePointer","SFileEnumFiles","SFileVerifyArchive","SFileGetFileInfo","SFileExtractFile","SFileCreateArchive"])
p("C15","The command-line tool extracts files into the output directory and nowhere else",
 "Whatever the files of an archive are called, extracting them creates and changes files only below the output directory, and does not end the program abnormally; every file with a harmless name is extracted to its place with its content. A single file goes exactly to the place given, and nothing is written if it is not there. A directory packed with the tool is unpacked with the same names and contents. Verification succeeds exactly if every file can be read.",
 ["inputs"],"all file names an archive can hold, all contents",
 "tests extract archives with ordinary names; a name that leads out of the directory needs an archive made for that purpose",
 ["storm-cli/src/commands/file.rs","storm-cli/src/commands/archive.rs"],[("extraction","storm-cli/src/commands/file.rs extract"),("creation","storm-cli/src/commands/archive.rs create"),("verification","storm-cli/src/commands/archive.rs verify")],["storm-cli file extract","storm-cli archive create","storm-cli archive verify"])
p("C16","Another reader of the format understands every archive the library writes",
 "An archive the library builds has the layout of its version: the header tells version, sector size, archive size and the places and sizes of the tables, no two parts overlap, the tables are encrypted with their keys, every block has one name at its probing place, with the locale asked for. A reader written from the format's description alone finds every file and, with the file's key made of its plain name, position and size, gets exactly its bytes from its sectors.",
 ["inputs"],"all contents, all combinations of version, encryption, checksums, sector size, locale",
 "tests read archives back with the same library, so a mistake made alike in writing and reading is never seen",
 ["mopaq/src/builder.rs"],[("layout","mopaq/src/builder.rs write_archive, write_header"),("files","mopaq/src/builder.rs write_file, calculate_file_key, encrypt_data"),("tables","mopaq/src/builder.rs write_hash_table, write_block_table, add_to_hash_table")],["ArchiveBuilder::build"])
p("C17","Archives of other tools are read as the format says",
 "A file in an archive written by another tool from the format's description reads as the bytes stored in it: in one unit or in sectors, raw, marked as compressed but not shortened, compressed or imploded, plain or encrypted with a key of its plain name, adjusted by position and size or not, in directories or not, wherever the archive starts, and as often as it is read.",
 ["inputs"],"all contents and every way of storing them",
 "tests read archives the same library built; what only other tools write is never read",
 ["mopaq/src/archive.rs","mopaq/src/tables/hash.rs"],[("reading","mopaq/src/archive.rs read_file, read_sectored_file"),("keys","mopaq/src/crypto/hash.rs plain_name"),("lookup","mopaq/src/tables/hash.rs find_file")],["Archive::open","Archive::read_file","Archive::find_file"])
p("C18","The description of an archive tells what is in it",
 "What the library reports about an archive is true of the file: its size, where the archive starts, version, sector size, the number of files in use, whether any of them is encrypted, whether there is a list file, attributes, user data or a signature, and where each table lies and how large it is. It does not matter whether the tables were loaded when the archive was opened or later, and describing an archive whose tables can be read never fails.",
 ["inputs"],"all block entries, all combinations of special files, versions and starts",
 "tests describe one archive of each version, without empty or deleted files",
 ["mopaq/src/archive.rs"],[("description","mopaq/src/archive.rs get_info"),("deferred loading","mopaq/src/archive.rs OpenOptions::load_tables, load_tables")],["Archive::get_info","OpenOptions::load_tables"])
p("C19","An archive answers the same whatever was asked before, and whatever its reads did",
 "Reading, listing, looking up and describing give the same answers in any order and as often as they are asked, whichever other archives are open. If the operating system returns less than was asked for, the answers are the same; if a read fails, the question ends in an error or the right answer, never in wrong data, and once reads work again the same archive gives the right answers.",
 ["histories","faults"],"all orders of questions, every failing read",
 "tests ask each question once on a fresh archive, with a file system that never fails",
 ["mopaq/src/archive.rs"],[("reading","mopaq/src/archive.rs read_file, read_sectored_file, read_bytes_at"),("loading","mopaq/src/archive.rs load_tables"),("listing","mopaq/src/archive.rs list, list_all")],["Archive::read_file","Archive::list","Archive::get_info","Archive::find_file","Archive::verify_signature"])
