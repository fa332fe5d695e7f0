"""what each property's check runs"""
V4 = ["version=%d" % i for i in range(4)]
PROPS = {
"C01": dict(bin="c01", bounds="one or three files; contents up to 13 symbolic bytes; sector-boundary contents up to 3 sectors of 512/1024 bytes with the words at every sector edge symbolic; sparse-compressed contents up to 1500 bytes with 8 symbolic bytes; files of 70,001 and 132,001 bytes in 3 to 258 sectors behind another file of 66,000 bytes, with up to six symbolic words; zlib, LZMA and bzip2 on fixed contents up to 9000 bytes; files from disk of five lengths with six methods and every encryption mode; versions 1-4, all encryption modes, both checksum modes", outside="longer contents, symbolic data through zlib/bzip2/LZMA",
  harnesses=[dict(name="h_rt_disk", shards=V4, covers=["disk"], cost=2), dict(name="h_rt_small", shards=V4, covers=["small"]), dict(name="h_rt_multi", shards=V4, covers=["one sector", "several sectors"], cost=3), dict(name="h_rt_sparse", shards=V4, covers=["compressed"], cost=4),
             dict(name="h_rt_codecs", cost=2), dict(name="h_rt_large", shards=V4, covers=["large"], cost=4), dict(name="h_rt_default", covers=["default"]), dict(name="h_rt_several", shards=V4)]),
"C02": dict(bin="c02", bounds="hash tables of 2 and 4 slots with every entry symbolic; archives of 1-6, 9, 16, 17, 31 and 33 files of every version built by the library, packed tables or not; hand-made archives with a deleted entry and symbolic block entries; archives of 127, 255, 256 and 300 files; tables of 32, 256 and 1024 slots with the wanted entry up to 1023 places behind its own; full tables with five names colliding at six places; every spelling of six names; symbolic hi-block words", outside="larger symbolic tables, other names",
  harnesses=[dict(name="h_probe2", covers=["present", "absent"]), dict(name="h_probe4", covers=["present", "absent"], cost=3), dict(name="h_built", covers=["stored", "missing"], cost=2), dict(name="h_many", shards=V4, covers=["stored", "missing"], cost=3), dict(name="h_hundreds", covers=["hundreds"]), dict(name="h_chain", covers=["present", "absent"]), dict(name="h_collide", shards=V4, covers=["crowded"]), dict(name="h_crafted", covers=["stored", "missing"]), dict(name="h_hi")]),
"C03": dict(bin="c03", bounds="every key with blocks up to 4 words (reference comparison up to 3), five fixed keys with 24, 70 and 260 symbolic words, two with blocks of 16,500 words of which four are symbolic, the whole key table, byte data up to 17 bytes with every key", outside="longer blocks with symbolic keys",
  harnesses=[dict(name=n) for n in ("h_roundtrip", "h_reference", "h_long", "h_dword", "h_table", "h_bytes", "h_huge")]),
"C04": dict(bin="c04", bounds="every ASCII name up to 6 characters (64-bit hash: 8), every name with one two-byte character at three places, names of 13 to 300 characters with two symbolic ones at three places, all five kinds", outside="longer names with symbolic characters",
  harnesses=[dict(name=n) for n in ("h_hash", "h_jenkins", "h_wide", "h_spelling", "h_long")]),
"C05": dict(bin="c05", bounds="all 208 header bytes symbolic for each version; twelve truncation lengths; signatures symbolic at the first four boundaries; user data blocks at three boundaries and four distances with symbolic sizes; archives at six boundaries around 64 and 128 KiB and user data pointing up to 66,048 bytes ahead", outside="archives starting at other boundaries",
  harnesses=[dict(name="h_fields", covers=["accepted", "refused"]), dict(name="h_refuse", covers=["accepted", "refused"]), dict(name="h_scan", covers=["found", "none"]), dict(name="h_userdata"), dict(name="h_sector"), dict(name="h_far", covers=["found"])]),
"C06": dict(bin="c06", bounds="version 1 headers with every field symbolic; version 2-4 headers with every position and size symbolic; one file entry with position, sizes, flags and 20 bytes of stored data symbolic (raw, encrypted, position-adjusted key, single unit, up to two sectors); HET tables of 40 bytes and BET tables of 88 bytes with every field symbolic; sparse streams up to 3 tokens, ADPCM streams with one coded sample, Huffman streams up to 3 bytes; special files up to 40 symbolic bytes; user data blocks with symbolic fields and six truncations. Numbers that only scale a size (entry counts, field widths) are taken from both ends of their range. Allocations up to 16 GiB are taken to succeed", outside="crashes inside zlib, bzip2, LZMA and PKWARE decoders on malformed streams; RSA arithmetic on symbolic signatures; larger symbolic tables",
  harnesses=[dict(name="h_v1_header", covers=["opened", "refused"]), dict(name="h_entry_raw"), dict(name="h_entry_raw_encrypted"), dict(name="h_entry_unit", covers=["read", "refused"], cost=2), dict(name="h_entry_sectors", shards=["codec=0", "codec=1"], covers=["refused"], cost=3), dict(name="h_entry_offsets", cost=4), dict(name="h_entry_fixkey"),
             dict(name="h_codec", shards=["method=%d" % i for i in range(7)]), dict(name="h_ext_header", shards=["version=0", "version=1", "version=2"], covers=["opened", "refused"], cost=3), dict(name="h_het", covers=["read", "refused"]), dict(name="h_bet", covers=["read", "refused"]), dict(name="h_special", shards=["file=%d" % i for i in range(4)], cost=3), dict(name="h_userdata", covers=["opened", "refused"])]),
"C07": dict(bin="c07", bounds="sparse: zero runs of sixteen lengths up to 513 between up to 5 symbolic bytes, literals of eleven lengths up to 256, streams of up to 3 tokens; ADPCM: streams of one symbolic code after a walk of the step index, with symbolic first samples, three shifts, one and two channels; encoding of one symbolic sample after twelve fixed ones; every flag byte; zlib, bzip2, LZMA and PKWARE on fixed data of four kinds and eight lengths up to 5000, and after ADPCM on fixed signals", outside="longer symbolic signals; symbolic data through zlib, bzip2, LZMA and PKWARE; Huffman decoding (see DESIGN.md)",
  harnesses=[dict(name="h_sparse_runs"), dict(name="h_sparse_literals"), dict(name="h_sparse_tokens", covers=["decoded"]), dict(name="h_adpcm_decode", shards=["shift=0", "shift=1", "shift=2"], cost=5, secs=200), dict(name="h_adpcm_round", shards=["warm-up=%d" % i for i in range(4)], covers=["encoded"], cost=3), dict(name="h_adpcm_flat"), dict(name="h_adpcm_odd"), dict(name="h_raw"), dict(name="h_methods"), dict(name="h_lossless", covers=["packed"]), dict(name="h_combined", covers=["combined"])]),
"C08": dict(bin="c08", bounds="0, 1, 2, 3, 7, 8, 9 and 17 files; every flag combination with symbolic unused bits; all stored values symbolic; five truncation lengths with a symbolic version; stored plain and encrypted in hand-made version 1 archives and in built archives of every version; 64 to 1025 files with nine symbolic bytes", outside="larger counts with more symbolic values; compressed (attributes) files", harnesses=[dict(name="h_parse", covers=["parsed"], cost=2), dict(name="h_refuse", covers=["accepted", "refused"]), dict(name="h_write", covers=["written"]), dict(name="h_archive", covers=["loaded", "none"]), dict(name="h_built", covers=["loaded"]), dict(name="h_many", covers=["parsed"])]),
"C09": dict(bin="c09", bounds="list files: every text up to 7 characters of a, space, CR, LF, semicolon and hash, and two symbolic names of 3 and 2 printable characters around seven line ends; archives of four files with list files of up to three lines in any order, with repeated and missing names, symbolic sizes and flags; hash tables of four entries each naming one of three blocks or none, symbolic block entries; built archives of 0 to 5 files with a generated, a given and no list file; built archives of 100, 256 and 300 files with short and long names", outside="longer lists, names that are not UTF-8", harnesses=[dict(name="h_parse", covers=["parsed"], cost=2), dict(name="h_names", covers=["parsed"]), dict(name="h_list", covers=["listed"]), dict(name="h_all", covers=["listed"], cost=2), dict(name="h_built", covers=["listed"]), dict(name="h_many", covers=["listed"], shards=V4)]),
"C10": dict(bin="c10", bounds="archives of three files with 5 symbolic bytes, versions 1-4, with and without an old file; one failure, or a stop from there on (with the write before it whole or half done), at each of the first 240 operations that change a file or a name; four limits for short writes; five reasons to refuse; failing and short reads of a source; archives of 42 files, two of 100,001 bytes, with one failure or a stop at each of the first 70 operations", outside="power loss (what the disk keeps of a renamed file is not modelled)", harnesses=[dict(name="h_fault", shards=V4, covers=["succeeded", "failed"], cost=3), dict(name="h_crash", shards=V4, covers=["finished", "stopped"], cost=4), dict(name="h_short", covers=["built"]), dict(name="h_refused", covers=["refused"]), dict(name="h_source", covers=["built", "failed"]), dict(name="h_large", shards=V4, covers=["succeeded", "failed"], cost=3)]),
"C11": dict(bin="c11", bounds="built version 4 archives of 0 to 3 files and their list file, tables compressed or not, at offset 0 and 512; each of the five stored digests with four symbolic bytes at a time; five places and three changes in each of the five parts; archives of 40, 200 and 600 files at three offsets, with four changes in each part; tables of high words with symbolic digests and six changes", outside="other changes of the parts themselves (MD5 cannot be inverted by a solver); archives that really reach beyond 4 GiB", harnesses=[dict(name="h_built", covers=["valid"]), dict(name="h_digest", covers=["examined"], cost=2), dict(name="h_corrupt", covers=["noticed"], cost=2), dict(name="h_many", covers=["noticed"], shards=["files=0", "files=1", "files=2,compressed tables=0", "files=2,compressed tables=1"], cost=3), dict(name="h_none", covers=["none"]), dict(name="h_hi", covers=["valid", "noticed"])]),
"C12": dict(bin="c12", bounds="single-unit files of up to 13 symbolic bytes with symbolic checksums, plain and encrypted; sparse-compressed files with two runs and three symbolic bytes; built archives of every version and encryption mode with files of 1, 4 and 5 symbolic bytes and a symbolic change at every stored byte; files of 300 to 9000 bytes, plain and zlib, with changes at five places", outside="checksums of sectors of larger compressed files, which the library only logs", harnesses=[dict(name="h_raw", covers=["read", "refused"]), dict(name="h_packed", covers=["read", "refused"]), dict(name="h_corrupt", shards=V4, covers=["read", "refused"], cost=3), dict(name="h_larger", shards=V4, covers=["read", "refused"])]),
"C13": dict(bin="c13", cfg="mopaq_verif", bounds="decrypted weak blocks: all 64 bytes symbolic, in eight parts, with symbolic digests, and ten sizes; decrypted strong blocks: bytes 0-3, 100-104, 230-255 symbolic, four sizes; digest regions: files of 40 bytes with two starts, two ends, nine signature areas and three read sizes, everything outside the digested region symbolic, and files of 65636 bytes with the signature area around the 64 KiB boundary; (signature) files and trailing strong signatures of four sizes with symbolic bytes", outside="the RSA operation itself (signature^65537 mod n cannot be inverted by a solver); whether the public keys are Blizzard's", assumptions=["the decrypted blocks are handed to the real padding checks through the cfg-guarded hook crypto::verif"], harnesses=[dict(name="h_weak", covers=["accepted", "refused"]), dict(name="h_weak_size", covers=["decided"]), dict(name="h_strong", covers=["accepted", "refused"]), dict(name="h_digest", covers=["computed"]), dict(name="h_digest_long", covers=["computed"], cost=3), dict(name="h_parse", covers=["weak", "no weak"]), dict(name="h_parse_strong", covers=["strong", "no strong"]), dict(name="h_archive", covers=["examined"], cost=2)]),
"C14": dict(bin="c14", crate="/verif/hffi", bounds="cursor: files of 0 and 5 symbolic bytes, two moves with every method, symbolic 64-bit distances, with and without the high word, and symbolic read counts (thorough: three moves); handles: sequences of four operations (thorough: five) over two archives and symbolic 64-bit handle values; enumeration with every stop point and callbacks that use the archive; verification of archives with symbolic contents; information classes 0-255 with symbolic buffer sizes; a file of 70,001 bytes in every encryption mode, stored and sparse, read around 64 KiB; files of 70,001 and 200,000 bytes with two moves from symbolic positions by symbolic 64-bit distances; 66,000 files opened and closed one after the other; verification of 1, 3 and 20 checksummed files with a symbolic change in one; twelve calls with a missing pointer", outside="calls from several threads at once; pointers that are neither null nor valid; the mask language of enumeration", harnesses=[dict(name="h_cursor", covers=["read", "moved", "refused"], cost=3), dict(name="h_cursor_long", thorough_only=True, thorough_secs=1200, covers=["read", "moved", "refused"], cost=3), dict(name="h_handles", covers=["file", "refused", "closed", "closed with files"], cost=3), dict(name="h_handles_long", thorough_only=True, thorough_secs=1200, covers=["file", "refused", "closed"], cost=3), dict(name="h_enum", covers=["all", "stopped"]), dict(name="h_verify", covers=["intact", "corrupt", "all intact", "one corrupt"]), dict(name="h_info", covers=["answer", "small", "refused"], cost=2), dict(name="h_create", covers=["created", "refused", "opened"]), dict(name="h_extract", covers=["extracted", "missing"]), dict(name="h_large", covers=["large"]), dict(name="h_far", covers=["moved", "refused"]), dict(name="h_ids", covers=["many"], cost=2), dict(name="h_damage", covers=["intact", "damaged"]), dict(name="h_null", covers=["refused"])]),
"C15": dict(bin="c15", crate="/verif/hcli", cfg="mopaq_verif", bounds="extraction of all files with a name of up to four parts out of {.., ., a, b.txt}, both separators, absolute or not, with and without directories, and symbolic contents; directories of up to three files on three levels, packed in every version and unpacked; single files to new and existing places; verification with every single-byte change of a checksummed file; names of up to three parts extracted to the current directory, one or all; fourteen files of up to 1600 bytes on three levels, or one file, packed with six compressions, three sector sizes and a pattern to ignore; four files one of which is damaged", outside="symbolic links that already lie in the output directory; names that differ only in case or that clash with each other; Windows path rules; what is printed", assumptions=["the commands are reached through the cfg-guarded hook storm_cli::verif", "paths are resolved lexically: there are no symbolic links"], harnesses=[dict(name="h_names", shards=["parts=%d" % i for i in range(3)] + ["parts=3,root=%d,preserve=%d" % (i, j) for i in range(2) for j in range(2)], covers=["kept", "flat", "odd"], cost=4), dict(name="h_tree", covers=["same", "empty"]), dict(name="h_one", covers=["extracted", "missing"]), dict(name="h_verify", covers=["intact", "damaged"]), dict(name="h_cwd", covers=["one", "all", "odd", "refused"], cost=2), dict(name="h_pack", shards=V4, covers=["packed"], cost=2), dict(name="h_rest", covers=["rest"])]),
"C16": dict(bin="c16", bounds="archives of every version, encryption mode, checksum setting, two sector sizes, two locales, files of 0-13 symbolic bytes with and without directories; files of 512-1500 bytes in one to three sectors with eight symbolic bytes, stored and sparse; up to 17 files with two symbolic bytes each; full tables of 16, 64 and 256 slots with five names colliding at six places; files of 70,001 and 132,001 bytes in up to 258 sectors behind 66,000 bytes; zlib, bzip2, LZMA and PKWARE on fixed text up to 9000 bytes", outside="symbolic data under third-party compression; the contents of the HET and BET tables, for which the library has its own reading (C02)", assumptions=["the oracle is an independent reader of the format in harness/src/mpq.rs: its hash, cipher, MD5 and table layout follow the format's description, not the library"], harnesses=[dict(name="h_small", shards=["version=%d" % i for i in range(4)], covers=["small"], cost=2), dict(name="h_sectors", shards=["version=%d" % i for i in range(4)], covers=["compressed", "stored", "sector checksum"], cost=2), dict(name="h_names", covers=["found"]), dict(name="h_collide", shards=V4, covers=["crowded"]), dict(name="h_methods", shards=V4, covers=["compressed"], cost=3), dict(name="h_large", shards=V4, covers=["compressed", "stored"], cost=2)]),
"C17": dict(bin="c17", bounds="archives of version 1 from an independent writer, at offset 0 and 512, with files in one unit of 1-33 symbolic bytes, raw, raw though marked as compressed, and sparse, in every encryption mode, with and without directories; files of 1-1300 bytes in up to three sectors, each raw or sparse, with symbolic words; imploded files of fixed text, in one unit and in sectors; zlib, bzip2, LZMA and PKWARE on fixed text mixed with raw sectors; files of 70,001 and 132,001 bytes in up to 258 sectors; a name in two languages", outside="symbolic data under third-party compression; archives of more than 4 GB", assumptions=["the oracle is the independent writer in harness/src/mpq.rs"], harnesses=[dict(name="h_unit", covers=["raw", "marked", "sparse"], cost=2), dict(name="h_sectors", shards=["encryption=0", "encryption=1", "encryption=2"], covers=["raw", "marked", "packed"], cost=2), dict(name="h_imploded", covers=["raw", "imploded"]), dict(name="h_locale", covers=["neutral", "language"]), dict(name="h_methods", covers=["unit", "sectors"]), dict(name="h_large", covers=["marked", "raw"])]),
"C18": dict(bin="c18", bounds="hand-made version 1 archives with up to three files whose block entries (position, sizes, flags) are symbolic, a list file that is there, missing or deleted, attributes there or not, three sector sizes, with and without a user data block with symbolic size; built archives of every version with 0 to 3 files of 0, 2 and 4 symbolic bytes, encrypted or not, packed tables or not, at offset 0 and 1024; tables loaded at once or when asked for; built archives of 31 to 400 files; extended tables of up to 91 files compressed with five methods", outside="larger archives; the state of a signature (C13)", harnesses=[dict(name="h_crafted", covers=["described", "user data"], cost=2), dict(name="h_built", covers=["described", "extended"], cost=2), dict(name="h_tables", covers=["tables"]), dict(name="h_many", covers=["many"], shards=V4)]),
"C19": dict(bin="c19", bounds="archives of every version with a plain file, an encrypted file of three sectors, a compressed file with an adjusted key and a list file, thirteen symbolic bytes in them; every sequence of three out of nine questions before all files are read again; four limits for short reads; one failing read at each of the first 40 reads of each question and of opening; two archives at once; file attributes with symbolic checksums, one failing read while they are loaded at once or later", outside="longer histories; reads that fail for good; other processes changing the file", harnesses=[dict(name="h_history", shards=V4, covers=["asked"], cost=3), dict(name="h_two", covers=["asked"]), dict(name="h_short", covers=["read"]), dict(name="h_fault", shards=V4, covers=["answered", "failed"], cost=3), dict(name="h_open", covers=["opened", "refused"]), dict(name="h_attr", covers=["attributes", "refused", "failed"])]),
}
