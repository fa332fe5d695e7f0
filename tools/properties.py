import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("C01","What is stored in an archive is what is read back",
 "Whatever bytes are added under a name to a new archive, from memory or from a file on disk, are exactly the bytes later read under that name from the written archive, and the recorded size is their length. This holds for every format version, sector size, encryption mode (none, plain key, position-adjusted key), checksum setting and compression setting, for empty files and for contents on either side of sector boundaries.",
 ["inputs","configurations"],"all contents and all combinations of version, sector size, encryption, checksum and compression settings",
 "tests write a few text files with a handful of settings; content that leaves one sector incompressible, ends just behind a sector boundary or is 1 to 3 bytes over a word is not among them",
 ["mopaq/src/builder.rs","mopaq/src/archive.rs","mopaq/src/compression"],[("writing files as single units or sectors","mopaq/src/builder.rs write_file"),("reading files","mopaq/src/archive.rs read_file, read_sectored_file"),("choice of stored or compressed form","mopaq/src/compression/compress.rs")],["ArchiveBuilder::build","Archive::read_file","Archive::find_file"])
p("C02","A stored name is found in every spelling, any other name is not",
 "Looking up a name finds the file stored under it whichever case and slash direction is used, returns that file's own entry with its full 48-bit position, and finds nothing for a name that was never stored or was deleted. Deleted and colliding entries never hide another file, and a lookup always ends.",
 ["inputs","histories"],"all names of an archive in all spellings, all hash table contents including deleted entries, full tables and hash collisions",
 "tests look up the names they stored in tables with few entries; collisions, deleted slots, full tables and partial hash matches need particular names or tables",
 ["mopaq/src/tables/hash.rs","mopaq/src/archive.rs","mopaq/src/builder.rs","mopaq/src/tables/het.rs"],[("probing","mopaq/src/tables/hash.rs find_file"),("placing entries","mopaq/src/builder.rs add_to_hash_table"),("choice between table kinds","mopaq/src/archive.rs find_file")],["Archive::find_file","Archive::read_file","HashTable::find_file"])
p("C03","The block cipher is the format's and loses nothing",
 "Encrypting data with any key and decrypting it with the same key gives the original data, and the encrypted words are those the MPQ format prescribes for that key. The single-word form agrees with the block form, and key zero leaves data unchanged.",
 ["inputs"],"all 32-bit keys and all data up to the bound",
 "tests use a few fixed keys and vectors; the key schedule wraps for some keys only",
 ["mopaq/src/crypto/encryption.rs","mopaq/src/crypto/decryption.rs","mopaq/src/crypto/keys.rs"],[("cipher","mopaq/src/crypto/encryption.rs encrypt_block, mopaq/src/crypto/decryption.rs decrypt_block, decrypt_dword"),("key table","mopaq/src/crypto/keys.rs")],["encrypt_block","decrypt_block","decrypt_dword"])
p("C04","Name hashes are the format's and blind to case and slash direction",
 "The hash of a name, of each of the five kinds and the 64-bit kind, is the value the MPQ format prescribes for every name, ASCII or not. Names that differ only in ASCII letter case or in slash direction have the same hashes.",
 ["inputs"],"all names up to the bound, all hash kinds",
 "tests check a few known names; a wrong table entry or a mishandled character shows only for names containing it",
 ["mopaq/src/crypto/hash.rs","mopaq/src/crypto/keys.rs"],[("name hash","mopaq/src/crypto/hash.rs hash_string"),("64-bit name hash","mopaq/src/crypto/hash.rs jenkins_hash")],["hash_string","jenkins_hash"])
p("C05","The archive header is located and read exactly",
 "The archive starts at the first 512-byte boundary of the file that carries the signature, or where a user data block found there points, and every header field of every version is reported with the value stored at its place, positions and sizes at their full width. Headers with another signature, an unknown version, a size too small for their version, or cut short are refused.",
 ["inputs"],"all header contents of all four versions, all placements of signatures on the first boundaries",
 "tests parse a few headers built with small values, so upper halves of wide fields and alternative placements are never exercised",
 ["mopaq/src/header.rs"],[("search","mopaq/src/header.rs find_header"),("parsing","mopaq/src/header.rs MpqHeader::read")],["Archive::open","Archive::header","Archive::archive_offset"])
exec(open('/verif/tools/properties_more.py').read())
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
