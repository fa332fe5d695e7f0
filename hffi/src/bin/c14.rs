//! C14: the C interface is a set of handles with cursors over the files of their archives
#[path = "../../../harness/src/sx.rs"] mod sx;
#[path = "../../../harness/src/mpq.rs"] mod mpq;
use std::ffi::{c_char, c_void, CStr, CString};
use storm::*;
use sx::*;
type Hd = *mut c_void;
const BAD: u32 = 0xFFFF_FFFF;
fn c(s: &str) -> CString { CString::new(s).unwrap() }
fn open(f: &str) -> (bool, Hd) { let mut h = std::ptr::null_mut(); let r = unsafe { SFileOpenArchive(c(&path(f)).as_ptr(), 0, 0, &mut h) }; (r, h) }
fn file(a: Hd, n: &str) -> (bool, Hd) { let mut h = std::ptr::null_mut(); let r = unsafe { SFileOpenFileEx(a, c(n).as_ptr(), 0, &mut h) }; (r, h) }
/// reads up to n bytes into a guarded buffer of 24
fn read(h: Hd, n: u32) -> (bool, Vec<u8>) {
    let mut b = [0xA5u8; 24]; let mut got = 77u32;
    let r = unsafe { SFileReadFile(h, b.as_mut_ptr() as *mut c_void, n, &mut got, std::ptr::null_mut()) };
    if !r { check(b.iter().all(|x| *x == 0xA5), "a refused read leaves the buffer alone"); return (r, vec![]); }
    let g = pick(got as u64) as usize; check(g <= n as usize && g <= 24, "no more is read than was asked for");
    check(b[g..].iter().all(|x| *x == 0xA5), "nothing is written behind the bytes read"); (r, b[..g].to_vec())
}
fn err() -> u32 { SFileGetLastError() }
const BITS: u32 = mpq::EXISTS | mpq::SINGLE;
/// a hand-made archive with the given files, stored plain
fn make(f: &str, files: &[(&str, &[u8])]) {
    let mut data = vec![]; let mut b = vec![];
    for (_, d) in files { b.push(mpq::B { pos: 32 + data.len() as u32, csize: d.len() as u32, size: d.len() as u32, flags: BITS }); data.extend_from_slice(d); }
    let names: Vec<&[u8]> = files.iter().map(|f| f.0.as_bytes()).collect();
    std::fs::write(path(f), mpq::v1(3, &data, &mpq::place(8, &names), &b)).unwrap();
}
/// one file as a cursor: seeks and reads in any order
fn cursor(steps: usize, size: usize) {
    let d = symv("content", size); make("a.mpq", &[("x", b"other"), ("f", &d)]);
    let (r, a) = open("a.mpq"); check(r && !a.is_null(), "the archive is opened");
    let (r, h) = file(a, "f"); check(r && !h.is_null() && h != a, "the file is opened");
    let (_, g) = file(a, "F"); check(g != h && g != a, "every handle is new");
    let mut hi = 5u32; check(unsafe { SFileGetFileSize(h, &mut hi) } == size as u32 && hi == 0, "the size is the file's");
    let n = size as i64; let mut pos = 0i64;
    for _ in 0..steps {
        if choose("op", 2) == 0 {
            let k = [0u32, 1, 3, 20, u32::MAX][choose("count", 5)]; let (r, got) = read(h, k); check(r, "reading succeeds");
            let want = (k as i64).min(n - pos) as usize; check(got.len() == want, "as many bytes are read as there are, up to the count");
            check(eq(&got, &d[pos as usize..pos as usize + want]), "the bytes read are those at the position"); pos += want as i64; cover("read");
        } else {
            let lo = u32s("low") as i32; let wide = choose("wide", 2) == 1; let mut hi = u32s("high") as i32; let m = u32s("method");
            let off = if wide { (hi as i64) << 32 | lo as u32 as i64 } else { lo as i64 };
            let to = off.saturating_add(match m { 0 => 0, 1 => pos, _ => n });
            let r = unsafe { SFileSetFilePointer(h, lo, if wide { &mut hi } else { std::ptr::null_mut() }, m) };
            if m > 2 || to < 0 { check(r == BAD && err() != 0, "a position before the file, or an unknown method, is refused"); cover("refused"); }
            else { let to = to.min(n); check(r == to as u32 && (!wide || hi == 0) && err() == 0, "the new position is reported, at most the end"); pos = pick(to as u64) as i64; cover("moved"); }
        }
        let mut p = 99u64; check(unsafe { SFileGetFileInfo(h, 10, &mut p as *mut u64 as *mut c_void, 8, std::ptr::null_mut()) } && p == pos as u64, "the position is where the history put it");
    }
    let (r, x) = read(g, 20); check(r && eq(&x, &d), "another handle to the same file has its own position");
}
#[no_mangle] pub extern "C" fn h_cursor() { cursor(2, [0usize, 5][choose("size", 2)]) }
#[no_mangle] pub extern "C" fn h_cursor_long() { cursor(3, 4) }
/// handles live from opening to closing, and closing an archive closes its files
#[no_mangle] pub extern "C" fn h_handles() { handles(4) }
#[no_mangle] pub extern "C" fn h_handles_long() { handles(5) }
fn handles(steps: usize) {
    let d = symv("content", 4); make("a.mpq", &[("f", &d[..2]), ("g", &d)]); make("b.mpq", &[("f", &d[1..])]);
    // live: archives with their number, files with the archive handle and what they hold
    let mut arch: Vec<(Hd, usize)> = vec![]; let mut files: Vec<(Hd, Hd, Vec<u8>)> = vec![]; let mut all: Vec<Hd> = vec![std::ptr::null_mut(), 0x7777 as Hd];
    let which = |all: &Vec<Hd>| all[choose("handle", all.len())];
    for _ in 0..steps {
        match choose("op", 5) {
            0 => { let k = choose("archive", 2); let (r, h) = open(["a.mpq", "b.mpq"][k]); check(r && !all.contains(&h), "an archive opens under a new handle"); arch.push((h, k)); all.push(h); }
            1 => { let a = which(&all); let n = choose("name", 2); let (r, h) = file(a, ["f", "G"][n]);
                match arch.iter().find(|x| x.0 == a) {
                    None => { check(!r && err() == 6, "a file is not opened through a handle that is not an archive's"); cover("refused"); }
                    Some(&(_, k)) if k == 1 && n == 1 => check(!r && err() == 2, "a missing file is not found"),
                    Some(&(_, k)) => { check(r && !all.contains(&h), "a file opens under a new handle"); files.push((h, a, if k == 1 { d[1..].to_vec() } else if n == 0 { d[..2].to_vec() } else { d.clone() })); all.push(h); cover("file"); }
                } }
            2 => { let h = which(&all); let r = SFileCloseArchive(h); let i = arch.iter().position(|x| x.0 == h);
                check(r == i.is_some() && (r || err() == 6), "exactly open archives can be closed as archives");
                if let Some(i) = i { arch.remove(i); if files.iter().any(|f| f.1 == h) { cover("closed with files"); } files.retain(|f| f.1 != h); } }
            3 => { let h = which(&all); let r = SFileCloseFile(h); let i = files.iter().position(|x| x.0 == h);
                check(r == i.is_some() && (r || err() == 6), "exactly open files can be closed as files"); if let Some(i) = i { files.remove(i); cover("closed"); } }
            _ => { let h = which(&all); let a = arch.iter().any(|x| x.0 == h); let (r, _) = file(h, "none"); check(!r && err() == if a { 2 } else { 6 }, "a missing file is not found in an open archive, and nothing in any other handle");
                check(unsafe { SFileHasFile(h, c"F".as_ptr()) } == a && !unsafe { SFileHasFile(h, c"none".as_ptr()) }, "an open archive has its files"); }
        }
    }
    for h in &all {
        let f = files.iter().find(|f| f.0 == *h); let (r, got) = read(*h, 20);
        match f { Some(f) => check(r && eq(&got, &f.2), "an open file reads as what its archive holds"), None => check(!r && err() == 6, "nothing can be read through a handle that is not an open file's") }
        let mut hi = 0; let s = unsafe { SFileGetFileSize(*h, &mut hi) };
        match f { Some(f) => check(s == f.2.len() as u32 && hi == 0, "an open file has its size"), None => check(s == BAD && err() == 6, "a closed file has no size") }
        if f.is_none() { check(unsafe { SFileSetFilePointer(*h, 0, std::ptr::null_mut(), 0) } == BAD && err() == 6, "a closed file has no position"); }
        let mut n = [0 as c_char; 200]; let r = unsafe { SFileGetArchiveName(*h, n.as_mut_ptr(), 200) };
        match arch.iter().find(|x| x.0 == *h) { Some(x) => check(r && unsafe { CStr::from_ptr(n.as_ptr()) } == c(&path(["a.mpq", "b.mpq"][x.1])).as_c_str(), "an archive has its name"), None => check(!r, "a closed archive has no name") }
        let mut n = [0x5A as c_char; 12]; let r = unsafe { SFileGetFileName(*h, n.as_mut_ptr()) };
        match f { Some(f) => check(r && n[1] == 0 && n[2] == 0x5A && (n[0] as u8).to_ascii_lowercase() == if f.2.len() == 4 { b'g' } else { b'f' }, "an open file has its name"), None => check(!r && err() == 6 && n[0] == 0x5A, "a closed file has no name") }
    }
}
/// enumeration names each file once, and the files can be used from the callback
struct Seen { a: Hd, names: Vec<String>, stop: usize, inside: usize }
extern "C" fn on_name(n: *const c_char, u: *mut c_void) -> bool {
    let s = unsafe { &mut *(u as *mut Seen) }; let n = unsafe { CStr::from_ptr(n) }.to_str().unwrap().to_string();
    match s.inside {
        1 => { let (r, h) = file(s.a, &n); check(r, "a file named by the enumeration can be opened from the callback"); check(SFileCloseFile(h), "and closed"); }
        2 => check(unsafe { SFileHasFile(s.a, c(&n).as_ptr()) }, "a file named by the enumeration is there, seen from the callback"), _ => {}
    }
    s.names.push(n); s.names.len() != s.stop
}
#[no_mangle] pub extern "C" fn h_enum() {
    let list = b"one.txt\r\ntwo.txt\r\nmissing.txt\r\n"; let d = symv("content", 3);
    make("a.mpq", &[("one.txt", &d), ("(listfile)", list), ("two.txt", b"22")]);
    let (_, a) = open("a.mpq"); let stop = choose("stop", 4); let inside = choose("inside", 3);
    let mut s = Seen { a, names: vec![], stop, inside };
    let all = choose("mask", 2); let r = unsafe { SFileEnumFiles(a, if all == 0 { std::ptr::null() } else { c"*".as_ptr() }, std::ptr::null(), Some(on_name), &mut s as *mut Seen as *mut c_void) };
    check(r && err() == 0, "the enumeration succeeds");
    let mut n = s.names.clone(); n.retain(|x| x != "(listfile)"); n.sort();
    if stop == 0 { check(n == ["one.txt", "two.txt"], "the enumeration names exactly the files there are"); cover("all"); } else if s.names.len() == stop { cover("stopped"); }
    if stop != 0 { check(s.names.len() <= stop, "the enumeration ends when the callback says so"); }
    check(!unsafe { SFileEnumFiles(0x7777 as Hd, std::ptr::null(), std::ptr::null(), Some(on_name), &mut s as *mut Seen as *mut c_void) } && err() == 6, "no enumeration through a handle that is not an archive's");
    check(SFileCloseArchive(a), "the archive can be closed afterwards");
}
/// verification answers, and its answer is whether the attributes agree with the files
#[no_mangle] pub extern "C" fn h_verify() {
    let list = b"one.txt\r\ntwo.txt\r\n"; let one = b"the first file"; let two = b"22";
    let which = choose("part", 3); let fl = [1u32, 4, 5][which];
    let mut at = 100u32.to_le_bytes().to_vec(); at.extend(fl.to_le_bytes()); let (mut ok1, mut ok2) = (true, true);
    let (c1, c2) = (crc(one), crc(two));
    if fl & 1 != 0 { let (x, y) = (u32s("crc"), u32s("crc")); ok1 &= x == c1; ok2 &= y == c2; at.extend(x.to_le_bytes()); at.extend(0u32.to_le_bytes()); at.extend(y.to_le_bytes()); at.extend(0u32.to_le_bytes()); }
    if fl & 4 != 0 { let (x, y) = (sym::<16>("md5"), sym::<16>("md5")); ok1 &= eq(&x, &mpq::md5(one)); ok2 &= eq(&y, &mpq::md5(two)); at.extend(x); at.extend([0; 16]); at.extend(y); at.extend([0; 16]); }
    make("a.mpq", &[("one.txt", one), ("(listfile)", list), ("two.txt", two), ("(attributes)", &at)]);
    let (r, a) = open("a.mpq"); check(r, "the archive is opened");
    match choose("call", 3) {
        0 => { let fg = [0u32, 2, 4, 6, 0xFF][choose("flags", 5)]; let seen = |p: u32| fg == 0 || fg & p != 0;
            let one_ok = (fl & 1 == 0 || !seen(2) || u32::from_le_bytes(at[8..12].try_into().unwrap()) == c1) & (fl & 4 == 0 || !seen(4) || { let o = at.len() - 64; eq(&at[o..o + 16], &mpq::md5(one)) });
            let r = unsafe { SFileVerifyFile(a, c"ONE.txt".as_ptr(), fg) }; check(r == one_ok && (r || err() == 1392), "a file is verified exactly if its attributes agree");
            if r { cover("intact") } else { cover("corrupt") } }
        1 => { let r = unsafe { SFileVerifyArchive(a, 0x20) }; check(r == (ok1 & ok2) && (r || err() == 1392), "an archive is verified exactly if the attributes of all its files agree"); if r { cover("all intact") } else { cover("one corrupt") } }
        _ => { check(unsafe { SFileVerifyArchive(a, [0, 0x10][choose("default", 2)]) }, "an unsigned archive has no invalid signature"); check(!unsafe { SFileVerifyFile(a, c"none".as_ptr(), 0) } && err() == 2, "a missing file is not verified"); }
    }
    check(SFileCloseArchive(a), "the archive can be closed afterwards");
}
fn crc(d: &[u8]) -> u32 { let mut c = !0u32; for &b in d { c ^= b as u32; for _ in 0..8 { c = if c & 1 != 0 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 }; } } !c }
/// buffers are written up to their size only, and as documented
#[no_mangle] pub extern "C" fn h_info() {
    let d = symv("content", 3); make("a.mpq", &[("f", &d)]); let (_, a) = open("a.mpq"); let (_, f) = file(a, "f"); read(f, 1);
    let (h, is) = [(a, 0), (f, 1), (0x7777 as Hd, 2)][choose("handle", 3)]; let cl = u32s("class"); let n = u32s("size"); let null = choose("null", 2) == 1;
    let mut b = [0xA5A5_A5A5_A5A5_A5A5u64; 2]; let mut need = 77u32;
    let r = unsafe { SFileGetFileInfo(h, cl, if null { std::ptr::null_mut() } else { b.as_mut_ptr() as *mut c_void }, n, &mut need) };
    let len = std::fs::metadata(path("a.mpq")).unwrap().len();
    let v = if null && n > 0 { None } else { match (is, pick(cl.min(99) as u64)) { (0, 1) => Some((8, len)), (0, 2) => Some((4, 8)), (0, 3) => Some((4, 1)), (0, 4) => Some((4, 4096)), (1, 7) => Some((8, 3)), (1, 10) => Some((8, 1)), _ => None } };
    match v {
        Some((w, x)) => { check(need == w, "the size needed is told"); check(r == (n >= w), "an answer is given exactly if the buffer is large enough");
            if r { let got = if w == 4 { b[0] as u32 as u64 } else { b[0] }; check(got == x, "the answer is the archive's or file's"); check(w == 8 || b[0] >> 32 == 0xA5A5_A5A5, "nothing is written behind the answer"); cover("answer"); } else { check(err() == 122, "a small buffer is reported"); cover("small"); } }
        None => { check(!r && err() != 0, "unknown questions are refused"); cover("refused"); }
    }
    if !r { check(b[0] == 0xA5A5_A5A5_A5A5_A5A5, "a refused question leaves the buffer alone"); } check(b[1] == 0xA5A5_A5A5_A5A5_A5A5, "nothing is written behind the buffer");
    let p = c(&path("a.mpq")); let p = p.as_bytes_with_nul(); let n = u32s("name size"); let mut nb = vec![0x5A as c_char; p.len() + 4];
    let r = unsafe { SFileGetArchiveName(a, nb.as_mut_ptr(), n) }; check(r == (n as usize >= p.len()), "the name is given exactly if the buffer is large enough");
    for i in 0..nb.len() { check(nb[i] as u8 == if r && i < p.len() { p[i] } else { 0x5A }, "the name and nothing else is written"); }
}
/// creating respects what is there
#[no_mangle] pub extern "C" fn h_create() {
    let there = choose("there", 3); let old = symv("old", 6); if there == 1 { std::fs::write(path("n.mpq"), &old).unwrap(); } if there == 2 { make("n.mpq", &[("f", &old)]); }
    let disp = u32s("disposition"); let size = u32s("hash table size"); let mut h = std::ptr::null_mut();
    let r = unsafe { SFileCreateArchive(c(&path("n.mpq")).as_ptr(), disp, size, &mut h) };
    let valid = size >= 4 && size & size.wrapping_sub(1) == 0; let disp = pick(disp.min(9) as u64);
    let now = std::fs::read(path("n.mpq")).ok();
    let fresh = valid && match disp { 1 => there == 0, 2 => true, 4 => there == 0, 5 => there != 0, _ => false };
    if fresh { check(r && !h.is_null(), "the archive is created"); check(!unsafe { SFileHasFile(h, c"f".as_ptr()) }, "a new archive does not hold old files"); cover("created"); return; }
    if there == 0 { check(now.is_none(), "a refused creation leaves nothing behind"); }
    if there == 1 { check(eq(&now.unwrap(), &old), "a refused creation leaves the old file alone"); check(!r, "what is no archive is not opened as one"); cover("refused"); return; }
    if there == 2 && valid && disp == 4 { check(r, "an existing archive is opened"); let (r, f) = file(h, "f"); check(r && eq(&read(f, 20).1, &old), "and has its files"); cover("opened"); return; }
    check(!r && err() != 0, "the creation is refused"); cover("refused");
    if disp == 1 && valid { check(err() == 183, "an existing archive is reported"); }
    if there == 2 { let (_, a) = open("n.mpq"); let (r, f) = file(a, "f"); check(r && eq(&read(f, 20).1, &old), "a refused creation leaves the old archive alone"); }
}
/// a file beyond 64 KiB, packed and encrypted or plain: positions and counts around the limits
#[no_mangle] pub extern "C" fn h_large() {
    let e = choose("encryption", 3); let n = 70_001usize; let mut d: Vec<u8> = (0..n).map(|i| if (i / 4096) % 4 == 1 { 0 } else { ((i * 7 + i / 251) as u8) | 1 }).collect();
    for k in [0, 65_532, 65_536, 69_996] { let w = sym::<4>("word"); for i in 0..4 { d[k + i] = w[i] | 1; } }
    let m = choose("method", 2) as u8 * 0x20; let b = mopaq::ArchiveBuilder::new().default_compression(0);
    let b = match e { 0 => b.add_file_data_with_options(d.clone(), "f", m, false, 0), 1 => b.add_file_data_with_options(d.clone(), "f", m, true, 0), _ => b.add_file_data_with_encryption(d.clone(), "f", m, true, 0) };
    b.build(path("a.mpq")).unwrap(); let (_, a) = open("a.mpq"); let (r, h) = file(a, "f"); check(r, "the file is opened");
    check(unsafe { SFileGetFileSize(h, std::ptr::null_mut()) } == n as u32, "the size is the file's");
    let at = [0usize, 65_530, 65_536, 69_990][choose("position", 4)]; let k = [1usize, 12, 20][choose("count", 3)];
    check(unsafe { SFileSetFilePointer(h, at as i32, std::ptr::null_mut(), 0) } == at as u32, "the new position is reported");
    for p in [at, at + k] { let p = p.min(n); let (r, g) = read(h, k as u32); check(r && eq(&g, &d[p..(p + k).min(n)]), "the bytes read are those at the position"); }
    let mut all = vec![0xA5u8; n + 8]; let mut got = 0u32; check(unsafe { SFileSetFilePointer(h, 0, std::ptr::null_mut(), 0) } == 0, "back to the start");
    check(unsafe { SFileReadFile(h, all.as_mut_ptr() as *mut c_void, n as u32 + 8, &mut got, std::ptr::null_mut()) } && got == n as u32 && eq(&all[..n], &d) && all[n] == 0xA5, "the whole file is read at once"); cover("large");
}
/// a large file: two moves by any distance from any place, the position symbolic all the way
#[no_mangle] pub extern "C" fn h_far() {
    let n = [70_001usize, 200_000][choose("size", 2)] as i64; let d: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect(); make("a.mpq", &[("f", &d)]); let (_, a) = open("a.mpq"); let (r, h) = file(a, "f"); check(r, "the file is opened");
    let mut pos = 0i64;
    for _ in 0..2 {
        let lo = u32s("low") as i32; let wide = choose("wide", 2) == 1; let mut hi = u32s("high") as i32; let m = choose("method", 3) as u32;
        let off = if wide { (hi as i64) << 32 | lo as u32 as i64 } else { lo as i64 }; let to = off.saturating_add([0, pos, n][m as usize]);
        let r = unsafe { SFileSetFilePointer(h, lo, if wide { &mut hi } else { std::ptr::null_mut() }, m) };
        if to < 0 { check(r == BAD && err() != 0, "a position before the file is refused"); cover("refused"); }
        else { pos = to.min(n); check(r == pos as u32 && (!wide || hi == 0) && err() == 0, "the new position is reported, at most the end"); cover("moved"); }
        let mut p = 99u64; check(unsafe { SFileGetFileInfo(h, 10, &mut p as *mut u64 as *mut c_void, 8, std::ptr::null_mut()) } && p == pos as u64, "the position is where the history put it");
    }
}
/// handles stay apart through a long history of opening and closing
#[no_mangle] pub extern "C" fn h_ids() {
    let d = symv("content", 4); make("a.mpq", &[("f", &d[..3]), ("g", &d)]); let (_, a) = open("a.mpq"); let (_, f) = file(a, "f"); read(f, 1);
    let (_, old) = file(a, "g"); SFileCloseFile(old);
    for _ in 0..66_000u32 { let (r, g) = file(a, "g"); check(r && g != f && g != a && !g.is_null() && g != old, "every handle is new"); check(SFileCloseFile(g), "a file can be closed"); }
    let (r, x) = read(f, 9); check(r && eq(&x, &d[1..3]), "an old handle still works"); let (r, g) = file(a, "g"); let (r2, x) = read(g, 9); check(r && r2 && eq(&x, &d), "a new handle works"); check(!read(old, 1).0, "a closed handle is refused");
    check(SFileCloseArchive(a) && !read(f, 1).0 && !read(g, 1).0, "closing the archive closes its files"); cover("many");
}
/// verification of files with checksums of their own: a changed byte is noticed, in whichever of several files it is
#[no_mangle] pub extern "C" fn h_damage() {
    let v = choose("version", 2); let n = [1usize, 3, 20][choose("files", 3)]; let hit = [0, n / 2, n - 1][choose("file", 3)];
    let mut b = mopaq::ArchiveBuilder::new().version([mopaq::FormatVersion::V1, mopaq::FormatVersion::V2][v]).default_compression(0).generate_crcs(true).listfile_option(mopaq::ListfileOption::Generate);
    for i in 0..n { b = b.add_file_data(vec![i as u8 + 1; 5 + i], &format!("n{i}")); }
    b.build(path("a.mpq")).unwrap();
    let i = mopaq::Archive::open(path("a.mpq")).unwrap().find_file(&format!("n{hit}")).unwrap().unwrap(); let mut all = std::fs::read(path("a.mpq")).unwrap();
    let at = i.file_pos as usize + [0, 2, 4 + hit][choose("byte", 3)]; let x = sym::<1>("change")[0]; all[at] ^= x; std::fs::write(path("a.mpq"), &all).unwrap();
    let (r, a) = open("a.mpq"); check(r, "the archive is opened");
    let fl = [0x20u32, 0x30][choose("flags", 2)]; let r = unsafe { SFileVerifyArchive(a, fl) }; check(r == (x == 0) && (r || err() == 1392), "an archive is verified exactly if its files are intact");
    for k in 0..n { let r = unsafe { SFileVerifyFile(a, c(&format!("N{k}")).as_ptr(), [0, 1][choose("what", 2)]) }; check(r == (x == 0 || k != hit), "a file is verified exactly if it is intact"); if n > 3 { break; } }
    if x == 0 { cover("intact") } else { cover("damaged") }
}
/// missing pointers and names are refused by every function, with the state they found
#[no_mangle] pub extern "C" fn h_null() {
    let d = symv("content", 3); make("a.mpq", &[("f", &d)]); let (_, a) = open("a.mpq"); let (_, f) = file(a, "f"); let z = std::ptr::null_mut::<c_void>(); let nul = std::ptr::null::<c_char>(); let mut h = z;
    unsafe {
        let r = match choose("call", 12) {
            0 => SFileOpenArchive(nul, 0, 0, &mut h), 1 => SFileOpenArchive(c(&path("a.mpq")).as_ptr(), 0, 0, std::ptr::null_mut()), 2 => SFileOpenFileEx(a, nul, 0, &mut h), 3 => SFileOpenFileEx(a, c"f".as_ptr(), 0, std::ptr::null_mut()),
            4 => SFileReadFile(f, z, 2, std::ptr::null_mut(), std::ptr::null_mut()), 5 => SFileHasFile(a, nul), 6 => SFileGetArchiveName(a, std::ptr::null_mut(), 100), 7 => SFileGetFileName(f, std::ptr::null_mut()), 8 => SFileExtractFile(a, nul, c(&path("o")).as_ptr(), 0), 9 => SFileExtractFile(a, c"f".as_ptr(), nul, 0),
            10 => SFileVerifyFile(a, nul, 0), _ => SFileCreateArchive(nul, 2, 16, &mut h),
        };
        check(!r && h.is_null(), "a missing pointer is refused");
    }
    let mut b = [0u8; 3]; check(unsafe { SFileReadFile(f, b.as_mut_ptr() as *mut c_void, 3, std::ptr::null_mut(), std::ptr::null_mut()) } && eq(&b, &d), "and changes nothing");
    let (x, y) = (u32s("locale"), u32s("error")); let old = SFileSetLocale(x); check(SFileGetLocale() == x && SFileSetLocale(old) == x, "the locale is the one set"); SFileSetLastError(y); check(err() == y, "the error is the one set"); cover("refused");
}
/// extraction writes the file's content, and nothing when there is none
#[no_mangle] pub extern "C" fn h_extract() {
    let d = symv("content", [0usize, 5][choose("size", 2)]); make("a.mpq", &[("dir\\f", &d), ("x", b"x")]); let (_, a) = open("a.mpq");
    let old = choose("old", 2) == 1; if old { std::fs::write(path("out"), b"something longer than the new content").unwrap(); }
    let n = choose("name", 3); let sub = choose("sub", 2) == 1 && !old; let p = if sub { path("s/t/out") } else { path("out") };
    let h = [a, 0x7777 as Hd][choose("handle", 2)];
    let r = unsafe { SFileExtractFile(h, c(["dir\\f", "DIR/F", "none"][n]).as_ptr(), c(&p).as_ptr(), 0) };
    if h != a || n == 2 { check(!r && err() == if h != a { 6 } else { 2 }, "what is not there is not extracted"); check(std::fs::metadata(&p).is_ok() == old, "nothing is written for it"); cover("missing"); }
    else { check(r, "the file is extracted"); check(eq(&std::fs::read(&p).unwrap(), &d), "the extracted file is the stored one"); cover("extracted"); }
}
harnesses!(h_cursor, h_cursor_long, h_handles, h_handles_long, h_enum, h_verify, h_info, h_create, h_extract, h_large, h_far, h_ids, h_damage, h_null);
