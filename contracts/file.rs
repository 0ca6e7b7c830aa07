// ---- File: the name it stands for, and what it may be asked for
pub open spec fn fname(f: XFile) -> Seq<u8> { upto_nul(flat(f.filename_.data_)) }
// the file is open or can be opened
pub open spec fn file_can(f: XFile) -> bool { flat(f.filename_.data_).len() > 0 && (f.file_.open || can_open(fname(f))) }
// between two operations an open file is ready for reading and appending
pub open spec fn file_ok(f: XFile, fs: FS) -> bool {
    can_seek(f.currentPosition_ as int) && !f.file_.unsaved
    && (f.file_.open ==> flat(f.filename_.data_).len() > 0 && f.file_.name == fname(f) && f.file_.app && !f.file_.fail && !f.file_.eof && f.file_.pos >= 0 && fs_has(fs, fname(f)) && can_open(fname(f)))
}
pub open spec fn file_same(a: XFile, b: XFile) -> bool { b.filename_ == a.filename_ && b.currentPosition_ == a.currentPosition_ }
// the file exists afterwards, nothing else has changed
pub open spec fn fs_touch(a: FS, b: FS, k: Seq<u8>) -> bool { b.files =~~= (if fs_has(a, k) { a.files } else { a.files.insert(k, Seq::empty()) }) }
pub open spec fn fs_touched(a: FS, b: FS, k: Seq<u8>) -> bool { b == a || fs_touch(a, b, k) }
pub open spec fn fs_added(a: FS, b: FS, k: Seq<u8>, t: Seq<u8>) -> bool { b.files =~~= a.files.insert(k, fs_get(a, k) + t) }
// from the reading position up to the delimiter, or all that is left
pub open spec fn file_line(c: Seq<u8>, p: int, d: u8) -> Seq<u8> { if p < c.len() { c.subrange(p, byte_find(c, d, p)) } else { Seq::empty() } }
pub open spec fn file_next(c: Seq<u8>, p: int, d: u8) -> int { if p < c.len() { let e = byte_find(c, d, p); if e < c.len() { e + 1 } else { e } } else { p } }
pub open spec fn file_end(c: Seq<u8>, p: int, d: u8) -> bool { p >= c.len() || byte_find(c, d, p) >= c.len() }

// the name of a literal: decoding and printing it gives its bytes back
pub proof fn lemma_file_name(c: CStr)
    requires cstr_ok(c)
    ensures no_nul(cstr_bytes(c)), upto_nul(cstr_bytes(c)) == cstr_bytes(c), u8ok(cstr_bytes(c)) ==> flat(u8split(cstr_bytes(c))) == cstr_bytes(c)
{
    let b = cstr_bytes(c);
    lemma_nulpos(c.buf, c.off);
    assert(no_nul(b));
    lemma_nulpos_clean(b);
    assert(upto_nul(b) =~= b);
    if u8ok(b) { lemma_text_roundtrip(b); }
}
