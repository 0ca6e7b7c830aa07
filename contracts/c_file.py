"""File over a ghost file system `fs`: what every operation does to the file's bytes and to the reading position.

Objects written with str(), to_string() and ToString() are of arbitrary types (contracts of c_io)."""
from contract import Contract as C, loop
import c_format, c_io

INST = c_io.INST + '''namespace Caitlyn {
inline void vp_file(File& f, const String& s, const char* p, const VpStr& a, const VpToS& b, const VpCap& c, const Char& d, const int& i)
{
    File g(s); File h(f); File k(s, s); File l(s, s, i); File m; MakeFile(s);
    f.Open(); f.Close(); f.Erase(); f.IsEof(); if (f) {} f.SetPosition(std::streampos(3)); f.GetPosition(); f.Read(); f.ReadLine(); f.ReadLine(',');
''' + ''.join(f'    f.{w}(p); f.{w}(s); f.{w}(a); f.{w}(b); f.{w}(c); f.{w}(d); f.{w}(s, s); f.{w}(s, s, i);\n' for w in ('Write', 'WriteLine', 'Append', 'AppendLine')) + '''}
}
'''
FSG = [('fs', 'FS')]
OK = 'file_ok(this, fs)'
KEY = 'fname(this)'
KEY0 = 'fname(this0)'
FC = f'fs_get(fs0, {KEY0})'
P0 = '(this0.currentPosition_ as int)'
WRITE = []
for w in ('Write', 'WriteLine', 'Append', 'AppendLine'):
    end = ' + seq![10u8]' if w.endswith('Line') else ''

    def wr(ty, params, text, ok='true', err='false', requires=(), ret='void', w=w, end=end):
        done = f'this1.file_.open && fs_added(fs, fs1, {KEY}, {text}{end})'
        return C(f'File::{w}', f'{ret} ({ty})', params=params, globals=FSG, throws=True, requires=[OK, *requires], ensures=[
            'file_ok(this1, fs1)', 'file_same(this, this1)', f'exc is None <==> file_can(this) && {ok}',
            f'exc is None ==> {done}', f'!(exc is None) ==> fs_touched(fs, fs1, {KEY})', f'!file_can(this) ==> exc is IosFailure && fs1 == fs'])
    WRITE.append(wr('const char *', ['data'], 'cstr_bytes(data)', requires=['cstr_ok(data)']))
    WRITE.append(wr('const String &', ['data'], 'flat(data.data_)'))
    WRITE.append(wr('const Caitlyn::Char &', ['data'], 'data.data_', ret='Required<HasStr<Char>()>'))
    for tr, cls in (('HasStr', 'VpStr'), ('HasToString', 'VpToS'), ('ConvertibleToString', 'VpCap')):
        t = f'{cls}_text(data)' if cls != 'VpCap' else f'flat({cls}_text(data).data_)'
        WRITE.append(wr(f'const Caitlyn::{cls} &', ['data'], t, ok=f'{cls}_exc(data) is None', ret=f'Required<{tr}<{cls}>()>'))
    for kinds in c_io.FARGS:
        f = c_io.fmt_of(kinds)
        WRITE.append(wr(f['sig'][1:-1], f['params'], f['call'] + '.text', ok=f['call'] + '.ok', requires=f['requires']))
GOOD = 'u8ok(upto_nul({}))'.format


def opened(sig, params, name, ok='true', requires=()):
    return C('File::File', sig, params=params, globals=FSG, throws=True, requires=requires, ensures=[
        f'exc is None <==> {ok} && {name}.len() > 0 && can_open(upto_nul({name}))', f'exc is None ==> flat(r.filename_.data_) =~= {name} && r.file_.open && file_ok(r, fs1) && r.currentPosition_ == 0 && !r.eof_',
        f'exc is None ==> fs_touch(fs, fs1, upto_nul({name}))', '!(exc is None) ==> fs1 == fs', f'{ok} ==> exc is None || exc is IosFailure'])


LINE = f'file_line(fs_get(fs, {KEY}), this.currentPosition_ as int, delim)'
FILE = [
    C('File::File', 'void ()', params=[], ensures=['!r.file_.open', 'flat(r.filename_.data_).len() == 0', 'r.currentPosition_ == 0']),
    opened('void (const String &)', ['filename'], 'flat(filename.data_)'),
    opened('void (const File &)', ['other'], 'flat(other.filename_.data_)'),
    *[opened('void ' + c_io.fmt_of(k)['sig'], c_io.fmt_of(k)['params'], c_io.fmt_of(k)['call'] + '.text', ok=c_io.fmt_of(k)['call'] + '.ok', requires=c_io.fmt_of(k)['requires']) for k in c_io.FARGS],
    C('File::~File', params=[], globals=FSG, requires=[OK], ensures=['fs1 == fs']),
    C('File::Open', params=[], globals=FSG, throws=True, requires=[OK], ensures=[
        'file_ok(this1, fs1)', 'file_same(this, this1)', 'exc is None || exc is IosFailure', 'exc is None <==> file_can(this)', f'exc is None ==> this1.file_.open && !this1.eof_ && fs_touch(fs, fs1, {KEY})', '!(exc is None) ==> fs1 == fs']),
    C('File::Close', params=[], globals=FSG, requires=[OK], ensures=['file_ok(this1, fs1)', 'file_same(this, this1)', '!this1.file_.open', 'fs1 == fs']),
    C('File::Erase', params=[], globals=FSG, throws=True, requires=[OK], ensures=[
        'file_ok(this1, fs1)', 'exc is None || exc is IosFailure', f'exc is None <==> flat(this.filename_.data_).len() > 0 && can_clear({KEY}) && can_open({KEY})',
        f'exc is None ==> this1.file_.open && this1.filename_ == this.filename_ && this1.currentPosition_ == 0 && fs1.files =~= fs.files.insert({KEY}, Seq::empty())', f'!can_clear({KEY}) ==> fs1 == fs']),
    C('File::IsEof', params=[], ensures=['r == this.eof_']),
    C('File::operator bool', params=[], ensures=['r == !this.eof_']),
    C('File::GetPosition', params=[], ensures=['r == this.currentPosition_']),
    C('File::SetPosition', params=['position'], globals=FSG, throws=True, requires=[OK], ensures=[
        'file_ok(this1, fs1)', 'fs1 == fs', 'this1.filename_ == this.filename_', 'exc is None || exc is IosFailure', 'exc is None <==> this.file_.open && can_seek(position as int)',
        'exc is None ==> this1.currentPosition_ == position && !this1.eof_', '!(exc is None) ==> this1.currentPosition_ == this.currentPosition_']),
    C('File::Read', params=[], globals=FSG, throws=True, requires=[OK], ensures=[
        'file_ok(this1, fs1)', 'file_same(this, this1)', f'fs_touched(fs, fs1, {KEY})', f'exc is None <==> file_can(this) && {GOOD(f"fs_get(fs, {KEY})")}',
        f'exc is None ==> r.data_ =~= u8split(upto_nul(fs_get(fs, {KEY}))) && sok(r.data_)', '!file_can(this) ==> exc is IosFailure']),
    C('File::ReadLine', params=['delim'], globals=FSG, throws=True, requires=[OK], ensures=[
        'file_ok(this1, fs1)', f'fs_touched(fs, fs1, {KEY})', 'this1.filename_ == this.filename_', f'exc is None <==> file_can(this) && {GOOD(LINE)}',
        f'file_can(this) ==> this1.currentPosition_ == file_next(fs_get(fs, {KEY}), this.currentPosition_ as int, delim) && this1.eof_ == file_end(fs_get(fs, {KEY}), this.currentPosition_ as int, delim)',
        f'exc is None ==> r.data_ =~= u8split(upto_nul({LINE})) && sok(r.data_)', '!file_can(this) ==> exc is IosFailure && file_same(this, this1)'],
      loops=[loop(inv=[f'this.file_.open && this.file_.name == {KEY0} && this.file_.app && fs_has(fs, this.file_.name) && can_open(this.file_.name)', 'flat(this.filename_.data_).len() > 0 && !this.file_.unsaved',
                       'fs_touched(fs0, fs, fname(this0))', 'this.filename_ == this0.filename_ && this.currentPosition_ == this0.currentPosition_ && !this.eof_',
                       f'result =~= (if {P0} < this.file_.pos {{ {FC}.subrange({P0}, this.file_.pos) }} else {{ Seq::empty() }})',
                       f'{P0} <= this.file_.pos', f'{P0} >= {FC}.len() ==> this.file_.pos == {P0}', f'{P0} < {FC}.len() ==> this.file_.pos <= {FC}.len() && byte_find({FC}, delim, {P0}) == byte_find({FC}, delim, this.file_.pos)',
                       'can_seek(this.currentPosition_ as int)', f'this.file_.eof == this.file_.fail && (this.file_.fail ==> this.file_.pos >= {FC}.len())'],
                  ens=['this.file_.fail'], dec=f'{FC}.len() - this.file_.pos + {P0}')]),
    C('MakeFile', params=['filename'], globals=FSG, throws=True, ensures=['exc is None <==> flat(filename.data_).len() > 0 && can_open(upto_nul(flat(filename.data_)))',
        'exc is None ==> flat(r.filename_.data_) =~= flat(filename.data_) && r.file_.open && file_ok(r, fs1) && r.currentPosition_ == 0', 'exc is None ==> fs_touch(fs, fs1, upto_nul(flat(filename.data_)))', '!(exc is None) ==> fs1 == fs']),
    C('CaitlynOps::operator""_file', params=['filename', '_n'], requires='cstr_ok(filename)', globals=FSG, throws=True, entry='lemma_file_name(filename);', ensures=[
        'exc is None <==> u8ok(cstr_bytes(filename)) && cstr_bytes(filename).len() > 0 && can_open(cstr_bytes(filename))',
        'exc is None ==> flat(r.filename_.data_) =~= cstr_bytes(filename) && r.file_.open && file_ok(r, fs1) && r.currentPosition_ == 0', 'exc is None ==> fs_touch(fs, fs1, cstr_bytes(filename))', '!(exc is None) ==> fs1 == fs']),
]
ROOTS = FILE + WRITE


def names(lib):
    lib.fieldnames['File'] = ['filename_', 'file_', 'currentPosition_', 'eof_']
