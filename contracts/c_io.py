"""console streams: the ghost state `io` holds what was written to each output and what is left of the input.

The objects written with str(), to_string() and ToString() are of arbitrary types: their conversions give any text or throw."""
from contract import Contract as C
import c_format

INST = c_format.INST + '''namespace Caitlyn {
struct VpStr { int k; std::string str() const; }; struct VpToS { int k; std::string to_string() const; }; struct VpCap { int k; String ToString() const; };
template <class S> void vp_io(const String& s, const VpStr& a, const VpToS& b, const VpCap& c, const Char& d, const int& i)
{
    S::Write(s); S::Write(a); S::Write(b); S::Write(c); S::Write(d); S::Write(s, s); S::Write(s, s, i);
    S::WriteLine(); S::WriteLine(s); S::WriteLine(a); S::WriteLine(b); S::WriteLine(c); S::WriteLine(d); S::WriteLine(s, s); S::WriteLine(s, s, i);
}
inline void vp_io_all(const String& s, const VpStr& a, const VpToS& b, const VpCap& c, const Char& d, const int& i)
{
    vp_io<OutputStream>(s, a, b, c, d, i); vp_io<ErrorStream>(s, a, b, c, d, i); vp_io<LogStream>(s, a, b, c, d, i);
    InputStream::ReadLine(); InputStream::ReadLine(s); InputStream::ReadLine(s, s); InputStream::ReadLine(s, s, i); InputStream::ReadChar(); InputStream::ReadChar(s); InputStream::ReadChar(s, s); InputStream::ReadChar(s, s, i);
}
}
'''
UNINT = '''
pub open spec fn io_out(a: IO, b: IO, k: int, t: Seq<u8>) -> bool {
    b.cin == a.cin && b.cout =~= (if k == 0 { a.cout + t } else { a.cout }) && b.cerr =~= (if k == 1 { a.cerr + t } else { a.cerr }) && b.clog =~= (if k == 2 { a.clog + t } else { a.clog })
}
// the next line of the input: up to a line feed, or all of it
pub open spec fn in_line(s: Seq<u8>) -> Seq<u8> { s.subrange(0, byte_find(s, 10, 0)) }
pub open spec fn in_after(s: Seq<u8>) -> Seq<u8> { let e = byte_find(s, 10, 0); if e < s.len() { s.skip(e + 1) } else { Seq::empty() } }
// prompt written and one line read
pub open spec fn io_read(a: IO, b: IO, prompt: Seq<u8>) -> bool { b.cerr == a.cerr && b.clog == a.clog && b.cout =~= a.cout + prompt && b.cin == in_after(a.cin) }
'''
IOG = [('io', 'IO')]
TRUSTED = []
for cls, fn, t in (('VpStr', 'str', 'Seq<u8>'), ('VpToS', 'to_string', 'Seq<u8>'), ('VpCap', 'ToString', 'XString')):
    UNINT += f'pub uninterp spec fn {cls}_exc(v: X{cls}) -> Exc;\npub uninterp spec fn {cls}_text(v: X{cls}) -> {t};\n'
    TRUSTED.append(C(f'{cls}::{fn}', params=[], throws=True, ensures=[f'exc == {cls}_exc(this)', f'exc is None ==> r == {cls}_text(this)'], trusted=True))

FARGS = (['s'], ['s', 'i'])


def fmt_of(kinds):
    names = [f'a{i}' for i in range(len(kinds))]
    seq = 'seq![' + ', '.join(c_format.KINDS[k][1].format(a) for k, a in zip(kinds, names)) + ']'
    return dict(sig='(' + ', '.join(['const String &'] + [c_format.KINDS[k][0].replace('String', 'Caitlyn::String') for k in kinds]) + ')', params=['str'] + names,
                requires=['sok(str.data_)'] + [f'sok({a}.data_)' for k, a in zip(kinds, names) if k == 's'], call=f'fmt(str.data_, {seq}, 0, 0)')


IO = []
for k, S in enumerate(('OutputStream', 'ErrorStream', 'LogStream')):
    for fn, end in (('Write', ''), ('WriteLine', ' + seq![10u8]')):
        def out(t, ok='exc is None'):
            return [f'{ok} ==> io_out(io, io1, {k}, {t}{end})', f'!({ok}) ==> io1 == io']
        if end:
            IO.append(C(f'{S}::{fn}', 'void ()', params=[], globals=IOG, ensures=[f'io_out(io, io1, {k}, seq![10u8])']))
        IO.append(C(f'{S}::{fn}', 'void (const String &)', params=['str'], globals=IOG, ensures=[f'io_out(io, io1, {k}, flat(str.data_){end})']))
        IO.append(C(f'{S}::{fn}', 'Required<HasStr<Char>()> (const Caitlyn::Char &)', params=['value'], globals=IOG, ensures=[f'io_out(io, io1, {k}, value.data_{end})']))
        for tr, cls in (('HasStr', 'VpStr'), ('HasToString', 'VpToS'), ('ConvertibleToString', 'VpCap')):
            t = f'{cls}_text(value)' if cls != 'VpCap' else f'flat({cls}_text(value).data_)'
            IO.append(C(f'{S}::{fn}', f'Required<{tr}<{cls}>()> (const Caitlyn::{cls} &)', params=['value'], globals=IOG, throws=True, ensures=[f'exc == {cls}_exc(value)', *out(t)]))
        for kinds in FARGS:
            f = fmt_of(kinds)
            IO.append(C(f'{S}::{fn}', 'void ' + f['sig'], params=f['params'], requires=f['requires'], globals=IOG, throws=True,
                        ensures=[f'exc is None <==> {f["call"]}.ok', *out(f['call'] + '.text')]))


def read(fn, ret, sig, params, prompt, requires, ok=None):
    read_ok = 'u8ok(upto_nul(in_line(io.cin)))'
    good = read_ok if ok is None else f'{ok} && {read_ok}'
    rest = f'io_read(io, io1, {prompt})'
    line = 'u8split(upto_nul(in_line(io.cin)))'
    res = f'r.data_ =~= {line} && sok(r.data_)' if fn == 'ReadLine' else f'r == (if {line}.len() > 0 {{ {line}[0] }} else {{ XChar {{ data_: Seq::empty() }} }})'
    return C('InputStream::' + fn, f'{ret} {sig}', params=params, requires=requires, globals=IOG, throws=True,
             ensures=[f'exc is None <==> {good}', rest if ok is None else f'{ok} ==> {rest}', *([] if ok is None else [f'!{ok} ==> io1 == io']), f'exc is None ==> {res}'])


for fn, ret in (('ReadLine', 'String'), ('ReadChar', 'Char')):
    IO.append(read(fn, ret, '(const String &)', ['message'], 'flat(message.data_)', []))
    for kinds in FARGS:
        f = fmt_of(kinds)
        IO.append(read(fn, ret, f['sig'], f['params'], f['call'] + '.text', f['requires'], f['call'] + '.ok'))
