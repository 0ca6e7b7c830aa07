"""map helpers, sizes, random booleans; the keys, values and measured objects are of arbitrary types."""
from contract import Contract as C, loop
from xlate import size_key
from stdlib import FLT0, FLT1

K_, W_ = 'VpKey', 'VpItem'
CLS = ''.join(f'struct {n} {{ std::vector<int> v; {n}(); {n}(const {n}& o); ~{n}(); }};\n' for n in (K_, W_))
INST = '''namespace Caitlyn {
''' + CLS + '''
bool operator<(const VpKey& a, const VpKey& b);
inline void vp_maps(std::map<VpKey, VpItem>& m, const std::map<VpKey, VpItem>& c, const VpItem& v, std::vector<VpKey> w, int i, int (&arr)[3])
{
    GetMapKeys(m); GetMapKeys(c); GetMapKeys(std::map<VpKey, VpItem>{}); GetMapValues(m); GetMapValues(c); GetMapValues(std::map<VpKey, VpItem>{});
    VP_LIMITS
    SizeOf<VpItem>(); SizeOf(v); SizeOf<int>(); SizeOf(i); SizeOf<int[3]>(); SizeOf<std::vector<VpKey>>(); SizeOf(w);
}
}
'''
TRUSTED = [C(f'{n}::{n}', f'void (const Caitlyn::{n} &)', params=['o'], throws=True, ensures=['exc is None ==> r == o', f'exc == {n}_copy(o)'], trusted=True) for n in (K_, W_)]
UNINT = ''.join(f'pub uninterp spec fn {n}_copy(o: X{n}) -> Exc;\n' for n in (K_, W_)) + ''.join(f'''pub uninterp spec fn fdist_lo_{f}(d: Opaque) -> {f};
pub uninterp spec fn fdist_hi_{f}(d: Opaque) -> {f};
// the distance of the two is representable
pub uninterp spec fn span_ok_{f}(a: {f}, b: {f}) -> bool;
// a number taken from the uniform distribution on a..b
pub uninterp spec fn fdrawn_{f}(a: {f}, b: {f}, r: {f}) -> bool;
''' for f in ('F32', 'F64', 'F80')) + '''// the outcome of a trial that succeeds with probability p
pub uninterp spec fn bern_drawn(p: F64, r: bool) -> bool;
'''


def mapfn(name, out, field):
    return C(name, params=['map'], throws=True,
             ensures=[f'exc is None ==> r.len() == map.len()', f'exc is None ==> forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == map[i].{field}',
                      f'exc !is None ==> exists|i: int| 0 <= i < map.len() && exc == {out}_copy(#[trigger] map[i].{field})', 'map1 == map'],
             loops=[loop(inv=[f'out.len() == _i', f'forall|i: int| 0 <= i < _i ==> #[trigger] out[i] == map0[i].{field}', 'map == map0'])], locals=[('out', f'Seq<X{out}>')])


MAPS = [mapfn('GetMapKeys', K_, 'first'), mapfn('GetMapValues', W_, 'second')]

SZ = {'Caitlyn::VpItem': ('const Caitlyn::VpItem &', f"size_of({size_key(('cls', 'VpItem'))})"), 'int': ('const int &', '4'), 'int[3]': (None, '12'),
      'std::vector<Caitlyn::VpKey>': ('const std::vector<Caitlyn::VpKey> &', f"size_of({size_key(('vec', ('cls', 'VpKey')))})")}
MF = 'const MemoryFormat'
SIZES = [C('SizeOf', f'SizeType ({v + ", " if v else ""}{MF})', params=['value', 'mf'] if v else ['mf'], targs=[t], requires='mf <= 1', ensures=[f'mf == 1 ==> r == {e}', f'mf == 0 ==> r == 8 * {e}'])
         for t, (vt, e) in SZ.items() for v in ([None, vt] if vt else [None])]
# Random(min, max) of the integer types: within its bounds (the bounds have to be in order)
INTS = ['short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long']
RANDOM = [C('Random', params=['lo', 'hi'], targs=[t], requires='lo <= hi', ensures=['lo <= r && r <= hi', 'drawn(lo as int, hi as int, r as int)']) for t in INTS] + [
    C('Random', params=['lo', 'hi'], targs=[t], requires=[f'le_{f}(lo, hi)', f'span_ok_{f}(lo, hi)'], ensures=[f'le_{f}(lo, r) && le_{f}(r, hi)', f'fdrawn_{f}(lo, hi, r)']) for t, f in (('float', 'F32'), ('double', 'F64'), ('long double', 'F80'))] + [C('RandomBoolean', params=['percentage'], throws=True, ensures=[f'exc is InvalidArgument <==> !(le_F64({FLT0}, percentage) && le_F64(percentage, {FLT1}))', 'exc is None || exc is InvalidArgument', f'exc is None ==> (eq_F64(percentage, {FLT0}) ==> !r) && (eq_F64(percentage, {FLT1}) ==> r)', 'exc is None ==> bern_drawn(percentage, r)'])]


# the limits of the integer types
WIDTH = {'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}
LIMITS = []
for _t, (_w, _s) in WIDTH.items():
    _lo, _hi = (-2 ** (_w - 1), 2 ** (_w - 1) - 1) if _s else (0, 2 ** _w - 1)
    LIMITS += [C('MinValue', targs=[_t], ensures=[f'r == {_lo}']), C('MaxValue', targs=[_t], ensures=[f'r == {_hi}']), C('ValueRange', targs=[_t], ensures=[f'r.first == {_lo} && r.second == {_hi}'])]
INST = INST.replace('VP_LIMITS', ' '.join(f'MinValue<{t}>(); MaxValue<{t}>(); ValueRange<{t}>();' for t in WIDTH))


def names(lib):
    pass
