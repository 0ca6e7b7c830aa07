"""smart pointers over a ghost heap: which objects are alive, and what every reference counter holds.

The object type is an arbitrary class known by the addresses of its objects; deleting one and using a counter are
obligations (it must be alive). A counter made by `new` is at an address no counter has."""
from contract import Contract as C

INST = '''namespace Caitlyn {
struct VpObj { int k; ~VpObj(); };
template class SharedPtr<VpObj>; template class UniquePtr<VpObj>; template class Ptr<VpObj>; template class WeakPtr<VpObj>;
inline SharedPtr<VpObj> vp_null_shared() { return SharedPtr<VpObj>{}; }
inline UniquePtr<VpObj> vp_null_unique() { return UniquePtr<VpObj>{}; }
inline Ptr<VpObj> vp_null_raw() { return Ptr<VpObj>{}; }
inline WeakPtr<VpObj> vp_null_weak() { return WeakPtr<VpObj>{}; }
}
'''
O = 'Caitlyn::VpObj'
SP, UP, RP, WP = (f'{n}<{O}>' for n in ('SharedPtr', 'UniquePtr', 'Ptr', 'WeakPtr'))
ALIAS = 'pub type Sp = XSharedPtr_Caitlyn_VpObj;\npub type Up = XUniquePtr_Caitlyn_VpObj;\npub type Rp = XPtr_Caitlyn_VpObj;\npub type Wp = XWeakPtr_Caitlyn_VpObj;\n'
HEAP = [('heap', 'Heap')]


def names(lib):
    lib.addr = True
    lib.opaque['VpObj'] = 'int'
    lib.opaque[O] = 'int'
    lib.fieldnames[SP] = ['data_', 'ref_count_']
    lib.fieldnames[UP] = ['data_']
    lib.fieldnames[RP] = ['data_']
    lib.fieldnames[WP] = ['data_']
    lib.dtors |= {SP, UP, RP, WP}


def common(cls, short, ok):
    return [C(f'{cls}::operator*', params=[], globals=HEAP, requires=[ok.format('this')], throws=True, ensures=['(exc is None) == (this.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_', 'heap1 == heap']),
            C(f'{cls}::operator->', params=[], throws=True, ensures=['(exc is None) == (this.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_']),
            C(f'{cls}::Get', params=[], ensures=['r == this.data_']),
            C(f'{cls}::operator==', f'bool (const {short}<{O}> &) const', params=['other'], ensures=['r == (this.data_ == other.data_)']),
            C(f'{cls}::operator!=', f'bool (const {short}<{O}> &) const', params=['other'], ensures=['r == (this.data_ != other.data_)']),
            C(f'{cls}::operator==', 'bool (Caitlyn::NullPtr) const', params=['n'], ensures=['r == (this.data_ == 0)']),
            C(f'{cls}::operator!=', 'bool (Caitlyn::NullPtr) const', params=['n'], ensures=['r == (this.data_ != 0)'])]


def ctor(cls, name, sig, **k):
    return C(f'{cls}::{name}', f'void {sig}', globals=HEAP, **k)


def assign(cls, short, sig, **k):
    # `inner`: the object that holds the pointer assigned from, or 0; that pointer is destroyed with it
    return C(f'{cls}::operator=', f'{short}<VpObj> &{sig}', globals=HEAP + ([('inner', 'int')] if k.get('alias') and short != 'Ptr' else []), **k)


SREF, SRREF, UREF, URREF = 'const SharedPtr<VpObj> &', 'SharedPtr<VpObj> &&', 'const UniquePtr<VpObj> &', 'UniquePtr<VpObj> &&'
SAME, RESET = 'heap_eq(heap1, heap)', 'sp_reset(this, heap, this1, heap1, data)'
SHARED = [
    C('vp_null_shared', ensures=['r.data_ == 0 && r.ref_count_ == 0'], globals=HEAP),
    ctor(SP, 'SharedPtr', '(Pointer)', params=['data'], ensures=['sp_made(heap, heap1, r, data)']),
    ctor(SP, 'SharedPtr', f'({SREF})', params=['other'], requires=['sp_ok(other, heap)', 'sp_room(other, heap)'], ensures=['r == other', 'heap_eq(heap1, sp_share(heap, other))']),
    ctor(SP, 'SharedPtr', f'({SRREF}) noexcept', params=['other'], ensures=['r == other', 'sp_null(other1)', SAME]),
    ctor(SP, '~SharedPtr', '() noexcept', params=[], requires=['sp_ok(this, heap)'], ensures=['heap_eq(heap1, sp_drop(heap, this))']),
    assign(SP, 'SharedPtr', '(Pointer)', params=['data'], requires=['sp_ok(this, heap)'], ensures=[RESET]),
    assign(SP, 'SharedPtr', f'({SREF})', params=['other'], alias=[('this', 'other')], requires=['sp_ok(this, heap)', 'sp_ok(other, heap)', 'sp_room(other, heap)', '!ALIAS ==> sp_two(this, other, heap)'],
           ensures=['this1 == other', 'heap_eq(heap1, if ALIAS { heap } else { sp_taken(this, other, heap, inner) })']),
    assign(SP, 'SharedPtr', f'({SRREF}) noexcept', params=['other'], alias=[('this', 'other')], requires=['sp_ok(this, heap)', 'sp_ok(other, heap)', '!ALIAS ==> sp_two(this, other, heap)'],
           ensures=['this1 == other', '!ALIAS && !gone(heap, heap1, inner) ==> sp_null(other1)', 'heap_eq(heap1, if ALIAS { heap } else { sp_drop(heap, this) })']),
    C(f'{SP}::Reset', 'void (Pointer)', params=['data'], globals=HEAP, requires=['sp_ok(this, heap)'], ensures=[RESET]),
    *common(SP, 'SharedPtr', 'sp_ok({}, heap)')]
UNIQUE = [
    C('vp_null_unique', ensures=['r.data_ == 0'], globals=HEAP),
    ctor(UP, 'UniquePtr', '(Pointer)', params=['data'], ensures=['r.data_ == data', SAME]),
    ctor(UP, 'UniquePtr', f'({URREF}) noexcept', params=['other'], ensures=['r == other', 'other1.data_ == 0', SAME]),
    ctor(UP, '~UniquePtr', '() noexcept', params=[], requires=['up_ok(this, heap)'], ensures=['heap_eq(heap1, heap_del_live(heap, this.data_))']),
    assign(UP, 'UniquePtr', '(Pointer)', params=['data'], requires=['up_ok(this, heap)'], ensures=['up_reset(this, heap, this1, heap1, data)']),
    assign(UP, 'UniquePtr', f'({URREF}) noexcept', params=['other'], alias=[('this', 'other')], requires=['up_ok(this, heap)', 'up_ok(other, heap)', '!ALIAS ==> up_two(this, other)'],
           ensures=['this1 == other', '!ALIAS && !gone(heap, heap1, inner) ==> other1.data_ == 0', 'heap_eq(heap1, if ALIAS { heap } else { heap_del_live(heap, this.data_) })']),
    C(f'{UP}::Reset', 'void (Pointer)', params=['new_data'], globals=HEAP, requires=['up_ok(this, heap)'], ensures=['up_reset(this, heap, this1, heap1, new_data)']),
    C(f'{UP}::Release', params=[], globals=HEAP, ensures=['r == this.data_', 'this1.data_ == 0', SAME]),
    *common(UP, 'UniquePtr', 'up_ok({}, heap)')]
RREF = 'const Ptr<VpObj> &'
RAW = [
    C('vp_null_raw', ensures=['r.data_ == 0'], globals=HEAP),
    ctor(RP, 'Ptr', '(Pointer)', params=['data'], ensures=['r.data_ == data', SAME]),
    ctor(RP, 'Ptr', f'({RREF})', params=['other'], ensures=['r == other', SAME]),
    assign(RP, 'Ptr', '(Pointer)', params=['data'], ensures=['this1.data_ == data', SAME]),
    assign(RP, 'Ptr', f'({RREF})', params=['other'], alias=[('this', 'other')], ensures=['this1 == other', SAME]),
    C(f'{RP}::Reset', 'void (Pointer)', params=['new_data'], globals=HEAP, requires=['rp_ok(this, heap)'], ensures=['this1.data_ == new_data', 'heap_eq(heap1, heap_del_live(heap, this.data_))']),
    C(f'{RP}::Destroy', params=[], globals=HEAP, requires=['rp_ok(this, heap)'], ensures=['this1.data_ == 0', 'heap_eq(heap1, heap_del_live(heap, this.data_))']),
    *common(RP, 'Ptr', 'rp_ok({}, heap)')]
# a WeakPtr holds a SharedPtr, so it owns like one
WREF, WRREF = 'const WeakPtr<VpObj> &', 'WeakPtr<VpObj> &&'
W = 'this.data_'
TWO = ['sp_ok(this.data_, heap)', 'sp_ok(other{0}, heap)', 'sp_room(other{0}, heap)', '!ALIAS ==> sp_two(this.data_, other{0}, heap)']
WEAK = [
    C('vp_null_weak', ensures=['sp_null(r.data_)', SAME], globals=HEAP),
    ctor(WP, 'WeakPtr', '(const Resource &)', params=['resource'], requires=['sp_ok(resource, heap)', 'sp_room(resource, heap)'], ensures=['r.data_ == resource', 'heap_eq(heap1, sp_share(heap, resource))']),
    ctor(WP, 'WeakPtr', f'({WREF})', params=['other'], requires=['sp_ok(other.data_, heap)', 'sp_room(other.data_, heap)'], ensures=['r == other', 'heap_eq(heap1, sp_share(heap, other.data_))']),
    ctor(WP, 'WeakPtr', f'({WRREF}) noexcept', params=['other'], ensures=['r.data_ == other.data_', 'sp_null(other1.data_)', SAME]),
    C(f'{WP}::operator=', f'WeakPtr<VpObj> &({WREF})', params=['other'], globals=HEAP + [('inner', 'int')], alias=[('this', 'other')], requires=[t.format('.data_') for t in TWO],
      ensures=['this1.data_ == other.data_', 'heap_eq(heap1, if ALIAS { heap } else { sp_taken(this.data_, other.data_, heap, inner) })']),
    C(f'{WP}::operator=', 'WeakPtr<VpObj> &(const Resource &)', params=['sp'], globals=HEAP + [('inner', 'int')], requires=[t.format('').replace('other', 'sp').replace('!ALIAS ==> ', '') for t in TWO],
      ensures=['this1.data_ == sp', 'heap_eq(heap1, sp_taken(this.data_, sp, heap, inner))']),
    C(f'{WP}::operator=', f'WeakPtr<VpObj> &({WRREF}) noexcept', params=['other'], globals=HEAP + [('inner', 'int')], alias=[('this', 'other')], requires=['sp_ok(this.data_, heap)', 'sp_ok(other.data_, heap)', '!ALIAS ==> sp_two(this.data_, other.data_, heap)'],
      ensures=['this1.data_ == other.data_', '!ALIAS && !gone(heap, heap1, inner) ==> sp_null(other1.data_)', 'heap_eq(heap1, if ALIAS { heap } else { sp_drop(heap, this.data_) })']),
    C(f'{WP}::lock', params=[], globals=HEAP, requires=['sp_ok(this.data_, heap)', 'sp_room(this.data_, heap)'], ensures=['r == this.data_', 'heap_eq(heap1, sp_share(heap, this.data_))']),
    C(f'{WP}::expired', params=[], ensures=['r == (this.data_.data_ == 0)']),
    C(f'{WP}::operator*', params=[], globals=HEAP, requires=['sp_ok(this.data_, heap)'], throws=True, ensures=['(exc is None) == (this.data_.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_.data_', 'heap1 == heap']),
    C(f'{WP}::operator->', params=[], throws=True, ensures=['(exc is None) == (this.data_.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_.data_']),
    C(f'{WP}::operator==', f'bool ({WREF}) const', params=['other'], ensures=['r == (this.data_.data_ == other.data_.data_)']),
    C(f'{WP}::operator!=', f'bool ({WREF}) const', params=['other'], ensures=['r == (this.data_.data_ != other.data_.data_)']),
    C(f'{WP}::operator==', 'bool (Caitlyn::NullPtr) const', params=['n'], ensures=['r == (this.data_.data_ == 0)']),
    C(f'{WP}::operator!=', 'bool (Caitlyn::NullPtr) const', params=['n'], ensures=['r == (this.data_.data_ != 0)'])]
PTRS = SHARED + UNIQUE + RAW + WEAK
