"""SharedPtr used by several threads: each operation of one thread, with any steps of the other threads in between.

`heap` is the thread's view: how many owners it has per counter (mine), owners elsewhere that stay while it uses them
(bor), objects and counters that only it can reach (own, sole). concsys.rs proves that the views of all threads
together stay consistent under the steps used here, that an object is deleted once and after every access to it."""
from contract import Contract as C
from c_ptr import INST, O, SP, SREF, SRREF

ALIAS = 'pub type Sp = XSharedPtr_Caitlyn_VpObj;\n'
HEAP = [('heap', 'CHeap')]


def names(lib):
    lib.addr = lib.conc = True
    lib.opaque['VpObj'] = 'int'
    lib.opaque[O] = 'int'
    lib.fieldnames[SP] = ['data_', 'ref_count_']
    lib.dtors |= {SP}


WF = ['cwf(heap)', 'heap.seen =~= Set::empty()']
PUB = 'if {0}.ref_count_ != 0 && heap.sole.contains({0}.ref_count_) {{ assert(op_publish_pre(heap, {0}.ref_count_, {0}.data_)); lemma_publish(heap, {0}.ref_count_, {0}.data_); heap = op_publish(heap, {0}.ref_count_, {0}.data_); }}'


def op(sig, name=None, ensures=(), requires=(), **k):
    return C(f'{SP}::{name or "operator="}', sig, globals=HEAP, requires=WF + list(requires), ensures=['cwf(heap1)', 'heap1.seen =~= Set::empty()'] + list(ensures), **k)


SPR = 'SharedPtr<VpObj> &'
RESET = 'cs_reset(this, heap, this1, heap1, data)'
CONC = [
    op('void (Pointer)', 'SharedPtr', params=['data'], requires=['data != 0 ==> heap.own.contains(data)'], ensures=['cs_made(heap, heap1, r, data)'], ret=PUB.format('r')),
    op(f'void ({SREF})', 'SharedPtr', params=['other'], requires=['cs_uses(other, heap)'], ensures=['r == other', 'cs_moves(heap, heap1, 0, r.ref_count_)']),
    op(f'void ({SRREF}) noexcept', 'SharedPtr', params=['other'], requires=['cs_owns(other, heap)'], ensures=['r == other', 'cs_null(other1)', 'cs_moves(heap, heap1, 0, 0)']),
    op('void () noexcept', '~SharedPtr', params=[], requires=['cs_owns(this, heap)'], ensures=['cs_moves(heap, heap1, this.ref_count_, 0)']),
    op(SPR + '(Pointer)', params=['data'], requires=['cs_owns(this, heap)', 'data != 0 && data != this.data_ ==> heap.own.contains(data)'], ensures=[RESET]),
    op(SPR + f'({SREF})', params=['other'], alias=[('this', 'other')], requires=['cs_owns(this, heap)', 'cs_uses(other, heap)', '!ALIAS ==> cs_two(this, other, heap)'],
       ensures=['this1 == other', 'cs_moves(heap, heap1, if ALIAS { 0 } else { this.ref_count_ }, if ALIAS { 0 } else { other.ref_count_ })']),
    op(SPR + f'({SRREF}) noexcept', params=['other'], alias=[('this', 'other')], requires=['cs_owns(this, heap)', 'cs_owns(other, heap)', '!ALIAS ==> cs_two(this, other, heap)'],
       ensures=['this1 == other', '!ALIAS ==> cs_null(other1)', 'cs_moves(heap, heap1, if ALIAS { 0 } else { this.ref_count_ }, 0)']),
    op('void (Pointer)', 'Reset', params=['data'], requires=['cs_owns(this, heap)', 'data != 0 && data != this.data_ ==> heap.own.contains(data)'], ensures=[RESET], ret=PUB.format('this')),
    op(None, 'operator*', params=[], requires=['cs_uses(this, heap)'], throws=True, ensures=['(exc is None) == (this.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_ && heap1.live.contains(r)', 'heap1 == heap']),
    C(f'{SP}::operator->', params=[], globals=HEAP, requires=WF + ['cs_uses(this, heap)'], throws=True, ensures=['(exc is None) == (this.data_ != 0)', 'exc is None || exc is RuntimeError', 'exc is None ==> r == this.data_ && heap1.live.contains(r)', 'heap1 == heap']),
    C(f'{SP}::Get', params=[], ensures=['r == this.data_']),
]
