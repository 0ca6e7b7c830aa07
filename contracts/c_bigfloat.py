"""BigFloat: fu is the unscaled integer, fs the number of fraction digits; the value is fu / 10^fs"""
from contract import Contract as C, loop

W1, W2 = ['fwf(this)'], ['fwf(this)', 'fwf(other)']
INV = '!(exc is None) ==> exc is InvalidArgument'
DOT = 'assert(seq![ch1(46)] =~= chars1(seq![46u8]));'
COMMON = 'lemma_common(this, other); lemma_p10(0);'
OF_TEXT = lambda t: [f'exc is None ==> bwf(r.unscaled_) && fu(r) == fval({t}) && fs(r) == fscale({t})']
CSTR = 'u8split(cstr_bytes(number))'
FLOAT = [
    C('BigFloat::BigFloat', 'void (const String &)', params=['number'], requires='sok(number.data_)', throws=True, ensures=[
        'exc is None <==> decimal(number.data_)', INV, *OF_TEXT('number.data_'), 'exc is None ==> fwf(r)'],
      entry='lemma_lits(); lemma_point(); lemma_int_text(0);',
      calls={'Find': dict(after='lemma_dot_find(arg_this.data_, arg_substr.data_);'), 'BigInteger': dict(before='assert(arg_number.data_ =~= fnum(number.data_));')}),
    C('BigFloat::BigFloat', 'void (const char *)', params=['number'], requires='cstr_ok(number)', throws=True, ensures=[
        f'exc is None <==> u8ok(cstr_bytes(number)) && decimal({CSTR})', '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)',
        'u8ok(cstr_bytes(number)) ==> (' + INV + ')', *OF_TEXT(CSTR), 'exc is None ==> fwf(r)']),
    C('BigFloat::BigFloat', 'void (BigFloat &&) noexcept', params=['other'], ensures=['r == other', 'fwf(other) ==> fwf(other1)']),
    C('BigFloat::operator=', 'BigFloat &(const BigFloat &)', params=['other'], alias=[('this', 'other')], ensures=['this1 == other']),
    C('BigFloat::operator=', 'BigFloat &(BigFloat &&) noexcept', params=['other'], ensures=['this1 == other', 'fwf(other) ==> fwf(other1)']),
    C('BigFloat::Scaled', params=['scale'], requires=W1, ensures=['bwf(r)', 'bv(r) == fu(this) * p10(imax(scale as int, fs(this)) - fs(this))'],
      entry='lemma_ten(); lemma_int_text(10); lemma_p10(0); assert(fu(this) * 1 == fu(this));',
      loops=[loop(inv=['this.scale_ <= i', 'i <= scale || i == this.scale_', 'bwf(result)', 'bv(result) == fu(this) * p10(i - fs(this))'], dec='scale - i',
                  start='lemma_p10(i + 1 - fs(this)); assert(fu(this) * p10(i - fs(this)) * 10 == fu(this) * (10 * p10(i - fs(this)))) by (nonlinear_arith);')]),
    C('BigFloat::Add', params=['other'], requires=W2, ensures=['fwf(r)', 'fs(r) == imax(fs(this), fs(other))', 'fsum(this, other, 1, r)'], entry=COMMON),
    C('BigFloat::Subtract', params=['other'], requires=W2, ensures=['fwf(r)', 'fs(r) == imax(fs(this), fs(other))', 'fsum(this, other, -1, r)'], entry=COMMON),
    C('BigFloat::Multiply', params=['other'], requires=['bwf(this.unscaled_)', 'bwf(other.unscaled_)', 'this.scale_ + other.scale_ < 0x1_0000_0000_0000_0000'],
      ensures=['bwf(r.unscaled_)', 'fu(r) == fu(this) * fu(other)', 'fs(r) == fs(this) + fs(other)']),
    C('BigFloat::Divide', params=['other'], requires=W2, throws=True, ensures=[
        'exc is None <==> fu(other) != 0', INV, 'exc is None ==> fwf(r) && fs(r) == imax(fs(this), fs(other))',
        'exc is None ==> fu(r) == tdiv(fu(this) * p10(fs(r) + fs(other) - fs(this)), fu(other))'],
      entry='lemma_lits(); lemma_int_text(0); lemma_float_int(0); lemma_p10(0); lemma_p10(fs(other));'),
    C('BigFloat::Abs', requires=W1, ensures=['fwf(r)', 'fu(r) == iabs(fu(this))', 'fs(r) == fs(this)']),
    C('BigFloat::Pow', params=['exponent'], requires=['fwf(this)', 'fs(this) * exponent < 0x200_0000_0000_0000'], throws=True, ensures=[
        'exc is None <==> exponent >= 0', INV, 'exc is None ==> bwf(r.unscaled_) && fu(r) == ipow(fu(this), exponent as int) && fs(r) == fs(this) * exponent'],
      entry='lemma_lits(); lemma_int_text(1); lemma_float_int(1);',
      loops=[loop(inv=['exponent >= 0', 'bwf(result.unscaled_)', 'bwf(base.unscaled_)', 'fu(result) * ipow(fu(base), exponent as int) == ipow(fu(this), exponent0 as int)',
                       'fs(result) + fs(base) * exponent == fs(this) * exponent0', 'fs(base) < 0x400_0000_0000_0000'], dec='exponent',
                  start='''lemma_pow_step(fu(result), fu(base), exponent as int);
                  assert(fs(base) * exponent >= fs(base)) by (nonlinear_arith) requires exponent >= 1, fs(base) >= 0;
                  assert((fs(base) + fs(base)) * (exponent as int / 2) + (if exponent % 2 == 1 { fs(base) } else { 0 }) == fs(base) * exponent) by (nonlinear_arith) requires exponent >= 1;''')]),
    C('BigFloat::Sqr', requires=['bwf(this.unscaled_)', 'this.scale_ * 2 < 0x1_0000_0000_0000_0000'], ensures=['bwf(r.unscaled_)', 'fu(r) == fu(this) * fu(this)', 'fs(r) == 2 * fs(this)']),
    C('BigFloat::Sqrt', requires=W1, throws=True, ensures=[
        'exc is None <==> fu(this) >= 0', INV, 'exc is None ==> fwf(r) && fs(r) == fs(this) && fu(r) >= 0 && fu(r) * fu(r) <= fu(this) * p10(fs(this)) < (fu(r) + 1) * (fu(r) + 1)'],
      entry='lemma_p10(fs(this)); assert(fu(this) >= 0 <==> fu(this) * p10(fs(this)) >= 0) by (nonlinear_arith) requires p10(fs(this)) >= 1;'),
    C('BigFloat::Size', ensures=['r == this.unscaled_.digits_.len()']),
    C('BigFloat::Equal', params=['other'], requires=W2, ensures=['r <==> feq(this, other)'], entry=COMMON),
    C('BigFloat::LessThan', params=['other'], requires=W2, ensures=['r <==> flt(this, other)'], entry=COMMON),
    C('BigFloat::GreaterThan', params=['other'], requires=W2, ensures=['r <==> flt(other, this)']),
    C('BigFloat::ToString', requires=W1, ensures=['r.data_ =~= chars1(ftext(fu(this), fs(this)))'],
      entry='lemma_fdigs(fu(this), fs(this)); lemma_lits(); lemma_int_text(0); theorem_float_text(fu(this), fs(this));',
      calls={'Substring': dict(before='assert(arg_this.data_ =~= chars1(fdigs(fu(this), fs(this))));'),
             'String': dict(after='if ret_.data_.len() == fs(this) && (forall|i: int| 0 <= i < ret_.data_.len() ==> #[trigger] ret_.data_[i] == ch1(48)) { lemma_zero_frac(fu(this), fs(this), fractional_str.data_, ret_.data_); }')}),
]
BIN = '(const Caitlyn::BigFloat &, const Caitlyn::BigFloat &)'
REL = {'<': 'flt(lhs, rhs)', '>': 'flt(rhs, lhs)', '<=': '!flt(rhs, lhs)', '>=': '!flt(lhs, rhs)', '==': 'feq(lhs, rhs)', '!=': '!feq(lhs, rhs)'}
L2 = ['fwf(lhs)', 'fwf(rhs)']
FLOAT += [C(f'CaitlynOps::operator{op}', 'bool ' + BIN, params=['lhs', 'rhs'], requires=L2, ensures=[f'r <==> {e}']) for op, e in REL.items()]
FLOAT += [C(f'CaitlynOps::operator{op}', 'Caitlyn::BigFloat ' + BIN, params=['lhs', 'rhs'], requires=L2, ensures=['fwf(r)', 'fs(r) == imax(fs(lhs), fs(rhs))', f'fsum(lhs, rhs, {op}1, r)'.replace('+1', '1')]) for op in '+-']
FLOAT += [
    C('CaitlynOps::operator*', 'Caitlyn::BigFloat ' + BIN, params=['lhs', 'rhs'], requires=L2, ensures=['bwf(r.unscaled_)', 'fu(r) == fu(lhs) * fu(rhs)', 'fs(r) == fs(lhs) + fs(rhs)']),
    C('CaitlynOps::operator/', 'Caitlyn::BigFloat ' + BIN, params=['lhs', 'rhs'], requires=L2, throws=True, ensures=[
        'exc is None <==> fu(rhs) != 0', INV, 'exc is None ==> fwf(r) && fs(r) == imax(fs(lhs), fs(rhs)) && fu(r) == tdiv(fu(lhs) * p10(fs(r) + fs(rhs) - fs(lhs)), fu(rhs))']),
    C('CaitlynOps::operator<<', 'std::ostream &(std::ostream &, const Caitlyn::BigFloat &)', params=['os', 'number'], requires='fwf(number)', ensures=['os1 =~= os + ftext(fu(number), fs(number))'],
      entry='lemma_fdigs(fu(number), fs(number)); lemma_ascii(ftext(fu(number), fs(number))); lemma_text_roundtrip(ftext(fu(number), fs(number)));'),
    C('CaitlynOps::operator""_bigfloat', params=['number', '_n'], requires='cstr_ok(number)', throws=True, ensures=[
        f'exc is None <==> u8ok(cstr_bytes(number)) && decimal({CSTR})', '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)', *OF_TEXT(CSTR), 'exc is None ==> fwf(r)']),
]
