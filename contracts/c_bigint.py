"""BigInteger: sign and little-endian decimal digits; bv is the integer denoted, bwf the canonical form"""
from contract import Contract as C, loop

W2 = ['bwf(this)', 'bwf(other)']
LITS = 'lemma_int_text(0); lemma_int_text(1); lemma_int_text(2); lemma_nat_dec(0); lemma_nat_dec(1); lemma_nat_dec(2);'
BIG = [
    C('BigInteger::BigInteger', 'void (const String &)', params=['number'], requires='sok(number.data_)', throws=True, ensures=[
        'exc is None <==> numeral(number.data_)', '!(exc is None) ==> exc is InvalidArgument',
        'exc is None ==> bwf(r) && bv(r) == num_val(number.data_)'],
      entry='assert(ch1(45).data_[0] == 45 && ch1(43).data_[0] == 43);',
      loops=[loop(inv=['start <= i <= number.data_.len()', 'start == sgn_len(number.data_)', 'this.digits_.len() == i - start', 'this.is_negative_ == (number.data_[0] == ch1(45))',
                       'forall|k: int| start <= k < i ==> is_cdig(#[trigger] number.data_[k]) && this.digits_[k - start] == cdig(number.data_[k])'],
                  dec='number.data_.len() - i', start='assert(char_ok(number.data_[i as int].data_));',
                  after='''let s = number.data_.skip(start as int);
                  assert forall|k: int| 0 <= k < s.len() implies is_cdig(#[trigger] s[k]) && this.digits_[k] == cdig(s[k]) by { assert(is_cdig(number.data_[k + start])); }
                  lemma_pv_rev(s, this.digits_);''')]),
    C('BigInteger::BigInteger', 'void (const int64_t)', params=['value'], ensures=['bwf(r) && bv(r) == value'], entry='lemma_int_text(value as int);'),
    C('BigInteger::BigInteger', 'void (const uint64_t)', params=['value'], ensures=['bwf(r) && bv(r) == value'], entry='lemma_int_text(value as int);'),
    C('BigInteger::BigInteger', 'void (const char *)', params=['number'], requires='cstr_ok(number)', throws=True, ensures=[
        'exc is None <==> u8ok(cstr_bytes(number)) && numeral(u8split(cstr_bytes(number)))',
        '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)', 'u8ok(cstr_bytes(number)) && !(exc is None) ==> exc is InvalidArgument',
        'exc is None ==> bwf(r) && bv(r) == num_val(u8split(cstr_bytes(number)))']),
    C('BigInteger::BigInteger', 'void (BigInteger &&) noexcept', params=['other'], ensures=['r == other', 'bwf(other) ==> bwf(other1)']),
    C('BigInteger::operator=', 'BigInteger &(const BigInteger &)', params=['other'], alias=[('this', 'other')], ensures=['this1 == other']),
    C('BigInteger::operator=', 'BigInteger &(BigInteger &&) noexcept', params=['other'], ensures=['this1 == other', 'bwf(other) ==> bwf(other1)']),
    C('BigInteger::RemoveLeadingZeros', requires='digs(this.digits_)', ensures=[
        'bweak(this1)', 'nv(this1.digits_) == nv(this.digits_)', 'this1.is_negative_ == (this.is_negative_ && this1.digits_.len() > 0)', 'bwf(this1)'],
      loops=[loop(inv=['digs(this.digits_)', 'nv(this.digits_) == nv(this0.digits_)', 'this.is_negative_ == this0.is_negative_'], dec='this.digits_.len()',
                  start='assert(0 * p10(this.digits_.len() - 1) == 0); assert(digs(this.digits_.drop_last())) by { assert forall|q: int| 0 <= q < this.digits_.len() - 1 implies 0 <= #[trigger] this.digits_.drop_last()[q] <= 9 by { assert(0 <= this.digits_[q] <= 9); } }')]),
    C('BigInteger::Equal', params=['other'], requires=W2, ensures=['r <==> bv(this) == bv(other)'], entry='lemma_beq(this, other);'),
    C('BigInteger::LessThan', params=['other'], requires=W2, ensures=['r <==> bv(this) < bv(other)'],
      entry='lemma_beq(this, other); lemma_beq(other, this); if this.digits_.len() < other.digits_.len() { lemma_nv_len(this.digits_, other.digits_); } if other.digits_.len() < this.digits_.len() { lemma_nv_len(other.digits_, this.digits_); }',
      loops=[loop(inv=['i <= this.digits_.len()', 'this.digits_.len() == other.digits_.len()', 'this.is_negative_ == other.is_negative_', 'forall|k: int| i <= k < this.digits_.len() ==> #[trigger] this.digits_[k] == other.digits_[k]'],
                  dec='i', start='if this.digits_[i - 1] != other.digits_[i - 1] { lemma_nv_top(this.digits_, other.digits_, i as int); }',
                  after='assert(this.digits_ =~= other.digits_);')]),
    C('BigInteger::GreaterThan', params=['other'], requires=W2, ensures=['r <==> bv(this) > bv(other)']),
    C('BigInteger::Add', params=['other'], requires=['bweak(this)', 'bweak(other)'], ensures=['bwf(r)', 'bv(r) == bv(this) + bv(other)'], dec='if this.is_negative_ == other.is_negative_ { 0int } else { 3 }',
      entry='lemma_signs(); lemma_nv_bound(this.digits_); lemma_nv_bound(other.digits_); lemma_nv_zero(this.digits_); lemma_nv_zero(other.digits_);',
      loops=[loop(inv=['i <= result.digits_.len()', '0 <= carry <= 1', 'digs(result.digits_)', 'result.is_negative_ == this.is_negative_',
                       'result.digits_.len() == (if this.digits_.len() > other.digits_.len() { this.digits_.len() } else { other.digits_.len() }) + 1',
                       'nv(result.digits_.take(i as int)) + carry * p10(i as int) == nv(tk(this.digits_, i as int)) + nv(tk(other.digits_, i as int))'],
                  dec='result.digits_.len() - i',
                  start='let ghost _r = result.digits_; let ghost _i = i as int; lemma_tk_step(this.digits_, _i); lemma_tk_step(other.digits_, _i); lemma_add_step(at0(this.digits_, _i), at0(other.digits_, _i), carry as int, p10(_i));',
                  end='lemma_nv_step(result.digits_, _i); assert(result.digits_.take(_i) =~= _r.take(_i));',
                  after="""let n = result.digits_.len() - 1; lemma_tk_all(this.digits_, n + 1); lemma_tk_all(other.digits_, n + 1); lemma_nv_full(result.digits_); lemma_nv_bound(result.digits_); lemma_p10(n + 1);
                  lemma_p10_mono(this.digits_.len() as int, n); lemma_p10_mono(other.digits_.len() as int, n); lemma_p10(n);
                  assert(carry == 0) by (nonlinear_arith) requires carry >= 0, carry * p10(n + 1) < 2 * p10(n), p10(n + 1) == 10 * p10(n), p10(n) >= 1;""")]),
    C('BigInteger::Subtract', params=['other'], requires=W2, ensures=['bwf(r)', 'bv(r) == bv(this) - bv(other)'], dec='if this.is_negative_ == other.is_negative_ { 1int } else { 2 }',
      entry='lemma_signs(); lemma_lits(); lemma_int_text(0); lemma_nv_bound(this.digits_); lemma_nv_bound(other.digits_); lemma_nv_zero(this.digits_); lemma_nv_zero(other.digits_);',
      loops=[loop(inv=['i <= result.digits_.len()', '0 <= borrow <= 1', 'digs(result.digits_)', 'result.is_negative_ == result_is_negative',
                       'result.digits_.len() == larger.digits_.len()',
                       'nv(result.digits_.take(i as int)) == nv(larger.digits_.take(i as int)) - nv(tk(smaller.digits_, i as int)) + borrow * p10(i as int)'],
                  dec='result.digits_.len() - i',
                  before='if smaller.digits_.len() > larger.digits_.len() { lemma_nv_len(larger.digits_, smaller.digits_); }',
                  start='let ghost _r = result.digits_; let ghost _i = i as int; lemma_nv_step(larger.digits_, _i); lemma_tk_step(smaller.digits_, _i); lemma_sub_step(larger.digits_[_i] as int, at0(smaller.digits_, _i), borrow as int, p10(_i));',
                  end='lemma_nv_step(result.digits_, _i); assert(result.digits_.take(_i) =~= _r.take(_i));',
                  after="""let n = result.digits_.len() as int; lemma_tk_all(smaller.digits_, n); lemma_nv_full(result.digits_); lemma_nv_full(larger.digits_); lemma_nv_bound(result.digits_); lemma_p10(n);
                  assert(borrow == 0) by (nonlinear_arith) requires borrow >= 0, borrow * p10(n) < p10(n), p10(n) >= 1;""")]),
    C('BigInteger::Multiply', params=['other'], requires=W2, ensures=['bwf(r)', 'bv(r) == bv(this) * bv(other)'],
      entry='lemma_nv_bound(this.digits_); lemma_nv_bound(other.digits_);',
      loops=[loop(inv=['i <= this.digits_.len()', 'digs(result.digits_)', 'result.digits_.len() == this.digits_.len() + other.digits_.len()', '!result.is_negative_',
                       'nv(result.digits_) == nv(this.digits_.take(i as int)) * nv(other.digits_)'],
                  dec='this.digits_.len() - i',
                  before='lemma_nv_zeros(result.digits_.len() as int); assert(result.digits_ =~= zeros(result.digits_.len() as int)); assert(0 * nv(other.digits_) == 0);',
                  after='lemma_nv_full(this.digits_); lemma_mul_sign(bv(this), bv(other), nv(this.digits_), nv(other.digits_));'),
             loop(inv=['digs(result.digits_)', '!result.is_negative_', '0 <= carry <= 9', 'result.digits_.len() == this.digits_.len() + other.digits_.len()',
                       'nv(result.digits_) + carry * p10(i + j) == _n0 + this.digits_[i as int] * nv(tk(other.digits_, j as int)) * p10(i as int)',
                       'j > other.digits_.len() ==> carry == 0', 'j <= other.digits_.len() + 1'],
                  before="""let ghost _n0 = nv(result.digits_); let ghost _b = nv(this.digits_.take(i + 1)) * nv(other.digits_); lemma_mul_head(this.digits_, other.digits_, i as int); assert(this.digits_[i as int] * 0 * p10(i as int) == 0) by (nonlinear_arith);""",
                  dec='other.digits_.len() + 2 - j',
                  start="""let ghost _r = result.digits_; let ghost _j = j as int; lemma_p10_add(i as int, _j); lemma_tk_step(other.digits_, _j); lemma_p10(i + _j); lemma_p10(i + _j + 1); lemma_nv_bound(result.digits_);
                  lemma_mul_step(result.digits_[i + _j] as int, this.digits_[i as int] as int, at0(other.digits_, _j), carry as int, p10(i + _j), p10(i as int), p10(_j), nv(tk(other.digits_, _j)));
                  if _j >= other.digits_.len() { lemma_tk_all(other.digits_, _j); }
                  if _j >= other.digits_.len() { lemma_mul_bound(_b, carry as int, i as int, other.digits_.len() as int, _j); }
                  """,
                  end='lemma_nv_update(_r, i + _j, result.digits_[i + _j]); if _j == other.digits_.len() && carry >= 1 { lemma_nv_bound(result.digits_); lemma_tk_all(other.digits_, _j + 1); lemma_mul_bound(_b, carry as int, i as int, other.digits_.len() as int, _j + 1); }',
                  after='lemma_tk_all(other.digits_, j as int); assert(0 * p10(i + j) == 0);')]),
]
BIG += [
    C('BigInteger::Divide', params=['other'], requires=W2, throws=True, ensures=[
        'exc is None <==> bv(other) != 0', '!(exc is None) ==> exc is InvalidArgument', 'exc is None ==> bwf(r) && bv(r) == tdiv(bv(this), bv(other))'],
      entry='lemma_signs(); lemma_lits(); lemma_int_text(0); lemma_beq(this, this); lemma_beq(other, other); lemma_nv_bound(this.digits_); lemma_nv_bound(other.digits_); lemma_nv_full(this.digits_);',
      loops=[loop(inv=['-1 <= i < this.digits_.len()', 'bwf(current)', 'digs(quotient.digits_)', '!quotient.is_negative_', '!current.is_negative_', 'bwf(divisor)', 'divisor.digits_ == other.digits_', '!divisor.is_negative_',
                       'nv(this.digits_.skip(i + 1)) == nv(quotient.digits_) * bv(divisor) + bv(current)', 'bv(current) < bv(divisor)'],
                  dec='i + 1',
                  before='lemma_beq(quotient, quotient); lemma_beq(current, current); assert(0 * bv(divisor) == 0);',
                  start="""let ghost _q = quotient.digits_; let ghost _c = bv(current); let ghost _i = i as int; let ghost _d = this.digits_[i as int]; lemma_nv_skip(this.digits_, _i); lemma_nv_front(_d, current.digits_);
                  assert(seq![_d] + current.digits_ =~= current.digits_.insert(0, _d));""",
                  end="""lemma_nv_front(quotient.digits_[0], _q); assert(seq![quotient.digits_[0]] + _q =~= quotient.digits_); lemma_div_step(nv(_q), bv(divisor), _c, _d as int, quotient.digits_[0] as int);""",
                  after='lemma_nv_full(this.digits_); lemma_div_end(bv(this), bv(other), nv(this.digits_), nv(other.digits_), nv(quotient.digits_), bv(current));'),
             loop(inv=['0 <= left <= 11', '-1 <= right <= 10', 'left <= right + 1', '0 <= x <= 10', 'x == left - 1 || x == 0 && left == 0',
                       'bv(divisor) * x <= bv(current)', 'bv(current) < bv(divisor) * (right + 1)'],
                  before='lemma_nv_bound(current.digits_); assert(bv(divisor) * 11 > bv(current) && bv(divisor) * 0 == 0) by (nonlinear_arith) requires bv(current) < 10 * bv(divisor), bv(divisor) > 0;', dec='right - left + 1',
                  start='let ghost _m = (left + right) / 2; lemma_int_text(_m); lemma_search_step(bv(divisor), bv(current), _m);',
                  after='lemma_int_text(x as int); lemma_search_end(bv(divisor), bv(current), x as int, right as int);')]),
    C('BigInteger::Modulo', params=['other'], requires=W2, throws=True, ensures=[
        'exc is None <==> bv(other) != 0', '!(exc is None) ==> exc is InvalidArgument', 'exc is None ==> bwf(r) && bv(r) == tmod(bv(this), bv(other))'],
      entry='lemma_signs(); lemma_divmod(bv(this), bv(other)); lemma_beq(this, this); lemma_beq(other, other); lemma_nv_bound(this.digits_);'),
    C('BigInteger::Abs', requires='bwf(this)', ensures=['bwf(r)', 'bv(r) == iabs(bv(this))'], entry='lemma_signs(); lemma_beq(this, this); lemma_nv_bound(this.digits_);'),
    C('BigInteger::Pow', params=['exponent'], requires='bwf(this)', throws=True, ensures=[
        'exc is None <==> exponent >= 0', '!(exc is None) ==> exc is InvalidArgument', 'exc is None ==> bwf(r) && bv(r) == ipow(bv(this), exponent as int)'],
      entry='lemma_lits(); lemma_int_text(1);',
      loops=[loop(inv=['exponent >= 0', 'bwf(result)', 'bwf(base)', 'bv(result) * ipow(bv(base), exponent as int) == ipow(bv(this), exponent0 as int)'], dec='exponent',
                  start='lemma_pow_step(bv(result), bv(base), exponent as int);')]),
    C('BigInteger::Sqr', requires='bwf(this)', ensures=['bwf(r)', 'bv(r) == bv(this) * bv(this)']),
    C('BigInteger::Sqrt', requires='bwf(this)', throws=True, ensures=[
        'exc is None <==> bv(this) >= 0', '!(exc is None) ==> exc is InvalidArgument',
        'exc is None ==> bwf(r) && bv(r) >= 0 && bv(r) * bv(r) <= bv(this) < (bv(r) + 1) * (bv(r) + 1)'],
      entry='lemma_signs(); lemma_lits(); lemma_int_text(0); lemma_int_text(1); lemma_int_text(2); lemma_beq(this, this); lemma_nv_bound(this.digits_); lemma_small_squares(bv(this));',
      loops=[loop(inv=['bwf(low)', 'bwf(high)', 'bv(low) >= 1', 'bv(low) <= bv(high) + 1', '(bv(low) - 1) * (bv(low) - 1) <= bv(this)', 'bv(this) < (bv(high) + 1) * (bv(high) + 1)', 'bwf(squared)'],
                  before='assert((bv(high) + 1) * (bv(high) + 1) > bv(high)) by (nonlinear_arith) requires bv(high) >= 1; lemma_beq(squared, squared);',
                  dec='bv(high) - bv(low) + 1',
                  start='let ghost _m = (bv(low) + bv(high)) / 2; assert((_m + 1) * (_m + 1) == _m * _m + 2 * _m + 1) by (nonlinear_arith);')]),
    C('BigInteger::Size', ensures=['r == this.digits_.len()']),
    C('BigInteger::ToString', requires='bwf(this)', ensures=['r.data_ =~= chars1(int_dec(bv(this)))'],
      entry="""lemma_lits(); lemma_int_text(0); lemma_beq(this, this); lemma_nv_bound(this.digits_); if this.digits_.len() > 0 { lemma_dec_digs(this.digits_); }""",
      loops=[loop(inv=['0 <= it.i <= this.digits_.len()', 'it.s == this.digits_.reverse()', 'result.data_ =~= (if this.is_negative_ { seq![ch1(45)] } else { Seq::empty() }) + Seq::new(it.i as nat, |k: int| ch1((48 + this.digits_[this.digits_.len() - 1 - k]) as u8))'],
                  dec='this.digits_.len() - it.i')]),
]
OPS = [C(f'CaitlynOps::operator{op}', 'bool (const Caitlyn::BigInteger &, const Caitlyn::BigInteger &)', params=['lhs', 'rhs'], requires=['bwf(lhs)', 'bwf(rhs)'], ensures=[f'r <==> bv(lhs) {op} bv(rhs)'])
       for op in ('<', '>', '<=', '>=', '==', '!=')]
BIN = 'Caitlyn::BigInteger (const Caitlyn::BigInteger &, const Caitlyn::BigInteger &)'
OPA = [C(f'CaitlynOps::operator{op}', BIN, params=['lhs', 'rhs'], requires=['bwf(lhs)', 'bwf(rhs)'], ensures=['bwf(r)', f'bv(r) == bv(lhs) {op} bv(rhs)']) for op in '+-*']
OPD = [C(f'CaitlynOps::operator{op}', BIN, params=['lhs', 'rhs'], requires=['bwf(lhs)', 'bwf(rhs)'], throws=True, ensures=[
    'exc is None <==> bv(rhs) != 0', '!(exc is None) ==> exc is InvalidArgument', f'exc is None ==> bwf(r) && bv(r) == {f}(bv(lhs), bv(rhs))']) for op, f in (('/', 'tdiv'), ('%', 'tmod'))]
OPT = [C('CaitlynOps::operator<<', 'std::ostream &(std::ostream &, const Caitlyn::BigInteger &)', params=['os', 'number'], requires='bwf(number)', ensures=['os1 =~= os + int_dec(bv(number))'],
         entry='lemma_int_text(bv(number)); lemma_text_roundtrip(int_dec(bv(number)));'),
       C('CaitlynOps::operator""_bigint', params=['number', '_n'], requires='cstr_ok(number)', throws=True, ensures=[
        'exc is None <==> u8ok(cstr_bytes(number)) && numeral(u8split(cstr_bytes(number)))', '!(exc is None) ==> (exc is InvalidArgument || exc is RuntimeError)',
        'exc is None ==> bwf(r) && bv(r) == num_val(u8split(cstr_bytes(number)))'])]
BIG += OPS + OPA + OPD + OPT
