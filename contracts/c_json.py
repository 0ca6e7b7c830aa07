"""Json: the tree of values (JsonData), documents, the parser and the printer."""
from contract import Contract as C, loop

INST = '''namespace Caitlyn {
inline void vp_json(Json::__Detail::JsonData& a, const Json::__Detail::JsonData& c, const String& k, SizeType n, std::string s, const char* p, int i, Int64 l, double d, bool b, Json::JsonClass t, JsonDocument& o, const JsonDocument& q)
{
    using namespace Json; using Json::__Detail::JsonData;
    JsonData x; JsonData y(c); JsonData z(std::move(y)); x = c; x = std::move(z);
    JsonData e1(b), e2(i), e3(l), e4(d), e5(s), e6(p);
    x = b; x = i; x = l; x = d; x = s; x = p;
    a[k]; a[n]; a.At(k); a.At(n); c.At(k); c.At(n);
    a.Append(b); a.Append(i); a.Append(l); a.Append(d); a.Append(s); a.Append(p); a.Append(x);
    c.Size(); c.Length(); c.HasMember(k); c.IsNull(); c.IsObject(); c.IsArray(); c.IsString(); c.IsFloating(); c.IsIntegral(); c.IsBoolean(); c.GetType();
    c.GetString(); c.GetFloating(); c.GetIntegral(); c.GetBoolean(); c.ToString();
    Make(t); MakeObject(); MakeArray(); MakeArray(i, p); MakeArray(b, d, s); MakeNull(); MakeString(s); MakeFloating(d); MakeIntegral(l); MakeBoolean(b);
    JsonDocument u; JsonDocument v(q); JsonDocument w(std::move(v)); u = q; u = std::move(w); u[k]; q[k];
    u.AddMember(k, c); u.RemoveMember(k); q.HasMember(k); q.Size(); q.HasError(); q.GetError(); q.GetType(); q.ToString(); MakeDocument(); MakeDocument(q); MakeDocument(std::move(u));
}
}
'''
JD, DOC = 'Json::__Detail::JsonData', 'JsonDocument'


def names(lib):
    lib.owned.add(JD)
    lib.dtors |= {JD, DOC}
    lib.fieldnames[JD] = ['data_', 'type_']
    lib.fieldnames[DOC] = ['root_', 'error_']


def jd(name, *a, **k):
    return C(f'{JD}::{name}', *a, **k)



BASE = [f'std::basic_string<char>']
SSZ = 'XJson_JsonData'
AL = [('this', 'other'), ('this', 'other', '.data_.array_value[]*'), ('this', 'other', '.data_.object_value[].second*')]
UP = [('other', 'this', '.data_.array_value[]*'), ('other', 'this', '.data_.object_value[].second*')]
TEXT = {'std::basic_string<char>': 'upto_nul({})', 'const char *': 'cstr_bytes({})'}


def kinds(tys=('bool', 'int', 'long', 'float', 'double', 'std::basic_string<char>', 'const char *')):
    for t in tys:
        if t == 'bool':
            yield t, [], None, 'jbool({})'
        elif t in ('int', 'long', 'long long'):
            yield t, [], None, 'jint({} as int)'
        elif t in ('float', 'double'):
            yield t, [], None, 'jfloat({})' if t == 'float' else 'jfloat(cast_F64_F32({}))'
        else:
            b = TEXT[t]
            yield t, ([] if 'std' in t else ['cstr_ok({})']), 'u8ok(' + b + ')', 'jstring(u8split(' + b + '))'


MAKE = []
for t, req, ok, val in kinds():
    v = val.format('value')
    MAKE.append(jd('JsonData', targs=[t], params=['value', 'enable'], requires=[q.format('value') for q in req], throws=bool(ok),
                   ensures=[f'exc is None ==> r =~~= {v} && wf(r)'] + ([f'exc is None <==> {ok.format("value")}'] if ok else [])))
    if t not in ('long long', 'float'):
        MAKE.append(jd('operator=', targs=[t], params=['value'], requires=['wf(this)'] + [q.format('value') for q in req], throws=bool(ok),
                       ensures=['wf(this1)', f'exc is None ==> this1 =~~= {v}'] + ([f'exc is None <==> {ok.format("value")}'] if ok else [])))
        MAKE.append(jd('Append', f'void ({t})', params=['arg'], requires=['wf(this)'] + [q.format('arg') for q in req], throws=bool(ok),
                       ensures=['wf(this1)', f'exc is None ==> this1 =~~= jarray(elements(this).push(Own::Live({val.format("arg")})))'] + ([f'exc is None <==> {ok.format("arg")}'] if ok else [])))
KEY = 'wf(this1) && this1.type_ == 1 && this1 =~~= jobject(with_key(members(this), key)) && 0 <= r < members(this1).len() && members(this1)[r].first == key'
IDX = 'wf(this1) && this1.type_ == 2 && this1 =~~= jarray(with_index(elements(this), index as int)) && r == index'
LV_O, LV_A = '.data_.object_value[].second*', '.data_.array_value[]*'
KEYARG = ['wf(this)', 'sok(key.data_)']


def at(name, what, **k):
    return jd(name, f'JsonData &({"const StringType &" if what == "key" else "const SizeType"})', params=[what], requires=KEYARG if what == 'key' else ['wf(this)'], ensures=[KEY if what == 'key' else IDX], lv=LV_O if what == 'key' else LV_A, **k)


def is_(n, t):
    return jd(n, requires=[], ensures=[f'r == (this.type_ == {t})'])


DATA = [
    jd('JsonData', 'void ()', ensures=['r == jnull()']),
    jd('JsonData', 'void (const JsonData &)', params=['other'], requires=['wf(other)'], ensures=['r =~~= other', 'wf(r)'], dec='other, 1int'),
    jd('JsonData', 'void (JsonData &&) noexcept', params=['other'], requires=['wf(other)'], ensures=['r == other', 'other1 == jnull()']),
    jd('~JsonData', requires=['live(this)'], ensures=['released(this1.data_)'], dec='this, 1int'),
    jd('DestroyUnion', requires=['live(this)'], ensures=['released(this1.data_)', 'this1.type_ == this.type_'], dec='this, 0int', loops=[
        loop(inv=['this.type_ == this0.type_', f'this.data_ is {u}_value && this.{u} .len() == this0.{u}.len()'.replace(f'.{u} ', f'.{u}').replace(f'this.{u}', f'this.data_->{u}_value_0').replace(f'this0.{u}', f'this0.data_->{u}_value_0'),
                  f'forall|k: int| 0 <= k < _i ==> (#[trigger] this.data_->{u}_value_0[k]){sec} is Dead',
                  f'forall|k: int| _i <= k < this.data_->{u}_value_0.len() ==> (#[trigger] this.data_->{u}_value_0[k]) == this0.data_->{u}_value_0[k]'], dec=f'this.data_->{u}_value_0.len() - _i') for u, sec in (('array', ''), ('object', '.second'))]),
    jd('CopyUnion', params=['other'], requires=['wf(other)', 'released(this.data_)'], ensures=['this1.data_ =~~= other.data_', 'this1.type_ == this.type_'], dec='other, 0int', loops=[
        loop(inv=['this.type_ == this0.type_', f'this.data_ is {u}_value && this.data_->{u}_value_0 =~~= other.data_->{u}_value_0.take(_i)'], dec=f'other.data_->{u}_value_0.len() - _i',
             after=f'assert(other.data_->{u}_value_0.take(other.data_->{u}_value_0.len() as int) =~= other.data_->{u}_value_0);') for u in ('array', 'object')]),
    jd('SetType', params=['type'], requires=['wf(this)', '0 <= type <= 6'], ensures=['wf(this1)', 'this1 =~~= (if this.type_ == type { this } else { jfresh(type as int) })']),
    jd('operator=', 'JsonData &(const JsonData &)', params=['other'], alias=AL + UP, requires=['wf(this)', 'wf(other)'], ensures=['wf(this1)', 'this1 =~~= other']),
    jd('operator=', 'JsonData &(JsonData &&) noexcept', params=['other'], entry='assert(wf(jnull()));', alias=AL, requires=['wf(this)', 'wf(other)'], ensures=['wf(this1)', 'this1 =~~= other', '!ALIAS ==> other1 == jnull()']),
    at('operator[]', 'key', entry='assert(wf(jnull()));'), at('operator[]', 'index', entry='assert(wf(jnull()));', loops=[loop(inv=[
        'this.type_ == 2 && this.data_ is array_value', 'elements(this) =~~= elements(this0) + nulls(elements(this).len() - elements(this0).len())', 'elements(this).len() == elements(this0).len() || elements(this).len() <= index + 1'],
        ens=['elements(this).len() > index'], dec='index + 1 - elements(this).len()')]), at('At', 'key'), at('At', 'index'),
    *[is_(n, t) for n, t in (('IsNull', 0), ('IsObject', 1), ('IsArray', 2), ('IsString', 3), ('IsFloating', 4), ('IsIntegral', 5), ('IsBoolean', 6))],
    jd('GetType', ensures=['r == this.type_']),
]
DATA += MAKE
FOUND = 'this.type_ == 1 && has_key(members(this), key)'
DATA += [
    jd('Append', f'void ({JD})', params=['arg'], requires=['wf(this)', 'wf(arg)'], ensures=['wf(this1)', 'this1 =~~= jarray(elements(this).push(Own::Live(arg)))']),
    jd('Append', 'void (int, const char *)', params=['a', 'b'], requires=['wf(this)', 'cstr_ok(b)'], throws=True, ensures=[
        'wf(this1)', 'exc is None <==> u8ok(cstr_bytes(b))', 'exc is None ==> this1 =~~= jarray(elements(this).push(Own::Live(jint(a as int))).push(Own::Live(jstring(u8split(cstr_bytes(b))))))']),
    jd('Append', 'void (double, std::basic_string<char>)', params=['a', 'b'], requires=['wf(this)'], throws=True, ensures=[
        'wf(this1)', 'exc is None <==> u8ok(upto_nul(b))', 'exc is None ==> this1 =~~= jarray(elements(this).push(Own::Live(jfloat(cast_F64_F32(a)))).push(Own::Live(jstring(u8split(upto_nul(b))))))']),
    jd('Append', 'void (bool, double, std::basic_string<char>)', params=['a', 'b', 'c'], requires=['wf(this)'], throws=True, ensures=[
        'wf(this1)', 'exc is None <==> u8ok(upto_nul(c))',
        'exc is None ==> this1 =~~= jarray(elements(this).push(Own::Live(jbool(a))).push(Own::Live(jfloat(cast_F64_F32(b)))).push(Own::Live(jstring(u8split(upto_nul(c))))))']),
    jd('At', 'const JsonData &(const StringType &) const', params=['key'], requires=KEYARG, throws=True, ensures=[
        f'exc is None <==> {FOUND}', 'exc is None || exc is OutOfRange', 'exc is None ==> r =~~= members(this)[key_at(members(this), key)].second->Live_0 && wf(r)']),
    jd('At', 'const JsonData &(const SizeType) const', params=['index'], requires=['wf(this)'], throws=True, ensures=[
        'exc is None <==> this.type_ == 2 && (index as int) < elements(this).len()', 'exc is None || exc is OutOfRange', 'exc is None ==> r =~~= elements(this)[index as int]->Live_0 && wf(r)']),
    jd('HasMember', params=['key'], requires=KEYARG, ensures=[f'r == ({FOUND})']),
    jd('GetString', requires=['wf(this)'], ensures=['r.data_ =~= (if this.type_ == 3 { this.data_->string_value_0.data_ } else { Seq::empty() })', 'sok(r.data_)']),
    jd('GetFloating', requires=['wf(this)'], ensures=['r == (if this.type_ == 4 { this.data_->floating_value_0 } else { f32_zero() })']),
    jd('GetIntegral', requires=['wf(this)'], ensures=['r == (if this.type_ == 5 { this.data_->integral_value_0 } else { 0 })']),
    jd('GetBoolean', requires=['wf(this)'], ensures=['r == (this.type_ == 6 && this.data_->boolean_value_0)']),
    jd('GetData', requires=['wf(this)'], throws=True, ensures=['exc is None <==> this.type_ == 1', 'exc is None || exc is LogicError', 'this1 == this'], lv='.data_.object_value'),
    jd('__internal_make', params=['type'], requires=['0 <= type <= 6'], ensures=['r =~~= jfresh(type as int) && wf(r)']),
    *[jd(n, requires=['wf(this)'], ensures=['r == (if this.type_ == 1 { members(this).len() as u64 } else if this.type_ == 2 { elements(this).len() as u64 } else { u64::MAX })']) for n in ('Size', 'Length')],
    C('Json::Make', params=['value'], requires=['0 <= value <= 6'], ensures=['r =~~= jfresh(value as int) && wf(r)']),
    C('Json::MakeObject', ensures=['r =~~= jfresh(1) && wf(r)']), C('Json::MakeArray', '__Detail::JsonData ()', targs=[], ensures=['r =~~= jfresh(2) && wf(r)']), C('Json::MakeNull', ensures=['r == jnull() && wf(r)']),
    C('Json::MakeString', params=['value'], throws=True, ensures=['exc is None <==> u8ok(upto_nul(value))', 'exc is None ==> r =~~= jstring(u8split(upto_nul(value))) && wf(r)']),
    C('Json::MakeFloating', params=['value'], ensures=['r == jfloat(value) && wf(r)']), C('Json::MakeIntegral', params=['value'], ensures=['r == jint(value as int) && wf(r)']),
    C('Json::MakeBoolean', params=['value'], ensures=['r == jbool(value) && wf(r)']),
    C('Json::MakeArray', '__Detail::JsonData (int, const char *)', params=['a', 'b'], requires=['cstr_ok(b)'], throws=True, ensures=[
        'exc is None <==> u8ok(cstr_bytes(b))', 'exc is None ==> r =~~= jarray(Seq::empty().push(Own::Live(jint(a as int))).push(Own::Live(jstring(u8split(cstr_bytes(b)))))) && wf(r)']),
    C('Json::MakeArray', '__Detail::JsonData (bool, double, std::basic_string<char>)', params=['a', 'b', 'c'], throws=True, ensures=[
        'exc is None <==> u8ok(upto_nul(c))', 'exc is None ==> r =~~= jarray(Seq::empty().push(Own::Live(jbool(a))).push(Own::Live(jfloat(cast_F64_F32(b)))).push(Own::Live(jstring(u8split(upto_nul(c)))))) && wf(r)']),
]


def doc(name, *a, **k):
    return C(f'{DOC}::{name}', *a, **k)


DOCUMENT = [
    doc('JsonDocument', 'void () noexcept(false)', ensures=['r.root_ =~~= jfresh(1) && wf(r.root_) && r.error_ == 0']),
    doc('JsonDocument', 'void (const JsonDocument &)', params=['other'], requires=['wf(other.root_)'], ensures=['r =~~= other']),
    doc('JsonDocument', 'void (JsonDocument &&) noexcept', params=['other'], requires=['wf(other.root_)'], ensures=['r =~~= other', 'other1.root_ == jnull() && other1.error_ == 0']),
    doc('operator=', 'JsonDocument &(const JsonDocument &)', params=['other'], alias=[('this', 'other')], requires=['wf(this.root_)', 'wf(other.root_)'], ensures=['this1 =~~= other', 'wf(this1.root_)']),
    doc('operator=', 'JsonDocument &(JsonDocument &&) noexcept', params=['other'], alias=[('this', 'other')], requires=['wf(this.root_)', 'wf(other.root_)'], ensures=[
        'this1 =~~= other', 'wf(this1.root_)', '!ALIAS ==> other1.root_ == jnull() && other1.error_ == 0']),
    doc('operator[]', 'DataType &(const String &)', params=['key'], requires=['wf(this.root_)', 'sok(key.data_)'], lv='.root_' + LV_O, ensures=[
        KEY.replace('(this1)', '(this1.root_)').replace('(this)', '(this.root_)').replace('this1.type_', 'this1.root_.type_').replace('this1 =', 'this1.root_ ='), 'this1.error_ == this.error_']),
    doc('operator[]', 'const DataType &(const String &) const', params=['key'], requires=['wf(this.root_)', 'sok(key.data_)'], throws=True, ensures=[
        'exc is None <==> this.root_.type_ == 1 && has_key(members(this.root_), key)', 'exc is None || exc is OutOfRange', 'exc is None ==> r =~~= members(this.root_)[key_at(members(this.root_), key)].second->Live_0']),
    doc('AddMember', params=['key', 'value'], requires=['wf(this.root_)', 'wf(value)', 'sok(key.data_)'], ensures=['wf(this1.root_)', 'this1.root_ =~~= jobject(set_key(members(this.root_), key, value))', 'this1.error_ == this.error_']),
    doc('RemoveMember', params=['key'], entry='lemma_key_at(members(this.root_), key); lemma_update_remove();', requires=['wf(this.root_)', 'sok(key.data_)'], ensures=['wf(this1.root_)', 'this1.error_ == this.error_', 'this.root_.type_ != 1 || !has_key(members(this.root_), key) ==> this1 == this',
        'this.root_.type_ == 1 && has_key(members(this.root_), key) ==> this1.root_ =~~= jobject(members(this.root_).remove(key_at(members(this.root_), key)))']),
    doc('HasMember', params=['key'], requires=['wf(this.root_)', 'sok(key.data_)'], ensures=['r == (this.root_.type_ == 1 && has_key(members(this.root_), key))']),
    doc('Size', requires=['wf(this.root_)'], ensures=['r == (if this.root_.type_ == 1 { members(this.root_).len() as u64 } else if this.root_.type_ == 2 { elements(this.root_).len() as u64 } else { u64::MAX })']),
    doc('HasError', ensures=['r == (this.error_ != 0)']), doc('GetError', ensures=['r == this.error_']), doc('GetType', ensures=['r == this.root_.type_']),
    C('Json::MakeDocument', 'JsonDocument ()', ensures=['r.root_ =~~= jfresh(1) && r.error_ == 0']),
    C('Json::MakeDocument', 'JsonDocument (const JsonDocument &)', params=['value'], requires=['wf(value.root_)'], ensures=['r =~~= value']),
    C('Json::MakeDocument', 'JsonDocument (JsonDocument &&)', params=['value'], requires=['wf(value.root_)'], ensures=['r =~~= value', 'value1.root_ == jnull()']),
]
TREE = DATA + DOCUMENT
