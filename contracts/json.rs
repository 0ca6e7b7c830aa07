// ---- Json values: a tree; every pointer in it owns its own living value
pub type Jd = XJson_JsonData;
pub type Du = XJson_JsonData_DataUnion;
pub type Mem = Pair<XString, Own<Jd>>;
pub open spec fn jnull() -> Jd { XJson_JsonData { data_: Du::null_value(()), type_: 0 } }
pub open spec fn jobject(o: Seq<Mem>) -> Jd { XJson_JsonData { data_: Du::object_value(o), type_: 1 } }
pub open spec fn jarray(a: Seq<Own<Jd>>) -> Jd { XJson_JsonData { data_: Du::array_value(a), type_: 2 } }
pub open spec fn jstring(s: Seq<XChar>) -> Jd { XJson_JsonData { data_: Du::string_value(XString { data_: s }), type_: 3 } }
pub open spec fn jfloat(v: F32) -> Jd { XJson_JsonData { data_: Du::floating_value(v), type_: 4 } }
pub open spec fn jint(v: int) -> Jd { XJson_JsonData { data_: Du::integral_value(v as i64), type_: 5 } }
pub open spec fn jbool(v: bool) -> Jd { XJson_JsonData { data_: Du::boolean_value(v), type_: 6 } }
// what a new value of each type is
pub open spec fn jfresh(t: int) -> Jd {
    if t == 1 { jobject(Seq::empty()) } else if t == 2 { jarray(Seq::empty()) } else if t == 3 { jstring(Seq::empty()) } else if t == 4 { jfloat(f32_zero()) }
    else if t == 5 { jint(0) } else if t == 6 { jbool(false) } else { jnull() }
}
// the value holds what its type says; its elements are alive and well-formed; the keys of an object are distinct
pub open spec fn wf(j: Jd) -> bool
    decreases j
{
    match j.data_ {
        Du::Nothing => false,
        Du::null_value(_) => j.type_ == 0,
        Du::object_value(o) => j.type_ == 1 && keys_ok(o) && forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).second is Live && wf(o[i].second->Live_0),
        Du::array_value(a) => j.type_ == 2 && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Live && wf(a[i]->Live_0),
        Du::string_value(s) => j.type_ == 3 && sok(s.data_),
        Du::floating_value(_) => j.type_ == 4,
        Du::integral_value(_) => j.type_ == 5,
        Du::boolean_value(_) => j.type_ == 6,
    }
}
pub open spec fn keys_ok(o: Seq<Mem>) -> bool {
    (forall|i: int| 0 <= i < o.len() ==> sok((#[trigger] o[i]).first.data_)) && (forall|i: int, k: int| 0 <= i < k < o.len() ==> (#[trigger] o[i]).first != (#[trigger] o[k]).first)
}
// what may be destroyed: well-formed, or a string that was moved from
pub open spec fn live(j: Jd) -> bool { wf(j) || j.type_ == 3 && j.data_ is string_value }
// nothing that would have to be released
pub open spec fn released(u: Du) -> bool { !(u is object_value || u is array_value || u is string_value) }
pub open spec fn members(j: Jd) -> Seq<Mem> { if j.type_ == 1 { j.data_->object_value_0 } else { Seq::empty() } }
pub open spec fn elements(j: Jd) -> Seq<Own<Jd>> { if j.type_ == 2 { j.data_->array_value_0 } else { Seq::empty() } }
pub open spec fn has_key(o: Seq<Mem>, k: XString) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).first == k }
pub open spec fn key_at(o: Seq<Mem>, k: XString) -> int { choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).first == k }
pub open spec fn nulls(n: int) -> Seq<Own<Jd>> { Seq::new(n as nat, |i: int| Own::Live(jnull())) }
// the object with the key there, as null if it was not
pub open spec fn with_key(o: Seq<Mem>, k: XString) -> Seq<Mem> { if has_key(o, k) { o } else { o.push(Pair { first: k, second: Own::Live(jnull()) }) } }
// the array made long enough for the index, with nulls
pub open spec fn with_index(a: Seq<Own<Jd>>, n: int) -> Seq<Own<Jd>> { if n < a.len() { a } else { a + nulls(n + 1 - a.len()) } }
pub open spec fn set_key(o: Seq<Mem>, k: XString, v: Jd) -> Seq<Mem> { let p = with_key(o, k); p.update(key_at(p, k), Pair { first: k, second: Own::Live(v) }) }
pub proof fn lemma_key_at(o: Seq<Mem>, k: XString)
    ensures keys_ok(o) ==> forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).first == k ==> i == key_at(o, k)
{
    if keys_ok(o) {
        assert forall|i: int| 0 <= i < o.len() && (#[trigger] o[i]).first == k implies i == key_at(o, k) by {
            let c = key_at(o, k);
            assert(0 <= c < o.len() && o[c].first == k);
        }
    }
}
pub proof fn lemma_update_remove()
    ensures forall|s: Seq<Mem>, i: int, x: Mem| 0 <= i < s.len() ==> #[trigger] s.update(i, x).remove(i) =~= s.remove(i)
{
}
