// the test registry: all registered tests, in the order of the map
pub type Tc = XTest_TestCase;
pub type Suites = Seq<Pair<XString, Seq<Tc>>>;
pub open spec fn all_tests(m: Suites) -> Seq<Tc>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { all_tests(m.drop_last()) + m.last().second } }
pub open spec fn npass(d: Seq<Tc>) -> int
    decreases d.len()
{ if d.len() == 0 { 0 } else { npass(d.drop_last()) + if d.last().passed { 1int } else { 0int } } }
// the failing tests' lines of the summary
pub open spec fn fail_lines(d: Seq<Tc>) -> Seq<u8>
    decreases d.len()
{ if d.len() == 0 { Seq::empty() } else { fail_lines(d.drop_last()) + if d.last().passed { Seq::empty() } else { fail_line(d.last()) } } }
pub open spec fn same_but_passed(a: Tc, b: Tc) -> bool { a.function == b.function && a.suite_name == b.suite_name && a.test_name == b.test_name }
pub open spec fn like(a: Suites, b: Suites) -> bool {
    a.len() == b.len() && (forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].first == b[i].first && a[i].second.len() == b[i].second.len()
        && (forall|j: int| #![trigger a[i].second[j]] #![trigger b[i].second[j]] 0 <= j < a[i].second.len() ==> same_but_passed(a[i].second[j], b[i].second[j])))
}
// every test of d was called once, in order, and is marked passed exactly when its call returned normally
pub open spec fn ran(d: Seq<Tc>, calls: Seq<(FnId, Exc)>) -> bool {
    d.len() == calls.len() && forall|i: int| #![trigger d[i]] #![trigger calls[i]] 0 <= i < d.len() ==> calls[i].0 == d[i].function && (d[i].passed <==> calls[i].1 is None)
}
pub open spec fn outcomes(calls: Seq<(FnId, Exc)>, from: int) -> Seq<(FnId, Exc)> { calls.skip(from) }
pub proof fn lemma_npass_push(d: Seq<Tc>, t: Tc)
    ensures npass(d.push(t)) == npass(d) + if t.passed { 1int } else { 0int }, fail_lines(d.push(t)) == fail_lines(d) + if t.passed { Seq::empty() } else { fail_line(t) }
{ assert(d.push(t).drop_last() =~= d); }
pub proof fn lemma_npass_bounds(d: Seq<Tc>)
    ensures 0 <= npass(d) <= d.len(), npass(d) < d.len() <==> exists|i: int| 0 <= i < d.len() && !#[trigger] d[i].passed
    decreases d.len()
{
    if d.len() > 0 {
        lemma_npass_bounds(d.drop_last());
        assert forall|i: int| 0 <= i < d.len() && !#[trigger] d[i].passed implies npass(d) < d.len() by { if i < d.len() - 1 { assert(!d.drop_last()[i].passed); } }
        if npass(d) < d.len() {
            if !d.last().passed { assert(!d[d.len() - 1].passed); }
            else { let i = choose|i: int| 0 <= i < d.drop_last().len() && !#[trigger] d.drop_last()[i].passed; assert(!d[i].passed); }
        }
    }
}
pub proof fn lemma_all_take(m: Suites, n: int)
    requires 0 <= n < m.len()
    ensures all_tests(m.take(n + 1)) == all_tests(m.take(n)) + m[n].second
{ assert(m.take(n + 1).drop_last() =~= m.take(n)); }
pub proof fn lemma_all_prefix(m: Suites, n: int)
    requires 0 <= n <= m.len()
    ensures all_tests(m.take(n)).len() <= all_tests(m).len(), n < m.len() ==> all_tests(m.take(n)).len() + m[n].second.len() <= all_tests(m).len()
    decreases m.len() - n
{ if n < m.len() { lemma_all_take(m, n); lemma_all_prefix(m, n + 1); } else { assert(m.take(n) =~= m); } }
pub proof fn lemma_like_len(a: Suites, b: Suites)
    requires like(a, b)
    ensures all_tests(a).len() == all_tests(b).len()
    decreases a.len()
{ if a.len() > 0 { assert(a.drop_last().len() == b.drop_last().len());
    assert(a[a.len() - 1].second.len() == b[a.len() - 1].second.len());
    assert forall|i: int| #![trigger a.drop_last()[i]] #![trigger b.drop_last()[i]] 0 <= i < a.drop_last().len() implies a.drop_last()[i].first == b.drop_last()[i].first && a.drop_last()[i].second.len() == b.drop_last()[i].second.len() by { assert(a[i].first == b[i].first); }
    assert forall|i: int, j: int| 0 <= i < a.drop_last().len() && 0 <= j < a.drop_last()[i].second.len() implies same_but_passed(#[trigger] a.drop_last()[i].second[j], b.drop_last()[i].second[j]) by { assert(same_but_passed(a[i].second[j], b[i].second[j])); }
    assert(like(a.drop_last(), b.drop_last()));
    lemma_like_len(a.drop_last(), b.drop_last()); } }
// registering: one more test, nothing lost
pub open spec fn added(a: Seq<Tc>, b: Seq<Tc>, t: Tc) -> bool { exists|k: int| 0 <= k <= a.len() && b == #[trigger] a.insert(k, t) }
pub proof fn lemma_added_prefix(a: Seq<Tc>, b: Seq<Tc>, c: Seq<Tc>, t: Tc)
    requires added(a, b, t)
    ensures added(a + c, b + c, t)
{ let k = choose|k: int| 0 <= k <= a.len() && b == #[trigger] a.insert(k, t); assert(b + c =~= (a + c).insert(k, t)); }
pub broadcast proof fn lemma_add_at(m: Suites, i: int, t: Tc)
    requires 0 <= i < m.len()
    ensures added(all_tests(m), #[trigger] all_tests(m.update(i, Pair { first: m[i].first, second: m[i].second.push(t) })), t)
    decreases m.len()
{
    let m2 = m.update(i, Pair { first: m[i].first, second: m[i].second.push(t) });
    if i == m.len() - 1 {
        assert(m2.drop_last() =~= m.drop_last());
        assert(all_tests(m2) =~= all_tests(m).insert(all_tests(m).len() as int, t));
    } else {
        assert(m2.drop_last() =~= m.drop_last().update(i, Pair { first: m[i].first, second: m[i].second.push(t) }));
        lemma_add_at(m.drop_last(), i, t);
        lemma_added_prefix(all_tests(m.drop_last()), all_tests(m2.drop_last()), m.last().second, t);
    }
}
pub broadcast proof fn lemma_insert_empty(m: Suites, i: int, k: XString)
    requires 0 <= i <= m.len()
    ensures #[trigger] all_tests(m.insert(i, Pair { first: k, second: Seq::empty() })) == all_tests(m)
    decreases m.len()
{
    let e = Pair { first: k, second: Seq::<Tc>::empty() };
    let m2 = m.insert(i, e);
    if i == m.len() { assert(m2.drop_last() =~= m); assert(all_tests(m2) =~= all_tests(m)); }
    else { assert(m2.drop_last() =~= m.drop_last().insert(i, e)); assert(m2.last() == m.last()); lemma_insert_empty(m.drop_last(), i, k); }
}
// the report: every test, in order, has its own passage, which starts and ends as its outcome demands
pub open spec fn between(out: Seq<u8>, a: Seq<u8>, z: Seq<u8>) -> bool { out.len() >= a.len() + z.len() && out.take(a.len() as int) =~= a && out.skip(out.len() - z.len()) =~= z }
pub open spec fn passage(t: Tc, s: Seq<u8>) -> bool { if t.passed { between(s, run_line(t) + ok_head(t), ok_tail()) } else { between(s, run_line(t) + bad_head(t), seq![10u8]) } }
pub open spec fn told(d: Seq<Tc>, c: Seq<u8>) -> bool
    decreases d.len()
{ d.len() == 0 || exists|i: int, j: int| 0 <= i <= j <= c.len() && told(d.drop_last(), c.take(i)) && passage(d.last(), #[trigger] c.subrange(i, j)) }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { s.len() >= p.len() && s.take(p.len() as int) =~= p }
pub open spec fn reported(h: Seq<u8>, d: Seq<Tc>, s: Seq<u8>) -> bool { starts(s, h) && told(d, s.skip(h.len() as int)) }
pub broadcast proof fn lemma_reported_more(h: Seq<u8>, d: Seq<Tc>, s: Seq<u8>, s1: Seq<u8>)
    requires #[trigger] reported(h, d, s), #[trigger] starts(s1, s)
    ensures reported(h, d, s1)
{
    let (c, c1, n) = (s.skip(h.len() as int), s1.skip(h.len() as int), s.len() - h.len());
    assert(s1.take(h.len() as int) =~= s.take(h.len() as int));
    if d.len() > 0 {
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= c.len() && told(d.drop_last(), c.take(i)) && passage(d.last(), #[trigger] c.subrange(i, j));
        assert(c1.take(n) =~= c) by { assert(forall|k: int| 0 <= k < n ==> #[trigger] s1.take(s.len() as int)[k + h.len()] == s1[k + h.len()]); }
        assert(c1.take(i) =~= c.take(i)) by { assert(forall|k: int| 0 <= k < i ==> #[trigger] c1.take(n)[k] == c1[k]); }
        assert(c1.subrange(i, j) =~= c.subrange(i, j)) by { assert(forall|k: int| 0 <= k < n ==> #[trigger] c1.take(n)[k] == c1[k]); }
    }
}
pub proof fn lemma_reported_push(h: Seq<u8>, d: Seq<Tc>, t: Tc, s: Seq<u8>, s1: Seq<u8>)
    requires reported(h, d, s), between(s1, s + run_line(t) + if t.passed { ok_head(t) } else { bad_head(t) }, if t.passed { ok_tail() } else { seq![10u8] })
    ensures reported(h, d.push(t), s1), starts(s1, s)
{
    let a = run_line(t) + if t.passed { ok_head(t) } else { bad_head(t) };
    let z = if t.passed { ok_tail() } else { seq![10u8] };
    let p = s + run_line(t) + if t.passed { ok_head(t) } else { bad_head(t) };
    assert(p =~= s + a);
    assert(s1.take(p.len() as int) == p);
    assert(s1.take(s.len() as int) =~= s) by { assert(forall|k: int| 0 <= k < s.len() ==> #[trigger] s1.take(p.len() as int)[k] == s1[k]); }
    let q = s1.skip(s.len() as int);
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] q.take(a.len() as int)[k] == a[k] by { assert(s1.take(p.len() as int)[k + s.len()] == s1[k + s.len()]); assert((s + a)[k + s.len()] == a[k]); }
    assert(q.take(a.len() as int) =~= a);
    assert(q.skip(q.len() - z.len()) =~= s1.skip(s1.len() - z.len()));
    assert(passage(t, q));
    lemma_reported_more(h, d, s, s1);
    let (c1, n) = (s1.skip(h.len() as int), s.len() - h.len());
    assert(d.push(t).drop_last() =~= d);
    assert(c1.take(n) =~= s.skip(h.len() as int)) by { assert(forall|k: int| 0 <= k < n ==> #[trigger] s1.take(s.len() as int)[k + h.len()] == s1[k + h.len()]); }
    assert(c1.subrange(n, c1.len() as int) =~= s1.skip(s.len() as int));
}
pub proof fn lemma_name(s: Seq<u8>)
    requires ascii(s), no_nul(s)
    ensures u8ok(cstr_bytes(lit(s))), flat(u8split(cstr_bytes(lit(s)))) == s, cstr_ok(lit(s))
{ lemma_nulpos_clean(s); lemma_ascii(s); lemma_text_roundtrip(s); }
// one more test, of these names, that is the function of this name
pub open spec fn registers(a: Seq<Tc>, b: Seq<Tc>, suite: Seq<u8>, test: Seq<u8>, f: Seq<u8>) -> bool {
    exists|t: Tc| #[trigger] added(a, b, t) && flat(t.suite_name.data_) == suite && flat(t.test_name.data_) == test && t.function == named_fn(f) && !t.passed
}

// the lines of the suites: each suite's passage lies between a line that names it and its number of tests, and one more with the time it took
pub open spec fn opening(p: Pair<XString, Seq<Tc>>, a: Seq<u8>, b: Seq<u8>) -> bool { starts(b, a + suite_head(flat(p.first.data_), p.second.len() as int).push(10u8)) }
pub open spec fn closing(p: Pair<XString, Seq<Tc>>, b: Seq<u8>, e: Seq<u8>) -> bool { between(e, b + (suite_head(flat(p.first.data_), p.second.len() as int) + suite_time()), suite_tail()) }
pub open spec fn framed(h: Seq<u8>, su: Suites, s: Seq<u8>) -> bool
    decreases su.len()
{
    if su.len() == 0 { s == h } else { exists|a: Seq<u8>, b: Seq<u8>| #![trigger opening(su.last(), a, b)] framed(h, su.drop_last(), a) && opening(su.last(), a, b) && closing(su.last(), b, s) }
}
pub proof fn lemma_framed_push(h: Seq<u8>, su: Suites, k: int, a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires 0 <= k < su.len(), framed(h, su.take(k), a), opening(su[k], a, b), closing(su[k], b, s)
    ensures framed(h, su.take(k + 1), s)
{ assert(su.take(k + 1).drop_last() =~= su.take(k)); assert(su.take(k + 1).last() == su[k]); }
pub proof fn lemma_opening_more(p: Pair<XString, Seq<Tc>>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires opening(p, a, b), starts(c, b)
    ensures opening(p, a, c)
{
    let x = a + suite_head(flat(p.first.data_), p.second.len() as int).push(10u8);
    assert(c.take(x.len() as int) =~= b.take(x.len() as int)) by { assert(forall|k: int| 0 <= k < x.len() ==> #[trigger] c.take(b.len() as int)[k] == c[k]); }
}
