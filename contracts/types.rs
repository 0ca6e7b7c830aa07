// The types of C++: [basic.types], [dcl.ref], [dcl.array], [dcl.fct].  Classes, unions, enumerations and members are opaque names.
#[derive(PartialEq, Eq, Structural)]
pub enum Pk { Bool, Char, SChar, UChar, WChar, /*20 Char8, */Char16, Char32, Short, UShort, Int, UInt, Long, ULong, LLong, ULLong, Float, Double, LDouble }
pub enum B { Void, Null, Pr(Pk), Ptr(Box<Ty>), LRef(Box<Ty>), RRef(Box<Ty>), Arr(Box<Ty>, nat), Open(Box<Ty>),
    /// function types; the flag: with a cv- or ref-qualifier of its own (no pointer or reference to it can be formed)
    Fn(int, bool), MemObj(int), MemFn(int), Class(int), Union(int), Enum(int) }
pub struct Ty { pub c: bool, pub v: bool, pub b: B }

pub open spec fn tb(b: B) -> Ty { Ty { c: false, v: false, b: b } }
pub open spec fn pr(k: Pk) -> Ty { tb(B::Pr(k)) }
pub open spec fn is_ref(t: Ty) -> bool { t.b is LRef || t.b is RRef }
pub open spec fn is_odd_fn(t: Ty) -> bool { t.b is Fn && t.b->Fn_1 }

/// the types that exist: no reference or function is cv-qualified, no pointer to a reference, no reference to a reference or to void, no array
/// of references, functions or void; an array is cv-qualified as its elements are
pub open spec fn wf(t: Ty) -> bool
    decreases t
{
    match t.b {
        B::LRef(u) | B::RRef(u) => !t.c && !t.v && wf(*u) && !is_ref(*u) && !(u.b is Void) && !is_odd_fn(*u),
        B::Fn(_, _) => !t.c && !t.v,
        B::Ptr(u) => wf(*u) && !is_ref(*u) && !is_odd_fn(*u),
        B::Arr(u, n) => wf(*u) && n > 0 && !is_ref(*u) && !(u.b is Void) && !(u.b is Fn) && !(u.b is Open) && t.c == u.c && t.v == u.v,
        B::Open(u) => wf(*u) && !is_ref(*u) && !(u.b is Void) && !(u.b is Fn) && !(u.b is Open) && t.c == u.c && t.v == u.v,
        _ => true,
    }
}

/// [dcl.type.cv], [dcl.fct]: the qualifiers have no effect on references and functions and go to the elements of an array
pub open spec fn add_cv(t: Ty, c: bool, v: bool) -> Ty
    decreases t
{
    match t.b {
        B::LRef(_) | B::RRef(_) | B::Fn(_, _) => t,
        B::Arr(u, n) => Ty { c: t.c || c, v: t.v || v, b: B::Arr(Box::new(add_cv(*u, c, v)), n) },
        B::Open(u) => Ty { c: t.c || c, v: t.v || v, b: B::Open(Box::new(add_cv(*u, c, v))) },
        _ => Ty { c: t.c || c, v: t.v || v, b: t.b },
    }
}
pub open spec fn strip_cv(t: Ty, c: bool, v: bool) -> Ty
    decreases t
{
    match t.b {
        B::LRef(_) | B::RRef(_) | B::Fn(_, _) => t,
        B::Arr(u, n) => Ty { c: t.c && !c, v: t.v && !v, b: B::Arr(Box::new(strip_cv(*u, c, v)), n) },
        B::Open(u) => Ty { c: t.c && !c, v: t.v && !v, b: B::Open(Box::new(strip_cv(*u, c, v))) },
        _ => Ty { c: t.c && !c, v: t.v && !v, b: t.b },
    }
}
pub open spec fn is_c(t: Ty) -> bool { t.c }
pub open spec fn is_v(t: Ty) -> bool { t.v }

/// T*, T& and T&& where they can be formed; references to references collapse
pub open spec fn ok_ptr(t: Ty) -> bool { !is_ref(t) && !is_odd_fn(t) }
pub open spec fn mk_ptr(t: Ty) -> Ty { tb(B::Ptr(Box::new(t))) }
pub open spec fn ok_lref(t: Ty) -> bool { !(t.b is Void) && !is_odd_fn(t) }
pub open spec fn mk_lref(t: Ty) -> Ty {
    match t.b { B::LRef(_) => t, B::RRef(u) => tb(B::LRef(u)), _ => tb(B::LRef(Box::new(t))) }
}
pub open spec fn ok_rref(t: Ty) -> bool { ok_lref(t) }
pub open spec fn mk_rref(t: Ty) -> Ty { if is_ref(t) { t } else { tb(B::RRef(Box::new(t))) } }

// ---- what the standard says of each type: [meta.unary.cat], [meta.unary.comp], [meta.unary.prop], [meta.trans]
pub open spec fn is_floating(k: Pk) -> bool { k == Pk::Float || k == Pk::Double || k == Pk::LDouble }
pub open spec fn is_char_like(k: Pk) -> bool { k == Pk::Char || k == Pk::SChar || k == Pk::UChar || k == Pk::WChar || k == Pk::Char16 || k == Pk::Char32/*20  || k == Pk::Char8*/ }
pub open spec fn is_int_like(k: Pk) -> bool {
    k == Pk::SChar || k == Pk::UChar || k == Pk::Short || k == Pk::UShort || k == Pk::Int || k == Pk::UInt || k == Pk::Long || k == Pk::ULong || k == Pk::LLong || k == Pk::ULLong
}
/// on this platform char and wchar_t are signed
pub open spec fn is_signed_kind(k: Pk) -> bool {
    is_floating(k) || k == Pk::Char || k == Pk::SChar || k == Pk::WChar || k == Pk::Short || k == Pk::Int || k == Pk::Long || k == Pk::LLong
}
/// the value T(n) of an arithmetic type T, for n = 0 and n = -1
pub open spec fn num_of(t: Ty, n: int) -> int {
    match t.b {
        B::Pr(k) => if is_signed_kind(k) { n } else if n == 0 { 0 } else if k == Pk::Bool { 1 } else if k == Pk::UChar/*20  || k == Pk::Char8*/ { n % 0x100 }
            else if k == Pk::UShort || k == Pk::Char16 { n % 0x1_0000 } else if k == Pk::UInt || k == Pk::Char32 { n % 0x1_0000_0000 } else { n % 0x1_0000_0000_0000_0000 },
        _ => 0,
    }
}
pub open spec fn std_is_void(t: Ty) -> bool { t.b is Void }
pub open spec fn std_is_null_pointer(t: Ty) -> bool { t.b is Null }
pub open spec fn std_is_integral(t: Ty) -> bool { t.b is Pr && !is_floating(t.b->Pr_0) }
pub open spec fn std_is_floating_point(t: Ty) -> bool { t.b is Pr && is_floating(t.b->Pr_0) }
pub open spec fn std_is_array(t: Ty) -> bool { t.b is Arr || t.b is Open }
pub open spec fn std_is_pointer(t: Ty) -> bool { t.b is Ptr }
pub open spec fn std_is_lvalue_reference(t: Ty) -> bool { t.b is LRef }
pub open spec fn std_is_rvalue_reference(t: Ty) -> bool { t.b is RRef }
pub open spec fn std_is_enum(t: Ty) -> bool { t.b is Enum }
pub open spec fn std_is_union(t: Ty) -> bool { t.b is Union }
pub open spec fn std_is_class(t: Ty) -> bool { t.b is Class }
pub open spec fn std_is_function(t: Ty) -> bool { t.b is Fn }
pub open spec fn std_is_member_object_pointer(t: Ty) -> bool { t.b is MemObj }
pub open spec fn std_is_member_function_pointer(t: Ty) -> bool { t.b is MemFn }
pub open spec fn std_is_member_pointer(t: Ty) -> bool { t.b is MemObj || t.b is MemFn }
pub open spec fn std_is_arithmetic(t: Ty) -> bool { t.b is Pr }
pub open spec fn std_is_fundamental(t: Ty) -> bool { t.b is Pr || t.b is Void || t.b is Null }
pub open spec fn std_is_compound(t: Ty) -> bool { !std_is_fundamental(t) }
pub open spec fn std_is_scalar(t: Ty) -> bool { t.b is Pr || t.b is Enum || t.b is Ptr || t.b is MemObj || t.b is MemFn || t.b is Null }
pub open spec fn std_is_reference(t: Ty) -> bool { is_ref(t) }
pub open spec fn std_is_object(t: Ty) -> bool { !is_ref(t) && !(t.b is Void) && !(t.b is Fn) }
pub open spec fn std_is_const(t: Ty) -> bool { t.c }
pub open spec fn std_is_volatile(t: Ty) -> bool { t.v }
pub open spec fn std_is_signed(t: Ty) -> bool { t.b is Pr && is_signed_kind(t.b->Pr_0) }
pub open spec fn std_is_unsigned(t: Ty) -> bool { t.b is Pr && !is_signed_kind(t.b->Pr_0) }
pub open spec fn std_remove_cv(t: Ty) -> Ty { strip_cv(t, true, true) }
pub open spec fn std_remove_const(t: Ty) -> Ty { strip_cv(t, true, false) }
pub open spec fn std_remove_volatile(t: Ty) -> Ty { strip_cv(t, false, true) }
pub open spec fn std_add_const(t: Ty) -> Ty { add_cv(t, true, false) }
pub open spec fn std_add_volatile(t: Ty) -> Ty { add_cv(t, false, true) }
pub open spec fn std_add_cv(t: Ty) -> Ty { add_cv(t, true, true) }
pub open spec fn std_remove_reference(t: Ty) -> Ty { match t.b { B::LRef(u) | B::RRef(u) => *u, _ => t } }
pub open spec fn std_add_lvalue_reference(t: Ty) -> Ty { if ok_lref(t) { mk_lref(t) } else { t } }
pub open spec fn std_add_rvalue_reference(t: Ty) -> Ty { if ok_rref(t) { mk_rref(t) } else { t } }
pub open spec fn std_add_pointer(t: Ty) -> Ty { let u = std_remove_reference(t); if ok_ptr(u) { mk_ptr(u) } else { t } }
pub open spec fn std_remove_pointer(t: Ty) -> Ty { match t.b { B::Ptr(u) => *u, _ => t } }
pub open spec fn std_rank(t: Ty) -> nat
    decreases t
{
    match t.b { B::Arr(u, _) => 1 + std_rank(*u), B::Open(u) => 1 + std_rank(*u), _ => 0 }
}
pub open spec fn std_extent(t: Ty) -> nat { match t.b { B::Arr(_, n) => n, _ => 0 } }
pub uninterp spec fn std_alignment_of(t: Ty) -> nat;
/// the signed and the unsigned type of an integer or character kind
pub open spec fn to_signed(k: Pk) -> Pk {
    match k { Pk::Char | Pk::SChar | Pk::UChar => Pk::SChar, Pk::Short | Pk::UShort => Pk::Short, Pk::Int | Pk::UInt => Pk::Int, Pk::Long | Pk::ULong => Pk::Long, _ => Pk::LLong }
}
pub open spec fn to_unsigned(k: Pk) -> Pk {
    match k { Pk::Char | Pk::SChar | Pk::UChar => Pk::UChar, Pk::Short | Pk::UShort => Pk::UShort, Pk::Int | Pk::UInt => Pk::UInt, Pk::Long | Pk::ULong => Pk::ULong, _ => Pk::ULLong }
}

/// stripping a qualifier that is not there changes nothing; every qualifier is there or not
proof fn lem_strip(t: Ty)
    requires wf(t)
    ensures
        !t.v ==> strip_cv(t, true, false) == strip_cv(t, true, true),
        !t.v ==> strip_cv(t, false, true) == t,
        !t.c ==> strip_cv(t, false, true) == strip_cv(t, true, true),
        !t.c ==> strip_cv(t, true, false) == t,
        !t.c && !t.v ==> strip_cv(t, true, true) == t,
        strip_cv(t, false, false) == t,
        add_cv(t, false, false) == t,
        strip_cv(strip_cv(t, true, false), false, true) == strip_cv(t, true, true),
        strip_cv(strip_cv(t, false, true), true, false) == strip_cv(t, true, true),
        strip_cv(strip_cv(t, true, true), true, true) == strip_cv(t, true, true),
        add_cv(add_cv(t, true, false), false, true) == add_cv(t, true, true),
        add_cv(add_cv(t, false, true), true, false) == add_cv(t, true, true),
        add_cv(t, true, false).c == (t.c || !(is_ref(t) || t.b is Fn)),
        wf(strip_cv(t, true, true)), wf(strip_cv(t, true, false)), wf(strip_cv(t, false, true)),
        wf(add_cv(t, true, true)), wf(add_cv(t, true, false)), wf(add_cv(t, false, true)),
    decreases t
{
    match t.b {
        B::Arr(u, n) => { lem_strip(*u); },
        B::Open(u) => { lem_strip(*u); },
        _ => {},
    }
}
