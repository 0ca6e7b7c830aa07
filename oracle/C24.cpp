// the traits against those of the standard library, and against a detection idiom of our own, on a zoo of types
#include <cstddef>
#include <forward_list>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "oracle.h"
#include "Caitlyn/__Core/Traits.h"
#ifdef __cpp_char8_t
typedef char8_t U8;
#else
struct U8;
#endif
namespace Cz = Caitlyn;
namespace D = Caitlyn::__Detail;

struct Empty {}; struct Data { int a; double b; }; struct Virt { virtual ~Virt() {} int x = 0; }; struct Abs { virtual void f() = 0; virtual ~Abs() {} };
struct Der final : Virt {}; struct Priv : private Data {}; struct NoCopy { NoCopy() {} NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } }; struct NoDtor { ~NoDtor() = delete; }; struct NoDef { NoDef(int) {} };
struct Thrower { Thrower() {} Thrower(const Thrower&) {} Thrower& operator=(const Thrower&) { return *this; } ~Thrower() noexcept(false) {} }; struct FromInt { FromInt(int) {} operator double() const { return 0; } };
struct OnlyOr { OnlyOr operator|(const OnlyOr&) const { return *this; } }; struct OnlyAnd { OnlyAnd operator&(const OnlyAnd&) const { return *this; } }; struct OnlyXor { int operator^(OnlyXor) const { return 0; } };
struct OnlyLess { bool operator<(const OnlyLess&) const { return false; } }; struct OnlyGreater { bool operator>(const OnlyGreater&) const { return false; } }; struct OnlyEq { bool operator==(const OnlyEq&) const { return true; } };
struct OnlyNe { bool operator!=(const OnlyNe&) const { return true; } }; struct OnlyShl { int operator<<(OnlyShl) const { return 0; } }; struct OnlyShr { int operator>>(OnlyShr) const { return 0; } };
struct OnlyMul { int operator*(OnlyMul) const { return 0; } }; struct OnlyDiv { int operator/(OnlyDiv) const { return 0; } }; struct OnlyMod { int operator%(OnlyMod) const { return 0; } }; struct OnlyAdd { int operator+(OnlyAdd) const { return 0; } };
struct OnlySub { int operator-(OnlySub) const { return 0; } }; struct OnlyInc { OnlyInc& operator++() { return *this; } }; struct OnlyDec { OnlyDec& operator--() { return *this; } }; struct PostInc { PostInc operator++(int) { return *this; } };
struct In {}; std::istream& operator>>(std::istream& s, In&&) { return s; } struct OutS {}; std::ostream& operator<<(std::ostream& s, const OutS&) { return s; } struct InRef {}; std::istream& operator>>(std::istream& s, InRef&) { return s; }
struct ToS { std::string to_string() const { return ""; } }; struct StrS { std::string str() const { return ""; } }; struct CStrS { const char* c_str() const { return ""; } }; struct ToStringS { int ToString() const { return 0; } };
struct DataMember { int size; int begin; }; struct PrivSize { private: int size() { return 0; } }; struct WithArg { int size(int) { return 0; } int begin(int = 0) { return 0; } }; struct NonConst { int size() { return 0; } int data() && { return 0; } int clear() & { return 0; } };
struct Push { typedef int value_type; void push_back(int) {} void pop_back() {} }; struct PushNoType { void push_back(int) {} }; struct Res { typedef unsigned size_type; void resize(unsigned) {} void clear() {} }; struct Emp { bool empty() const { return true; } int front() { return 0; } };
union Un { int a; float b; }; enum En { e1, e2 }; enum class EnC : unsigned char { a }; enum class EnL : long { a };

#define COMMA ,
#define DET(name, expr) template <class T> struct det_##name { template <class U> static char f(typename std::remove_reference<decltype((void)(expr), std::true_type())>::type*); template <class U> static long f(...); static const bool v = sizeof(f<T>(nullptr)) == 1; };
#define DV std::declval<U>()
DET(Less, DV < DV) DET(Greater, DV > DV) DET(Add, DV + DV) DET(Subtract, DV - DV) DET(Multyply, DV * DV) DET(Divide, DV / DV) DET(Modulus, DV % DV) DET(Equal, DV == DV) DET(NotEqual, DV != DV)
DET(Increment, ++std::declval<U&>()) DET(Decrement, --std::declval<U&>()) DET(BitwiseAnd, DV & DV) DET(BitwiseOr, DV | DV) DET(BitwiseXor, DV ^ DV) DET(LeftShift, DV << DV) DET(RightShift, DV >> DV)
DET(IStream, std::declval<std::istream&>() >> DV) DET(OStream, std::declval<std::ostream&>() << DV)
DET(begin, DV.begin()) DET(end, DV.end()) DET(pop_back, DV.pop_back()) DET(size, DV.size()) DET(front, DV.front()) DET(back, DV.back()) DET(data, DV.data()) DET(clear, DV.clear()) DET(empty, DV.empty())
DET(push_back, DV.push_back(std::declval<typename U::value_type>())) DET(resize, DV.resize(std::declval<typename U::size_type>()))
DET(to_string, DV.to_string()) DET(str, DV.str()) DET(c_str, DV.c_str()) DET(ToString, DV.ToString())

static std::string tn;
#define Q(what, got, want) REQ((got) == (want), what << "<" << tn << "> is " << (got) << " instead of " << (want))
#define QT(what, got, ...) REQ((std::is_same<got, __VA_ARGS__>::value), what << "<" << tn << "> is another type")
template <class T> using Bare = typename std::remove_cv<T>::type;
template <class T, class... U> struct one : std::false_type {};
template <class T, class U, class... V> struct one<T, U, V...> : std::integral_constant<bool, std::is_same<T, U>::value || one<T, V...>::value> {};

template <class T, bool = std::is_object<T>::value> struct Sizes { static void go() { Q("AlignmentOf", Cz::AlignmentOf<T>(), (std::alignment_of<typename std::remove_extent<T>::type>::value)); } };
template <class T> struct Sizes<T, false> { static void go() {} };
template <class T, bool> struct Sign { static void go() { QT("MakeSignedType", Cz::MakeSignedType<T>, typename std::make_signed<T>::type); QT("MakeUnsignedType", Cz::MakeUnsignedType<T>, typename std::make_unsigned<T>::type); } };
template <class T> struct Sign<T, false> { static void go() {} };
#define U1(a, b) Q(#a, bool(Cz::a<T>()), bool(std::b<T>::value))
template <class T> void shape() {
    U1(IsVoid, is_void); Q("IsNullPointer", bool(Cz::IsNullPointer<T>()), (std::is_same<Bare<T>, std::nullptr_t>::value)); Q("IsBoolean", Cz::IsBoolean<T>(), (std::is_same<Bare<T>, bool>::value));
    Q("IsCharacter", bool(Cz::IsCharacter<T>()), bool(one<Bare<T>, char, signed char, unsigned char, wchar_t, char16_t, char32_t>::value || std::is_same<Bare<T>, U8>::value));
    Q("IsInteger", bool(Cz::IsInteger<T>()), bool(one<Bare<T>, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>::value));
    U1(IsIntegral, is_integral); U1(IsFloating, is_floating_point); U1(IsArray, is_array); U1(IsEnum, is_enum); U1(IsUnion, is_union); U1(IsClass, is_class); U1(IsFunction, is_function); U1(IsPointer, is_pointer);
    U1(IsLValueReference, is_lvalue_reference); U1(IsRValueReference, is_rvalue_reference); U1(IsMemberObjectPointer, is_member_object_pointer); U1(IsMemberFunctionPointer, is_member_function_pointer);
    U1(IsFundamental, is_fundamental); U1(IsArithmetic, is_arithmetic); U1(IsScalar, is_scalar); U1(IsObject, is_object); U1(IsCompound, is_compound); U1(IsReference, is_reference); U1(IsMemberPointer, is_member_pointer);
    U1(IsConst, is_const); U1(IsVolatile, is_volatile); U1(IsSigned, is_signed); U1(IsUnsigned, is_unsigned);
    Q("IsVoidType", bool(Cz::IsVoidType<T>::Value), bool(std::is_void<T>::value)); Q("IsNullPointerType", bool(Cz::IsNullPointerType<T>::Value), bool(one<Bare<T>, std::nullptr_t>::value)); Q("IsBooleanType", bool(Cz::IsBooleanType<T>::Value), bool(one<Bare<T>, bool>::value));
    Q("Traits::IsSignedType", bool(Cz::Traits::IsSignedType<T>::Value), bool(std::is_signed<T>::value)); Q("Traits::IsUnsignedType", bool(Cz::Traits::IsUnsignedType<T>::Value), bool(std::is_unsigned<T>::value));
    Q("Rank", Cz::Rank<T>(), std::rank<T>::value); Q("Extent", Cz::Extent<T>(), std::extent<T>::value); Sizes<T>::go();
    QT("AddConstType", Cz::AddConstType<T>, typename std::add_const<T>::type); QT("AddVolatileType", Cz::AddVolatileType<T>, typename std::add_volatile<T>::type); QT("AddCVType", Cz::AddCVType<T>, typename std::add_cv<T>::type);
    QT("RemoveConstType", Cz::RemoveConstType<T>, typename std::remove_const<T>::type); QT("RemoveVolatileType", Cz::RemoveVolatileType<T>, typename std::remove_volatile<T>::type); QT("RemoveCVType", Cz::RemoveCVType<T>, Bare<T>);
    QT("RemoveReferenceType", Cz::RemoveReferenceType<T>, typename std::remove_reference<T>::type); QT("AddLValueReferenceType", Cz::AddLValueReferenceType<T>, typename std::add_lvalue_reference<T>::type);
    QT("AddRValueReferenceType", Cz::AddRValueReferenceType<T>, typename std::add_rvalue_reference<T>::type); QT("AddPointerType", Cz::AddPointerType<T>, typename std::add_pointer<T>::type);
    QT("RemovePointerType", Cz::RemovePointerType<T>, typename std::remove_pointer<T>::type);
    Sign<T, std::is_integral<T>::value && !one<T, bool, wchar_t, char16_t, char32_t>::value && !std::is_same<T, U8>::value && one<T, Bare<T>>::value>::go();
    Q("Same<T, T>", bool((Cz::Same<T, T>())), true); Q("Different<T, T>", bool((Cz::Different<T, T>())), false); Q("Same<T, T*>", bool((Cz::Same<T, typename std::add_pointer<T>::type>())), bool(one<T, typename std::add_pointer<T>::type>::value));
    Q("Same<T, const T>", bool((Cz::Same<T, const T>())), bool(one<T, const T>::value)); Q("Different<volatile T, T>", bool((Cz::Different<volatile T, T>())), bool(!one<T, volatile T>::value)); Q("IsSameType<T, T&>", bool((Cz::IsSameType<T, typename std::add_lvalue_reference<T>::type>::Value)), bool(one<T, typename std::add_lvalue_reference<T>::type>::value));
    using R2 = Cz::Required<true, T>; QT("Required", R2, T); QT("Required<true>", Cz::Required<true>, void);
}
#define H(n) Q("Has" #n "OperatorType", bool(Cz::Has##n##OperatorType<T>::Value), bool(det_##n<T>::v))
#define M(n) Q("Has_" #n "_Type", bool(D::Has_##n##_Type<T>::Value), bool(det_##n<T>::v))
template <class T> void abilities() {
    U1(IsTrivial, is_trivial); U1(IsTriviallyCopyable, is_trivially_copyable); U1(IsStandardLayout, is_standard_layout); U1(IsEmpty, is_empty); U1(IsPolymorphic, is_polymorphic); U1(IsAbstract, is_abstract); U1(HasVirtualDestructor, has_virtual_destructor);
    U1(Constructible, is_constructible); U1(TriviallyConstructible, is_trivially_constructible); U1(NothrowConstructible, is_nothrow_constructible);
    U1(DefaultConstructible, is_default_constructible); U1(TriviallyDefaultConstructible, is_trivially_default_constructible); U1(NothrowDefaultConstructible, is_nothrow_default_constructible);
    U1(CopyConstructible, is_copy_constructible); U1(TriviallyCopyConstructible, is_trivially_copy_constructible); U1(NothrowCopyConstructible, is_nothrow_copy_constructible);
    U1(MoveConstructible, is_move_constructible); U1(TriviallyMoveConstructible, is_trivially_move_constructible); U1(NothrowMoveConstructible, is_nothrow_move_constructible);
    U1(CopyAssignable, is_copy_assignable); U1(TriviallyCopyAssignable, is_trivially_copy_assignable); U1(NothrowCopyAssignable, is_nothrow_copy_assignable);
    U1(MoveAssignable, is_move_assignable); U1(TriviallyMoveAssignable, is_trivially_move_assignable); U1(NothrowMoveAssignable, is_nothrow_move_assignable);
    U1(Destructible, is_destructible); U1(TriviallyDestructible, is_trivially_destructible); U1(NothrowDestructible, is_nothrow_destructible);
    H(Less); H(Greater); H(Add); H(Subtract); H(Multyply); H(Divide); H(Modulus); H(Equal); H(NotEqual); H(Increment); H(Decrement); H(BitwiseAnd); H(BitwiseOr); H(BitwiseXor); H(LeftShift); H(RightShift); H(IStream); H(OStream);
    M(begin); M(end); M(pop_back); M(size); M(front); M(back); M(data); M(clear); M(empty); M(push_back); M(resize);
    Q("HasToString", bool(Cz::HasToString<T>()), bool(det_to_string<T>::v)); Q("HasStr", bool(Cz::HasStr<T>()), bool(det_str<T>::v)); Q("HasCStr", bool(Cz::HasCStr<T>()), bool(det_c_str<T>::v)); Q("ConvertibleToString", bool(Cz::ConvertibleToString<T>()), bool(det_ToString<T>::v));
}
template <class T, class U> void pair() {
#define B2(a, b) Q(#a, bool((Cz::a<T, U>())), bool((std::b<T, U>::value)))
    B2(Assignable, is_assignable); B2(TriviallyAssignable, is_trivially_assignable); B2(NothrowAssignable, is_nothrow_assignable); B2(BaseOf, is_base_of); B2(Convertible, is_convertible); B2(Same, is_same);
    Q("Different", bool((Cz::Different<T, U>())), bool(!std::is_same<T, U>::value));
}
struct Case { std::string name; void (*fn)(); };
static std::vector<Case> zoo;
template <class T> void only(const std::string& n) { zoo.push_back({n, [] { shape<T>(); }}); }
template <class T> void both(const std::string& n) { zoo.push_back({n, [] { shape<T>(); abilities<T>(); }}); }
template <class T> void refs(const std::string& n) { both<T>(n); both<T&>(n + "&"); only<T&&>(n + "&&"); }
template <class T> void cv(const std::string& n) { refs<T>(n); refs<const T>("const " + n); only<volatile T>("volatile " + n); only<volatile T&>("volatile " + n + "&"); only<const volatile T>("const volatile " + n); }
template <class T> void full(const std::string& n) { cv<T>(n); both<T*>(n + "*"); only<const T*>("const " + n + "*"); only<T* const>(n + "* const"); only<T* volatile>(n + "* volatile"); only<T* const volatile>(n + "* const volatile"); only<T*&>(n + "*&"); only<T**>(n + "**");
    only<T[]>(n + "[]"); both<T[3]>(n + "[3]"); only<const T[4]>("const " + n + "[4]"); only<volatile T[2][5]>("volatile " + n + "[2][5]"); only<const volatile T[][7]>("const volatile " + n + "[][7]"); only<T(&)[3]>(n + "(&)[3]"); only<T(*)[3]>(n + "(*)[3]"); }
template <class T, class U> void two(const std::string& n) { zoo.push_back({n, [] { pair<T, U>(); }}); }
static void build() {
    if (!zoo.empty()) return;
#define FULL(...) full<__VA_ARGS__>(#__VA_ARGS__)
#define CV(...) cv<__VA_ARGS__>(#__VA_ARGS__)
    FULL(int); FULL(unsigned char); FULL(double); FULL(Data);
#ifdef __cpp_char8_t
    CV(char8_t); both<char8_t*>("char8_t*"); only<char8_t[3]>("char8_t[3]");
#endif
    CV(bool); CV(char); CV(signed char); CV(wchar_t); CV(char16_t); CV(char32_t); CV(short); CV(unsigned short); CV(unsigned); CV(long); CV(unsigned long); CV(long long); CV(unsigned long long); CV(float); CV(long double); CV(std::nullptr_t);
    CV(Empty); CV(Virt); CV(Der); CV(NoCopy); CV(Un); CV(En); CV(EnC); CV(EnL); CV(std::string); CV(std::vector<int>);
#define BOTH(...) refs<__VA_ARGS__>(#__VA_ARGS__)
    BOTH(Abs); BOTH(Priv); BOTH(MoveOnly); BOTH(NoDtor); BOTH(NoDef); BOTH(Thrower); BOTH(FromInt); BOTH(OnlyOr); BOTH(OnlyAnd); BOTH(OnlyXor); BOTH(OnlyLess); BOTH(OnlyGreater); BOTH(OnlyEq); BOTH(OnlyNe); BOTH(OnlyShl); BOTH(OnlyShr); BOTH(OnlyMul); BOTH(OnlyDiv); BOTH(OnlyMod);
    BOTH(OnlyAdd); BOTH(OnlySub); BOTH(OnlyInc); BOTH(OnlyDec); BOTH(PostInc); BOTH(In); BOTH(OutS); BOTH(InRef); BOTH(ToS); BOTH(StrS); BOTH(CStrS); BOTH(ToStringS); BOTH(DataMember); BOTH(PrivSize); BOTH(WithArg); BOTH(NonConst); BOTH(const NonConst); BOTH(Push); BOTH(PushNoType); BOTH(Res); BOTH(Emp);
    BOTH(std::list<int>); BOTH(std::map<int COMMA int>); BOTH(std::forward_list<int>); BOTH(std::initializer_list<int>); BOTH(std::unique_ptr<int>); BOTH(std::stringstream); BOTH(const std::string); BOTH(void*); BOTH(const char*); BOTH(int (*)(int)); BOTH(int Data::*); BOTH(int (Data::*)()); BOTH(int (Data::*)() const); BOTH(int Data::* const); BOTH(int (Data::* volatile)());
#define ONLY(...) only<__VA_ARGS__>(#__VA_ARGS__)
    both<void>("void"); ONLY(const void); ONLY(volatile void); ONLY(const volatile void); ONLY(void()); ONLY(int(int)); ONLY(int(&)(int)); ONLY(int(&&)(int)); ONLY(void() const); ONLY(void() volatile); ONLY(void() &); ONLY(void(int, ...)); ONLY(void**); ONLY(int* const*); ONLY(const int* const); ONLY(int (*&)(int));
#define TWO(a, b) two<a, b>(#a ", " #b)
    TWO(int, double); TWO(int&, double); TWO(const int&, int); TWO(Virt, Der); TWO(Der, Virt); TWO(Data, Priv); TWO(Der*, Virt*); TWO(Virt*, Der*); TWO(Priv*, Data*); TWO(int, FromInt); TWO(FromInt, double); TWO(Data&, Data); TWO(const Data&, Data); TWO(NoCopy&, NoCopy); TWO(MoveOnly&, MoveOnly); TWO(MoveOnly&, const MoveOnly&);
    TWO(Thrower&, Thrower); TWO(void, void); TWO(int, void); TWO(int, int); TWO(int, const int); TWO(int, int&); TWO(int[3], int[4]); TWO(int[3], int*); TWO(int*, void*); TWO(void*, int*); TWO(Virt, Virt); TWO(const Virt, Der); TWO(std::string&, const char*); TWO(const char*, std::string); TWO(En, int); TWO(EnC, int); TWO(int&, En); TWO(unsigned, int); TWO(long, long long); TWO(char, signed char);
}
void run_case(const Args& a) {
    build();
    for (auto& c : zoo) if (c.name == a[0]) { tn = c.name; c.fn(); }
    struct No {}; REQ((std::is_same<Cz::Required<(1 < 2), int>, int>::value), "Required");
}
template <class T, bool B, class = void> struct req : std::false_type {};
template <class T, bool B> struct req<T, B, Cz::Indicator<Cz::Required<B, T>>> : std::true_type {};
void search(Search& s) {
    build();
    for (auto& c : zoo) s.t({c.name});
    Args a{"Required"}; orc::cur = &a; if (!req<int, true>::value || req<int, false>::value) s.report("Required<false, int> is a type, or Required<true, int> is none");
}
