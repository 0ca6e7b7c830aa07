"""contracts of the type traits: (kind, name, what the result $r is, condition on the arguments a0, a1); kind p: predicate function, v: class with a Value,
a: alias template (an Option<Ty>: None where the program is ill-formed)"""
P1 = {'IsVoid': 'void', 'IsNullPointer': 'null_pointer', 'IsFloating': 'floating_point', 'IsIntegral': 'integral', 'IsArray': 'array', 'IsEnum': 'enum', 'IsUnion': 'union', 'IsClass': 'class',
      'IsFunction': 'function', 'IsPointer': 'pointer', 'IsLValueReference': 'lvalue_reference', 'IsRValueReference': 'rvalue_reference',
      'IsMemberObjectPointer': 'member_object_pointer', 'IsMemberFunctionPointer': 'member_function_pointer', 'IsFundamental': 'fundamental', 'IsArithmetic': 'arithmetic',
      'IsScalar': 'scalar', 'IsObject': 'object', 'IsCompound': 'compound', 'IsReference': 'reference', 'IsMemberPointer': 'member_pointer', 'IsConst': 'const',
      'IsVolatile': 'volatile', 'IsSigned': 'signed', 'IsUnsigned': 'unsigned', 'IsTrivial': 'trivial', 'IsTriviallyCopyable': 'trivially_copyable',
      'IsStandardLayout': 'standard_layout', 'IsEmpty': 'empty', 'IsPolymorphic': 'polymorphic', 'IsAbstract': 'abstract', 'HasVirtualDestructor': 'has_virtual_destructor'}
for a, b in (('', ''), ('Trivially', 'trivially_'), ('Nothrow', 'nothrow_')):
    for o in ('Constructible', 'DefaultConstructible', 'CopyConstructible', 'MoveConstructible', 'CopyAssignable', 'MoveAssignable', 'Destructible'):
        P1[a + o] = b + {'Constructible': '', 'Destructible': ''}.get(o, {'D': 'default_', 'C': 'copy_', 'M': 'move_'}[o[0]]) + ('constructible' if o.endswith('Constructible') else 'assignable' if o.endswith('Assignable') else 'destructible')
TRAITS = [('p', n, f'$r == std_is_{s}(a0)', None) for n, s in P1.items()]
TRAITS += [('p', 'IsBoolean', '$r == (a0.b is Pr && a0.b->Pr_0 == Pk::Bool)', None),
           ('p', 'IsCharacter', '$r == (a0.b is Pr && is_char_like(a0.b->Pr_0))', None),
           ('p', 'IsInteger', '$r == (a0.b is Pr && is_int_like(a0.b->Pr_0))', None),
           ('p', 'AlignmentOf', '$r == std_alignment_of(a0) as int', None), ('p', 'Rank', '$r == std_rank(a0) as int', None), ('p', 'Extent', '$r == std_extent(a0) as int', None),
           ('p', 'Same', '$r == (a0 == a1)', None), ('p', 'Different', '$r == (a0 != a1)', None), ('p', 'BaseOf', '$r == std_is_base_of(a0, a1)', None),
           ('p', 'Convertible', '$r == std_is_convertible(a0, a1)', None)]
TRAITS += [('p', a + 'Assignable', f'$r == std_is_{b}assignable(a0, a1)', None) for a, b in (('', ''), ('Trivially', 'trivially_'), ('Nothrow', 'nothrow_'))]
TRAITS += [('v', 'IsVoidType', '$r == std_is_void(a0)', None), ('v', 'IsNullPointerType', '$r == std_is_null_pointer(a0)', None),
           ('v', 'IsBooleanType', '$r == (a0.b is Pr && a0.b->Pr_0 == Pk::Bool)', None), ('v', 'IsSignedType', '$r == std_is_signed(a0)', None),
           ('v', 'IsUnsignedType', '$r == std_is_unsigned(a0)', None), ('v', 'IsSameType', '$r == (a0 == a1)', None)]
TRAITS += [('a', n, f'$r == Some(std_{s}(a0))', None) for n, s in (
    ('AddConstType', 'add_const'), ('AddVolatileType', 'add_volatile'), ('AddCVType', 'add_cv'), ('RemoveConstType', 'remove_const'), ('RemoveVolatileType', 'remove_volatile'),
    ('RemoveCVType', 'remove_cv'), ('RemoveReferenceType', 'remove_reference'), ('AddLValueReferenceType', 'add_lvalue_reference'),
    ('AddRValueReferenceType', 'add_rvalue_reference'), ('AddPointerType', 'add_pointer'), ('RemovePointerType', 'remove_pointer'))]
SIGN = 'a0.b is Pr && !is_floating(a0.b->Pr_0) && a0.b->Pr_0 != Pk::Bool && a0.b->Pr_0 != Pk::WChar && a0.b->Pr_0 != Pk::Char16 && a0.b->Pr_0 != Pk::Char32/*20  && a0.b->Pr_0 != Pk::Char8*/ && !a0.c && !a0.v'
TRAITS += [('a', 'MakeSignedType', '$r == Some(pr(to_signed(a0.b->Pr_0)))', SIGN), ('a', 'MakeUnsignedType', '$r == Some(pr(to_unsigned(a0.b->Pr_0)))', SIGN),
           ('a', 'Required', '$r == (if a0 { Some(tb(B::Void)) } else { None::<Ty> })', None),
           ('A', 'Required', '$r == (if a0 { Some(a1) } else { None::<Ty> })', None)]
D = 'std::declval<T>()'
OPS = {'Less': f'{D} < {D}', 'Greater': f'{D} > {D}', 'Add': f'{D} + {D}', 'Subtract': f'{D} - {D}', 'Multyply': f'{D} * {D}', 'Divide': f'{D} / {D}', 'Modulus': f'{D} % {D}',
       'Equal': f'{D} == {D}', 'NotEqual': f'{D} != {D}', 'Increment': '++std::declval<T&>()', 'Decrement': '--std::declval<T&>()', 'BitwiseAnd': f'{D} & {D}',
       'BitwiseOr': f'{D} | {D}', 'BitwiseXor': f'{D} ^ {D}', 'LeftShift': f'{D} << {D}', 'RightShift': f'{D} >> {D}', 'IStream': f'std::declval<std::istream&>() >> {D}',
       'OStream': f'std::declval<std::ostream&>() << {D}'}
TRAITS += [('v', f'Has{n}OperatorType', f'$r == VALID{{{e}}}', None) for n, e in OPS.items()]
MEM = {n: f'{D}.{n}()' for n in ('begin', 'end', 'pop_back', 'size', 'front', 'back', 'data', 'clear', 'empty')}
MEM['push_back'] = f'{D}.push_back(std::declval<typename T::value_type>())'
MEM['resize'] = f'{D}.resize(std::declval<typename T::size_type>())'
TRAITS += [('v', f'Has_{n}_Type', f'$r == VALID{{{e}}}', None) for n, e in MEM.items()]
TRAITS += [('p', n, f'$r == VALID{{{D}.{m}()}}', None) for n, m in (('HasToString', 'to_string'), ('HasStr', 'str'), ('HasCStr', 'c_str'), ('ConvertibleToString', 'ToString'))]
