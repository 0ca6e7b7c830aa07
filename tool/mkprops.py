#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
I='include/Caitlyn/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[I+f for f in files],
      mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=observe)))

p('C01','Char is an exact UTF-8 codec for one code point',
 'A Char built from any code point 1..0x10FFFF holds exactly that code point\'s UTF-8 encoding (1 to 4 bytes), reports that length, and gives the same code point back; code point 0 gives the empty Char. A Char built or assigned from bytes keeps those bytes unchanged and is accepted exactly when they form one lead byte followed by the number of continuation bytes the lead byte announces, and anything else is refused with std::invalid_argument. Chars compare like their byte sequences.',
 ['inputs'],'every 32-bit code point up to 0x10FFFF and every byte string, of any length, given to a constructor or assignment',
 'The suite never builds a Char from a code point or from malformed bytes; 1.1 million code points and all byte strings cannot be sampled away.',
 ['__Core/Char/Char.h'],
 [('FromCodePoint / CalculateLength','__Core/Char/Char.h'),('GetCodePoint','__Core/Char/Char.h'),('IsValidUtf8Char / IsContinuationByte','__Core/Char/Char.h')],
 ['Char constructors and assignments','Char::GetCodePoint','Char::str','Char::Length','Char comparison operators'])

p('C02','Character classification and simple case mapping are correct and consistent',
 'For every code point, IsSpace and IsDigit are true exactly for the Unicode white-space set and the listed decimal-digit ranges, ToDigit is the value of an ASCII digit and -1 otherwise, and IsLetter is IsUppercase or IsLowercase. ToLowercase of a code point classified upper case, and ToUppercase of one classified lower case, give the Unicode simple case mapping (with sharp s paired with capital sharp s, dotted capital I mapping to i, and n preceded by apostrophe unchanged); a code point that is neither cased in the supported scripts (Latin, Latin Extended-A, Greek, Greek Extended, Cyrillic) nor special is returned unchanged. ToUppercase/ToLowercase of a string map each character independently and keep the number of characters.',
 ['inputs'],'every 32-bit code point, and every string for the string forms',
 'No test calls any of these functions; they are tables of ranges over 2^32 inputs where one wrong bound corrupts a script silently.',
 ['__Core/Char/Utility.h','__Core/String/String.h'],
 [('range tables','__Core/Char/Utility.h'),('String::ToUppercase / ToLowercase','__Core/String/String.h')],
 ['IsSpace','IsDigit','IsUppercase','IsLowercase','IsLetter','ToDigit','ToUppercase','ToLowercase','String::ToUppercase','String::ToLowercase'])

p('C03','String decodes and re-encodes UTF-8 text without loss or over-read',
 'Building a String from well-formed UTF-8 text (up to its terminating NUL) yields one Char per encoded character, in order, and str() gives the original bytes back; Length counts characters and ByteCount counts bytes. Text with an invalid lead byte, a wrong continuation byte or a sequence cut short by the end of the text is refused with a standard exception. Decoding never reads past the terminator.',
 ['inputs'],'every NUL-terminated byte string of any length, well-formed or not',
 'One literal is decoded in the suite; malformed and truncated text is never tried and an over-read is invisible without a checker.',
 ['__Core/String/String.h','__Core/Char/Char.h'],
 [('String(const char*) / String(const BasicString&)','__Core/String/String.h'),('DecodeUtf8Char','__Core/String/String.h'),('str / ByteCount / Length','__Core/String/String.h')],
 ['String constructors and assignment from text','String::str','String::Length','String::ByteCount'])

p('C04','String searches report exactly the occurrences that exist',
 'Find gives the smallest index at or after the start position where the pattern occurs, and ReverseFind the largest index, at or before the given position, where the pattern starts; both give NPosition when there is none (or the start is beyond the end). Contains, StartsWith and EndsWith are true exactly when the pattern occurs somewhere, as a prefix, or as a suffix. FindIf and FindIfNot give the first index at or after the start whose character does, or does not, satisfy the predicate, else NPosition; no search changes the string.',
 ['inputs'],'every text, every non-empty or empty pattern, every start position and every predicate',
 'The suite checks a handful of positions of one 15-character literal with single-character reverse patterns.',
 ['__Core/String/String.h'],
 [('Find / ReverseFind / FindIf / FindIfNot','__Core/String/String.h'),('Contains / StartsWith / EndsWith','__Core/String/String.h')],
 ['String::Find','String::ReverseFind','String::Contains','String::StartsWith','String::EndsWith','String::FindIf','String::FindIfNot'])

p('C05','String editing and access behave as operations on a character sequence',
 'A String is a sequence of Chars: concatenation, +=, Append, PushBack, Insert, Clear, the repeated-character constructors, copy and move give exactly the sequence those operations define, leave all other characters and the arguments unchanged, and Substring(pos, count) gives the characters pos .. min(pos+count, Length). At, Substring and Insert with a position past the end throw std::out_of_range and change nothing; access never leaves the sequence. Two Strings are equal exactly when their sequences are equal and are ordered lexicographically; comparison with C text is comparison of bytes.',
 ['inputs','histories'],'every sequence of editing operations on every String with every argument',
 'The suite edits one literal once; no insertion, append, concatenation or out-of-range position is tested.',
 ['__Core/String/String.h'],
 [('operator+ / operator+= / Append / PushBack / Insert / Substring / At / Clear','__Core/String/String.h'),('comparison operators','__Core/String/String.h')],
 ['String public interface'])

p('C06','String::Format substitutes exactly the documented argument and layout',
 'Format copies literal text, turns {{ and }} into single braces, replaces {n} and {n:spec} by argument n, and replaces {} and {:spec} by the next argument in order (with a single argument, always that one), laid out by spec = [[fill]align][width][.precision][type]: padding with fill to width on the side the alignment says (default left, spaces), never truncating, and for type f keeping exactly precision fraction digits when a positive precision is given. Unbalanced braces, a missing or out-of-range argument, or an index that does not fit throw a standard exception. No access outside the format string or the argument list ever happens.',
 ['inputs','programs'],'every format string and every list of arguments (any number, including none)',
 'No test calls Format; the language of format strings with arbitrary argument counts is unbounded.',
 ['__Core/String/String.h'],
 [('String::Format','__Core/String/String.h'),('Formatter::MakeSpacifier and Parse*','__Core/String/String.h'),('Formatter::Process*','__Core/String/String.h')],
 ['String::Format','StringBuilder formatted append'])

p('C07','BigInteger text conversion is exact and canonical',
 'A BigInteger built from text of an optional sign and at least one ASCII digit denotes exactly that integer, and ToString gives its canonical decimal form (no leading zeros, no "-0", "-" only for negatives), so equal integers always print identically and parsing the printed text gives the number back. Text of any other form is refused with std::invalid_argument. Building from any 64-bit integer gives that integer.',
 ['inputs'],'every character string of any length and every int64_t / uint64_t',
 'No test touches BigInteger.',
 ['__Numeric/Types/BigInteger.h'],
 [('BigInteger(const String&) and delegating constructors','__Numeric/Types/BigInteger.h'),('ToString','__Numeric/Types/BigInteger.h'),('RemoveLeadingZeros','__Numeric/Types/BigInteger.h')],
 ['BigInteger constructors','BigInteger::ToString','operator<<','operator""_bigint'])

p('C08','BigInteger addition, subtraction, multiplication and powers are exact',
 'For all BigIntegers a and b of any size and sign, a+b, a-b, a*b, a.Sqr() and a.Abs() are the exact mathematical results in canonical form, and a.Pow(n) is a to the n for n >= 0 and throws std::invalid_argument for n < 0. Operands are unchanged and every such call terminates without arithmetic overflow.',
 ['inputs'],'every pair of integers of unbounded size and every exponent',
 'No test touches BigInteger; carries, borrows and sign cases over unbounded lengths cannot be enumerated.',
 ['__Numeric/Types/BigInteger.h'],
 [('Add / Subtract / Multiply','__Numeric/Types/BigInteger.h'),('Pow / Sqr / Abs','__Numeric/Types/BigInteger.h')],
 ['BigInteger::Add','BigInteger::Subtract','BigInteger::Multiply','BigInteger::Pow','BigInteger::Sqr','BigInteger::Abs','operator+ - *'])

p('C09','BigInteger division, remainder and square root are exact',
 'For b not zero, a/b is the quotient truncated toward zero and a%b the remainder with the sign of a, so that a == (a/b)*b + a%b and |a%b| < |b|; for b zero both throw std::invalid_argument. Sqrt of a non-negative integer is the largest integer whose square does not exceed it, and throws std::invalid_argument for a negative one. All results are canonical and every call terminates.',
 ['inputs'],'every pair of integers of unbounded size',
 'No test touches BigInteger.',
 ['__Numeric/Types/BigInteger.h'],
 [('Divide / Modulo','__Numeric/Types/BigInteger.h'),('Sqrt','__Numeric/Types/BigInteger.h')],
 ['BigInteger::Divide','BigInteger::Modulo','BigInteger::Sqrt','operator/ %'])

p('C10','BigInteger comparison is the numeric total order',
 'Equal, LessThan, GreaterThan and the six comparison operators agree with the mathematical order of the denoted integers for every combination of signs and lengths. Copying, moving and assigning preserve the denoted integer (a moved-from number stays valid).',
 ['inputs'],'every pair of integers of unbounded size and sign',
 'No test touches BigInteger.',
 ['__Numeric/Types/BigInteger.h'],
 [('Equal / LessThan / GreaterThan','__Numeric/Types/BigInteger.h'),('free comparison operators','__Numeric/Types/BigInteger.h'),('copy/move','__Numeric/Types/BigInteger.h')],
 ['operator< > <= >= == !=','BigInteger::Equal','BigInteger::LessThan','BigInteger::GreaterThan'])

p('C11','BigFloat arithmetic agrees with exact decimal arithmetic',
 'Decimal text is an optional sign, digits, and optionally a point and more digits, where either side of the point may be empty. A BigFloat built from such text (String, const char* or literal) denotes exactly that decimal number and prints it: all its fraction digits, or none when they are all zeros; anything else is refused with std::invalid_argument (text that is not UTF-8 with std::runtime_error). For every sign and number of fraction digits, sums, differences, products, non-negative integer powers, absolute values and comparisons agree with exact decimal arithmetic. Division truncates toward zero at the larger number of fraction digits of the two operands; Sqrt truncates at the number of fraction digits of its operand. Division by zero, a negative exponent and the square root of a negative number are refused with std::invalid_argument. Copying, moving and assigning preserve the number, and a moved-from number stays usable. (The constructor from double goes through std::to_string and is not covered.)',
 ['inputs'],'every pair of decimal numerals of any length',
 'No test touches BigFloat.',
 ['__Numeric/Types/BigFloat.h'],
 [('BigFloat(const String&)','__Numeric/Types/BigFloat.h'),('Add / Subtract / Multiply / Divide','__Numeric/Types/BigFloat.h'),('Pow / Sqr / Sqrt / Abs','__Numeric/Types/BigFloat.h'),('Equal / LessThan / GreaterThan','__Numeric/Types/BigFloat.h'),('ToString','__Numeric/Types/BigFloat.h')],
 ['BigFloat constructors','BigFloat::ToString','BigFloat::Add','BigFloat::Subtract','BigFloat::Multiply','BigFloat::Divide','BigFloat::Pow','BigFloat::Sqrt','operators + - * / < > <= >= == != <<'])

p('C12','JSON parsing accepts JSON objects, rejects the rest, and never over-reads',
 'Parsing text whose root is an object yields, for every document of objects, arrays, strings (with the escapes \\" \\\\ \\/ \\b \\f \\n \\r \\t and \\uXXXX, surrogate pairs included), numbers, true, false and null, exactly the value the text denotes with no error, a key that occurs again replacing the earlier value in its place. Text that is empty, is not rooted in an object, or breaks the structure (missing colon, comma, key or value, trailing comma, unterminated string, array or object, unknown escape, lone surrogate, \\u0000, unknown literal, malformed number, anything but white space after the root object) reports an error and leaves the document null. This holds for every way of giving the text to a document (construction, assignment, Parse, MakeDocument, an open file stream, operator>>) and whatever the document held before. White space is what IsSpace says it is; numbers may carry a leading + or leading zeros; an integer has to fit 64 bits, and a number with a fraction or an exponent is the float nearest to the double it denotes and is refused outside the range of double. Which error is reported is not specified; GetErrorString is "No error." exactly when there is none. The text is never accessed outside its bounds and parsing terminates without an uncaught exception (nesting depth within what the machine stack holds; text that is not UTF-8 is refused with the exception of the String constructor).',
 ['inputs','histories'],'every text, well-formed or not, of any length and nesting depth, and every former content of the document',
 'The suite parses a few small literals and asserts only that some error flag is set.',
 ['__Serializing/Json/Types/JsonParser.h','__Serializing/Json/Types/Json.h','__Core/String/Utility.h'],
 [('JsonParser::Parse / ParseValue / ParseObject / ParseArray / ParseString / ParseCodeUnit / ParseNumber / ParseBoolean / ParseNull','__Serializing/Json/Types/JsonParser.h'),('JsonDocument::Parse / constructor / operator=','__Serializing/Json/Types/Json.h'),('FindFirstNonSpace / FindLastNonSpace','__Core/String/Utility.h')],
 ['JsonDocument::Parse','JsonDocument::HasError','JsonDocument::GetError','operator>>'])

p('C13','JSON output is valid JSON that parses back to the same value',
 'Serialising any value built from null, booleans, integers, strings, arrays and objects, compactly or indented, by ToString of a value or a document or by operator<< of a document, gives its JSON text: members and elements in order, separated by commas, keys and strings between quotation marks with quotation mark and reverse solidus escaped by a reverse solidus and every control character below U+0020 written as \\u00XX, numbers in decimal. Parsing that text gives an equal value with members in the same order (a string or key that contains U+0000 excepted, which the parser refuses). Indented output adds only white space between tokens: every member and element stands on a line of its own behind as many spaces as its depth times the indentation width, and a space follows each colon. A floating-point value is written as an output stream writes it, with that stream\'s six digits; it need not parse back to the same value.',
 ['inputs','histories'],'every JSON value tree and every indentation width',
 'The suite round-trips one document of plain ASCII strings.',
 ['__Serializing/Json/Types/JsonData.h','__Serializing/Json/Types/JsonParser.h'],
 [('JsonData::MakeOutput / ToString','__Serializing/Json/Types/JsonData.h')],
 ['JsonDocument::ToString','operator<<','JsonDocument::Parse'])

p('C14','JSON values have value semantics and manage their storage exactly',
 'A JSON value always holds exactly one alternative: reading with a getter of another type gives that type\'s default; assignment, indexing and Append switch the alternative when needed and keep the other members; the const At on a missing key, an index past the end or a value of another type throws std::out_of_range (the non-const At behaves like operator[], which creates what is missing); HasMember, Size, IsX and RemoveMember reflect exactly the current members, in insertion order. Copies are deep and independent, also when the copied value lies inside the assigned one, around it, or is the same object; moves leave a null source; and every nested value and text is destroyed exactly once, with no use of destroyed or uninitialised storage. This covers values built from booleans, the integer and floating constructors and text; it excludes the raw storage handed out by GetData, construction from nullptr, and moving a parent into its own descendant.',
 ['inputs','histories'],'every sequence of constructions, copies, moves, assignments, indexing and removals on every value tree',
 'The suite exercises a few happy-path accessors and cannot observe lifetime errors.',
 ['__Serializing/Json/Types/JsonData.h','__Serializing/Json/Types/Json.h'],
 [('CopyUnion / MoveUnion / DestroyUnion / SetType','__Serializing/Json/Types/JsonData.h'),('operator[] / At / Append / Size / HasMember','__Serializing/Json/Types/JsonData.h'),('JsonDocument members','__Serializing/Json/Types/Json.h')],
 ['JsonData public interface','JsonDocument public interface'])

p('C15','Expected holds exactly one of value or error through every operation',
 'An Expected built from a value reports and returns that value, and one built from an error reports and returns that error, through any sequence of copies, moves and assignments between either state; asking for the missing alternative throws. Map, MapError, AndThen, Then, OrElse, CatchError, OnError, UnwrapOr, UnwrapOrElse, UnwrapOrDefault, Filter, Fold, Inspect and Expect call their function exactly when their alternative is present, with the held object, and otherwise pass the other alternative through unchanged. MakeError and MakeCorrect hold what they are given, and two Unexpected are equal exactly when their errors are. The held object is constructed once and destroyed once and never read as the other type.',
 ['inputs','histories'],'every value and error, every callback and every sequence of copies, moves, assignments and combinators',
 'The suite samples a few combinators on Int32/String and never assigns across states.',
 ['__Core/Error/Expected.h','__Core/Error/Unexpected.h'],
 [('union typestate (hasValue_)','__Core/Error/Expected.h'),('DestroyUnion','__Core/Error/Expected.h'),('combinators','__Core/Error/Expected.h')],
 ['Expected public interface'])

p('C16','KMP search decides substring containment',
 'kmp(pattern, text) is true exactly when pattern occurs in text as a contiguous substring (an empty pattern always does), for arbitrary bytes including NUL. It terminates and never accesses outside the pattern, the text or its failure table.',
 ['inputs'],'every pair of byte strings of any length',
 'No test calls it.',
 ['__Core/String/Algorithms/Kmp.h'],
 [('get_kmp_failure_vec','__Core/String/Algorithms/Kmp.h'),('kmp','__Core/String/Algorithms/Kmp.h')],
 ['kmp'])

p('C17','Integer comparison helpers give the mathematical order across signedness',
 'cmp_eq, cmp_ne, cmp_less, cmp_greater, cmp_le and cmp_ge compare the mathematical values of their arguments for every pair of standard integer types, signed or unsigned, of any width.',
 ['inputs','programs'],'every pair of values of every pair of standard integer types',
 'No test calls them; mixed-sign promotion errors appear only at particular type pairs and values.',
 ['__Core/Utility/Comparators.h'],
 [('cmp_*','__Core/Utility/Comparators.h')],
 ['cmp_eq','cmp_ne','cmp_less','cmp_greater','cmp_le','cmp_ge'])

p('C18','Text utilities split, repeat, unescape and build exactly as defined',
 'Split cuts the text at every delimiter so that joining the pieces with the delimiter restores it (one trailing delimiter adds no piece), Repeat gives count copies, EscapeString replaces each recognised backslash escape (including \\uXXXX as that code point) and keeps everything else, IsNumber holds exactly for non-empty all-digit text, and the first/last-non-space searches give the extreme non-space positions or the length. StringBuilder and MakeText hold exactly the concatenation of everything appended, in order.',
 ['inputs','histories'],'every text, delimiter and count, and every sequence of builder operations',
 'No test calls them.',
 ['__Core/String/Utility.h','__Core/String/StringBuilder.h'],
 [('Split / Repeat / EscapeString / IsNumber / FindFirstNonSpace / FindLastNonSpace','__Core/String/Utility.h'),('StringBuilder','__Core/String/StringBuilder.h')],
 ['Split','Repeat','EscapeString','IsNumber','FindFirstNonSpace','FindLastNonSpace','StringBuilder'])

p('C19','Smart pointers delete each object exactly once, when its last owner goes',
 'Through any sequence of construction, copy, move, assignment, reset and destruction (also when the pointer assigned from lies inside the object that is let go, as in p = p->next), an object owned by a UniquePtr or by SharedPtrs is alive while an owner remains and is deleted exactly once when the last owner lets go, and a released UniquePtr never deletes; a Ptr deletes only on Reset and Destroy. (A WeakPtr holds a SharedPtr and counts as one of its owners.) Null smart pointers may be copied, compared, reset and destroyed freely, and dereferencing one throws std::runtime_error. Equality compares the addresses held.',
 ['histories'],'every sequence of operations on every set of smart pointers sharing objects (single thread)',
 'No test uses the smart pointers, and leaks or double deletes are invisible to assertions.',
 ['__Core/Memory/Types/SharedPointer.h','__Core/Memory/Types/UniquePointer.h','__Core/Memory/Types/RawPointer.h','__Core/Memory/Types/WeakPointer.h'],
 [('SharedPtr reference count / Release','__Core/Memory/Types/SharedPointer.h'),('UniquePtr ownership transfer','__Core/Memory/Types/UniquePointer.h'),('Ptr','__Core/Memory/Types/RawPointer.h')],
 ['SharedPtr','UniquePtr','Ptr'])

p('C20','The test runner runs every registered test once and reports honestly',
 'RunAll runs every registered test exactly once, counts a test as passed exactly when it returns normally and as failed when it throws anything, and returns a nonzero exit code exactly when some test failed. A failing or throwing test never stops the remaining tests. The report announces the number of registered tests and suites, has for every test in order a passage that ends in its OK or FAIL line as the test did, opens and closes the part of each suite with a line that names it and its number of tests, closes with a line that gives the numbers of tests and suites, and its final summary states the numbers passed and failed of this run and lists exactly the failing tests. Every ASSERT macro (and PASS, FAIL, FAIL_MESSAGE) makes its test throw exactly when the stated condition does not hold; ASSERT_STREQ takes null pointers, which equal only each other. A test written with TEST or TEST_F is registered in the program\'s one registry under the name of its suite (fixture) and its own, TEST_F running its body on a new object of the fixture.',
 ['inputs','histories'],'every set of registered tests and every combination of passing and throwing tests',
 'The suite is itself run by this runner, and every one of its tests passes, so the failing paths never run.',
 ['__Testing/Types/TestRegistry.h','__Testing/Types/TestCase.h','__Testing/Macro/Assert.h','__Testing/Macro/Test.h','__Testing/Macro/TestFixture.h','__Testing/Types/TestFailMessage.h'],
 [('TestRegistry::AddTest / RunAll','__Testing/Types/TestRegistry.h'),('ASSERT_EQ / ASSERT_STREQ','__Testing/Macro/Assert.h'),('TEST / TEST_F registrars','__Testing/Macro/Test.h')],
 ['TestRegistry::RunAll','process exit code of a test binary','ASSERT_* macros'])

p('C21','Console streams write exactly the given text to their own stream',
 'OutputStream, ErrorStream and LogStream Write put exactly the bytes of their argument (formatted when arguments follow) on standard output, error and log respectively, and WriteLine the same followed by one line feed; nothing else is written and no other stream is touched. InputStream::ReadLine prints its non-empty prompt and returns the next input line without its terminator, and ReadChar returns that line\'s first character, or an empty Char when the line is empty.',
 ['inputs'],'every text written and every input stream content',
 'No test captures or feeds the console streams.',
 ['__Core/IO/Stream.h'],
 [('Write / WriteLine','__Core/IO/Stream.h'),('ReadLine / ReadChar','__Core/IO/Stream.h')],
 ['OutputStream','ErrorStream','LogStream','InputStream'])

p('C22','File reads back exactly what was written',
 'Write, WriteLine, Append and AppendLine (of C strings, Strings, Chars, objects with str(), to_string() or ToString(), and format calls) add exactly the given bytes (plus a line feed for the line forms) at the end of the file, in whatever order they are mixed with reads; Read returns the whole content (text up to a NUL byte; content that is not UTF-8 is refused with an exception), ReadLine returns the bytes from the reading position up to the next delimiter and moves past it so that successive calls enumerate the lines, IsEof (and the conversion to bool) say whether the last ReadLine ran into the end of the file, SetPosition moves the reading position or throws std::ios_base::failure and changes nothing, Open on an open file and Close leave content and reading position alone, and Erase leaves an empty open file with the reading position at its start. Opening an empty or unopenable name throws std::ios_base::failure, and no read goes outside its buffer.',
 ['inputs','histories'],'every byte content and every sequence of operations on a file',
 'No test touches File.',
 ['__Core/File/File.h'],
 [('Open / Close / Erase','__Core/File/File.h'),('Read / ReadLine / SetPosition','__Core/File/File.h'),('Write / Append','__Core/File/File.h')],
 ['File public interface'])

p('C23','Map, size, range and random helpers give exactly what they are asked for',
 'GetMapKeys and GetMapValues return the keys and the mapped values of every element of the map, once each, in iteration order, leaving the map unchanged. SizeOf gives the size in bytes, or eight times it in bits, RandomBoolean refuses percentages outside 0..1 with std::invalid_argument, is never true at 0 and always at 1, and Random(min, max) of a number type, with min no greater than max and (for floating types) a representable distance, lies within min..max and is drawn uniformly from that range, so that every value of an integer range turns up, and RandomBoolean(p) is true with probability p. MinValue, MaxValue and ValueRange of an integer type are the two ends of its range.',
 ['inputs'],'every map content and every argument',
 'No test calls them.',
 ['__Core/Collections/Utility/MapUtility.h','__Core/Memory/Utility/SizeCalculation.h','__Core/Utility/Random.h','__Core/Numeric/Utility/Limits.h'],
 [('GetMapKeys / GetMapValues','__Core/Collections/Utility/MapUtility.h'),('SizeOf','__Core/Memory/Utility/SizeCalculation.h'),('Random / RandomBoolean','__Core/Utility/Random.h')],
 ['GetMapKeys','GetMapValues','SizeOf','RandomBoolean','Random','MinValue','MaxValue','ValueRange'])

p('C24','Type traits classify and transform every C++ type correctly',
 'In C++11 and in C++20 (where char8_t is one more character type) alike: Each predicate trait (IsVoid ... IsRValueReference, the composite, property, operation and relation traits, and the class forms IsVoidType, IsSameType, ...) is true exactly for the types its name describes in the C++ standard, for references, cv-qualified, array, function, member pointer and user-defined types alike, and can be asked for every type for which the standard trait can. IsCharacter is true for char, signed and unsigned char, wchar_t, char16_t, char32_t, IsInteger for signed and unsigned char, short, int, long and long long, cv-qualified or not. AlignmentOf, Rank and Extent are the numbers themselves. AddConstType, RemoveCVType, AddPointerType, RemoveReferenceType and the like give the type the standard modifier of that name gives; MakeSignedType and MakeUnsignedType do for char and the integer types without cv. The HasLess...HasOStreamOperatorType (except subscript) and Has_begin/size/...  traits and HasToString/HasStr/HasCStr/ConvertibleToString are true exactly when that operator or member call on std::declval<T>() is well-formed. Required<c, T> is T when c is true and no type otherwise.',
 ['programs'],'every C++ type',
 'No finite set of static assertions covers all types, and the suite has none.',
 ['__Core/Traits.h','__Core/Traits/Constraints/Primary.h','__Core/Traits/Constraints/Composite.h','__Core/Traits/Constraints/Operations.h','__Core/Traits/Constraints/Properties.h','__Core/Traits/Constraints/PropertyQueries.h','__Core/Traits/Constraints/Relationships.h','__Core/Traits/Constraints/String.h',
  '__Core/Traits/Types/Base.h','__Core/Traits/Types/Collections.h','__Core/Traits/Types/Operators.h','__Core/Traits/Types/Pointers.h','__Core/Traits/Types/Primary.h','__Core/Traits/Types/Properties.h','__Core/Traits/Types/References.h','__Core/Traits/Types/Relationships.h','__Core/Traits/Types/SignModifiers.h','__Core/Traits/Types/Specifiers.h'],
 [('predicate functions','__Core/Traits/Constraints/Primary.h'),('specialisations of the primary traits','__Core/Traits/Types/Primary.h'),('type modifiers','__Core/Traits/Types/Specifiers.h'),('detection of operators','__Core/Traits/Types/Operators.h')],
 ['values and types of the traits at compile time'])

p('C25','Shared ownership is safe under concurrent copies and releases',
 'When threads concurrently copy, assign and destroy SharedPtrs to one object, the object is deleted exactly once, after the last owner in any thread lets go, with every access ordered before the deletion.',
 ['schedules'],'every interleaving of the owners\' operations',
 'No test starts a thread.',
 ['__Core/Memory/Types/SharedPointer.h'],
 [('atomic reference count','__Core/Memory/Types/SharedPointer.h')],
 ['SharedPtr from several threads'])

p('C26','Application initialises once and keeps its own copies of the program arguments',
 'The first call of Application::Initialise() or Initialize(argc, argv) succeeds and returns the one Application; every later call of either throws std::runtime_error and changes nothing. After Initialize, GetArgs() holds exactly argc entries (none if argc is not positive) equal to the texts of argv in order, in storage of their own that later changes of argv do not affect and that goes with the object.',
 ['inputs','histories'],'every argument vector and every sequence of initialisation calls',
 'No test initialises the Application with arguments or twice.',
 ['__Caitlyn/Application.h'],
 [('initialisation flag','__Caitlyn/Application.h'),('SetArgs','__Caitlyn/Application.h')],
 ['Application'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
