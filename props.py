H = 'include/json_struct/json_struct.h'
def P_(id, title, statement, over, qtext, why, mech, note, state=(), observe=(), files=(H,), na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), note=note)
    if na: d['na'] = na
    return d
TRUST = ' Trusted: clang 18 as front end, the IR interpreter (every run replays sampled paths and every counterexample in a native ASan/UBSan build), z3.'
P = []
P.append(P_('C01', 'No input corrupts memory, hits undefined behaviour, aborts or hangs',
 'Whatever bytes are given, in one buffer or several, under any options: tokenizing (also going on after an error), parsing into any supported type, reformatting, capturing raw JSON or tokens, using a Map, calling functions by JSON and producing the error text finish with a result or an error. They never read or write outside their buffers, use freed or uninitialised memory, overflow, fail an assertion, throw or loop for ever.',
 ['inputs', 'configurations'], 'all byte strings x target types x options', 'Tests and fuzzing sample inputs; memory safety on hostile input is a claim about every byte string.',
 [('Tokenizer, TypeHandler specialisations, Serializer, Map, CallFunctionContext, updateErrorContext', H)],
 'Bounded: 2-5 arbitrary bytes, alone and inside structural templates, into a struct with a member of every supported type and into 12 top level types; every access is bounds checked and the IR carries the UBSan checks.' + TRUST))
P.append(P_('C02', 'Strict tokenization follows the JSON structure',
 'With default options, the token stream (names, values, types, nesting) delivered for any text is the one the JSON grammar prescribes, and every structurally malformed text (unbalanced or mismatched brackets, missing or duplicate delimiters, missing names or values, unquoted words) is rejected with an error at the offending token. Tokens are delivered in order, each exactly once, with exactly the bytes of the text.',
 ['inputs'], 'all byte strings', 'The tests tokenize a few dozen fixed documents; the claim quantifies over every byte string, including every malformed one.',
 [('Tokenizer::nextToken / populateNextTokenFromDataRef', H), ('findStartOfNextValue, findTokenEnd, findStringEnd, findNumberEnd', H)],
 'Bounded: all inputs up to 7 arbitrary bytes, and 4 arbitrary bytes inside structural templates; every path explored, compared with an independent reference tokenizer.' + TRUST))
P.append(P_('C03', 'Relaxed parsing options accept exactly what they promise',
 'Each parsing option (unquoted ascii values and names, newline as delimiter, superfluous comma, // comments), alone or combined, extends the accepted texts only by the constructs it names, and leaves the tokens of texts that do not use them unchanged.',
 ['inputs', 'configurations'], 'all byte strings x all 16 combinations of the four tokenizer options', 'Tests exercise one option at a time on a handful of texts.',
 [('Tokenizer::allowAsciiType/allowNewLineAsTokenDelimiter/allowSuperfluousComma/allowComments', H), ('findDelimiter, findStartOfNextValue', H)],
 'Bounded: all inputs up to 5 arbitrary bytes under all 16 option combinations, 3 arbitrary bytes inside templates.' + TRUST))
P.append(P_('C04', 'Token stream does not depend on how the input is cut into buffers',
 'For any text and any way of cutting it into consecutive buffers (including empty and one-byte buffers), whether supplied up front, through the need-more-data callback or after a NeedMoreData return, the tokens and the final outcome are the same as for the text in one buffer. Every buffer is released exactly once, in order, and only after the tokenizer no longer needs it.',
 ['inputs', 'schedules'], 'all byte strings x all cut positions x all ways of feeding', 'Tests stream a few documents with a few fixed chunk sizes; the interesting cuts are inside escapes, names, comments and numbers.',
 [('Tokenizer::releaseFirstDataRef, requestMoreData, IntermediateToken', H)],
 'Bounded: arbitrary texts up to 6 bytes and templates with 3 arbitrary bytes, one or two arbitrary cuts or every byte its own buffer; NUL bytes excluded.' + TRUST))
P.append(P_('C05', 'SIMD and portable code give the same result',
 'For every text, every way of cutting it and every combination of options, the token stream and the outcome are the same whether the header is compiled with SSE2, SSE4.2, AVX2 or NEON support or with SIMD disabled; the same holds for the text written when serializing strings. In particular nothing depends on where a character falls relative to a 16 or 32 byte block.',
 ['inputs', 'configurations'], 'all byte strings x option masks x the instruction sets', 'Tests are compiled for one instruction set and mostly use texts shorter than one block.',
 [('findStringEndSIMD/AVX2/NEON, findNumberEnd*, findAsciiEnd*, skipWhitespace*, findFirstEscapeOut', H), ('Tokenizer::findStringEnd, findAsciiEnd, findNumberEnd, findStartOfNextValue, findDelimiter', H)],
 'Bounded: texts of 17 to 75 bytes made of a filler (string, digits, words, whitespace, comment, escapes) with 2-3 arbitrary bytes at any position, optionally cut at or next to them; the NEON code is executed through a plain C++ rendering of the intrinsics.' + TRUST))
P.append(P_('C06', 'String values are unescaped and escaped losslessly',
 'Parsing a JSON string yields exactly the bytes it denotes: every escape (quote, backslash, slash, b, f, n, r, t, \\uXXXX including surrogate pairs as UTF-8) is decoded, all other bytes are taken over unchanged, and the following members are unaffected. Serializing any string writes a valid JSON string (quotes, backslashes and all control characters escaped) which parses back to the identical bytes; the same holds for string members and the keys of maps.',
 ['inputs'], 'all byte strings as string content, in either direction', 'The tests use a few literal strings; escapes interact with every position and with the surrounding SIMD block boundaries.',
 [('handle_json_escapes_in, handle_json_escapes_out', H), ('TypeHandler<std::string>', H)],
 'Bounded: up to 6 arbitrary bytes as content, and 2-4 arbitrary bytes inside templates (escapes, surrogates, long runs); lone surrogates are outside the claim as to their UTF-8 form.' + TRUST))
P.append(P_('C07', 'Integers keep their value in both directions',
 'Serializing any value of any integer type (8 to 128 bits, signed and unsigned) writes its decimal digits, and parsing that text gives the same value. Parsing any JSON number into an integer type gives the number truncated towards zero and limited to the range of the type, never a wrapped or arbitrary value; text that is not a number is an error.',
 ['inputs'], 'all values of all integer types, all number texts', 'Tests use a few dozen values; overflow and digit-count boundaries need specific values.',
 [('ft::integer::to_integer, from_integer, ft::parseNumber', H), ('TypeHandler of the integer types', H)],
 'Bounded: all values with the digit counts listed (up to 39 digits for 128 bit, every digit arbitrary), number tails (fraction, exponent) with 2 arbitrary digits; texts up to 6 number characters.' + TRUST))
P.append(P_('C08', 'Floating point numbers are read and written exactly',
 'Every finite float or double is written as a JSON number that denotes it (no other float or double is nearer) and that parses back to the identical bits, the sign of zero included; NaN and the infinities are written as null. A JSON number with up to 19 significant digits is read as the nearest float or double (ties to even), too large a number as infinity, too small a number as zero, with its sign; text that is not a number is an error.',
 ['inputs'], 'all float and double values; all number texts with at most 19 significant digits and any exponent', 'Tests try a few values; the rounding errors sit at single values next to powers of two, at the subnormal boundary or at ties.',
 [('ft::from_chars / convertToNumber / correctly_round_float', H), ('ft::to_chars and the conversion to decimal (ryu)', H), ('TypeHandler<float>, TypeHandler<double>', H)],
 'Bounded: all 2048/256 exponents with 3 to 6 mantissas and both signs; all 256 values of a mantissa byte at several positions for about 140 exponents (all exponents in thorough); number texts with arbitrary digits in 27 templates over the exponents -345..313 (sampled), and all texts of up to 4 number characters. Oracle: exact big integer comparison with the neighbouring halfway points. More than 19 digits: only covered by C07.' + TRUST))
P.append(P_('C09', 'Struct members are bound to the right JSON properties',
 'Parsing a JSON object into a struct assigns each declared member (also of base structs, and by alias) the value of the property with exactly its name, whatever the order of the properties, and leaves every other member untouched. Properties without a member are skipped with their whole value and reported as missing, members without a property are reported as unassigned, and the parse options turn these reports into errors; serializing writes every member once, under its primary name, in declaration order.',
 ['inputs', 'configurations'], 'all property names, orders, repetitions and value shapes x parse options', 'Tests use fixed documents with matching names; names that are prefixes of each other, orders and repetitions are not enumerated.',
 [('JS::Internal::MemberChecker, JsonStructFunctionDispatcher', H), ('TypeHandler<T>::to for JS_OBJ types', H)],
 'Bounded: up to three members, names of up to 5 arbitrary bytes, all orders, eight value shapes. A repeated property is out of the claim except that parsing stays in sync.' + TRUST))
P.append(P_('C10', 'Nullable and optional values follow null and absence',
 'A nullable, optional or smart-pointer member is set from a value (also an empty one) and untouched when its property is absent; null empties the checked nullable and the smart pointers, keeps the value of the unchecked nullable, and is an error for an optional whose content does not accept null. Serialization writes null for an empty nullable or pointer and omits the member of the optional and silent types that are unset or empty, so that writing and parsing gives the same state back. An optional struct that held a value takes the new one as a whole. Copying, moving and assigning nullable and optional values keeps their value and their state.',
 ['inputs', 'histories'], 'all value texts x all previous states of the target', 'Tests parse into fresh objects with one or two texts per wrapper.',
 [('TypeHandler<Optional>, <OptionalChecked>, <Nullable>, <NullableChecked>, <std::unique_ptr>, <std::shared_ptr>, <std::optional>', H)],
 'Bounded: 3-4 arbitrary bytes as value text inside structural templates, targets empty or set before.' + TRUST))
P.append(P_('C11', 'Arrays and containers receive exactly the elements of the JSON array',
 'Parsing a JSON array into a vector, fixed array, tuple, set, one-or-many or nested container gives exactly its elements, in order, replacing what the container held; a wrong element type, a wrong number of elements for a fixed-size type or a malformed array is an error and the error is never lost. Serializing writes the elements in order as a JSON array that parses back to an equal container.',
 ['inputs', 'histories'], 'all array texts x all previous contents', 'Tests parse a few literal arrays into fresh containers.',
 [('TypeHandler<std::vector>, <T[N]>, <std::array>, <std::tuple>, <std::set>, <OneOrMany>, ArrayVariableContent', H)],
 'Bounded: all texts up to 5 arbitrary bytes, and 4 arbitrary bytes inside templates (nested arrays, objects, strings); element types int, bool, std::string, struct.' + TRUST))
P.append(P_('C12', 'Maps receive exactly the entries of the JSON object',
 'Parsing a JSON object into std::map or std::unordered_map inserts exactly its names (unescaped) and values; malformed or truncated input ends with an error. Serializing writes one entry per key with the key escaped, and parsing that text gives an equal map.',
 ['inputs', 'histories'], 'all object texts x all previous contents', 'Tests parse two or three literal objects.',
 [('TypeHandlerMap', H)],
 'Bounded: all texts up to 6 arbitrary bytes, and 4 (hashed: 2) arbitrary bytes inside templates.' + TRUST))
P.append(P_('C13', 'Enums map names and numbers one to one',
 'An enum declared with the string parser accepts exactly the names of its enumerators (byte for byte, no prefixes or extensions) and exactly the numbers of its enumerators, and is written as its name; anything else is an error that leaves the target alone. An enum declared with the value parser is read and written as its number.',
 ['inputs'], 'all strings and numbers x all enumerators', 'Tests use the existing names; near-miss names and out-of-range numbers are unbounded.',
 [('JS::EnumHandler, JS_ENUM, populateEnumNames', H)],
 'Bounded: three enums (1, 3 and 8 enumerators, names that are prefixes of each other or differ in case), all strings up to 7 bytes, all numbers up to 3 digits and of 9 digits.' + TRUST))
P.append(P_('C14', 'JS::Map behaves like a dictionary under every history of operations',
 'After any sequence of parsing, setting and replacing named values of any kind (numbers, strings, arrays, objects, unset optionals), a JS::Map holds exactly the last value set for each name: finding, casting, iterating and serializing all agree on the same entries in the same order, a replaced or newly set value being the last. Names are matched after unescaping and are escaped when written; a missing name, a value of the wrong type or a map that holds an array is reported as an error.',
 ['histories', 'inputs'], 'all operation sequences x all names x all value kinds, all texts', 'Tests run two or three fixed sequences; the positions kept for nested values depend on the whole history.',
 [('Map::find, castToType, setValue, It::operator++', H), ('metaForTokens', H)],
 'Bounded: histories of up to 3 operations over 4 names and 6 kinds of value from 6 starting texts, names of 2 arbitrary bytes, texts up to 6 arbitrary bytes.' + TRUST))
P.append(P_('C15', 'Raw members capture exactly the text or the tokens of their value',
 'A JsonObject, JsonArray or JsonObjectOrArray member holds exactly the text of its value, byte for byte, however the input is cut into buffers, and the members around it get their values; the Ref variants hold exactly its span, and report a value that is spread over buffers; JsonTokens and token vectors hold exactly its tokens, in order. A value of another type, and malformed or truncated input, is an error and leaves no range outside the input. metaForTokens describes every container (position, number of tokens, children, nested containers, has data). Parsing from captured tokens gives what parsing the text gives, and what was captured is written back unchanged.',
 ['inputs', 'schedules'], 'all texts x all cuts x all raw types', 'Tests capture a handful of documents in one buffer or with a fixed chunk size.',
 [('TypeHandler<JsonObject/JsonArray/JsonObjectOrArray/...Ref/JsonTokens>', H), ('Tokenizer::copyFromValue, copyIncludingValue, releaseFirstDataRef', H), ('metaForTokens', H)],
 'Bounded: 2-5 arbitrary bytes inside 14 templates x 8 types x (one buffer, cut at any position, one buffer per byte, from tokens), all 16 option masks for some. Duplicate members and escaped names in the surrounding object are left out. Oracle: the reference tokenizer.' + TRUST))
P.append(P_('C16', 'Written text is complete whatever the buffers, and styles differ only in white space',
 'For any sequence of tokens of a document, the text written is the same for any sizes of output buffers, given up front or through the callback; when the space runs out without a callback this is reported and nothing is written outside. Compact style writes nothing but the tokens; pretty style adds only line breaks, indentation by depth x shift size and the space after the colon; the other settings (ascii as string, skipped delimiter) do only what they say; nesting depth and long strings lose nothing. Every object member keeps its name, the empty one included. reformat keeps the tokens of a document, is idempotent, and reports malformed or cut off input.',
 ['inputs', 'configurations', 'schedules'], 'all token sequences x output buffer sizes x options', 'Tests write a few structs into one large buffer; the faults appear at buffer ends, at certain depths or under rarely combined options.',
 [('Serializer::write, SerializerOptions, SerializerBuffer', H), ('SerializerContext, serializeStruct', H), ('reformat', H)],
 'Bounded: documents from 9 templates with 2-5 arbitrary bytes; buffers of 1..9 bytes or a first buffer of any size; 9 combinations of settings; depths up to 300; strings around 4096 and 8192 characters. Several documents in one text and scalars at the top are not claimed for reformat. Oracle: an independent writer over the reference tokens.' + TRUST))
P.append(P_('C17', 'Functions named by JSON are called with their arguments, in order, and every outcome is reported',
 'callFunctions calls exactly the functions named by the members of the object (own functions, those of base classes, and aliases, an exact name before an alias), in the order of the text and each with its own argument parsed, and writes the results in that order as one closed JSON array. Every member has one entry in the execution list with its name and its outcome: an argument of the wrong type, an error set by the function, or a name without a function. Such a failure never affects the calls after it, unless stopping on failure is asked for, and then nothing after it is called. Cut off or malformed text, or something other than an object, is reported.',
 ['inputs', 'histories', 'configurations'], 'all sequences of calls x arguments x options, all texts', 'Tests make two or three successful calls from fixed texts.',
 [('CallFunctionContext::callFunctions, FunctionObjectTraverser, MatchAndCallFunction', H), ('JS_FUNCTION_CONTAINER, JS_FUNCTION_ALIASES', H)],
 'Bounded: sequences of up to 3 calls from 16 names and 12 arguments with both options, texts with 2-5 arbitrary bytes inside 11 templates. After a malformed argument only the report is claimed, not what is called after it. Oracle: arguments parsed one by one as struct members.' + TRUST))
P.append(P_('C18', 'Diffing two documents marks exactly what differs',
 'For well-formed documents the diff reports differences if and only if there are some: members are matched by name in any order, array items by position, strings by their text, numbers by value (exactly, or within the epsilon). Every token of the diffed document is marked with its own kind of difference (value, type, new member, new item, missing members, missing items, different root; everything inside a new value is marked too) and every other token is not; the missing members and items are listed with all their tokens, on the container that misses them. After changing the base, or a reset, all results are those of a fresh comparison. No number makes it fail, and an empty text is an error.',
 ['inputs', 'histories'], 'all pairs of documents x options, all sequences of base changes', 'Eight tests compare fixed pairs; which tokens get marked depends on the nesting and on the position of what was added or removed.',
 [('JS::DiffContext, JS::DiffTokens', 'include/json_struct/json_struct_diff.h'), ('Internal::Diff::diffObjects, diffArrays, diffNumberValues', 'include/json_struct/json_struct_diff.h')],
 'Bounded: pairs from 15 templates with up to 3+3 or 4+1 arbitrary bytes, 5 option sets; histories over 13 documents with up to 3 diffs and 2 changes of the base. Repeated names in one object and malformed texts are outside (the code assumes correct JSON); inside a value of another type in an array only its first token is claimed. Numbers of more than 14 digits are not compared with the oracle. Oracle: recursive comparison over reference tokens.' + TRUST))
P.append(P_('C19', 'Error reports name the error and point at the place in the input',
 'When parsing fails, the report carries the error that was returned (and the message given with it), and shows the lines of the input around the place, each exactly as it is, limited by the configured number of lines and characters, with one mark under the right column of the right line; the place is inside the input, not before the last good token and, for a value of the wrong type, at that value. Errors about members name exactly the members concerned. In a sequence of function calls every report is about its own call and has nothing of an earlier error. Without an error there is no report.',
 ['inputs', 'histories', 'configurations'], 'all malformed or mismatching texts x positions x settings', 'Tests only check that the string is not empty.',
 [('Tokenizer::updateErrorContext, makeErrorString, setErrorContextConfig', H), ('ParseContext::makeErrorString', H), ('CallFunctionErrorContext::setError, add_error', H)],
 'Bounded: texts of 4 arbitrary bytes and 3 arbitrary bytes in 10 templates with line breaks, texts around the 256 character limit with one arbitrary byte, 4 settings of lines and range; all sequences of 3 calls out of 12; one buffer. Oracle: an independent rendering of the window around the place.' + TRUST))
P.append(P_('C20', 'Time points are read by magnitude and written without loss',
 'A time point member is read from a non-negative number as seconds, milliseconds, microseconds or nanoseconds since the epoch, depending only on its magnitude (limits 1e11, 1e14 and 1e17); a time that does not fit is an error that leaves the member alone. A time at or after 1e17 ns (March 1973) is written as the shortest of these numbers and reads back as exactly the same time.',
 ['inputs'], 'all numbers x all times', 'Tests read and write three fixed times.',
 [('TypeHandler<std::chrono::time_point>', H)],
 'Bounded: numbers of 2-19 digits with two arbitrary digits around 5 patterns, 3 arbitrary bytes; times with one arbitrary byte around 7 patterns x 4 units. Times before March 1973 are not claimed for writing: the format cannot tell their unit. system_clock with nanoseconds.' + TRUST))
P.append(P_('C21', 'A value composed of all supported types survives writing and reading',
 'Serializing a struct with base structs, nested structs, vectors, maps, sets, arrays, tuples, smart pointers, optionals, nullables, enums, raw members and scalars, in any style, and parsing the text back gives an equal value, with no member unknown or unassigned, and writing it again gives the same text. This holds however the text is cut into buffers, when it is parsed from tokens, into a target that held another value, and as a later document of the same context.',
 ['inputs', 'histories', 'schedules'], 'all values x styles x transports x previous states', 'Tests round-trip single types with one or two values from one buffer into fresh objects.',
 [('serializeStruct, ParseContext::parseTo', H), ('all TypeHandler specialisations', H)],
 'Bounded: one struct of 24 members, of which one group at a time takes all states (container sizes up to 3, arbitrary bytes in strings and keys, arbitrary integers of 8 bits at different positions), two styles, one buffer, one byte per buffer, cuts at every position (for two groups, thorough: all), tokens; fresh and used targets.' + TRUST))
P.append(P_('C22', 'A tokenizer can be reset, skip scopes and copy ranges exactly, from text, buffers or tokens',
 'After resetData a tokenizer (and a context that uses it) delivers exactly what a new one would deliver from that place of the new text or token list, with its options, whatever it had read before, finished, cut off or malformed, and every buffer it still held is released once. goToEndOfScope goes exactly to the end of the pushed container (a single value is a scope that has ended), also when another scope was pushed and finished inside, nothing is delivered beyond it while the scope is there, and after popScope the rest of the text follows. copyFromValue and copyIncludingValue give exactly the text from one bracket or brace to another (a container, or any such range), also for several nested or overlapping ranges, however the input is cut into buffers. Every way of giving a text to a context (string, pointer, array, several buffers, callback) has the same result.',
 ['inputs', 'histories', 'schedules'], 'all texts x points of interruption x ways of cutting x scopes', 'The functions that custom type handlers are built from are used by the tests only through one call of callFunctions.',
 [('Tokenizer::resetData, resetForNewDocument', H), ('Tokenizer::pushScope, popScope, goToEndOfScope, ScopeCounter', H), ('Tokenizer::copyFromValue, copyIncludingValue', H)],
 'Bounded: 10 templates with 2-5 arbitrary bytes in one buffer, cut anywhere or byte by byte; reset after any number of tokens of a first text with 1-2 arbitrary bytes to a second one with 1-2 arbitrary bytes; scopes two deep; two ranges at a time, from and to container tokens. Oracle: the reference tokenizer.' + TRUST))
