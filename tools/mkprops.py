#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
U='include/fast_ber/util/'; B='include/fast_ber/ber_types/'; C='src/compiler/'
p('C01','TLV header written by the library is read back unchanged',
 'For every class, construction, tag number and content length, writing a BER identifier-and-length header succeeds exactly when the buffer is large enough, writes exactly the number of octets predicted in advance and nothing else, and reading those octets back yields the same class, construction, tag number and length.',
 ['inputs'],'All 4 classes, both constructions, all tag numbers 0..2^63-1, all lengths 0..2^64-1, all buffer sizes.',
 'Tests sample a few dozen tags and lengths; the quantifier is over the whole 64-bit tag and length spaces and every buffer size.',
 [U+'EncodeIdentifiers.hpp',U+'Extract.hpp',U+'EncodeHelpers.hpp'],
 [('tag and identifier encoding',U+'EncodeIdentifiers.hpp encode_tag/encode_identifier'),('length encoding',U+'EncodeIdentifiers.hpp encode_length/encode_header'),('header parsing',U+'Extract.hpp')],['bytes of the buffer','returned lengths'])
p('C02','Viewing arbitrary bytes never reads outside the input or hangs',
 'For every byte sequence, constructing a packet view over it, querying every accessor, iterating over its children and re-viewing them terminates and reads only bytes inside the given sequence. A view that reports itself valid describes a header and content that lie wholly inside the sequence.',
 ['inputs'],'All byte strings (as untrusted wire input), every accessor and nested iteration.',
 'A handful of fixed well-formed packets are parsed by tests; memory safety has to hold for every malformed, truncated or hostile length encoding.',
 [U+'BerView.hpp',U+'Extract.hpp',U+'BerContainer.hpp'],
 [('bounds checks while parsing',U+'Extract.hpp extract_tag/extract_length'),('extent check',U+'BerView.hpp BerView::assign')],['memory accesses','BerView::is_valid/content/ber'])
p('C03','Packet parsing agrees with X.690 for every input',
 'For every byte sequence, a view is valid exactly when the bytes start with a well-formed definite-length BER element that fits, and then the reported class, construction, tag number, header size, content length and content bytes are those defined by X.690.',
 ['inputs'],'All byte strings; oracle is an independent reference parser.',
 'Tests compare a few packets; agreement with the standard is a statement about all inputs including long-form tags and lengths at each size boundary.',
 [U+'BerView.hpp',U+'Extract.hpp'],[('identifier octets',U+'Extract.hpp extract_tag'),('length octets',U+'Extract.hpp extract_length'),('view',U+'BerView.hpp')],['BerView accessors'])
p('C04','Iterating a constructed element visits exactly its child elements',
 'Iterating over the content of any constructed element visits its consecutive child elements in order, each exactly once, stops at the first malformed or truncated child, and never yields bytes outside the content. Owning and non-owning containers give the same iteration.',
 ['inputs'],'All contents of constructed elements, any number and size of children.',
 'Tests iterate two or three fixed packets; the property quantifies over every sequence of children and every malformed tail.',
 [U+'BerView.hpp',U+'BerContainer.hpp'],[('iterator',U+'BerView.hpp BerViewIterator')],['views yielded by the iterators'])
p('C05','Encoding never writes outside the buffer and reports its exact size',
 'For every value of every ASN.1 type in the library and every output buffer size, encoding succeeds exactly when the buffer is at least as long as the announced encoded length, then reports and writes exactly that many octets; otherwise it fails. In no case is a byte outside the reported output (on success) or outside the buffer (on failure) modified.',
 ['inputs'],'All types, all values, all buffer sizes including zero and one short.',
 'Tests encode into generously sized buffers; the off-by-one sizes and header-growth boundaries that matter are never sampled.',
 [U+'EncodeHelpers.hpp',U+'FixedIdBerContainer.hpp',U+'SmallFixedIdBerContainer.hpp',B+'Boolean.hpp',B+'Null.hpp',B+'SequenceOf.hpp',B+'Choice.hpp',B+'Enumerated.hpp',B+'Optional.hpp',B+'Default.hpp'],
 [('header + content wrapping',U+'EncodeHelpers.hpp wrap_with_ber_header'),('per-type encode/encoded_length',B+'*.hpp')],['EncodeResult','buffer bytes'])
p('C06','INTEGER keeps its value and uses the minimal X.690 content',
 'Every 64-bit signed integer stored in an INTEGER is read back unchanged, encodes to the unique shortest two\'s-complement content, and decodes to an equal value; every INTEGER content of one to eight octets decodes to its two\'s-complement value and longer contents are refused.',
 ['inputs'],'All 2^64 values; all content octet strings up to and beyond 8 octets.','Tests check about thirty values; the quantifier is all 2^64 values and all contents.',
 [B+'Integer.hpp',U+'SmallFixedIdBerContainer.hpp'],[('integer content codec',B+'Integer.hpp encode_integer/decode_integer')],['Integer::value','encoded bytes'])
p('C07','BOOLEAN, NULL and ENUMERATED round-trip and reject foreign packets',
 'Every BOOLEAN, NULL and ENUMERATED value decodes from its own encoding to the same value; any non-zero BOOLEAN content octet means true; a packet with a different class, tag number or a content length the type cannot have is refused.',
 ['inputs'],'All values, all input packets.','Tests decode the canonical packets only; refusal and acceptance must be decided for every identifier, length and content.',
 [B+'Boolean.hpp',B+'Null.hpp',B+'Enumerated.hpp'],[('decode guards',U+'DecodeHelpers.hpp')],['DecodeResult','values'])
p('C08','Every double survives encoding as REAL bit for bit',
 'For every IEEE-754 double (normal, subnormal, zero of either sign, infinity; any NaN maps to NaN), storing it in a REAL, encoding, decoding and reading it yields the identical double.',
 ['inputs'],'All 2^64 bit patterns.','About twenty magnitudes are tested, nearly all using one-octet exponents; the bit-level shifting is exercised differently for each exponent class.',
 [B+'Real.hpp'],[('binary encoding',B+'Real.hpp encode_real'),('binary decoding',B+'Real.hpp decode_real_binary')],['Real::value'])
p('C09','REAL content from the wire decodes to the X.690 value, or is refused',
 'Decoding any REAL content terminates and is memory safe; contents of the binary form whose value is exactly representable as a double decode to that value for every sign, base, scale factor and exponent length, and reserved or malformed special values and binary forms are refused.',
 ['inputs'],'All content octet strings of the special and binary forms.','Tests never decode a foreign binary REAL; base 8/16, scale factor, multi-octet exponents and short mantissas are unreached.',
 [B+'Real.hpp'],[('form selection',B+'Real.hpp decode_real'),('well-formedness check',B+'Real.hpp check_real_binary'),('binary decoding',B+'Real.hpp decode_real_binary')],['decode_real result'])
p('C10','OBJECT IDENTIFIER keeps its arcs and matches X.690 octets',
 'Every well-formed object identifier encodes to the X.690 octets and reads back with the same arcs, both as a whole and one arc at a time; malformed contents and ill-formed arc lists are refused, and reading arcs is memory safe for every content.',
 ['inputs'],'All arc lists (first arc 0..2, second arc within its range, arcs up to 2^63-1), all content octet strings.',
 'Tests use a few identifiers with first arc 1 or 2; multi-octet arcs, the 2.x range and truncated contents are not covered.',
 [B+'ObjectIdentifier.hpp'],[('arc list encoding',B+'ObjectIdentifier.hpp encode_object_id'),('decoding',B+'ObjectIdentifier.hpp decode_object_id')],['ObjectIdentifier::value','encoded bytes'])
p('C11','String types keep their exact bytes through assignment and the wire',
 'An octet string or character string of any length and content reports exactly the bytes last assigned, encodes them verbatim under its own tag, decodes them back, and compares consistently with byte-wise comparison, also when its storage moves between inline and heap or its length header changes size.',
 ['inputs','histories'],'All contents and lengths, every sequence of assign/resize/copy/move operations.',
 'Tests use short literals; the transitions at length 100, 127/128, 255/256, 65535/65536 and reuse after longer values are not explored together.',
 [B+'StringImpl.hpp',U+'FixedIdBerContainer.hpp'],[('storage',U+'FixedIdBerContainer.hpp assign_content/resize_content'),('string interface',B+'StringImpl.hpp')],['bytes of the string','encoded bytes'])
p('C12','GeneralizedTime accepts any input safely and reports its format rightly',
 'Decoding any packet into a time value and asking for its text or format is memory safe; the text is exactly the decoded content; a value set from a time point with no offset, an offset or as local time is reported as universal, with-timezone and local respectively and carries the offset digits.',
 ['inputs'],'All packets; all time points, all offsets within +-24h.','Tests use three fixed instants; arbitrary content lengths and characters from the wire are not tested.',
 [B+'GeneralizedTime.hpp'],[('length guard',B+'GeneralizedTime.hpp decode'),('format detection',B+'GeneralizedTime.hpp format')],['format()','string()'])
p('C13','Self-describing element container stays consistent through any history',
 'After any sequence of assignments, copies, moves, resizes and re-tagging from any valid state, an owned element\'s full bytes, header, identifier, length and content agree with each other and with what the operations say; a failed assignment leaves the element invalid and safe to use.',
 ['histories','inputs'],'All operation sequences (one inductive step from an arbitrary valid state plus short sequences), all contents.',
 'Tests run a few fixed scripts; header growth/shrink at 127/128 and 255/256 in either direction from any prior state is not enumerated.',
 [U+'BerContainer.hpp',U+'BerView.hpp',B+'Any.hpp'],[('resize keeps header and content adjacent',U+'BerContainer.hpp resize_content')],['ber()','content()','identifier()'])
p('C14','Fixed-identifier storage keeps content through any history',
 'For typed storage with a fixed identifier, after any sequence of assign, resize, copy, move and decode operations the content equals what the last operation defines (prefix preserved on resize), and the encoding is always the identifier header for that content followed by it.',
 ['histories','inputs'],'All operation sequences from any valid state, contents across all header-size boundaries, single and double identifiers.',
 'Tests cover single operations on small contents; interactions between header size change and content move are not sampled.',
 [U+'FixedIdBerContainer.hpp',U+'SmallFixedIdBerContainer.hpp'],[('content move on header size change',U+'FixedIdBerContainer.hpp resize_content'),('right aligned header',U+'SmallFixedIdBerContainer.hpp')],['content()','ber()'])
p('C15','Optional values: absent and present are never confused',
 'An OPTIONAL component reports absent unless a value was assigned or decoded; absent encodes to nothing and present encodes as the value alone; copying, moving, resetting and comparing behave the same for in-place and heap storage.',
 ['histories','inputs'],'All histories of assign/reset/copy/move/decode on both storage kinds, all values.','Tests check a few static cases on one storage kind.',
 [B+'Optional.hpp',U+'DynamicOptional.hpp'],[('optional encode/decode',B+'Optional.hpp')],['has_value','encoded bytes'])
p('C16','DEFAULT components omit the default value and restore it on decode',
 'A DEFAULT component equal to its default contributes no octets, any other value is encoded in full, and decoding restores the default when the element is absent and the transmitted value when present; the reported value after any history is the last assigned one.',
 ['histories','inputs'],'All values and defaults, all assignment histories, presence or absence on the wire.','Tests use one default per type and a few values.',
 [B+'Default.hpp'],[('is_default elision',B+'Default.hpp')],['get()','encoded bytes'])
p('C17','SEQUENCE OF / SET OF keep elements and order through the wire',
 'For every list of elements, encoding a SEQUENCE OF or SET OF and decoding it gives the same elements in the same order for both storage modes; decoding arbitrary bytes either fails or yields exactly the elements present, regardless of the previous contents of the object.',
 ['inputs'],'All element lists and all input packets.','Tests use fixed lists of up to a few elements.',
 [B+'SequenceOf.hpp',B+'SetOf.hpp'],[('element loop',B+'SequenceOf.hpp')],['elements after decode'])
p('C18','A CHOICE decodes to the alternative named by the identifier on the wire',
 'For every alternative and value, encoding a CHOICE and decoding it selects the same alternative with the same value; a packet selects an alternative only if class and tag number both match that alternative, and every other packet, including an empty or malformed one, is refused without a crash.',
 ['inputs'],'All alternatives, values and input packets; both storage modes; tagged and untagged choices.','Tests decode only packets they have just encoded; foreign classes with equal tag numbers, and empty inputs, are not tried.',
 [B+'Choice.hpp',C+'EncodeDecode.cpp'],[('alternative selection',B+'Choice.hpp decode'),('generated selection',C+'EncodeDecode.cpp')],['index after decode','DecodeResult'])
p('C19','Heap-based variant behaves like a variant for every history',
 'After any sequence of construction, assignment, emplacement, copy, move, self-assignment and swap, a heap-based variant holds exactly the alternative and value last given, copies are independent, comparisons order first by alternative then by value, and no operation touches freed or absent storage.',
 ['histories','inputs'],'All operation sequences up to the bound, all values.','Tests run one operation at a time on fixed values.',
 [U+'DynamicVariant.hpp',U+'DynamicVariantHelpers.hpp'],[('type-erased storage',U+'DynamicVariant.hpp')],['index/get','memory accesses'])
p('C20','Generated SEQUENCE types round-trip every value',
 'For every value of a generated SEQUENCE type (mandatory, optional and default components, nested, recursive and extensible types), encoding it and decoding the result gives an equal value and the announced encoded length is exact.',
 ['programs','inputs'],'The specifications in the repository corpus plus those listed in DESIGN.md; all component values and presence combinations within bounds.','Tests encode one or two fixed values per type; presence combinations and boundary lengths multiply.',
 [C+'EncodeDecode.cpp',C+'CppGeneration.cpp'],[('generated encode/decode',C+'EncodeDecode.cpp')],['decoded value'])
p('C21','Generated SET types decode independently of component order',
 'A SET encoded with its components in any order decodes to the same value; each component is recognised by class and tag number, duplicates of no component and missing mandatory components are refused.',
 ['programs','inputs'],'All permutations of the components and all component values within bounds.','Tests permute a single three-component example.',
 [C+'EncodeDecode.cpp'],[('set decoding loop',C+'EncodeDecode.cpp')],['decoded value','DecodeResult'])
p('C22','Decoding never depends on what the target object held before',
 'Decoding the same bytes into a fresh object and into an object that already holds any other value gives the same outcome and, on success, equal values, for every library and generated type.',
 ['histories','inputs'],'All prior values, all input packets.','Tests always decode into default-constructed objects.',
 [C+'EncodeDecode.cpp',B+'Optional.hpp',B+'Default.hpp',B+'SequenceOf.hpp',B+'Choice.hpp'],[('absent handling',B+'Optional.hpp decode')],['decoded value'])
p('C23','Decoders of all types survive arbitrary bytes',
 'Decoding any byte sequence into any library or generated type terminates without reading or writing outside memory, without undefined behaviour and without an escaping exception, and afterwards the object can be inspected, copied, encoded and destroyed safely.',
 ['inputs','programs'],'All byte strings within the length bound; all types.','No test decodes malformed input into generated types.',
 [C+'EncodeDecode.cpp',B+'All.hpp',U+'DecodeHelpers.hpp'],[('decode guards',U+'DecodeHelpers.hpp'),('generated decode',C+'EncodeDecode.cpp')],['memory accesses','DecodeResult'])
p('C24','Truncated or mis-tagged structures are refused, extensions are skipped',
 'A structured value that lacks a mandatory component, carries a wrong identifier or is cut short is refused; unknown trailing additions of an extensible type do not disturb the decoding of the known components.',
 ['inputs','programs'],'Every truncation point and every identifier of each component, every unknown addition.','Tests decode complete well-formed values only.',
 [C+'EncodeDecode.cpp',U+'DecodeHelpers.hpp'],[('identifier checks',U+'DecodeHelpers.hpp decode'),('iterator end checks',U+'BerView.hpp')],['DecodeResult'])
p('C25','Wire octets follow the declared explicit, implicit or automatic tagging',
 'For every type declared with untagged, implicit, explicit or automatic tagging, nested to any depth, in single types, SEQUENCE, SET and CHOICE components, the encoding consists of exactly the identifiers and nested headers X.680/X.690 prescribe, and a value so encoded by another implementation decodes.',
 ['programs','inputs'],'All tag classes, numbers and tagging modes in the tested specifications; all component values within bounds.','Tests pin a few byte strings; long-form tag numbers, double tags and automatic tags on tagged components are rarely combined.',
 [C+'Identifier.cpp',C+'EncodeDecode.cpp',B+'Identifier.hpp',U+'EncodeHelpers.hpp'],[('identifier derivation',C+'Identifier.cpp'),('double identifiers',B+'Identifier.hpp')],['encoded bytes'])
p('C26','Generated definitions appear in dependency order, each exactly once',
 'For every acyclic set of assignments the compiler outputs each assignment exactly once with every assignment after all those it needs, references to undefined names are reported, and recursive types are broken by heap storage or reported; the process always terminates.',
 ['programs'],'All dependency graphs over the assignments of a module within the bound.','Tests check two or three fixed graphs.',
 [C+'ReorderAssignments.cpp',C+'Dependencies.cpp'],[('depth-first ordering',C+'ReorderAssignments.cpp resolve_dependencies')],['order of assignments'])
p('C27','Modules are emitted after the modules they import from',
 'For every set of modules with acyclic imports the compiler outputs each module exactly once and after every module it imports from; missing or cyclic imports are reported rather than crashing.',
 ['programs'],'All import graphs over the modules within the bound.','Tests use one two-module example.',
 [C+'ReorderAssignments.cpp'],[('module ordering',C+'ReorderAssignments.cpp reorder_modules')],['order of modules'])
p('C28','The compiler derives the identifiers of each type as X.680 prescribes',
 'For every type expression built from base types, defined types, choices and tags with any class, number and tagging mode, under every module default, the outer identifiers the compiler uses to recognise the type and the identifiers it encodes are those X.680 prescribes, and ambiguous choices are refused.',
 ['programs'],'All type expressions within the bound, symbolic classes, tag numbers and modes.','A few expressions are fixed in test specifications.',
 [C+'Identifier.cpp',C+'TypeAsString.cpp',C+'ResolveType.cpp'],[('identifier resolution',C+'Identifier.cpp')],['TaggingInfo','outer identifiers'])
p('C29','Value notation is carried unchanged into the generated C++',
 'Integer, boolean, string, hexadecimal, object identifier and default values written in a specification have exactly that value in the generated program.',
 ['programs'],'All literals within the length bound.','Tests use one or two literals per kind.',
 [C+'ValueAsString.cpp',C+'ValueType.cpp'],[('value printing',C+'ValueAsString.cpp')],['value of the generated constant'])
p('C30','An incompletely or wrongly written specification is rejected',
 'Duplicate names in a module, references to undefined types or values, and ambiguous alternatives or components are reported as errors for every specification that contains one, and no such error is raised for a specification that contains none.',
 ['programs'],'All small specifications within the bound.','Each error is tested on one or no example.',
 [C+'ReorderAssignments.cpp',C+'TypeAsString.cpp',C+'ResolveType.cpp',C+'Identifier.cpp'],[('duplicate check',C+'ReorderAssignments.cpp check_duplicated_names')],['exceptions'])
p('C31','Printing any packet terminates and shows its true structure',
 'Printing any byte sequence as a packet terminates, stays inside the input and produces balanced text that gives, for each element in order and at its depth of nesting, its length, class, tag and content (boolean, integer, enumerated, object identifier and printable string content as it is in the packet), however deeply elements are nested; an invalid packet is printed as null.',
 ['inputs'],'All byte strings.','Only one well-formed packet is printed in tests.',
 ['src/util/BerView.cpp','src/view/view.cpp'],[('recursive printer','src/util/BerView.cpp')],['printed text'])
p('C32','Any accepted encoding re-encodes to an equivalent packet',
 'Whatever packet a decoder accepts, encoding the decoded value yields a packet that the same decoder accepts with an equal value, and encoding that again yields identical octets.',
 ['inputs','programs'],'All accepted packets of all library and generated types within bounds.','Tests go from value to bytes, never from foreign bytes through a value back to bytes.',
 [B+'All.hpp',C+'EncodeDecode.cpp'],[('decode/encode pairs',B+'*.hpp')],['encoded bytes'])
p('C33','The specification reader is safe and exact on tokens',
 'For every character sequence the specification tokenizer terminates, stays inside its input, and yields number, identifier, keyword and string tokens whose text is exactly the characters read.',
 ['inputs'],'All character sequences within the bound.','Tests feed whole well-formed specifications only.',
 [C+'asn_compiler.yacc'],[('re2c tokenizer',C+'asn_compiler.yacc')],['tokens'])
p('C34','Enumeration items get the numbers X.680 prescribes',
 'Every item of an ENUMERATED type gets its written number in the generated C++ or, where none is written, the number X.680 20 prescribes (smallest unused number for root items, next above for additional ones), wherever the type stands in the specification; enumerations that give one number twice, or whose additional items are out of order, are refused.',
 ['programs'],'All enumerations of the stated number of items, written numbers and extension markers within the bound.','Tests number all items or none; mixtures, gaps, negative numbers and additional items combine without limit.',
 [C+'CppGeneration.cpp',C+'asn_compiler.yacc'],[('numbering of enumerations',C+'CppGeneration.cpp')],['generated enumeration','exit status'])
p('C35','Notation that means the same compiles to the same C++',
 'Specifications to which X.680, X.681 and X.683 give the same meaning give the same generated C++: COMPONENTS OF a type and its components written out, a parameterized type applied to arguments and the type with the arguments put in, tags completed by the tag default of their module and tags with a keyword, automatic tags and the same tags written out, a type with and without constraints or named numbers, a field of an object class and its type.',
 ['programs'],'All pairs of such specifications within the bound: every base, place, order, tag default, number of parameters and components, extension markers.','Tests compile one use of each notation and look at some of its effects; that the meaning is kept in every combination of place, order, tag default and module is a statement about all specifications.',
 [C+'ReorderAssignments.cpp',C+'Parameters.cpp',C+'Identifier.cpp',C+'ObjectClass.cpp',C+'asn_compiler.yacc'],[('COMPONENTS OF',C+'ReorderAssignments.cpp resolve_components_of'),('parameter substitution',C+'Parameters.cpp'),('automatic tags',C+'Identifier.cpp automatic_tag_number')],['generated C++'])
p('C36','The compiler ends in order on every specification, however damaged',
 'Whatever text it is given as specification, the compiler ends: with an error message, or with success after writing all three output files. It does not crash, read or write outside its memory, recurse without end or loop.',
 ['inputs'],'All specifications got from several complete ones by changing any one character to any other, cutting them anywhere, or dropping, doubling, exchanging or replacing any one word.','Tests feed correct specifications and a few chosen errors; the guarantee is about every typing mistake at every place.',
 [C+'asn_compiler.yacc',C+'ReorderAssignments.cpp',C+'CppGeneration.cpp',C+'ResolveType.cpp','src/compiler_main/CompilerMain.cpp'],[('error reporting','src/compiler_main/CompilerMain.cpp main'),('grammar',C+'asn_compiler.yacc')],['exit status','output files'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
