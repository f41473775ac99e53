import json
P=[]
def p(id,title,st,over,qt,why,files,mech,**k):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    d['anchors'].update({kk:[dict(name=n,meaning=n) for n in v] for kk,v in k.items()})
    P.append(d)
A='internal/array.go';M='internal/map.go';S='internal/struct.go';B='internal/binary.go'
p('C01','Frozen values never change',
 'An array, map, struct-backed map or binary that reports itself frozen keeps its content for ever: every operation that would change it fails before anything has been changed. The only exception is the resolution of type aliases.',
 ['histories','programs'],'every frozen value, every operation of the public API in any order, every alias of the value',
 'A test calls one operation on one frozen value; the guarantee is about every write in every operation, including the ones added later or reached through helpers.',
 [A,M,S,B,'internal/arguments.go'],[('frozen flag checked before every store',A+' array mutators'),('frozen flag checked before every store',M+' hashMap mutators'),('frozen flag checked before every store',S+' Put')])
p('C02','Frozen means frozen at every depth',
 'Whatever constructor, copy, conversion or transformation produced it, a collection that reports itself frozen contains only values that are themselves frozen or cannot be modified at all. Keys of any map, frozen or not, obey the same rule.',
 ['inputs','programs'],'every way a collection can be produced, every mix of frozen and mutable content',
 'Each producer must convert each element it accepts; tests sample flat content and a few producers.',
 [A,M,S],[('element freezing in constructors and copies',A+' valueSlice, Copy, With*'),('entry freezing',M+' Copy, Put, With, Merge'),('field freezing',S+' FrozenCopy')])
p('C03','Internal storage never leaks',
 'No function hands out a slice, pointer or other Go reference through which the storage of a frozen or immutable value can be modified, and two collections of which at least one is mutable never share storage. A constructor of frozen values copies the Go slice it is given.',
 ['programs','histories'],'every accessor, conversion to a Go value, slicing and appending operation',
 'Aliasing shows only when one party writes after the other was created; tests rarely combine the two operations that share storage.',
 [A,M,S,B,'internal/string.go','internal/time.go','internal/error.go','internal/integer.go'],[('copy before exposing',A+' GoSlice, ReflectTo'),('copy before exposing',B+' GoBytes'),('private copy on With',A+' With, WithValues'),('reflection targets get copies','internal/*.go ReflectTo')])
p('C04','Reading, copying and comparing never modify',
 'Operations other than the documented mutators leave their receiver and all their arguments exactly as they were: reading, comparing, hashing, printing, iterating, copying, and deriving a new collection change nothing. A mutator changes its receiver only, never its arguments.',
 ['histories','inputs'],'every non mutating operation on every value, mutable or frozen, and every argument',
 'Tests compare results; they almost never compare receivers and arguments before and after.',
 [A,M,S,B,'internal/sensitive.go','internal/ternary.go'],[('operations work on copies',A+' Sort, Select, Flatten'),('entries copied not shared',M+' resize, Copy, ThawedCopy')])
p('C05','A map has one immutable entry per key, and its indexes agree',
 'Every map, whatever operation built it, holds at most one entry per distinct key, and its hash index, its insertion order list and its length describe the same entries. Entries are never shared between two maps.',
 ['histories','inputs'],'every sequence of insertions, replacements, removals and conversions, including colliding hashes',
 'Index and list only diverge for particular bucket layouts and operation orders; tests use small maps in typical order.',
 [M,A],[('lookup before insertion',M+' Put, PutAll'),('coordinated link maintenance',M+' Put, Remove, RemoveAll, resize'),('conversion to map',A+' ToMap, ToMapFromEntries')],state=['hash table','linked list','length'])
p('C06','Equal values have equal hash codes',
 'For every two values or types that are equal, also of different kinds, in different order where order is irrelevant, or with different histories, the hash codes are equal. The hash code of a value that is not changed never changes.',
 ['inputs'],'every pair of values or types that compare equal',
 'The contract quantifies over all equal pairs; a test can only check the pairs its author thought of.',
 ['internal/compare.go','internal/exact.go','internal/*.go'],[('hash uses only compared fields','internal/*.go HashCode/deepHashCode vs Equals/deepEqual'),('order independent hash for order independent equality',M+' hashMap.deepHashCode, internal/ternary.go')])
p('C07','Equality is symmetric across kinds',
 'For any two values or types of whatever kinds, asking whether the first equals the second is answered positively by some instances only if asking in the other direction is, and no kind is found equal to a kind that does not recognise it.',
 ['inputs'],'every pair of value kinds and type kinds',
 'The number of pairs of kinds grows quadratically; tests cover same-kind comparison and a handful of cross-kind pairs.',
 ['internal/*.go'],[('type dispatch in equality','internal/*.go Equals, deepEqual')])
p('C08','Comparison is antisymmetric, with nil lowest',
 'Comparing any two scalar values or binaries in the two directions yields opposite results and agrees on whether they are comparable, nil sorts below every other value, and a value compares equal to itself. Kinds that are not comparable in one direction are not comparable in the other.',
 ['inputs'],'every pair of comparable kinds and every ordering of their contents',
 'Sign errors hide in particular orderings of particular kinds; tests sample a few orderings.',
 ['internal/compare.go','internal/integer.go','internal/float.go','internal/boolean.go','internal/string.go','internal/time.go','internal/nil.go',B,A],[('sign computation','internal/*.go CompareTo')])
p('C09','Iteration and quantifiers cover all elements in order',
 'Every iteration over an array, a map or a struct-backed map visits each element exactly once, in position or insertion order. All, Any, One, Find, Select and Reject consult the elements in that order and answer exactly as their quantifier says, also for empty collections.',
 ['inputs'],'every collection of every size and every predicate outcome',
 'An off-by-one or a wrong short-circuit only shows for some position of the deciding element.',
 [A,M,S],[('loops over the elements',A+' All, Any, Each'),('loops over the entry list',M+' All, AllKeys, EachEntry'),('loops over struct fields',S+' All, AllKeys')])
p('C10','Collections never contain an unset element',
 'No operation ever puts an unset (Go nil) element in an array or an unset key or value in a map: absent Go values become the nil value. Reading back any element therefore always yields a proper value.',
 ['inputs','programs'],'every constructor, wrapper, insertion and conversion, given any mixture of nil and non nil input',
 'Only some constructors are tested with nil, and only at the top level.',
 [A,M,'internal/value.go'],[('nil replacement',A+' WrapSlice, Array, ArrayFromReflected'),('conversion through the generic factory','internal/value.go Value')])
p('C11','Integer conversions never wrap silently',
 'Converting a Go number, a float, a JSON number or a text to an integer value, or an integer value to a narrower or unsigned Go integer, either preserves the numeric value (a float may lose its fraction) or fails. No conversion silently wraps around or picks other bits.',
 ['inputs'],'every 64 bit pattern and every source and destination width',
 'Failures live at the extreme ends of the ranges of particular widths.',
 ['internal/integer.go','internal/float.go','internal/value.go','internal/binary.go'],[('overflow check before narrowing','internal/integer.go ToInt, ReflectTo, intFromConvertible')])
p('C12','Range and size types admit exactly what they say',
 'A range or size type admits exactly the values within its bounds, honouring an exclusive end, and it is assignable from another range or size type only if every value admitted by the other is admitted by it. Swapped bounds are put in order.',
 ['inputs'],'every relative order of bounds and value, inclusive or exclusive, for integer, float, string, binary, array and map sizes',
 'Boundary coincidences combined with inclusiveness multiply beyond what samples cover.',
 ['internal/integer.go','internal/float.go','internal/string.go',B,A,M],[('bound comparison','internal/integer.go Assignable, IsInstance'),('bound comparison','internal/float.go Assignable, IsInstance'),('size comparison',A+' DeepAssignable, DeepInstance')])
p('C13','Every type honours combined types when checked for assignability',
 'When the type being assigned is a combination (all of, any of, one of) or decides assignability itself, every other type gives it that say before answering no. No kind of type answers no merely because it does not know the kind of the other type.',
 ['inputs'],'every pair of a receiving type kind and a combining type kind',
 'Tests check a few receivers against combined types; the rule must hold for all receivers.',
 ['internal/type.go','internal/*.go'],[('reverse assignability','internal/type.go CheckAssignableTo'),('fallback call','internal/*.go Assignable, DeepAssignable')])
p('C14','Self-referential types and values are handled without endless recursion',
 'Assignability, instance checks, equality, hashing and comparison of types and values that contain themselves, directly or through others, always terminate. What was found out about one branch never influences the verdict on a sibling branch.',
 ['inputs'],'every cyclic graph of types and values',
 'Cycles of particular shapes through particular kinds are needed to expose a dropped guard, and the symptom is a stack overflow that kills the process.',
 ['internal/compare.go','internal/*.go'],[('recursion guard','internal/compare.go Assignable, Instance, equals, deepHashCode, compare'),('guard passed on','internal/*.go Deep* methods')])
p('C15','Creating from a type yields an instance of that type',
 'Whenever creating a value from a type and an argument succeeds, the result is an instance of exactly the type that was asked to create it; otherwise creation fails. This holds for every type that can create values.',
 ['inputs'],'every type with a factory and every argument',
 'Each factory has several success paths and only some are tested with constrained types.',
 ['internal/*.go','internal/value.go'],[('instance check before return','internal/*.go New, new*')])
p('C16','A sensitive value is never disclosed',
 'Printing, formatting, describing the type of, or reporting an error about a sensitive value never includes the wrapped value or anything that identifies it. Only explicit unwrapping and rich data serialization reveal it.',
 ['inputs','programs'],'every wrapped value, nested at any depth in any collection, and every printing path',
 'The disclosure paths are indirect (exact types, error messages, nested printing) and each wrapped kind takes its own path.',
 ['internal/sensitive.go','internal/type.go','internal/exact.go','stringer/typestring.go','util/erpindenter.go'],[('redacted string','internal/sensitive.go String'),('generic type of wrapped value','internal/sensitive.go Type'),('generic form of exact types','internal/*.go Generic')])
p('C17','Every kind of type can be named and printed',
 'Every kind of type has its own kind identifier, and every identifier has a name (shared only by the variants of one kind, such as an integer and an exact integer) and a printed form, so that printing a type or naming its kind never fails and never falls back to the name or the form of another kind. The words the printer uses for the basic types are words the type parser understands as that same type.',
 ['programs'],'every kind of type known to the library',
 'A missing table entry surfaces only when that very kind is printed or reported in an error.',
 ['dgo/type.go','stringer/typestring.go','parser/parser.go'],[('identifier names','dgo/type.go tiLabels'),('printing table','stringer/typestring.go complexTypes'),('identifier table','parser/parser.go identifierToTypeMap')])
p('C18','The parsers reject what they cannot represent, and always finish',
 'The type parsers consume at least one character per step and end for every input. Input that is malformed, unfinished, or contains a number that cannot be represented is reported as an error and never silently replaced by another value.',
 ['inputs'],'every input text',
 'The input space is unbounded; tests cover typical malformed inputs.',
 ['parser/lexer.go','parser/parser.go','streamer/pcore/lexer.go','streamer/pcore/parser.go','util/reader.go'],[('lexer loops end at end of text','parser/lexer.go'),('number conversion','parser/parser.go tokenInt, tokenFloat')])
p('C19','Writer and reader of serialized data speak the same dialect',
 'Every special key and type name that a dialect makes the writer emit is understood by the reader using the same dialect, for values of every kind including references to earlier values. Reference numbers count the same elements in the writer and in the reader.',
 ['inputs','configurations'],'every value graph, dialect and deduplication level',
 'Numbering and naming only go wrong for graphs with repeated elements under particular options.',
 ['streamer/streamer.go','streamer/json.go','streamer/decoder.go','streamer/dialect.go','streamer/basiccollector.go','streamer/datacollector.go','streamer/pcore/pcoredialect.go'],[('reference counting','streamer/streamer.go addData, addArray, addMap, process'),('special keys','streamer/json.go jsonEncoder, jsonDecoder'),('decoding by type name','streamer/decoder.go decode')])
p('C20','No write, encode or decode error is swallowed',
 'When the underlying writer fails, or JSON text cannot be encoded or decoded, the operation reports it. No output is silently truncated and no undecodable input is silently replaced.',
 ['fault_sequences','inputs'],'every failing write at every position, every undecodable token',
 'Failing writers and undecodable tokens at every position are not enumerated by tests.',
 ['util/write.go','util/indenter.go','util/erpindenter.go','streamer/json.go','internal/*.go'],[('checked writes','util/write.go'),('checked decoding','streamer/json.go nextToken, decodeElem')])
p('C21','A loader is safe for concurrent use and defines each entry once',
 'Concurrent use of a loader never reads or writes its entries or namespaces without holding its lock, never leaves the lock held, and never calls user supplied code while holding it. An entry, once defined, is never replaced by a different one.',
 ['schedules','histories'],'every interleaving of any number of goroutines using the same loader',
 'Races and lost locks need particular interleavings and error paths.',
 ['loader/loader.go'],[('read/write lock','loader/loader.go Get, Namespace, add'),('no override','loader/loader.go add')],state=['entries','namespaces'])
p('C22','Shared values and registries are free of data races',
 'Values that are frozen can be used by any number of goroutines without synchronisation, and the process wide registries of types and aliases can be read and extended concurrently. No operation on them performs an unsynchronised write to shared memory.',
 ['schedules'],'every interleaving of goroutines that only use frozen values and the registries',
 'Data races are invisible to functional tests.',
 ['internal/alias.go','internal/named.go','internal/string.go','internal/mapstruct.go'],[('lazy caches','internal/string.go HashCode'),('lazy initialisation','internal/mapstruct.go StructFromMapType'),('guarded registries','internal/alias.go AddAliases, internal/named.go')])
p('C23','Results never depend on Go map iteration order',
 'Creating a map from a Go map, printing, hashing and serializing yield the same result each time for the same input. Go\'s random map iteration order never reaches a result.',
 ['inputs','schedules'],'every Go map and every run',
 'Randomised order hits the bad outcome only sometimes and only with several keys.',
 [M,'internal/named.go','streamer/streamer.go','stringer/typestring.go'],[('keys sorted before use',M+' FromReflectedMap')])
p('N01','Printing a type and parsing it yields the same type',
 'For every type, parsing its printed form gives an equal type. The same holds for values written in the type syntax.',
 ['inputs'],'every type and value','The space of types is unbounded and the two implementations are independent.',
 ['stringer/typestring.go','parser/parser.go'],[('printer','stringer/typestring.go'),('parser','parser/parser.go')])
p('N02','Serialization round trips',
 'Decoding what was encoded yields a value equal to the original, with sharing preserved, for every value, dialect and deduplication level.',
 ['inputs','configurations'],'every value graph','The value space is unbounded.',
 ['streamer/streamer.go','streamer/decoder.go','streamer/json.go'],[('encoder','streamer/streamer.go'),('decoder','streamer/decoder.go')])
p('N03','Assignability is sound and transitive',
 'If one type is assignable from another, every instance of the other is an instance of the first, and assignability is transitive, for arbitrary nested types.',
 ['inputs'],'every pair and triple of types','The type space is unbounded.',
 ['internal/ternary.go','internal/mapstruct.go','internal/array.go','internal/not.go'],[('assignability','internal/*.go DeepAssignable')])
p('N04','Sorting orders any mix of values',
 'Sorting an array of arbitrary mixed values yields a stable permutation ordered by comparison.',
 ['inputs'],'every array','Total order over mixed kinds is a property of runtime values.',
 [A],[('sort',A+' Sort')])
p('N05','Concurrent lookups of a loader entry agree',
 'All goroutines that ask a loader for the same name get the same value and the history of lookups is linearizable.',
 ['schedules'],'every interleaving','Needs histories.',
 ['loader/loader.go'],[('find and add','loader/loader.go Get, add')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
