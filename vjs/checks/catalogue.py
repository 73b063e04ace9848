"""The properties: text (properties.jsonl), registration (MANIFEST.json), rule (evidence)."""
CLAIMED = []
NOT_APPLICABLE = []
VV = 'include/valijson/validation_visitor.hpp'
AX = ['adapter interface axioms: an instance has one kind, isX implies maybeX, conversions succeed when the matching test did (decided separately by the adapter properties)']
AI = 'path-sensitive abstract interpretation of every visitor overload (quick: three adapter instantiations, thorough: all twelve), with and without results, with all helpers inlined; '
TRUST = ' Trusts the clang AST, the engine\'s models of the standard library, and the axioms listed in the evidence. Obligations the engine cannot decide are counted as undecided and never alarmed.'


def claim(pid, title, statement, over, qtext, why, files, mech, fn, rule, technique='abstract interpretation of the type-checked AST', note='', assumptions=(), level_note=None):
    CLAIMED.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                        anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]},
                        fn=fn, rule=rule, technique=technique, assumptions=list(assumptions),
                        level_note=level_note or ('Static decision over all paths of the current source: ' + rule + '.' + TRUST + (' ' + note if note else ''))))


def decline(pid, title, statement, over, qtext, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                               anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, reason=reason))


claim('C01', 'An error is recorded exactly when an instance is rejected',
      'When a caller supplies a results object, validation that returns false leaves at least one recorded error, and validation that returns true records none. This holds for every keyword and every nested subschema, including subschemas that are only tried (anyOf, oneOf, not, if, contains, dependencies, type lists).',
      ['inputs', 'programs'], 'every schema, every instance, every JSON library binding, both type-checking modes',
      'The test suite compares only the boolean verdict for most schemas and inspects recorded errors for a few fixed documents.',
      [VV, 'include/valijson/validation_results.hpp'], [('error sink handed down or replaced by a local one', VV + ': visit overloads'), ('false schema', VV + ': schema traversal')],
      'errors_match', AI + 'on every path to a return the error sink is non-empty iff the verdict is false; nested validation is an assume/guarantee event',
      assumptions=AX, note='User-defined (polymorphic) constraints record their own errors and are excluded.')
claim('C02', 'Asking for errors never changes the verdict',
      'Validating an instance with a results object and validating it without one return the same verdict. Collecting errors only continues past failures; it never turns acceptance into rejection or the reverse.',
      ['inputs', 'programs', 'configurations'], 'every schema and instance, with and without a results object, strict and lenient types',
      'The conformance tests run one mode; the two modes are different code paths in nearly every keyword.',
      [VV, 'include/valijson/subschema.hpp'], [('early exit without results', VV), ('apply / strict apply', 'include/valijson/subschema.hpp')],
      'modes_agree', AI + 'the specification of each keyword is checked in both modes, and for loop-free keywords every pair of paths of the two modes with different verdicts is shown jointly unsatisfiable',
      assumptions=AX)
claim('C03', 'Size and range keywords compare the right quantity with the right bound',
      'minimum, maximum (inclusive or exclusive), minItems, maxItems, minProperties, maxProperties, minLength and maxLength accept a value of the applicable kind exactly when its numeric value, element count, member count or number of Unicode characters satisfies the bound, equality included unless exclusive. Values of other kinds are accepted.',
      ['inputs', 'programs'], 'every bound and every instance, strict and lenient types, with and without results',
      'Tests use a few values around small bounds, for one binding at a time; the comparison must hold for all values and both modes.',
      [VV, 'include/valijson/utils/utf8_utils.hpp'], [('bound visitors', VV), ('character counting', 'include/valijson/utils/utf8_utils.hpp')],
      'bounds', AI + 'the verdict on each path is compared with the ordering of value and limit established on that path; character counting is checked for advancing by the declared length of each lead byte', assumptions=AX)
claim('C04', 'Logical keywords combine the verdicts of their subschemas',
      'allOf accepts iff every subschema accepts, anyOf iff at least one does, oneOf iff exactly one does, not iff its subschema rejects, and if/then/else yields the verdict of the branch selected by the condition (acceptance when that branch is absent). Every subschema that can still influence the verdict is validated against the same instance.',
      ['inputs', 'programs'], 'any number of subschemas, any combination of their verdicts, both modes',
      'Tests use two or three subschemas with fixed verdicts; counting errors appear only with other combinations.',
      [VV], [('subschema iteration', VV + ': ValidateSubschemas'), ('conditional', VV)],
      'spec_logic', AI + 'the verdict is compared with the verdicts of the subschemas consulted on the path, loops summarised by a counting monitor')
claim('C05', 'Array keywords validate every element against the right subschema',
      'items validates every element (a list of item schemas validates elements by position), additionalItems validates or forbids exactly the elements after the listed ones, contains accepts iff some element matches, and uniqueItems accepts iff no two elements are equal. Values that are not arrays are accepted.',
      ['inputs', 'programs'], 'any number of elements and item schemas, including empty arrays and arrays shorter than the item list',
      'Tests use arrays of up to a few elements; off-by-one start positions and skipped pairs need particular lengths.',
      [VV], [('item traversal', VV + ': LinearItems, SingularItems, Contains, UniqueItems')],
      'spec_arrays', AI + 'each loop iteration must validate the element at hand against the schema at hand; start, end and pair coverage are checked symbolically in the sizes', assumptions=AX)
claim('C06', 'Object keywords validate every member against the right subschemas',
      'A member named in properties is validated against that schema, a member whose name matches a pattern against that pattern\'s schema (all matching ones), and every remaining member against additionalProperties, or the object is rejected when none are allowed. propertyNames validates every member name, required rejects iff a listed name is missing, and dependencies require the listed names or validate the object against the listed schema exactly when the trigger member is present.',
      ['inputs', 'programs'], 'any set of members, declared names and patterns, overlapping or not',
      'Tests sample a few overlaps of names and patterns; coverage bookkeeping errors need specific overlaps.',
      [VV], [('property traversal and coverage bookkeeping', VV + ': ValidateProperties, ValidatePatternProperties'), ('dependencies', VV)],
      'spec_objects', AI + 'each member, pattern and declared name must be examined, matched members validated and marked as covered, uncovered ones handled by the additional schema', assumptions=AX)
claim('C07', 'enum and const accept exactly the values equal to a listed one',
      'enum accepts iff the instance is equal to at least one listed value and const iff it is equal to the given value, using the configured type strictness. Equality of arrays is element by element over equal lengths, equality of objects is member by member over equal sizes, and the comparison has the same answer for values that are frozen copies.',
      ['inputs', 'programs'], 'every listed value, every instance, nested containers, strict and lenient types',
      'Tests compare a handful of values, mostly equal ones or ones that differ in kind.',
      [VV, 'include/valijson/internal/basic_adapter.hpp'], [('value comparison', 'include/valijson/internal/basic_adapter.hpp'), ('enum traversal', VV)],
      'equality', AI + 'every listed value is compared with the instance with the configured strictness; the deep comparison is checked structurally for element, member and size coverage', assumptions=AX)
claim('C08', 'The type keyword follows its truth table',
      'With strict types a value is accepted iff its own kind is listed (an integer is also a number, and a number without fractional part is an integer); with lenient types a value is also accepted when it can be converted to a listed kind. Schemas in a type list accept the value when they validate it, and the order of the list does not matter.',
      ['inputs', 'configurations'], 'every kind of value, every list of types, strict and lenient types, every JSON library binding',
      'Tests cover single types per document; combinations of type lists, modes and numeric representations are not enumerated.',
      [VV, 'include/valijson/constraints/concrete_constraints.hpp'], [('type visitor', VV), ('type names', 'include/valijson/constraints/concrete_constraints.hpp')],
      'spec_type', AI + 'the verdict is compared with the truth table of type names over value kind, strictness and convertibility, for the type code that the parser produces for each name', assumptions=AX)
claim('C09', 'multipleOf accepts zero and exact multiples and rejects fractions',
      'For an integer divisor a value is accepted iff it is integral and divisible without remainder; for a fractional divisor a quotient that is not finite is rejected and one within the tolerance is accepted. Values that are not numbers are accepted, and no evaluation divides by zero or converts an out-of-range number.',
      ['inputs', 'programs'], 'every divisor and every numeric value, strict and lenient types',
      'Tests use small exact examples; overflow, infinities and zero need particular operands.',
      [VV], [('multipleOf visitors', VV)],
      'spec_mult', AI + 'polarity of the remainder, finiteness and tolerance tests, guards before integer division and before float-to-integer casts', assumptions=AX,
      note='The numeric adequacy of the tolerance itself is not decided.')
claim('C10', 'pattern and format accept exactly the strings they describe',
      'pattern accepts a string iff the configured expression engine finds a match of that pattern in it. The formats date, time, date-time and ipv4 accept exactly the RFC 3339 dates and times (existing calendar days, leap years included; a leap second only at 23:59:60 UTC; the offset is optional unless strict date-times are configured) and dotted-quad addresses; other format names and values that are not strings are accepted.',
      ['inputs', 'configurations'], 'every string, every format name, strict and permissive date-times',
      'Tests sample some dozens of date and time strings; calendar rules, field ranges, offsets and expression alternatives combine to far more cases.',
      [VV, 'include/valijson/validator.hpp'], [('format visitor, calendar and leap-second rules', VV), ('expression engine wrapper', 'include/valijson/validator.hpp')],
      'strings', AI + 'the language of each expression literal is compared exactly (product automaton) with a reference language, and the path conditions on captured fields are evaluated over all classes of calendar and clock values',
      technique='abstract interpretation plus automata comparison of expression literals', assumptions=AX + ['std::regex implements ECMAScript matching'],
      note='For ipv4 both the canonical form and leading zeros are permitted.')
claim('C11', 'Validation never throws for any parsed instance',
      'For every schema accepted by the parser and every instance, validation returns a verdict: no conversion exception, parse exception or out-of-range exception leaves it, whatever the instance contains. This includes lenient type checking, where strings may stand for numbers and empty containers for each other.',
      ['inputs', 'programs', 'configurations'], 'every kind of instance against every keyword, strict and lenient types',
      'Tests rarely combine lenient types with empty containers or odd strings; a single unguarded conversion is enough.',
      [VV, 'include/valijson/internal/basic_adapter.hpp'], [('guards before conversions', VV)],
      'no_throw', AI + 'every call of a throwing conversion is dominated by a test implying its precondition, and no path ends in an exception; text-to-number conversions of matched text are bounded by the width of the capture group',
      assumptions=AX + ['std::bad_alloc and the regular-expression engine\'s own exceptions (complexity, invalid pattern) are out of scope'])
claim('C12', 'Every error names the location of the value that failed',
      'The location of a recorded error is the path from the document root to the value being validated: validating an element or member extends the parent location by exactly that index or member name, and keywords that re-validate the same value keep its location. The JSON Pointer of an error has one slash-prefixed token per path step with ~ and / escaped, so that it resolves to that value.',
      ['inputs', 'programs'], 'every schema, every nesting, every member name',
      'Only a few fixed documents have their error locations compared; names with special characters or deep nestings are not covered.',
      [VV, 'include/valijson/validation_results.hpp'], [('path extension', VV), ('pointer rendering', 'include/valijson/validation_results.hpp')],
      'locations', AI + 'the location passed with each nested value is the parent location plus the segment by which the value was obtained; rendering emits every segment and escapes ~ and /', assumptions=AX)
claim('C13', 'The validator configuration applies at every depth',
      'Type strictness, date-time strictness and the expression cache chosen for a validator are used for the root and for every nested value and subschema, whatever keyword leads there. A cached expression is always the one compiled from the pattern it is looked up by.',
      ['inputs', 'programs', 'configurations'], 'every nesting of keywords, both strictness settings',
      'Tests exercise lenient mode only for shallow documents.',
      [VV, 'include/valijson/validator.hpp'], [('nested visitor construction', VV), ('entry point', 'include/valijson/validator.hpp')],
      'config', AI + 'the configuration of each nested visitor equals that of its parent; the entry point passes the configured values; cache insertions bind a pattern to the expression compiled from it')
claim('C14', 'Every constraint of a schema takes part in the verdict',
      'Validating against a schema accepts iff the schema permits values and all of its constraints are satisfied; each constraint is evaluated by the rules of its own keyword, and its verdict is used unaltered. With a results object all constraints are evaluated even after a failure.',
      ['programs', 'inputs'], 'every combination and number of constraints in a schema',
      'Tests combine few keywords per schema; a constraint dropped or mis-dispatched is visible only with particular combinations.',
      [VV, 'include/valijson/subschema.hpp', 'include/valijson/constraints/basic_constraint.hpp'], [('constraint iteration', 'include/valijson/subschema.hpp'), ('double dispatch', 'include/valijson/constraints/basic_constraint.hpp')],
      'traversal', 'abstract interpretation of the schema traversal and of every constraint\'s dispatch; the verdict is the conjunction, no constraint skipped, each handed to the overload of its own class exactly once')

BA = 'include/valijson/internal/basic_adapter.hpp'
claim('C15', 'Conversions agree with the tests that guard them',
      'For every adapter: isX holds exactly for values of kind X; maybeX holds exactly for the values that the documented lenient conversion turns into X (null, booleans, numbers, numeric strings, empty containers as listed in the adapter interface); asX succeeds exactly when maybeX holds and yields the converted value, getX succeeds exactly when isX holds and yields the stored value, and otherwise they report failure or throw as documented. No conversion casts a floating point value that does not fit the integer type. Traversals (applyToArray, applyToObject) call the callback once per element in order, stop at the first false, and report whether all calls returned true.',
      ['inputs', 'configurations'], 'every kind of value, every conversion, every adapter',
      'Tests convert a few numbers and strings per binding; the conversion matrix has hundreds of entries, and boundary values are not covered.',
      [BA, 'include/valijson/adapters/std_string_adapter.hpp'], [('conversion matrix', BA + ': asX, maybeX, getX'), ('property names as values', 'include/valijson/adapters/std_string_adapter.hpp')],
      'conversions', 'every test and conversion of the two adapter layers is interpreted for each of two dozen classes of value and compared with the conversion table; float-to-integer casts must be guarded by range',
      note='Text-to-number conversions of strings are classified by whether the library conversion accepts the whole text.')
claim('C16', 'Every library binding presents the document it wraps',
      'For each JSON library: a value reports exactly one JSON kind, the one it has in the library, and yields the stored value without truncation, wrap-around or undefined accessor calls; arrays and objects have as many elements as the library container, iteration visits each element once in order, lookup finds a member iff one with exactly that complete name exists; freezing and cloning keep the value, and comparing a frozen value uses the requested strictness.',
      ['inputs', 'configurations'], 'every kind of library value and every container size, for the eleven bindings',
      'Most bindings run the same few test documents; accessors that are undefined for particular kinds, names with null characters and large integers are not among them.',
      ['include/valijson/adapters'], [('value classes', 'include/valijson/adapters: *Value'), ('containers and iterators', 'include/valijson/adapters: *Array, *Object, *Iterator'), ('frozen values', 'include/valijson/adapters: *FrozenValue')],
      'library_values', 'the tests and accessors of each binding are interpreted for each kind of library value (tables of the libraries\' documented predicates and accessors); containers, iterators, lookup, frozen values and deep copies are interpreted over lists of 0 to 2 (thorough: 3) elements and compared with the library container',
      assumptions=['the documented behaviour of the JSON libraries (tables in vjs/checks/bindings.py)'],
      note='Unsigned integers above INT64_MAX are recorded as known findings.')

SP = 'include/valijson/schema_parser.hpp'
claim('C17', 'Each keyword of a schema produces its constraint, with its value',
      'Parsing a schema object attaches to its subschema exactly the constraints its keywords call for in the chosen draft, each carrying the value of its keyword: bounds with their exclusive flag, counts, patterns, names, enumerated values, type lists (with schemas inside Draft 3 lists), required names (array form, or the Draft 3 and boolean form of a property), dependencies, tuple and list forms of items, the description, title and identifier. A keyword of another draft, or an unknown one, adds nothing; a keyword whose value has a kind the draft does not allow is reported as an exception. true and false schemas (Draft 7) accept and reject everything. User-defined keywords are handed to their builder once.',
      ['inputs', 'programs', 'configurations'], 'every keyword with every kind of value, alone and next to the others, in Draft 3, 4 and 7',
      'The conformance suites use well-formed schemas with few keywords at a time; values of the wrong kind and keywords of other drafts are hardly covered.',
      [SP], [('keyword dispatch', SP + ': populateSchema'), ('constraint construction', SP + ': make*Constraint')],
      'mapping', 'abstract interpretation of populateSchema with all constructors of constraints inlined, for schema objects with each keyword, each kind of keyword value, groups of related keywords, all keywords, and all but one; the constraints added (class, setters, elements, owner) are compared with the expected ones on every path',
      assumptions=AX, note='Keyword interactions are covered for related groups and for the complete set; lenient kinds (numbers written as text) follow the conversion rules of C15.')
claim('C18', 'A nested schema or reference denotes the right part of the right document',
      'Every nested schema is parsed from the value of its keyword, under a path that names this value uniquely (names escaped), within the scope given by the identifiers around it, in its own document. A $ref leads to the schema its URI and fragment name: the document named by the URI within the current scope (this one, a schema embedded in it with that identifier, or a fetched one), and in it the value its JSON Pointer designates or the schema with that plain-name identifier; schemas behind it are parsed in the scope and document they lie in. Schemas of different documents or different paths are never taken for one another.',
      ['inputs', 'programs'], 'every nesting of keywords, every chain of references, identifiers at any place',
      'Tests follow a few references in two or three documents; identifiers above the target, embedded schemas and chains of references are combined in few of them.',
      [SP, 'include/valijson/internal/json_reference.hpp'], [('nested schemas', SP + ': make*Constraint'), ('references', SP + ': makeOrReuseSchema, resolveThenPopulateSchema'), ('identifiers', SP + ': findSchemaById, findScopeForPath, resolveDocumentUri'), ('parts of a reference', 'include/valijson/internal/json_reference.hpp')],
      'origins', 'node, path, scope, document and owner of every nested schema are compared with the keyword\'s; every path of the two reference resolvers is compared with the meaning of the reference (document, node, scope, path, registry entries); searches for identifiers are decided by induction over the document; splitting and resolution of references path by path',
      assumptions=AX + ['merging of a relative URI path with its base (RFC 3986, section 5.2) is taken as given', 'the value of an identifier is a string'], note='A schema found under an identifier that lies outside any keyword (inside enum or const) is treated as a schema.')
claim('C19', 'Remote documents are fetched once, used safely and released exactly once',
      'While a schema is parsed, each remote document is looked up among those fetched before and fetched at most once; a reference to another document without a fetch function, or whose fetch yields nothing, is an error and never a null access. The fetch and free functions are given together or not at all. Every document fetched is handed to the free function exactly once, whether parsing succeeds, fails or throws, and the exception of the failure is passed on. Parsing begins at the root of the given document with empty scope and path.',
      ['inputs', 'programs', 'faults'], 'every sequence of references and fetches, failing fetches, exceptions at any point of parsing',
      'Tests fetch one or two documents successfully; failing fetches, exceptions half-way and repeated references are hardly covered.',
      [SP], [('entry point and release', SP + ': populateSchema (public), freeDocumentCache'), ('fetching', SP + ': makeOrReuseSchema, resolveThenPopulateSchema')],
      'fetched', 'abstract interpretation of every function that calls the fetch or the free function, with exceptions possible at every call: typestate (looked up, fetched, tested, registered) of each document along every path, one release for each element of the cache over lists of 0 to 2 (thorough: 3) documents on normal and exceptional exits',
      assumptions=['the fetch and free functions supplied by the user do not call back into the parser'])
claim('C20', 'Parsing a schema terminates, also when references form cycles',
      'Following references never runs without end: before a reference is followed its key (document and pointer or identifier) is looked up among those being followed and recorded; one that is found again is reported as an error. A schema is entered in the registry before its contents are parsed, so that a schema that refers to itself is taken from the registry when it is met again. Every other recursion of the parser descends to a proper part of the document.',
      ['inputs', 'programs'], 'every cycle of references, within a document and across documents, through pointers and identifiers',
      'Tests contain a few direct cycles; longer ones, through other documents or identifiers, are not among them.',
      [SP], [('cycle detection', SP + ': makeOrReuseSchema, resolveThenPopulateSchema'), ('registration before parsing', SP + ': makeOrReuseSchema')],
      'termination', 'abstract interpretation of the reference resolvers (typestate of the set of keys: tested, extended, passed on), of the registry (entered before the nested parse, under the key it is looked up by), and an analysis of the call graph: each cycle of calls passes the guard or descends to a child of its node',
      assumptions=['documents are finite trees'],
      note='References from the root of a document are followed without such a guard (known findings; an existing test expects the crash).')
claim('C21', 'A JSON Pointer designates the value RFC 6901 names, or nothing',
      'Resolving a JSON Pointer walks from the given node token by token: the text is split at slashes, each token is percent-decoded once, then ~1 stands for / and ~0 for ~, in that order; a malformed percent sequence is refused, any other tilde stands for itself. In an array a token is an index made of digits only and within the array; in an object it is the exact name of a member; a scalar has no parts. A pointer that designates no value is reported as an error, for every pointer text and every document, and nothing is read outside the text or past the end of an array or object. The Strict variant honours empty tokens, the lenient one skips them.',
      ['inputs', 'programs'], 'every pointer text, every document',
      'Tests resolve a couple of dozen well-formed pointers; combinations of escapes, malformed sequences, signs and blanks in indices and empty tokens are not among them.',
      ['include/valijson/internal/json_pointer.hpp'], [('resolution', 'include/valijson/internal/json_pointer.hpp: resolveJsonPointer'), ('decoding', 'include/valijson/internal/json_pointer.hpp: extractReferenceToken, replaceAllInPlace'), ('resolution of the lenient variant', 'include/valijson/internal/json_pointer.hpp: resolveJsonPointerStrict')],
      'pointer', 'abstract interpretation of the resolver over words of character classes (the characters the code or RFC 6901 distinguishes, and one class for all others) for all words up to a bound, with symbolic document nodes: on every path the chain of member and element accesses, or the error, is compared with the one the RFC prescribes',
      note='Words of tokens up to the bound in the evidence; the code has no counters that could distinguish longer ones. Leading zeros in an index are left open.')
claim('C22', 'Text is never cut at an embedded null character',
      'A JSON string may contain the character U+0000. Names, patterns, identifiers and string values keep their full length wherever valijson stores, compares, copies or reports them: a pointer to the characters of a string never travels without its length to a place that stops at the first null character.',
      ['inputs', 'programs'], 'every string with a null character at any place',
      'No test contains a null character.',
      ['include/valijson'], [('constraints', 'include/valijson/constraints/concrete_constraints.hpp: string members'), ('visitor', 'include/valijson/validation_visitor.hpp: messages and matching'), ('adapters', 'include/valijson/adapters')],
      'texts', 'data flow over the type-checked program: every pointer obtained from c_str, data or a library accessor is followed to its uses; a use that determines the length by searching the terminator (string construction or assignment without length, strlen, strcmp, a valijson parameter of type const char* used so) is reported at its call site',
      note='Pointers from the JSON libraries that offer no length, and error messages written to streams, are outside the property.')
claim('C23', 'Loading a document reports exactly whether it was read and parsed',
      'loadDocument returns true exactly if the file could be opened and read completely and the JSON library accepted its text, and then hands out the parsed document; in every other case it returns false. No exception of the library or of the standard library escapes. loadFile reads the whole file from its start and replaces what the destination contained.',
      ['inputs', 'programs', 'faults'], 'every file, readable or not, every text, well-formed or not, for each of the libraries',
      'Tests load well-formed files only.',
      ['include/valijson/utils'], [('loading', 'include/valijson/utils/*_utils.hpp: loadDocument'), ('reading', 'include/valijson/utils/file_utils.hpp: loadFile')],
      'loading', 'abstract interpretation of loadDocument of each library with its parser replaced by its documented outcomes (accepts, refuses, throws): on every path the result, the document handed out and the exceptions are compared with the outcome; typestate of the stream in loadFile',
      assumptions=['the parsers behave as documented: the exceptions they throw are those listed in loading.py'], note='Reading errors of a stream that was opened successfully are not modelled; files of 4 GiB and more are refused.')

claim('C24', 'Every object of a schema has one owner, which releases it exactly once',
      'Schemas, subschemas, constraints and the values they keep are owned by exactly one object. Adding a constraint to a (sub)schema stores a copy made with the allocation functions of that (sub)schema; a copy or a moved-to object holds every member of the original and shares none of the memory it owns. On every path, including every exception and every failed allocation, memory that was obtained is released exactly once, by the free function that belongs to the allocation function it came from and after the object in it was destroyed, and memory that could not be obtained is never used: the operation throws instead and leaves what was there before unchanged. A Schema changes only subschemas it owns, exactly the one named, and refuses any other and its shared empty subschema. Constraints made by custom builders are added once and released once; builders are released with their parser.',
      ['faults', 'histories', 'programs'], 'every point at which an allocation, a copy or an insertion fails, and every sequence of creating, copying, moving, changing and destroying',
      'Tests neither let allocations fail nor count releases; a leak or a double release on an error path shows in no result.',
      ['include/valijson/schema.hpp', 'include/valijson/subschema.hpp', 'include/valijson/constraints', 'include/valijson/internal/custom_allocator.hpp', 'include/valijson/schema_parser.hpp'],
      [('cloning', 'BasicConstraint::clone, PolyConstraint::clone, Constraint::CustomDeleter'), ('values', 'EnumConstraint, ConstConstraint'), ('schemas', 'Schema, Subschema: constructors, destructors, moves, createSubschema, mutableSubschema'), ('containers', 'internal/custom_allocator.hpp'), ('builders', 'SchemaParser::populateSchema, ~SchemaParser')],
      'owners', 'ownership typestate (raw, live, destroyed, released) of every block over all paths of the functions that allocate, copy, move, store or release, with a failure injected abstractly at every allocation, throwing constructor, clone and insertion; class-level rule that a class whose destructor deletes must define or delete both copy operations',
      assumptions=['containers of up to two owned objects stand for all sizes', 'functions given as allocation and free function belong together'], note='Subschemas are created with the default allocation functions even in a schema with its own; only that each pair is used consistently is decided.')


claim('C25', 'Validation and parsing change nothing they are only given to read',
      'Validating an instance modifies neither the schema nor any of its subschemas and constraints, nor the instance, nor any state that outlives the call, other than the results object the caller supplied and the compiled expressions kept by the validator used; its verdict depends on nothing but the schema, the instance and the configuration of the validator (not on the clock, on random numbers, on the environment, or on earlier validations). Parsing a schema likewise modifies neither the schema document nor any state shared between parsers. So one schema can be used by several threads, each with its own validator, without data races, and repeating a validation repeats the verdict.',
      ['schedules', 'histories', 'programs', 'inputs'], 'every interleaving of validations that share a schema, every history of validations before the one at hand, for every JSON library binding',
      'Tests validate each instance once, in one thread; a verdict kept from an earlier call or a data race shows only with other histories or schedules.',
      [VV, 'include/valijson/validator.hpp', 'include/valijson/constraints', 'include/valijson/adapters', 'include/valijson/schema_parser.hpp'],
      [('entry point', 'include/valijson/validator.hpp: ValidatorT::validate'), ('function-local static expressions', VV), ('shared empty containers', 'include/valijson/adapters: emptyArray, emptyObject')],
      'unchanged', 'call graph from the entry points of validation and of parsing (virtual calls reach every overrider, all twelve adapters); every modification (assignment, non-const member call, argument bound to a non-const reference or pointer) in every reachable function is traced to the object modified; static and mutable variables, members of the validator other than its expressions, objects of the schema, values and shared handles of the JSON libraries, and objects reached through casts that remove const must not be among them, static variables must not be initialised from arguments, and no function is called that depends on or changes state of the process',
      technique='effect analysis over the call graph of the type-checked program',
      assumptions=['const member functions of the standard and JSON libraries do not modify their object', 'the initialisation of function-local statics is synchronised (C++11)'],
      note='User-defined constraints and regular expression engines are not analysed.')


claim('C26', 'References resolve against their base as RFC 3986 prescribes',
      'A reference or identifier that is relative is resolved against the enclosing identifier as in section 5.2 of RFC 3986: scheme and authority come from the base; a path replaces the last segment of the path of the base (or all of it, if it starts with a slash) and its dot segments are removed without leaving the root, a final dot segment leaving a directory; a query replaces path-less the query of the base; a fragment replaces only the fragment, so the query of the base stays; an empty reference is the base. A reference with a scheme and authority, or a URN, is used as it is, and nothing else is taken for one: a scheme marker inside a path, query or fragment does not make a reference absolute. A base that is itself relative is treated alike, except that leading parent segments are kept.',
      ['inputs', 'programs'], 'every base and every reference made of path segments, dot segments, queries and fragments in any combination',
      'Tests resolve forty pairs, nearly all against the same base; combinations of dot segments, queries, fragments and kinds of base are not among them.',
      ['include/valijson/internal/uri.hpp'], [('resolution', 'include/valijson/internal/uri.hpp: resolveRelativeUri'), ('classification', 'include/valijson/internal/uri.hpp: parseScheme, isUriAbsolute, isUrn')],
      'uris', 'abstract interpretation of resolveRelativeUri, isUriAbsolute and isUrn over words of the units the code or RFC 3986 distinguishes (a segment of other characters, slash, dot segments, query and fragment marks, scheme marker), for two dozen shapes of base; each result is compared with the RFC',
      technique='abstract interpretation over character classes, compared with the RFC as oracle',
      note='Words of up to three (thorough: four) units. Network-path references (starting with two slashes), empty path segments, other schemes without an authority, and a relative path that vanishes altogether are outside the property.')


claim('C27', 'Validation never uses an object that is absent',
      'While validating, no null pointer is followed, no empty optional is read, and no iterator is dereferenced that denotes the end of a collection or the result of a search that found nothing: the results object is only used if the caller supplied one, the optional subschemas of a constraint (then, else, additional items, additional properties) only if they were set, and members and cached expressions only after they were found. This holds for every schema the parser builds and every instance.',
      ['inputs', 'programs', 'configurations'], 'every schema, every instance, with and without a results object, strict and lenient types, for every JSON library binding',
      'A missing guard crashes only for the combination of absent parts that the tests do not contain, and may go unnoticed even then, since reading past an iterator often yields something plausible.',
      [VV, 'include/valijson/constraints/concrete_constraints.hpp'], [('results', VV + ': uses of m_results'), ('optional subschemas', VV + ': visit overloads of conditional, items and properties'), ('searches', VV + ': find in objects and in the cache of expressions')],
      'no_absent', AI + 'at every place where an object is used through a pointer, iterator or optional, the facts of the path must not allow it to be absent; a pointer the code tests anywhere, or that the constraint leaves optional, must have been tested on every path to its use',
      assumptions=AX, note='Constraints built by hand without their mandatory subschema are outside the property.')


claim('C28', 'Parsing never uses an object that is absent',
      'While a schema is parsed, its references are resolved and JSON pointers are followed, no null pointer is followed, no empty optional is read and no iterator is dereferenced that denotes the end of a collection or the result of a search that found nothing: a keyword is read only if the schema has it, the enclosing schema and the name of a property are used only if there are any, a scope only if one is in force, a document only after it was loaded or found, and an element or member only after the pointer was shown to designate one.',
      ['inputs', 'programs', 'configurations'], 'every schema object, every reference, every pointer, with and without an enclosing scope, schema and property name, for every schema version',
      'Each guard matters only for the combination of absent keywords, scopes and documents that needs it; reading a member past the end of an object often yields something plausible.',
      ['include/valijson/schema_parser.hpp', 'include/valijson/internal/json_pointer.hpp', 'include/valijson/internal/uri.hpp'],
      [('keywords', 'schema_parser.hpp: populateSchema'), ('references', 'schema_parser.hpp: makeOrReuseSchema, populateSchemaUsingJsonReference, resolveThenPopulateSchema'), ('pointers', 'json_pointer.hpp: resolveJsonPointer')],
      'parse_no_absent', 'abstract interpretation of the parser for every combination of keywords of the mapping check, of every path of reference resolution, of the pointer resolvers and of the URI helpers; at every place where an object is used through a pointer, iterator or optional, the facts of the path must not allow it to be absent; a pointer the code tests anywhere must have been tested on every path to its use',
      assumptions=['adapter interface axioms as for C17'], note='Pointers the caller must provide and that the code never tests are outside the property.')


decline('N01', 'Fractional multipleOf agrees with exact decimal arithmetic',
        'A number is accepted by a multipleOf with a fractional divisor exactly when the decimal quotient of the two written numbers is an integer.',
        ['inputs'], 'every pair of a double and a divisor', 'Tests try a handful of quotients such as 0.0075 / 0.0001; rounding differs for others.',
        [VV], [('remainder and tolerance', VV + ': visit(MultipleOfDoubleConstraint)')],
        'The verdict depends on the rounding of fmod over all pairs of doubles and on the tolerance chosen for it; no abstract domain within reach relates that to decimal arithmetic. The static part (guards, finiteness, which operands, which side of the comparison accepts) is claimed as C09.')
decline('N02', 'Matching a pattern takes bounded stack and time',
        'Matching any pattern of a schema against any string of an instance ends within memory and time bounds that depend only on their lengths, without overflowing the stack.',
        ['inputs'], 'every pattern and every string', 'Tests match short strings only.',
        [VV], [('regular expression engine', 'include/valijson/validator.hpp: DefaultRegexEngine')],
        'Stack depth and running time are those of std::regex in libstdc++, which backtracks recursively over the text; they are run-time quantities of a library outside the repository, and the library gives no bound that a rule on valijson\'s source could establish.')
decline('N03', 'Recursion stays within the stack for every document and schema',
        'Parsing a schema, comparing, copying or validating values and resolving references never exhausts the stack, whatever the nesting depth of the document.',
        ['inputs'], 'every nesting depth', 'Tests nest a few levels.',
        ['include/valijson/schema_parser.hpp', VV], [('recursion', 'populateSchema, validateSchema, equalTo, freeze')],
        'The recursion follows the nesting of the document and carries no limit, so there is no bound to establish statically; frame sizes are decided by the compiler and the limit by the environment. What is decided statically is that each recursion descends in its document or is guarded (C20).')
