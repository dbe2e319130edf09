XT='xmltree/xmltree.go'; XM='xmltree/marshal.go'; XC='xmltree/compare.go'
SP='xsd/parse.go'; SX='xsd/xsd.go'; GX='xsdgen/xsdgen.go'; GC='xsdgen/config.go'

p('X01', 'Parsing reports exactly the structure and raw content of the document',
  'For every well-formed UTF-8 document, parsing returns the root element with exactly the element names (namespace-resolved), the non-namespace attributes with decoded values, and the child elements of the document, all in document order, and nothing else. The raw content of every element is byte for byte the part of the source between its start and end tags. The source bytes are never modified.',
  ['inputs'], 'every well-formed document: any nesting, comments, CDATA, PIs, entities, DOCTYPE, self-closing tags, attributes, namespace declarations',
  'tests parse a handful of fixed documents; offsets, ordering and attribute filtering must hold for every token sequence',
  [XT], [('token walk that records byte offsets of content and appends children', XT), ('separation of namespace declarations from attributes', XT)],
  ['xmltree.Parse result compared with the generator\'s own model of the document'])

p('X02', 'Documents in other character encodings parse as their UTF-8 transcoding',
  'Parsing a document that declares a non-UTF-8 encoding gives the same names, attributes, children and raw content (as UTF-8) as parsing the UTF-8 form of the same document, whatever surrounds the XML declaration and however large the document is. The caller\'s byte slice is not modified, and an unsupported encoding is reported as an error.',
  ['inputs', 'configurations'], 'every ASCII-compatible declared encoding the library supports, any document, any size, with or without white space after the XML declaration',
  'one fixed ISO-8859-1 document is tested; the conversion depends on buffer sizes and on which bytes grow when transcoded',
  [XT], [('charset reader that converts the remainder of the document and keeps offsets aligned', XT)],
  ['xmltree.Parse on encoded and on UTF-8 form; caller buffer before/after'])

p('X03', 'Namespace prefixes resolve by the innermost declaration in scope',
  'At every element of a parsed document, resolving a prefixed name yields the namespace bound to that prefix by the nearest enclosing declaration (the element itself included), an unprefixed name yields the nearest default namespace (or the caller-supplied default when one is given), xml and xmlns are always bound, and an undeclared prefix is reported as unresolved with the prefix as its space. Joining two scopes resolves names in the inner scope first and then in the outer one. Neither parsing siblings nor joining scopes ever changes what another scope resolves to.',
  ['inputs', 'histories'], 'every document with nested, shadowed, re-declared and undeclared prefixes; every sequence of scope joins',
  'tests resolve a few names in two documents; slices of bindings are shared between elements, so interference depends on the shape of the tree',
  [XT], [('scope kept as an append-only list with capped capacity', XT), ('reverse search of the list', XT)],
  ['Resolve, ResolveNS, ResolveDefault, JoinScope on every element against an environment stack'])

p('X04', 'Prefixing a name and resolving it again gives the same name',
  'For every scope and every namespace that some visible (not shadowed) declaration binds, the prefixed form of a name in that namespace resolves in the same scope to the same name, and it is unprefixed when that namespace is the default one. A name in no namespace, or in a namespace that the scope does not bind, is returned as its bare local name.',
  ['inputs'], 'every scope reachable by parsing and joining, every name',
  'tests prefix names in flat scopes only; shadowing needs particular nestings',
  [XT], [('search for the closest prefix of a namespace', XT)], ['Scope.Prefix followed by Scope.ResolveNS'])

p('X05', 'Serialising a tree and parsing it back preserves the tree',
  'For every element of every parsed document whose elements contain either text or child elements, serialising that element alone gives a well-formed document which parses back to the same element names, attributes (names and values), children and text, and in which every prefix that was in scope resolves to the same namespace. The same holds after the tree was modified: attributes set to arbitrary text, names changed to other namespaces, children added, removed, reordered, or moved from another document.',
  ['inputs', 'histories'], 'every parsed document, every element within it, every sequence of tree edits',
  'tests serialise unmodified fixed documents; escaping and namespace adjustment depend on the values and on where an element came from',
  [XM, XT], [('emission of the namespace declarations that the parent did not make', XM), ('tag template', XM)],
  ['xmltree.Marshal/Encode/String output re-parsed by xmltree.Parse and by encoding/xml'])

p('X06', 'Indented output differs from plain output only in line breaks and indentation',
  'For every tree, the indented serialisation consists of exactly the tags and text of the plain serialisation, in the same order, where each tag that starts a line is preceded by the given prefix and one copy of the indent string per nesting level, and every element starts on a new line. Elements that contain only text keep that text unchanged on the line of their tags.',
  ['inputs', 'configurations'], 'every tree, prefix and indent string',
  'the only tests print documents for the eye; no test checks the layout at depth or with a prefix',
  [XM], [('pretty mode of the encoder', XM)], ['xmltree.MarshalIndent against xmltree.Marshal'])

p('X07', 'Encoding reports every failure of the destination writer',
  'If any write to the destination fails, encoding returns that error, and otherwise it returns nil after having written the complete serialisation. Nothing is written after a failed write is reported, so what was written is a prefix of the complete serialisation.',
  ['fault_sequences', 'inputs'], 'every tree and every byte or call position at which the writer starts failing',
  'no test uses a failing writer', [XM], [('error propagation through tag and content writes', XM)],
  ['xmltree.Encode with a writer that fails at the k-th call or byte, for every k'])

p('X08', 'Searches visit every descendant exactly once, in document order, in place',
  'Flattening an element returns each of its descendants exactly once and in document (pre-)order without the element itself, and a search returns exactly those descendants that match the predicate, or the given local name and namespace (any namespace if it is empty), in the same order. The results are the tree\'s own elements, so that a change made through them is seen by the tree, and the tree itself is not changed by searching.',
  ['inputs'], 'every tree and every name or predicate',
  'tests look for one name in one document', [XT], [('recursive walk over children', XT)],
  ['Flatten, Search, SearchFunc against an independent traversal'])

p('X09', 'Tree equality is an equivalence that ignores order, prefixes and white space',
  'Comparing two elements answers true exactly when they have the same resolved name, the same attributes in any order, the same multiset of children under this very relation, and, if they have no children, the same text up to surrounding white space. Hence it is reflexive (at any depth that can be parsed), symmetric and transitive, and unaffected by reordering of sub-elements or attributes, by renaming prefixes, and by indentation. Comparing never changes either tree.',
  ['inputs', 'histories'], 'every pair and triple of trees, including same-named siblings in different orders and trees that differ in one place only',
  'tests compare fixed pairs; symmetry, order-insensitivity among same-named siblings and absence of side effects need many shapes',
  [XC], [('attribute comparison', XC), ('matching of children', XC)], ['xmltree.Equal against canonical forms, both argument orders, fingerprints before/after'])

p('X10', 'Setting an attribute replaces the first match or adds exactly one',
  'Reading an attribute returns the value of the first attribute whose local name matches, and whose namespace matches unless none is requested, or the empty string if there is none. Setting an attribute makes a subsequent read of the same name return the given value, replaces only the first match if there is one and otherwise appends a single attribute, and leaves every other attribute and its order unchanged.',
  ['inputs', 'histories'], 'every sequence of sets and reads on any element',
  'not tested beyond one call', [XT], [('linear scan of the attribute list', XT)], ['Attr/SetAttr histories against a list model'])

p('X11', 'Malformed or hostile documents give an error, never a crash',
  'For arbitrary bytes, parsing terminates without a panic; it returns an error if the document is not well-formed up to the end of its root element or has no root element, and a tree otherwise. Nesting beyond the documented recursion limit is reported as an error rather than exhausting the stack, and serialising a tree that contains itself terminates.',
  ['inputs'], 'arbitrary byte strings, mutations of valid documents, any depth, cyclic trees',
  'tests feed a fixed handful of inputs', [XT, XM], [('depth limit', XT), ('cycle detection', XM)],
  ['xmltree.Parse outcome against an independent token walk with encoding/xml'])

p('X12', 'Unmarshalling one element equals unmarshalling that part of the document',
  'Unmarshalling any element of a parsed document (without mixed content) into a Go value gives the same result, or fails in the same way, as the standard decoder gives when it is positioned at that element of the whole document. In particular names are matched with namespaces declared on enclosing elements.',
  ['inputs'], 'every element of every document and a range of destination types',
  'tests unmarshal two fixed elements', [XT, XM], [('serialisation in the scope of the document followed by standard decoding', XT)],
  ['xmltree.Unmarshal against xml.Decoder.DecodeElement'])

p('C01', 'Concurrent use of independent values is race-free and deterministic',
  'Any number of goroutines may at the same time parse, search, resolve and serialise xml trees (also the same tree, read-only), parse schema and WSDL documents, and generate code, each with its own configuration, without data races and with the same results as when run one after another.',
  ['schedules', 'inputs'], 'every interleaving of independent calls across all packages',
  'no test runs anything concurrently', [XT, XM, SP, SX, GX, GC, 'wsdl/wsdl.go', 'wsdlgen/wsdlgen.go'],
  [('no package-level mutable state; per-call buffers', XT), ('capacity-capped slices so that shared prefixes are not overwritten', XT)],
  ['race detector reports; results compared with a sequential run'])

p('S01', 'Parsed schemas form a closed, acyclic graph of types',
  'After a schema set parses successfully, every type reachable from any of the returned schemas (bases, union members, types of elements and attributes) is a built-in, or a simple or complex type that one of the schemas declares under its own name, and every chain of base types is finite and ends in a built-in. Every declared type is filed under its own name (a top-level element that no type shares its name with adds an alias of its type), and looking a name up in a schema finds exactly the types it declares and the types those are derived from.',
  ['inputs'], 'every schema set that parses', 'tests check a few fields of a few schemas',
  [SP, SX], [('two-pass resolution of type references', SP), ('lookup along base chains', SX)], ['walk over all schemas returned by xsd.Parse'],
  [('Types', 'types by canonical name, per schema', SX)])

p('S02', 'Parsing a schema reports what the schema declares',
  'For every supported schema document (with a target namespace, or without a default one; unqualified local elements are not supported), each declared type is reported with its name, its base and manner of derivation, and its elements (wildcards first, joined into one) and attributes in document order with their names, types, defaults, occurrence (optional, plural), nillability, abstractness, wildcards, mixed content, list and union structure, documentation, and facets (a pattern that Go cannot compile is left out, and mentioned in the documentation of the restriction). Elements within a choice are optional, anonymous types get a unique name, that of their element or attribute if no other type has it and a generated one with a flag otherwise, missing types default to the ur-types, and the top-level elements are reported.',
  ['inputs'], 'every schema built from the supported constructs', 'the test data holds a dozen schemas, with partial assertions',
  [SP], [('normalisation of the document followed by a recursive parse', SP)], ['xsd.Parse result against the model the schema was generated from'])

p('S03', 'References and shorthands mean the same as their expansion',
  'A schema that uses references to global elements, attributes, groups or attribute groups (nested to any depth, declared before or after use, in the same or another document), anonymous types, or shorthand complex types parses to the same types as the schema in which each of these is written out in place. Attributes given on a reference override those of its target.',
  ['inputs'], 'every placement, nesting and order of declarations and references', 'two fixed schemas are compared',
  [SP, 'xsd/index.go', 'internal/dependency/graph.go'], [('references replaced in dependency order', SP)], ['xsd.Parse / xsd.Normalize of the two spellings'])

p('S04', 'The result of parsing does not depend on how a schema is split or ordered',
  'Parsing a set of documents returns one schema for every schema element in them, in order, followed by the standard ones, and the same types result whatever the order of the documents, the order of the declarations inside them, whether schemas are embedded in one document or given separately, and whether one namespace is spread over several schemas. The caller\'s list and documents are left unchanged, and a second parse gives the same result.',
  ['inputs', 'configurations'], 'every partition and permutation of declarations into documents', 'tests parse single documents',
  [SP], [('global type table across schemas', SP)], ['xsd.Parse results across permutations'])

p('S05', 'Discovering imports lists every import and include, in order',
  'For every document, discovery reports each import with its namespace and location, and each include with the target namespace of the schema that contains it and its location, for every schema embedded in the document, and reports nothing else.',
  ['inputs'], 'every document with any number of embedded schemas, imports and includes', 'one fixed document',
  [SP], [('search for import and include elements', SP)], ['xsd.Imports against the generated document'])

p('S06', 'Arbitrary schema input ends in a result or an error, never a crash or hang',
  'For arbitrary XML (including mutated schemas, missing or contradictory attributes, circular derivations, circular groups and unresolvable names) parsing and normalising terminate without a panic and with resources bounded by the size of the schema with its groups written out. They return an error when a name that a type, a top-level element or a reference refers to does not exist, when derivations or groups are circular, or when a value that must be a number or boolean is not one, and otherwise schemas that satisfy the structural guarantees.',
  ['inputs'], 'arbitrary documents and structured mutations of valid schemas', 'no hostile input is tested',
  [SP, 'xsd/walk.go'], [('internal panics turned into errors', 'xsd/walk.go'), ('cycle checks', SP)], ['outcome of xsd.Parse, xsd.Normalize, Schema.FindType on mutated input'])

p('S07', 'Normalised schemas have no references, anonymous types or shorthand left',
  'In the trees that normalisation returns, no reference to an element, attribute, group or attribute group remains, every simple and complex type has a name that is unique among the types of its namespace and is declared at the top level of its schema, every complex type has simple or complex content, and every element and attribute has a type that names a built-in or one of those types. Parsing the normalised documents again gives the same types.',
  ['inputs'], 'every schema set that normalises', 'not tested beyond printing',
  [SP], [('sequence of rewriting passes', SP)], ['xsd.Normalize output'])

p('G01', 'Generated packages are valid Go that needs only the standard library',
  'For every supported schema set whose type names stay distinct as Go identifiers (names of elements and attributes of a type need not), code generation succeeds and its output, for any combination of the documented options, is gofmt-formatted Go with the requested package name that type-checks and imports only the standard library.',
  ['inputs', 'configurations'], 'every supported schema and option set', 'tests only check that generation returns no error for some schemas',
  [GX, GC, 'internal/gen/gen.go'], [('assembly and formatting of declarations', GX)], ['go/types over the output of xsdgen'])

p('G02', 'Generated types describe every declared type, element and attribute',
  'For schemas whose type names stay distinct as Go identifiers, every named type of the selected namespaces is generated exactly once (other than simple types that add nothing to a built-in and complex types of simple content without attributes, whose uses get the Go type of that built-in), and the struct for a complex type has, once each, a field for every element and attribute of the type and of the types it is derived from, tagged with the XML name of that element or attribute and its kind, repeated elements as slices, and character data when its content is text; fields for elements are in the order of the content model, those of base types first. Simple types map to the Go type of their built-in base. Types for anonymous types have the name of the element or attribute if UseFieldNames is given and no other type has that name. The comment on a type holds its annotation, or the values, the pattern or the maximum or minimum length that a simple type is restricted to.',
  ['inputs', 'configurations'], 'every supported schema', 'golden-file style inspection by eye only',
  [GX, GC], [('flattening of derivations into structs', GX)], ['declarations and struct tags in the generated package against the schema model'])

p('G03', 'Generated types decode and re-encode instance documents without loss',
  'For every supported schema and every instance document of one of its types, decoding the document into the generated Go type and encoding that value again gives a document with the same elements, attributes and values, in the same order if the content model is a sequence or a choice that does not repeat, and decoding that gives the same Go value again. Decoding into a value that was used before does not change copies of the earlier value, and different values can be decoded and encoded at the same time. Schemas with mixed content or wildcards are outside this guarantee, and optional elements and attributes that do not repeat may be left out if their value is the zero value of their Go type.',
  ['inputs', 'programs'], 'every supported schema and every valid instance', 'eight hand-written schemas with one sample each',
  [GX, GC, 'internal/gen/gen.go'], [('generated struct tags and marshalling methods', GX)], ['compiled and executed generated packages on generated instances'])

p('G04', 'Values of every built-in type survive the generated marshalling code',
  'For every value in the range of a built-in type that its Go type has (dates and times of the years 1 to 9999 with or without zone, UTC being assumed if there is none, binary data in base64 and hex, numbers, booleans, strings, lists), as element text, attribute value or list item, generated code decodes it to the Go value it denotes and encodes that Go value to text that denotes the same value.',
  ['inputs'], 'every built-in that the generator maps, all values in the documented range, in every position', 'a few sample values',
  [GX, 'xsdgen/builtin.go'], [('generated MarshalText and UnmarshalText helpers', GX)], ['executed generated code on generated values'])

p('G05', 'Code generation is deterministic',
  'Generating code twice from the same documents with the same options gives byte-identical output, in the same and in another process, and independent of the order in which the documents are given as long as that does not change the schemas.',
  ['inputs', 'histories'], 'every input and option set; every map iteration order', 'tests never compare two runs',
  [GX, GC], [('sorting of declarations before output', GX)], ['byte comparison of repeated xsdgen and wsdlgen runs'])

p('G06', 'Schemas with recursive or circular structure are generated in bounded time',
  'For every schema set, however its types refer to each other (recursive element types, mutually recursive types, circular derivations, deep derivation chains), and for arbitrary malformed input, code generation terminates with bounded time and memory, without a panic, in generated code or an error.',
  ['inputs'], 'every graph of types', 'one recursive schema is tested', [GX, GC], [('dependency-ordered flattening of types', GX)], ['outcome of xsdgen on generated type graphs and mutated input'])

p('G07', 'Code generation options do what they document, and only that',
  'Options that ignore, allow or restrict attributes, elements and types, that replace names, that process types of the selected namespaces, or that select namespaces change exactly the fields and types they name and leave the rest of the generated code as it was. Every option returns an option that restores the configuration it replaced. The highest log level gives messages, and no log level changes the code.',
  ['configurations', 'histories'], 'every sequence of options and reverts on any schema', 'each option is used at most once, reverts are never tested',
  [GC], [('options as functions that return their inverse', GC)], ['generated code with and without options'])

p('G08', 'The command-line front end behaves like the library and reports failures',
  'Running xsdgen or wsdlgen on files gives the same code as the library gives for the same files and the options that the flags stand for (output file, package, namespaces, ports, comment, replacement rules in order), in the requested output file; calling GenCLI of a configuration keeps the options that no flag changes. When following imports is requested, every imported or included file (by a location relative to the importing file, absolute, or else relative to the working directory, also in circles) is read exactly once, and the code is that for all of those documents. xsdparse prints the normalised schemas that are not built in, or those of the namespace it is asked for. A file that cannot be read or parsed, a name or namespace that does not exist, a bad flag or rule, or an output file that cannot be written gives a message and a nonzero exit status, and an existing output file stays as it was unless writing it fails.',
  ['inputs', 'fault_sequences', 'configurations'], 'every file set, import graph and missing or malformed file', 'the command line is exercised on two good inputs',
  ['xsdgen/cli.go', 'wsdlgen/cli.go', 'cmd/xsdgen/xsdgen.go', 'cmd/wsdlgen/wsdlgen.go', 'cmd/xsdparse/xsdparse.go', 'internal/commandline/cli.go'], [('recursive reading of files', 'xsdgen/cli.go')], ['GenCLI/GenSource/GenAST on generated file sets'])

p('G09', 'SOAP array types become Go slices that round-trip',
  'With SOAP array support enabled, every type of the selected namespaces derived by restriction from the SOAP encoding array whose item type is declared with an arrayType attribute is generated as a slice of that item type (or a struct with such a slice, if only the item type was requested), values encode and decode with the item names and values in order, and types not derived from the SOAP array are unaffected.',
  ['inputs', 'configurations'], 'every SOAP array declaration and value', 'one example only', [GC], [('type processing hook for SOAP arrays', GC)], ['executed generated code'])

p('G10', 'Names looked up in generated code are those of the declared types',
  'For every set of schemas that GenCode accepts, the Code it returns tells exactly the built-in types and the types of the schemas from names of nothing (HasType); the name it gives for a type (NameOf) is, together with the generated declarations, valid Go that stands for a Go type for the values of that XML type; the name it gives for fields (FieldTypeOf) is that of the same type, or of a private one that has methods to convert its values from and to XML and is convertible to and from it, which is then declared; lookups can be made in any order, before and after generating the syntax tree, give the same answer each time, and leave the other declarations as they were. DocType gives, for every target namespace and no other, the type of its documents, which has exactly the top-level elements of all schemas of that namespace, with their types.',
  ['inputs', 'configurations'], 'every schema set, and every order of lookups', 'lookups are not tested on their own',
  ['xsdgen/xsdgen.go', 'xsdgen/cli.go'], [('lookups by canonical name', 'xsdgen/xsdgen.go')], ['Code.NameOf, FieldTypeOf, HasType and DocType against the schema model and go/types'])

p('W01', 'Parsing a WSDL reports every operation with its messages, actions and address',
  'For every WSDL 1.1 document with SOAP 1.1, SOAP 1.2 or HTTP bindings, in whatever order its parts are declared and whatever prefixes it uses, parsing reports the target namespace, the documentation of its services, every message with its parts (name, and type or element) in order, and every port of every service in order, with its name, address and method (POST for SOAP, the verb otherwise) and every operation of the port type of its binding, with the operation\'s name, documentation, input and output message (if any) and SOAP action. A port whose binding or port type is missing has no operations. A document that is not well-formed gives an error.',
  ['inputs'], 'every WSDL within the supported subset', 'one small fixed WSDL',
  ['wsdl/wsdl.go'], [('resolution of service, binding, port type and message references', 'wsdl/wsdl.go')], ['wsdl.Parse result against the generated model'])

p('W02', 'Generated SOAP clients compile and offer one method per operation',
  'For every supported WSDL and any combination of options, the generated package is gofmt-formatted Go that type-checks, imports only the standard library, has the requested name and comment (followed by the documentation of the services), and has exactly one exported client method for each operation of the selected ports (the one of the first port, if several ports offer it), documented by the documentation of the operation. Its parameters and results carry every part of the input and output message in order, with the Go type of the part, and are wrapped in a struct type if there are more of them than the argument or result threshold allows. The code is the same as for a document without the ports that were not selected. A message, type or element that such an operation refers to but that does not exist is an error. Every option returns one that restores the configuration it replaced.',
  ['inputs', 'configurations'], 'every supported WSDL, port filter and threshold', 'two examples',
  ['wsdlgen/wsdlgen.go', 'wsdlgen/config.go'], [('template expansion per operation', 'wsdlgen/wsdlgen.go')], ['go/types over the output of wsdlgen'])

p('W03', 'Generated SOAP clients exchange the declared messages with a server',
  'Calling a method generated for an operation of a SOAP port sends exactly one request to the address of the port, with the declared SOAP action, an XML content type and a SOAP envelope whose body holds one element named after the operation, which holds one element named after the input message, which holds an element for each of its parts with the given value, all in the target namespace. The request and response hooks that the user set are applied once each and the user\'s HTTP client is used, and the method returns the values of the parts of the output message, which the response body holds in the same layout. Failures to connect, a cancelled context, responses that are not SOAP envelopes and SOAP faults (with their code and text) are returned as errors, the response body is closed in every case, and one client can be used for concurrent calls.',
  ['inputs', 'fault_sequences'], 'every supported WSDL, argument values and server behaviours', 'no generated client is ever run by a test',
  ['wsdlgen/wsdlgen.go', 'wsdlgen/helper.go'], [('generated do method and per-operation wrappers', 'wsdlgen/helper.go')], ['compiled clients against a loopback HTTP server that records requests'])

p('W04', 'Arbitrary WSDL input ends in a result or an error, never a crash or hang',
  'For arbitrary XML and mutated WSDL documents, parsing and client generation terminate without a panic and with bounded resources.',
  ['inputs'], 'arbitrary documents and structured mutations of valid WSDLs', 'no hostile input is tested',
  ['wsdl/wsdl.go', 'wsdlgen/wsdlgen.go'], [('checked lookups', 'wsdl/wsdl.go')], ['outcome of wsdl.Parse and wsdlgen on mutated input'])

p('D01', 'Dependencies are always processed before their dependents, each once',
  'Flattening a dependency graph visits every vertex that takes part in an edge exactly once, and visits each vertex after every vertex that it directly depends on, unless that vertex depends (directly or indirectly) on it in turn. The order depends only on the set of edges, not on the order of insertion or on the run, and flattening terminates on graphs with cycles.',
  ['inputs'], 'every finite graph and order of insertion', 'a few small graphs are tested',
  ['internal/dependency/graph.go'], [('depth-first walk', 'internal/dependency/graph.go')], ['visit log of Graph.Flatten'])
