NOTES = 'Each check builds the monitors from /repo\'s working tree and runs a fixed list of cases derived from VERIF_SEED. No hooks in /repo. fix: commits are listed in known_findings.txt.'
OB = 'Held on the executions counted in the evidence file; says nothing about inputs that were not generated. Trusts the generator\'s model and the Go standard library.'
M = 'runtime monitor: '
CHECKS = {
'X01': (M+'model of the generated document against the parsed tree', 'exploration', OB),
'X02': (M+'differential against the UTF-8 form, caller bytes watched', 'exploration', OB),
'X03': (M+'environment model of namespace declarations', 'exploration', OB),
'X04': (M+'inverse check on every scope', 'exploration', OB),
'X05': (M+'re-parse of every serialised element and of edited trees', 'exploration', OB),
'X06': (M+'layout computed from plain output', 'exploration', OB),
'X07': (M+'fault injection at every write call', 'fault_enumeration', OB+' Every write call of each generated tree is failed once.'),
'X08': (M+'own traversal, pointer identity, fingerprints', 'exploration', OB),
'X09': (M+'canonical forms, both directions, fingerprints', 'exploration', OB),
'X10': (M+'history checked against a list model', 'exploration', OB),
'X11': (M+'hostile input, token-walk oracle, crash and non-termination watch', 'exploration', OB),
'X12': (M+'differential against the standard decoder on the whole document', 'exploration', OB),
'S01': (M+'walk over the graph of parsed types, model of lookups', 'exploration', OB),
'S02': (M+'bisimulation of parsed types with the schema model', 'exploration', OB),
'S03': (M+'bisimulation of two spellings of one model', 'exploration', OB),
'S04': (M+'bisimulation across layouts, caller data watched', 'exploration', OB),
'S05': (M+'list of imports known to the generator', 'exploration', OB),
'S06': (M+'planted faults must be rejected; hostile edits watched for crashes and broken results', 'exploration', OB),
'S07': (M+'postconditions of normalised trees, re-parse', 'exploration', OB),
'G01': (M+'go/types, gofmt and import check of every generated file', 'exploration', OB),
'G02': (M+'struct fields and Go types (go/types) against the schema model', 'exploration', OB),
'G03': (M+'generated packages compiled and run on generated instance documents, compared with the instance model', 'exploration', OB),
'G04': (M+'generated packages run on values of every built-in, compared as values', 'exploration', OB),
'G05': (M+'byte comparison of repeated runs, in this and in other processes', 'exploration', OB),
'G06': (M+'recursive and mutated input, crash, memory and non-termination watch', 'exploration', OB),
'G07': (M+'code with and without an option compared declaration by declaration; reverted configurations against fresh ones', 'exploration', OB),
'G08': (M+'the built programs against the library; opened and read files counted with inotify; injected failures', 'exploration', OB),
'G09': (M+'generated packages run on array documents, compared with the items', 'exploration', OB),
'G10': (M+'answers type-checked with the generated code and compared with the schema model; declarations compared before and after', 'exploration', OB),
'W01': (M+'model of the generated WSDL against the parsed definition', 'exploration', OB),
'W02': (M+'go/types view of the generated client against the WSDL model', 'exploration', OB),
'W03': (M+'compiled clients (with and without the race detector) against a recording loopback server with injected faults', 'exploration', OB),
'W04': (M+'edited and mutated WSDLs, crash, memory and non-termination watch', 'exploration', OB),
'C01': (M+'Go race detector, and every concurrent result against the same operation run alone', 'exploration', OB+' The race detector sees the interleavings that occurred and everything unordered in them.'),
'D01': (M+'visit log against the edges; all graphs up to 4 vertices', 'exploration', OB+' All digraphs on up to 4 vertices are enumerated (one insertion order each).'),
}
NA = {}
