PATHS = "Static, over all paths: the SSA form of the current source is interpreted abstractly with a finite set of predicates (nilness, dynamic types, order, equality of named values; loops by one distinguished and the other elements, to a fixpoint). "
TRUST = "Trusts the Go type checker, SSA construction, and the models of library functions in checker/models.go."
CLAIMED = {
 "C01": ("path-sensitive abstract interpretation of every validate method; each path is decided against the facet rules by implication", PATHS + "For each of the 17 kinds of type: a path that accepts implies that every facet is satisfied, a path that rejects implies that one is violated. The contents of regular expressions, the multiples of a number and custom formats are not interpreted. " + TRUST),
 "C12": ("path-sensitive abstract interpretation: event order and option implication on every path of the entry points", PATHS + "Decides order, completeness and error handling of the stages in every entry point. " + TRUST),
 "C13": ("typestate analysis of opened files on every path; effect analysis of all call operands", PATHS + "Every open file is closed or handed out exactly once on each path of each function that gets one; no instruction of the library refers to a writing, executing, network or exiting function. " + TRUST),
 "C18": ("effect analysis of package-level variables; copy-on-write analysis of hook lists by abstract interpretation", PATHS + "Effects of other modules on shared state (e.g. the regexp cache) are out of sight. " + TRUST),
 "C19": ("path-sensitive abstract interpretation of every hooked operation up to and after its hooks", PATHS + "For every hook key: the operation calls the hooks before any other call or write, and a failing hook ends it without effects. " + TRUST),
 "C02": ("path-sensitive abstract interpretation of every inherit method, of BaseShape.Inherit and its union variants, and of UnwrapShape: facets after the call against the merging rule of each facet, refusals against the reasons that justify them", PATHS + "Each facet of each kind: what it is after a successful call, that a looser one is refused and that a refusal has a reason. Pattern, multipleOf, additionalProperties and discriminator overrides are not restricted. " + TRUST),
 "C03": ("path-sensitive abstract interpretation of every alias method, of AliasTo and of the alias step of UnwrapShape: facets and attributes after the call against those of the target", PATHS + TRUST),
 "C11": ("modular path-sensitive abstract interpretation of every function that calls something that can fail: the error of every step that is not known to have succeeded is part of the error that is returned", PATHS + "Each function is analysed on its own, with every call as a step that may fail, including errors made by the function itself and those that the type expression parser reports to its listeners. Failures that library functions do not report as errors are out of sight. " + TRUST),
 "C05": ("path-sensitive abstract interpretation of the decoding of a declaration from its mapping node to the finished type, once for each kind of type and keyword: which facet, attribute or custom facet gets which value node", PATHS + "Runs over all kinds of types x all RAML facet and common keywords x positions, over property names, facet definitions, example sets, declarations without a type and types whose kind is settled later. What the YAML library makes of a value node is not interpreted. Custom facets of unions are a known finding. " + TRUST),
 "C06": ("abstract interpretation of the converter on a symbolic type of each kind (one nested element class, all facets independently present or absent): the schema on every path compared with the type, keyword by keyword", PATHS + "Every conversion method, in both dialects, the entry points and the definitions of recursive types. That two recursive types of one name share a definition name is outside (documented TODO of the code). " + TRUST),
 "C07": ("abstract interpretation of the copying, mapping and recasting functions of JSON schemas on symbolic schemas: every keyword on every path, aliasing by identity of abstract objects", PATHS + "All keywords by the tags of the struct types, so that a keyword that is added is covered. " + TRUST),
 "C09": ("shape analysis by abstract interpretation of the copying functions on all graphs of types of the kinds field-to-field (every reference field combined with every other, with sharing and cycles): the copy is isomorphic to the original, apart from it, and the original is unchanged", PATHS + "The graphs have symbolic attributes and two levels of references; every kind of type and every field that refers to types is covered, also fields that are added. Nodes, examples, annotations and JSON schemas may be shared. " + TRUST),
 "C04": ("path-sensitive abstract interpretation of every check method: an accepting path implies the absence of every contradiction, a refusing path implies one", PATHS + "NaN bounds are not considered. " + TRUST),
 "C26": ("abstract interpretation of the name resolution on known type expressions (concrete parse trees) and known scopes with symbolic types: the type denoted, the place of every operand, and the refusals, compared with the scoping rules", PATHS + "Decides all combinations of expression forms, scopes (library, data type, named example), plain and dotted names and declared facets of a bounded set of trees; the generated parser itself is trusted. " + TRUST),
 "C08": ("shape analysis by abstract interpretation of UnwrapShapes and FindAndMarkRecursion on type graphs with every combination of two (marking: three) reference fields, with sharing, links, aliases and cycles: what is reached and marked, what every reference leads to, acyclicity of the result", PATHS + "Graphs are concrete up to their attributes and facets; larger graphs are covered only as far as their parts are. " + TRUST),
 "C23": ("abstract interpretation of ValidateShapes on known documents (values of every sort at every place of type graphs, custom facets defined at every level above, several fragments, unwrapped or not) with any two steps failing: which value is validated against which type on every path", PATHS + "Documents are small and known up to their values; Check, Validate and unwrapping are steps that may fail. " + TRUST),
 "C14": ("abstract interpretation of parsing (files, decoding, resolving) on documents of several files in different directories given as syntax trees: every form of reference at every place of every kind of file, with and without files of the same name in wrong directories", PATHS + "Decides which files are opened and the recorded location of every fragment, type, example, annotation and data value, for 32 forms of reference x 6 places of the naming file x 5 shapes of path x file types, and for types made of type expressions. Paths that leave the virtual file system and URLs are not considered. " + TRUST),
 "C15": ("abstract interpretation of parsing on documents of several files that refer to each other, given as syntax trees: reads per file, kind accepted, and the object each reference leads to", PATHS + "Decides the table of references x headers (library, data type, examples, JSON, none, others), repeated references with different spellings of the path, files used as two kinds, and cycles of up to four files. " + TRUST),
 "C24": ("shape analysis: abstract interpretation of parsing, unwrapping and marking on syntax trees with symbolic attributes (every way to declare a type in every place) and on type graphs of two references; identity, back pointer, instance, file, position, maps and registries of every reachable type are compared with the declaration", PATHS + "documents of the corpus and type graphs of two references" + TRUST),
 "C17": ("abstract interpretation of the whole pipeline (reading, decoding, resolving, unwrapping, checking, validating) on documents of every construct in which each node in turn is replaced by odd nodes; no panic is reachable on any path", PATHS + "Nil dereferences, index and slice bounds, type assertions, nil map writes, comparisons of uncomparable values and explicit panics of the library code and the models of the library functions. One node is odd at a time. " + TRUST),
 "C10": ("effect analysis by abstract interpretation: no path of any function that checks, validates, prints or looks up writes to an object that was there before (symbolic types and values); and the heap before and after validating, checking, converting, cloning and printing the types of parsed documents is compared", PATHS + "The registries and counters of the RAML instance are exempt. Conversion of JSON schemas is decided in C07. " + TRUST),
 "C22": ("abstract interpretation of the whole pipeline on documents of every construct in which each node in turn is replaced by odd nodes: the file and the position given to every error that is made, and the file of every cause of every error that is returned", PATHS + "Each error that is made names a file that was opened; a position points to a node of that same file; each cause of a returned error was given a file. Decided for the errors that the documents of the table lead to; that the position is that of the node at fault, and not of another node of the same file, is not decided. " + TRUST),
}
NA = {
 "C28": "The meaning of regular expressions (Go RE2 against ECMA-262) and of floating point arithmetic over all inputs is a question about run-time values inside the standard library; no rule over the source decides it.",
 "C29": "Equivalence of the acceptance semantics of a type and of an external JSON Schema validator quantifies over run-time values and over a validator that is not part of the repository; the carrying over of each facet is decided under C06.",
}
