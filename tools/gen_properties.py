#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

p("C01", "Data validation enforces every declared facet, and nothing else",
  "Validating a value against a type accepts it exactly when the value has a Go kind that the type admits and satisfies every facet the type declares: inclusive minimum/maximum, inclusive minLength/maxLength (in characters for strings), pattern, enum (members compared by value), inclusive minItems/maxItems, uniqueItems, minProperties/maxProperties, required properties, additionalProperties: false, and the date/time layouts. "
  "Array items, declared properties, undeclared properties that match a pattern property, union members (one must accept) and the head of a recursive type are validated by the same rule at any depth. "
  "The facets multipleOf, number format, fileTypes and the content of external JSON schemas are documented as not enforced and reject nothing.",
  ["inputs", "programs"], "for every type definition, every combination of declared and absent facets, and every value",
  "The tests sample a few values per facet; a wrong boundary, a facet ignored in one combination, or one nesting form skipped needs a specific facet combination together with a specific value.",
  ["scalars.go", "complex.go"],
  [("per-type value validation", "scalars.go, complex.go: validate methods"), ("value equality", "scalars.go: isEqualValue")],
  observe=["BaseShape.Validate", "examples/defaults/annotation values accepted by OptWithValidate"])

p("C02", "Inheritance keeps, adds or restricts facets, and never loosens them",
  "When a type inherits from a parent of the same kind, every facet it does not declare takes the parent's value and every facet it declares keeps its own value, and a declared facet looser than the parent's (smaller minimum, minLength, minItems or minProperties; larger maximum, maxLength, maxItems or maxProperties; an enum or fileTypes member the parent lacks; uniqueItems turned off; another format; a required property made optional) makes unwrapping fail, while an equal or stricter one never does. "
  "Properties and pattern properties of the parent that the type lacks are added, the ones it redeclares, as well as array items and the members of unions, inherit by the same rule, and description and custom facet values that are absent are taken over. "
  "Pattern, multipleOf, additionalProperties and discriminator may be overridden freely, and inheriting from another kind of type is an error.",
  ["inputs", "programs"], "for every pair of parent and child definitions and every combination of facets declared on either",
  "The number of parent/child facet combinations is far beyond the fixtures, and a loosened facet is silently accepted rather than failing anything.",
  ["scalars.go", "complex.go", "shape.go"],
  [("per-type inheritance", "scalars.go, complex.go: inherit methods"), ("base inheritance and union matching", "shape.go: BaseShape.Inherit, inheritUnionSource, inheritUnionTarget")],
  observe=["UnwrapShape / OptWithUnwrap", "BaseShape.Inherit"])

p("C03", "An alias has every facet and attribute of the type it names",
  "A type declared as nothing but a reference to another type ends up, after unwrapping, with every facet of the target (for each kind of type, including enum, format, bounds, properties, items and union members) and with the target's display name, description, example, examples, default, required flag, parents, custom facet values and definitions, and annotations. "
  "Aliasing to a type of a different kind is reported as an error and never yields a partly filled type.",
  ["inputs", "programs"], "for every kind of type and every combination of facets on the aliased type",
  "The tests alias a handful of types with few facets; one field left out of a copy is invisible until that facet is used through an alias.",
  ["scalars.go", "complex.go", "shape.go"],
  [("per-type alias copies", "scalars.go, complex.go: alias methods"), ("attribute copies", "shape.go: BaseShape.AliasTo")],
  observe=["UnwrapShape on alias types", "BaseShape.AliasTo"])

p("C04", "Contradictory type definitions are rejected, consistent ones accepted",
  "Checking a type fails when a lower bound (minimum, minLength, minItems, minProperties) exceeds its upper bound, when an enum or fileTypes member is not of the type's own kind, when an integer format is unknown, when pattern properties are combined with additionalProperties: false, or when a discriminator names no declared property, names a non-scalar one, or its discriminator value does not fit the property. "
  "The types of properties, pattern properties, array items and union members are checked in the same way at any depth. "
  "A definition without such a contradiction passes the check; equal bounds are not a contradiction.",
  ["inputs", "programs"], "for every type definition and every nesting of types",
  "Each rule is sampled by at most one fixture; which facets are checked in which combination and at which depth is a statement over all definitions.",
  ["scalars.go", "complex.go", "shape.go"],
  [("per-type consistency checks", "scalars.go, complex.go: check methods")],
  observe=["BaseShape.Check", "OptWithValidate"])

p("C05", "Every facet keyword is stored in its own facet; unknown ones become custom",
  "For every kind of type, each RAML facet keyword that applies to it (bounds, lengths, pattern, enum, format, fileTypes, items, uniqueItems, properties, additionalProperties, discriminator and its value, multipleOf) and each common keyword (displayName, description, required, default, example, examples, facets, annotations in parentheses) is decoded from its own value node into the facet of that name and no other. "
  "Any other keyword is kept as a custom facet value under its own name, none is dropped, and a value that cannot be decoded makes parsing fail. "
  "A property name ending in '?' denotes an optional property, and one wrapped in slashes a pattern property.",
  ["inputs"], "for every mapping of facet keywords to values on every kind of type",
  "Tests decode a fixed set of documents; swapped, ignored or cross-wired keywords only show for the facet combination that a test happens to read back.",
  ["scalars.go", "complex.go", "shape.go", "fragment.go", "example.go"],
  [("per-type facet decoding", "scalars.go, complex.go: unmarshalYAMLNodes methods"), ("common facets", "shape.go: decodeValueNode, decode"), ("property requirement", "complex.go: makeProperty, chompImplicitOptional")],
  observe=["fields of the parsed shapes"])

p("C06", "JSON Schema conversion carries over every constraint of the type",
  "Converting an unwrapped type to JSON Schema yields, for every kind of type, the corresponding JSON type and every facet that JSON Schema can express (bounds, lengths, multipleOf, pattern, enum, item and property counts, uniqueItems, additionalProperties, required list, properties, pattern properties, items, anyOf members, content encoding and media type, date/time format or pattern) with the value it has in the type, and sets nothing the type does not declare. "
  "Title, description, default, examples and, with the RAML dialect, annotations, custom facet values and custom facet definitions are carried over as well. "
  "Recursive types become references to a definition that is present in the result.",
  ["inputs", "programs"], "for every unwrapped type and every combination of facets",
  "Golden-file tests cover one library; a keyword lost or taken from the wrong facet for one kind of type does not change those files.",
  ["jsonschemaconv.go", "schema.go"],
  [("conversion visitor", "jsonschemaconv.go: Visit* and makeSchemaFromBaseShape"), ("RAML dialect", "schema.go: JSONSchemaWrapper")],
  observe=["JSONSchemaConverter.Convert"])

p("C07", "JSON Schema copies and maps carry every keyword",
  "The map form of a JSON Schema contains, under the keyword of its JSON tag, the value of every keyword that is set and no keyword that is not set. "
  "A deep copy has every keyword of the original and shares with it no nested schema and no list or map of schemas, a shallow copy has every keyword, and re-casting a plain schema to another dialect keeps every keyword. "
  "All of them leave the original unchanged and accept nil.",
  ["inputs"], "for every schema, over all keywords and every nesting",
  "About forty keywords are copied by hand-written code in four places; a keyword missing in one place shows only for a schema that uses it.",
  ["schema.go", "jsonschemaconv.go"],
  [("map form", "schema.go: Map"), ("copies", "schema.go: DeepCopy, ShallowCopy"), ("dialect change", "jsonschemaconv.go: recast")],
  observe=["Map()", "DeepCopy()", "ShallowCopy()", "conversion of types defined by JSON schemas"])

p("C08", "Unwrapping and recursion marking reach every nested type",
  "After unwrapping, every type reachable through properties, pattern properties, array items, union members, custom facet definitions, linked data types, aliases and parents has been unwrapped itself and is the unwrapped result, in every library, annotation type and data type that was loaded. "
  "Every place where such a nested type refers back to a type that contains it is replaced by a recursive marker for exactly that type, so that walking the result terminates, and no other place is replaced. "
  "Any failure on the way is reported.",
  ["inputs", "programs"], "for every graph of type references",
  "Reference graphs are unbounded; the tests walk a few, and a nesting form that is skipped leaves plausible-looking types behind.",
  ["unwrap.go", "validate.go"],
  [("unwrapping", "unwrap.go: UnwrapShape, UnwrapTarget, unwrapParents"), ("recursion marking", "unwrap.go: FindAndMarkRecursion and helpers")],
  observe=["UnwrapShapes", "FindAndMarkRecursion"])

p("C09", "A cloned type is complete and independent of the original",
  "A deep clone of a type has every facet and attribute of the original, and no later change to the clone or to anything reachable from it (properties, pattern properties, items, union members, parents, alias, link, recursion head, custom facet definitions, facet and annotation maps) is visible in the original, nor the other way round. "
  "Within one clone operation a type that occurs several times, or refers to itself, is cloned exactly once, so that the structure of references is preserved and cloning terminates. "
  "A shallow clone has its own copy of the type and of its maps but shares the nested types.",
  ["inputs", "histories"], "for every type graph and every later modification of either copy",
  "Aliasing between copies shows only when one of them is modified later; the tests do this for a few fields.",
  ["shape.go", "complex.go", "scalars.go"],
  [("deep clone", "shape.go: BaseShape.clone; per-type clone methods"), ("memo of cloned types", "shape.go: clonedMap")],
  observe=["Clone", "CloneDetached", "CloneShallow"])

p("C10", "Checking, validating, converting and cloning never modify types",
  "Checking a type, validating data against it, cloning it, converting it to JSON Schema and looking up references leave the type, everything reachable from it, and the value being validated unchanged. "
  "Validation of a whole document works on private copies of the types that are not unwrapped yet.",
  ["inputs", "histories"], "for every type, every value and every sequence of such calls",
  "A hidden write shows only in what a later call observes; tests examine results of single calls.",
  ["validate.go", "jsonschemaconv.go", "scalars.go", "complex.go", "shape.go", "schema.go"],
  [("read-only traversals", "validate.go, jsonschemaconv.go"), ("copy before unwrapping", "validate.go: unwrapShape, validateDataType")],
  observe=["types after Validate/Check/Convert/Clone"])

p("C11", "A failure is never lost on the way to the caller",
  "Whenever any step of parsing, resolving, unwrapping, checking, validating or converting fails (file access, decoding, a nested type, a hook), the operation that needed it returns an error to its caller, however deep the failing step is. "
  "Where processing continues with the next item, the earlier error is kept and reported together with later ones. "
  "The only failures that are absorbed are those of an alternative (a union member, or a pattern that matches the same property name) while another alternative succeeds.",
  ["inputs", "fault_sequences"], "for every input and every step at which a failure can occur",
  "Each of several hundred error checks guards one failure; provoking every failure at every depth, singly and combined, is beyond tests.",
  ["parse.go", "resolve.go", "unwrap.go", "validate.go", "shape.go", "complex.go", "scalars.go", "node.go", "fragment.go", "example.go", "rdt_visitor.go"],
  [("error returns and stack trace aggregation", "all files: StacktraceNewWrapped, Append")],
  observe=["error results of the public API"])

p("C12", "Parsing runs its stages in order, exactly as the options ask",
  "Parsing a document decodes it and everything it includes, resolves all types, resolves all annotations, then unwraps if and only if unwrapping was requested, then validates if and only if validation was requested, in this order, from files and strings alike. "
  "A failing stage ends the run with its error and no later stage runs. "
  "On success the entry point is the fragment of the requested document, chosen by its header line.",
  ["inputs", "configurations"], "for every document and every combination of options",
  "Tests mostly use one combination of options and valid documents; order and omission of stages show only on specific invalid ones.",
  ["parse.go"],
  [("stages", "parse.go: parseFragment"), ("options", "parse.go: ParseOpt implementations")],
  observe=["ParseFromPath, ParseFromString and their Ctx variants"])

p("C13", "Every opened file is closed, and the library only reads",
  "Every file that is opened while parsing is closed exactly once on every path, including all error paths. "
  "The library opens files for reading only and never creates, writes or removes files, starts processes, uses the network, or ends the calling process.",
  ["inputs", "fault_sequences"], "for every document and every failure point",
  "Leaks show only after many failures, and the forbidden effects only in the code path that has them.",
  ["parse.go", "node.go"],
  [("open and deferred close", "parse.go: openFragmentFile, closeFragmentFile; node.go")],
  observe=["open descriptors and file system after parsing"])

p("C14", "Relative references are resolved against the file that contains them",
  "A path given in a uses section, in an !include of a type, example set or data value, or in nested data, is interpreted relative to the directory of the file in which it is written, never relative to the working directory or to the entry point. "
  "Every type, example, annotation and data node records the file it was read from as its location.",
  ["inputs"], "for every directory layout and every nesting of includes",
  "The fixtures use mostly one directory; a wrong base directory only shows when files in different directories include each other.",
  ["parse.go", "shape.go", "node.go", "fragment.go"],
  [("include resolution", "parse.go: decodeLibrary, decodeDataType; shape.go: makeShapeType, decodeExamples; node.go: makeIncludedNode, scalarNodeToDataNode")],
  observe=["files opened", "Location fields"])

p("C15", "A fragment is loaded once, and only as the kind it declares",
  "A library, data type or named example file that is referenced several times is read and decoded once per parse, and every reference gets the same object. "
  "A file is accepted only where its header line declares the kind of fragment expected there (JSON files excepted for data types), and a file already loaded as another kind is reported as an error. "
  "Every fragment is registered under its own path, and libraries that use each other in a cycle can be loaded.",
  ["inputs", "histories"], "for every graph of fragment references, in every order",
  "Sharing and cycles between files depend on the shape of the include graph; tests hold a couple of graphs.",
  ["parse.go", "raml.go"],
  [("fragment cache", "raml.go: PutFragment, GetFragment; parse.go: parseLibrary, parseDataType, parseNamedExample"), ("header check", "parse.go: CheckFragmentKind, IdentifyFragment")],
  observe=["GetFragment", "identity of linked libraries"])

p("C16", "Processing terminates on recursive definitions",
  "Types that refer to themselves directly or through others, and fragments that include each other, never make resolving, unwrapping, recursion marking, cloning, checking, validating or converting run forever or exhaust the stack: every cycle is cut by a guard that is set before the nested work starts and consulted before it is repeated. "
  "A guard that is set temporarily is released on every way out, including failures, so that an earlier failure never changes how later types are processed.",
  ["inputs", "histories"], "for every graph of type and file references, including cyclic ones",
  "Non-termination needs the particular cycle, and a leaked guard a particular failure followed by another type.",
  ["unwrap.go", "resolve.go", "shape.go", "complex.go", "parse.go", "jsonschemaconv.go"],
  [("visited marks", "shape.go: Inherit; unwrap.go: FindAndMarkRecursion, UnwrapShape"), ("memo", "shape.go: clone"), ("resolution guard", "resolve.go: resolveShape"), ("definition placeholder", "jsonschemaconv.go: VisitRecursiveShape")],
  state=[("ShapeVisited", "temporary mark of a type on the current path", "shape.go"), ("unwrapped", "permanent mark", "shape.go"), ("resolving", "temporary mark", "complex.go")],
  observe=["termination of every public operation"])

p("C17", "Malformed input is answered with an error, not a panic",
  "No document, however malformed (empty names, empty lists, scalars where maps are expected, null nodes, odd structures, wrong value kinds), makes parsing, resolving, unwrapping, checking, validating, cloning or converting panic through a nil dereference, an out-of-range index, a failed type assertion or a comparison of uncomparable values.",
  ["inputs"], "for every input document and every value",
  "Panics need the one malformed shape that reaches an unguarded access; tests use mostly well-formed documents.",
  ["shape.go", "complex.go", "scalars.go", "fragment.go", "node.go", "example.go", "extension.go", "parse.go", "resolve.go", "unwrap.go", "validate.go", "jsonschemaconv.go", "schema.go", "raml.go"],
  [("nil, length and kind guards before accesses", "all files")],
  observe=["absence of panics in the public API"])

p("C18", "Parser instances do not affect each other",
  "Everything that parsing learns is stored in the parser instance it belongs to: no package-level variable is modified after initialisation, and a new instance starts empty. "
  "Adding, prepending, removing or clearing hooks on one instance changes neither the hook lists of another instance nor one created from the same context, nor a list that is being executed.",
  ["histories", "schedules"], "for every sequence and interleaving of operations on several instances",
  "Cross-talk needs particular interleavings of several instances in one process.",
  ["raml.go", "consts.go", "common.go"],
  [("per-instance maps and counters", "raml.go: New"), ("copy on write of hook lists", "raml.go: AppendHook, PrependHook, RemoveHook, ClearHooks")],
  observe=["two instances used alternately or concurrently"])

p("C19", "Hooks run first, in order, and can stop the operation",
  "Every operation that offers a hook calls the registered hooks before it has any effect of its own, in the order in which they are registered, passing the objects the operation works on. "
  "The first hook that fails stops the operation: its error is returned, no later hook runs, and the operation has changed nothing. "
  "Each hook key belongs to one operation only.",
  ["histories", "configurations"], "for every hooked operation and every list of hooks",
  "Tests install hooks for a few keys and look at the result; a hook that runs too late or whose error is ignored for one key goes unnoticed.",
  ["raml.go", "shape.go", "unwrap.go", "validate.go", "parse.go"],
  [("hook dispatch", "raml.go: callHooks"), ("hooked operations", "all functions that call it")],
  observe=["effects observed by and after a failing hook"])

p("C20", "All components agree on the set of type names and facets",
  "Every built-in type name of RAML maps to its own kind of type wherever type names are interpreted (declarations, type expressions and their grammar), every kind of type has its own conversion to JSON Schema, and the facet names used to infer a missing type map to the kind that owns the facet. "
  "A name that is not built in is treated as a reference. "
  "Which kinds count as scalars agrees with RAML.",
  ["inputs", "programs"], "for every type name and every facet name",
  "The vocabulary is spread over a switch, a generated grammar, constant tables and a visitor; one that is out of step shows only for that name.",
  ["shape.go", "consts.go", "rdt_visitor.go", "rdt", "jsonschemaconv.go", "scalars.go", "complex.go"],
  [("type constructors", "shape.go: MakeConcreteShapeYAML"), ("type inference", "shape.go: identifyShapeType"), ("grammar", "rdt"), ("conversion dispatch", "jsonschemaconv.go: Visit")],
  observe=["kind of the parsed types"])

p("C21", "Results and errors do not depend on map iteration order",
  "Parsing, unwrapping, validating and converting the same input always gives the same result: declaration order is preserved in types, properties, facets, examples and schemas, and fragments are processed in a stable order, so that the same errors are reported in the same order with the same IDs. "
  "No observable result depends on the iteration order of an unordered map.",
  ["schedules", "inputs"], "for every input and every possible map iteration order",
  "A test run sees one iteration order, and usually maps of one or two entries.",
  ["raml.go", "unwrap.go", "validate.go", "complex.go", "jsonschemaconv.go", "schema.go"],
  [("sorted iteration", "raml.go: sortedFragments; complex.go: validateProperties"), ("ordered maps", "all files")],
  observe=["repeated runs"])

p("C22", "Every reported problem points to a file and position",
  "Every error that a document causes names the file it was found in, and the recorded position, where there is one, belongs to the node or type in question in that same file. "
  "An error that wraps another keeps it, so that the original cause stays reachable.",
  ["inputs", "fault_sequences"], "for every failing input",
  "There are several hundred error sites, and tests compare the location of few.",
  ["stacktrace.go", "parse.go", "shape.go", "complex.go", "scalars.go", "node.go", "unwrap.go", "validate.go"],
  [("located errors", "stacktrace.go: StacktraceNew, StacktraceNewWrapped, WithNodePosition")],
  observe=["location and position of returned stack traces"])

p("C23", "Document validation covers every type and every value in it",
  "With validation enabled, every type and annotation type of every loaded library and every data type is unwrapped if necessary and checked, and for each of them and every type nested in its properties, pattern properties, items, union members and custom facet definitions the example, every named example, the default and every custom facet value is validated against its definition. "
  "A custom facet that no ancestor (along the chain of first parents) defines, a required one that is missing, and one that is defined again by a descendant are reported, and every annotation value is validated against its annotation type. "
  "All failing fragments and types are reported, not only the first one.",
  ["inputs", "programs"], "for every document and every nesting of types",
  "An unvalidated corner accepts everything silently; tests contain negative cases for a few corners only.",
  ["validate.go"],
  [("validation walk", "validate.go: ValidateShapes and the functions it calls")],
  observe=["OptWithValidate, ValidateShapes"])

p("C24", "Types, registries and IDs stay consistent",
  "Every type is created with an ID that is unique within its parser instance, with non-nil facet and annotation maps, bound to its instance, its file and the position of its declaration, and the concrete type points back to it and carries the requested type name. "
  "Every type that is created or unwrapped is recorded in the list of types, and every named type of a library is registered under its name and file (the type of a data type once it is unwrapped), with the unwrapped type replacing the original one after unwrapping.",
  ["inputs", "histories"], "for every sequence of type constructions",
  "A violated invariant does not fail where it is broken but in a later stage that relies on it.",
  ["shape.go", "raml.go", "rdt_visitor.go", "unwrap.go", "fragment.go"],
  [("constructors", "shape.go: MakeBaseShape, MakeConcreteShapeYAML, makeNewShapeYAML"), ("registries", "raml.go: PutShape, PutTypeIntoFragment, PutAnnotationTypeIntoFragment")],
  observe=["GetShapes, GetFragmentTypePtrs, IDs"])

p("C25", "The command-line validator fails if any file is invalid",
  "The validate command examines every file it is given with unwrapping and validation enabled, and exits with a non-zero status if at least one of them is invalid, whatever the order of the files, and with zero otherwise.",
  ["inputs", "configurations"], "for every list of files",
  "The command has no tests and is not part of the test build.",
  ["cmd/raml/validate.go", "cmd/raml/raml.go"],
  [("error accumulation", "cmd/raml/validate.go: Execute"), ("exit status", "cmd/raml/raml.go: mainFn")],
  observe=["exit status"])

p("C26", "Names are resolved in the right scope",
  "A reference in a library denotes the local type of exactly that name if there is one (even when the name contains dots), and otherwise the type with the name after the last dot in the library bound to the name before it; data types see only the libraries they use, named examples see nothing. "
  "Types are looked up among types and annotations among annotation types, always in the fragment that contains the reference, and a name that cannot be found is an error. "
  "A type expression that is a bare name makes an alias unless facets are added, in which case it makes a subtype, and optional, array and union expressions build types from their operands in order.",
  ["inputs"], "for every set of names and every reference",
  "Scoping mistakes need particular name clashes between files or between types and annotation types.",
  ["fragment.go", "raml.go", "rdt_visitor.go", "resolve.go", "common.go"],
  [("reference lookup", "fragment.go: GetReferenceType, GetReferenceAnnotationType; common.go: CutLast"), ("type expressions", "rdt_visitor.go")],
  observe=["types that references resolve to"])

p("C27", "Inheritance and aliasing do not change the types inherited from",
  "Unwrapping a type leaves the facets of its parents, of the alias target and of the types that other declarations share with it as they would be without it: combining types never writes into a type, a property map or a list that belongs to another declaration.",
  ["inputs", "histories"], "for every graph of types and every order of unwrapping",
  "The damage shows in another type than the one being processed, and only for particular combinations of sharing and order.",
  ["shape.go", "complex.go", "unwrap.go"],
  [("in-place inheritance", "shape.go: Inherit; complex.go: inherit methods; unwrap.go: unwrapParents")],
  observe=["parents after unwrapping their children"])

p("C28", "Regular expressions and numbers mean what RAML says",
  "Patterns match exactly the strings that the ECMA-262 expression denotes, and multipleOf and numeric formats restrict values to exactly the numbers they describe.",
  ["inputs"], "for every pattern and every number",
  "Semantics of regular expressions and floating point numbers over all inputs.",
  ["scalars.go"], [("regexp, big.Int, float64", "scalars.go")], observe=["BaseShape.Validate"])

p("C29", "The converted JSON Schema accepts exactly the data that the type accepts",
  "For every type, a value is accepted by the type if and only if it is accepted by a conforming JSON Schema validator given the converted schema.",
  ["inputs", "programs"], "for every type and every value",
  "Equivalence of two acceptance semantics over all types and values.",
  ["jsonschemaconv.go", "scalars.go", "complex.go"], [("conversion and validation", "jsonschemaconv.go, scalars.go, complex.go")], observe=["Convert, Validate"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
