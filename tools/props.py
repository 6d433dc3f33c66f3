NOTES = "All checks are binaries of /verif/mc (Rust, path dependencies on /repo's crates): exhaustive bounded enumeration of inputs, operation sequences and model states executed on the real code, each compared with an independently written reference model. No hooks in /repo are needed."
PROPS = []
def P(**k): PROPS.append(k)

P(id="C01", title="Shape conformance of a node's neighbourhood follows ShEx",
  statement="A node is reported conformant with a shape exactly when its triples can be distributed over the shape's triple constraints (sequence, choice, grouping, cardinalities, inverse) in the way ShEx defines, honouring CLOSED and EXTRA. The verdict is the same whatever the size or order of the neighbourhood. Whether incoming arcs that no constraint takes are free or forbidden is not covered, except for the listed known finding.",
  over=["inputs", "programs"], quant="all triple expressions of the bounded grammar (single constraints with 12 cardinalities, one-element groups, pairs and nested groups with group cardinalities, three constraints on one predicate, inverse constraints, references and NOT in value position) x CLOSED x EXTRA x all subsets of 5-6 candidate arcs",
  why="unit tests fix a few dozen schema/data pairs; the matching is a search over assignments of triples to constraints, whose bugs show on particular combinations of cardinalities, overlapping value expressions and neighbourhoods",
  files=["shex_validation/src/engine.rs", "rbe/src/rbe_table.rs", "rbe/src/rbe.rs", "shex_ast/src/ir/ast2ir.rs", "shex_ast/src/compact/shex_grammar.rs"],
  mech=[("check_node_shape / check_expr_neigh", "shex_validation/src/engine.rs"), ("RbeTable::matches", "rbe/src/rbe_table.rs"), ("triple_expr2rbe", "shex_ast/src/ir/ast2ir.rs")],
  observe=["Validator::validate_shapemap -> ResultShapeMap"],
  technique="explicit-state enumeration of shapes x neighbourhoods on the real parser, compiler and validator vs an independent ShEx model",
  note="Exhaustive within the stated grammar and neighbourhoods; trusts the reference semantics (brute-force assignment over truncated bag languages).")

P(id="C02", title="Regular bag expression matching decides bag membership",
  statement="A bag of symbols is accepted by a regular bag expression exactly when it belongs to the language the expression denotes, for the derivative algorithm and for the interval algorithm alike, in closed mode and in open mode (where symbols foreign to the expression are ignored). The feasibility test never refutes a satisfiable expression.",
  over=["inputs", "programs"], quant="all expressions up to depth 3 over 2-3 symbols with the cardinalities {0,1,2,3,n} x {bounded, unbounded} and every bag up to the bound, in both modes",
  why="the unit tests sample a few expressions; derivative and interval computation have to agree on every combination of nested repetitions",
  files=["rbe/src/rbe.rs", "rbe/src/rbe_cond.rs", "rbe/src/card.rs"],
  mech=[("Rbe::match_bag / deriv", "rbe/src/rbe.rs"), ("Rbe::match_bag_interval", "rbe/src/rbe.rs"), ("Rbe::feasible", "rbe/src/rbe.rs")],
  observe=["Rbe::match_bag", "Rbe::match_bag_interval", "Rbe::feasible"],
  technique="exhaustive enumeration of expressions x bags vs the denoted bag language computed set-theoretically",
  note="Exhaustive within the bounds; the oracle enumerates the language of each expression up to the bag bound.")

P(id="C03", title="References, recursion and AND/OR/NOT give the ShEx typing",
  statement="For a schema with shape references, AND, OR, NOT and possibly recursive references that is free of negated cycles, a node is conformant with a shape label exactly when it is in the typing ShEx defines (the maximal typing of each stratum of the reference graph). This includes cyclic data, references under negation to other strata, and START.",
  over=["inputs", "programs"], quant="all two-label schemas built from a universe of shape expressions (references, AND, OR, NOT, triple constraints with references and cardinalities), three-label chains, START expressions x all p/q digraphs on 2 nodes and selected ones on 3",
  why="recursive validation works with hypotheses and cached verdicts; a verdict reached under a hypothesis that is later refuted only shows on particular cyclic data and particular reference structures, of which tests hold a handful",
  files=["shex_validation/src/engine.rs", "shex_validation/src/validator.rs", "shex_ast/src/ir/ast2ir.rs", "shex_ast/src/ir/schema_ir.rs"],
  mech=[("Engine::prove", "shex_validation/src/engine.rs"), ("Engine::dep / step", "shex_validation/src/engine.rs")],
  observe=["Validator::validate_shapemap -> ResultShapeMap"],
  technique="explicit-state enumeration of schemas x graphs; reference model computes the stratified greatest fixpoint; verdicts of the real validator compared on every (node, label)",
  note="Exhaustive within the schema and digraph universe; trusts the reference fixpoint semantics.")

P(id="C04", title="A shape map validates exactly the described nodes, each on its own",
  statement="Validating with a query shape map gives a verdict for exactly the (node, shape) pairs it describes: explicit nodes, nodes selected by triple patterns (with FOCUS, wildcard, and fixed terms) in every layout the grammar allows, labels and START. The verdict of a pair does not depend on the order or repetition of associations, on which other associations are in the map, on batching them over several calls, nor on what the validator was used for before. A printed shape map reads back as the same map, and the result map, its JSON and its CSV report the same verdicts.",
  over=["inputs", "histories"], quant="all orders, subsets, repetitions and batchings of up to 4 associations over recursive schemas x 8 cyclic graphs; all selectors of the pattern grammar x layouts x labels over a fixed graph; all result statuses in each report",
  why="the validator keeps hypotheses and verdicts between associations of one map and between calls; a verdict that depends on what was asked before only shows for particular orders over particular recursive data",
  files=["shex_validation/src/engine.rs", "shex_validation/src/validator.rs", "shex_ast/src/shapemap/", "shex_ast/src/compact/shapemap_grammar.rs", "shex_ast/src/compact/shapemap_compact_printer.rs"],
  mech=[("Validator::validate_shapemap", "shex_validation/src/validator.rs"), ("Engine::prove", "shex_validation/src/engine.rs"), ("NodeSelector", "shex_ast/src/shapemap/node_selector.rs"), ("ResultShapeMap", "shex_ast/src/shapemap/result_shape_map.rs")],
  observe=["ResultShapeMap", "ShapemapFormatter", "ResultShapeMap::as_csv / as_json"],
  technique="exhaustive enumeration of association sequences (orders, repetitions, batches) and of selectors on the real validator vs an independent model",
  note="Exhaustive within the stated schemas, graphs and selectors; blank node selectors are not covered.")

P(id="C05", title="A shape that extends others shares a node's arcs with its ancestors",
  statement="A node conforms to a ShEx shape with EXTENDS exactly when the arcs whose predicates the shape or its ancestors mention can be divided among them so that the triple expression of the shape and of each distinct ancestor (a diamond's once) holds on its share and the further conjuncts of an ancestor (references and conjunctions included) hold on the shares of that ancestor and its own ancestors; a negated conjunct is judged on the whole node. Of an OR among the ancestors some alternative does. EXTRA of the shape frees only arcs nobody accepts, CLOSED forbids arcs nobody mentions. A node conforms to a label when it conforms to its expression, unless ABSTRACT, or to a declared non-abstract descendant, conjunctions included, with all their conjuncts.",
  over=["programs", "inputs"], quant="12 triple expressions over 2 predicates and 3 values in chains of 2 and 3, two parents, diamonds, OR parents (inline, named, aliased, nested), 11 kinds of conjuncts at different places, descendants with conjuncts, values judged by shapes with descendants, abstract shapes nobody extends; x CLOSED/EXTRA x all 64 sets of arcs",
  why="which arc counts for which ancestor is a search; shortcuts and special paths of it (per parent, per conjunct, per OR) agree on the few hierarchies tests have and differ on those that share predicates",
  files=["shex_validation/src/engine.rs", "shex_validation/src/class_partitions.rs", "shex_ast/src/ir/schema_ir.rs", "shex_ast/src/ir/extend_alternative.rs", "rbe/src/rbe_table.rs", "rbe/src/feasibility.rs"],
  mech=[("check_node_shape_extends", "shex_validation/src/engine.rs"), ("extend_alternatives", "shex_ast/src/ir/schema_ir.rs"), ("class_partitions_iter", "shex_validation/src/class_partitions.rs")],
  observe=["Validator::validate_shapemap -> status of every (node, label)"],
  technique="exhaustive enumeration of inheritance hierarchies x all arc sets; every division of the arcs tried by a brute-force model and compared with the real validator",
  note="Exhaustive within the universe. What CLOSED and EXTRA of an ancestor mean for its heirs, and conjuncts that themselves extend, are not judged.")

P(id="C06", title="Ill-formed schemas are rejected, well-formed ones accepted",
  statement="Loading a ShEx schema fails when some reference cycle passes through a negated reference (NOT, or a constraint on an EXTRA predicate) or when a referenced shape is not declared, and loading does not reject schemas for those reasons otherwise.",
  over=["inputs", "programs"], quant="all two-label schemas of the universe of shape expressions, three-label chains, and schemas with an undeclared label in every reference position",
  why="whether a cycle is negated depends on every position a reference can occupy and on the combination of edges between labels",
  files=["shex_ast/src/ir/dependency_graph.rs", "shex_ast/src/ir/shape_expr.rs", "shex_ast/src/ir/shape.rs", "shex_ast/src/ir/ast2ir.rs"],
  mech=[("DependencyGraph::neg_cycles", "shex_ast/src/ir/dependency_graph.rs"), ("add_edges", "shex_ast/src/ir/shape_expr.rs")],
  observe=["SchemaIR::populate_from_schema_json", "ShExParser", "rudof_lib schema loading"],
  technique="exhaustive enumeration of schemas vs an independently computed signed dependency graph",
  note="Exhaustive within the schema universe.")

P(id="C07", title="Node constraints of ShEx accept exactly the terms they describe",
  statement="A term satisfies a ShEx node constraint exactly when it satisfies its node kind, its datatype (same datatype and a lexical form of that datatype), every string facet (lengths count characters; patterns follow the stated flags), every numeric facet (compared by numeric value, over all numeric datatypes), and one element of its value set (term equality, IRI / literal / language stems, wildcards with exclusions). Not covered: lengths and patterns of blank node labels, totalDigits of non-integers below one, and whether a wildcard stem admits terms of another kind.",
  over=["inputs"], quant="1943 constraints written in ShExC and in ShExJ (node kinds, 20 datatypes, facets, facet pairs, value set elements with stems and exclusions, and pairs of them) x 215 terms (IRIs, blank nodes, plain, language-tagged and typed literals incl. ill-typed, boundary, INF/NaN and huge values), each term as focus node and as object of a triple constraint",
  why="the verdict depends on pairs (constraint, term) across datatypes and boundaries; tests sample a few of the ~400000 pairs",
  files=["shex_ast/src/ir/node_constraint.rs", "shex_ast/src/ast/cond_kind.rs", "shex_ast/src/ir/value_set_value.rs", "shex_ast/src/ir/value_set.rs", "rudof_rdf/src/rdf_core/term/literal/literal.rs", "rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs", "shex_ast/src/compact/shex_grammar.rs"],
  mech=[("check_node_*", "shex_ast/src/ast/cond_kind.rs"), ("ValueSetValue matching", "shex_ast/src/ir/value_set_value.rs"), ("literal datatype checks", "rudof_rdf/src/rdf_core/term/literal/literal.rs")],
  observe=["Validator::validate_shapemap -> ResultShapeMap"],
  technique="exhaustive enumeration of constraints x terms on the real parser, compiler and validator vs an independent XSD/ShEx oracle",
  note="Exhaustive within the listed constraints and terms; the oracle is an independent implementation of XSD lexical spaces, exact numeric comparison and ShEx value sets.")


_SW = ["shex_ast/src/compact/shex_grammar.rs", "shex_ast/src/compact/shex_parser.rs", "shex_ast/src/ast", "shex_ast/src/ir/ast2ir.rs", "shex_ast/src/ir/cache"]
_SWN = "Masks: a number after - in a value set (exclusion or literal), language tags compared lower-cased, a language wildcard and the empty language stem are one, ill-formed literals in value sets, regular expression escapes outside the ShExC grammar, relative IMPORT IRIs."
P(id="C08", title="A schema means the same in compact syntax, ShExJ and compiled form",
  statement="A ShEx schema read from compact syntax, in any layout (full IRIs, prefixed names or IRIs relative to a base; any white space, comments and keyword case), is the schema its ShExJ form describes: same labels, expressions, cardinalities, value sets, annotations, semantic actions, start, imports. Including a named triple expression, however often, means what writing it out means. ShExJ written by rudof reads back as the same schema. Compiled schemas from either syntax, and one saved to and loaded from the schema cache, give the same verdicts.",
  over=["programs", "inputs"], quant="~8000 schemas of a bounded ShExJ grammar (value sets and pairs of their elements, node kinds, datatypes, facets, 11 cardinalities, nested choices and sequences with names, annotations and actions, nested AND/OR/NOT, EXTENDS/ABSTRACT/EXTERNAL/START/IMPORT) x up to 18 layouts",
  why="parsers, ShExJ (de)serialization and the compiled cache are separate implementations of one language; they differ on rarely combined constructs and layouts",
  files=_SW, mech=[("ShExParser", "shex_ast/src/compact/shex_parser.rs"), ("grammar", "shex_ast/src/compact/shex_grammar.rs"), ("SchemaIR cache", "shex_ast/src/ir/cache")],
  observe=["ShExParser::parse -> Schema", "serde_json of Schema", "SchemaIR::populate_from_schema_json", "cache writer/reader", "Validator::validate_shapemap"],
  technique="exhaustive enumeration of a bounded schema grammar x layouts; an independent ShExC writer and canonical ShExJ as oracle for every pair of representations",
  note="Exhaustive within the bounded grammar and layouts. " + _SWN)
P(id="C09", title="Printed compact syntax reads back as the same schema",
  statement="The compact syntax rudof prints for a ShEx schema can be read, and gives the same schema again: same labels, expressions, grouping, cardinalities, value sets, annotations, semantic actions, start and imports, with strings, patterns and numbers intact. Printing does not fail.",
  over=["programs"], quant="the ~8000 schemas of C08's grammar, with and without a prefix map, each printed and read back",
  why="the printer has a case per construct and has to place brackets, quotes and escapes for every nesting; the tests print a few schemas and compare text",
  files=["shex_ast/src/compact/shex_compact_printer.rs", "shex_ast/src/compact/compact_printer.rs", "shex_ast/src/compact/shex_grammar.rs"],
  mech=[("ShExFormatter", "shex_ast/src/compact/shex_compact_printer.rs"), ("pp_object_value", "shex_ast/src/compact/compact_printer.rs")],
  observe=["ShExFormatter::format_schema", "ShExParser::parse"],
  technique="exhaustive enumeration of a bounded schema grammar; print, parse, compare canonical ShExJ",
  note="Exhaustive within the bounded grammar. " + _SWN)

_SHM = ["shacl/src/validator/engine/validate.rs", "shacl/src/validator/engine/native.rs"]
_SHO = ["shacl ShaclProcessor::validate -> ValidationReport results"]
P(id="C11", title="SHACL constraint components report exactly the violations",
  statement="For every SHACL Core constraint component (class, datatype, nodeKind, min/max count, ranges, lengths, pattern, languageIn, uniqueLang, in, hasValue, equals, disjoint, lessThan, lessThanOrEquals, closed), validating a focus node gives exactly one result per violating value (or per focus node for the counting components), with that focus node, path, value, component, source shape and severity, and no result otherwise. Not covered: lessThan between strings with the same language tag, and sh:datatype xsd:date of ill-formed dates.",
  over=["inputs"], quant="~100 constraints and pairs of them x ~65 terms (IRIs, blank nodes, plain, tagged and typed literals, ill-typed and boundary values) on node shapes; each x ~700 sets of values on property shapes; property pair constraints x pairs of value sets; closed shapes x subsets of properties",
  why="the outcome depends on combinations of constraint and term kinds (ill-typed, tagged, blank, literal focus nodes) that tests sample",
  files=["shacl/src/validator/constraints/", "rudof_rdf/src/rdf_core/term/literal/literal.rs"] + _SHM,
  mech=[("native constraint validators", "shacl/src/validator/constraints/core"), ("literal comparison", "rudof_rdf/src/rdf_core/term/literal/literal.rs")],
  observe=_SHO,
  technique="exhaustive enumeration of constraints x terms / value sets on the real shapes parser, compiler and native engine vs an independent model of SHACL Core",
  note="Exhaustive within the universe; the model is an independent implementation of the SHACL Core definitions.")

P(id="C12", title="SHACL property paths select exactly the value nodes of the specification",
  statement="The value nodes of a property shape are the set of nodes reached from the focus node through its path: predicate, inverse, sequence, alternative, zero-or-more, one-or-more and zero-or-one paths, nested in any way, on any graph including cycles, literals in the middle of a path and literal focus nodes.",
  over=["inputs", "programs"], quant="all 738 path expressions to depth 2 (and selected of depth 3) x all 512 p-digraphs / mixed graphs on 3 nodes with literals (1536 focus nodes)",
  why="closures over cycles, inverse of complex paths and literals inside a path only go wrong in particular combinations of path and graph",
  files=["rudof_rdf/src/rdf_core/neighs_rdf.rs", "rudof_rdf/src/rdf_core/path.rs", "shacl/src/validator/engine/value_nodes_ops.rs"],
  mech=[("objects_for_shacl_path", "rudof_rdf/src/rdf_core/neighs_rdf.rs"), ("path parsing", "rudof_rdf/src/rdf_core/path.rs")],
  observe=_SHO,
  technique="exhaustive enumeration of path expressions x graphs; value nodes read off a real validation report and compared with a relational-algebra model of paths",
  note="Exhaustive within the path depth and graph size.")

P(id="C13", title="SHACL targets select exactly the focus nodes",
  statement="The focus nodes of a shape are exactly those of its targets (sh:targetNode, sh:targetClass and implicit class targets including instances of direct and indirect subclasses, sh:targetSubjectsOf, sh:targetObjectsOf), each validated once per shape; deactivated shapes and shapes without targets produce no results; severities are those of the shape.",
  over=["inputs"], quant="all subclass digraphs on 3 classes x class and implicit class targets; 130 combinations of up to two targets, deactivated flags and severities x 48 graphs",
  why="class targets depend on the transitive closure of rdfs:subClassOf (cycles included) and combinations of targets overlap",
  files=["shacl/src/validator/index/class.rs", "shacl/src/validator/engine/focus_nodes_ops.rs"] + _SHM,
  mech=[("ClassIndex", "shacl/src/validator/index/class.rs"), ("focus_nodes", "shacl/src/validator/engine/native.rs")],
  observe=_SHO,
  technique="exhaustive enumeration of subclass graphs and target combinations vs an independent model; result multisets compared",
  note="Exhaustive within the universe.")

P(id="C14", title="Logical, shape-based and nested SHACL shapes follow the specification",
  statement="Conformance of a node with a shape built from sh:and, sh:or, sh:not, sh:xone, sh:node, nested sh:property and sh:qualifiedValueShape (with disjoint siblings and min/max counts) is the one SHACL defines, whatever other shapes and focus nodes are validated in the same run (results cached for one shape or focus node never leak into another), and the results are exactly those of the specification.",
  over=["inputs", "programs", "histories"], quant="all shape expressions to depth 2 over the operators x 81 focus nodes; all pairs of targeted shapes that share sub-shapes; shape graphs where every shape is targeted; 1024 combinations of two or three qualified sibling shapes",
  why="the engine caches results per (node, shape) and shares them between shapes; whether a cached entry is complete only matters for particular nestings and orders of evaluation",
  files=["shacl/src/validator/constraints/core/logical/", "shacl/src/validator/constraints/core/shape_based/", "shacl/src/validator/cache/"] + _SHM,
  mech=[("Validate::validate for IRShape", "shacl/src/validator/engine/validate.rs"), ("ValidationCache", "shacl/src/validator/cache/mod.rs"), ("QualifiedValueShape", "shacl/src/validator/constraints/core/shape_based/qualified_value_shape.rs")],
  observe=_SHO,
  technique="exhaustive enumeration of shape expressions and of sequences of shapes validated in one run vs a cache-free model of SHACL conformance",
  note="Exhaustive within the universe of shapes; recursive shapes are not covered (SHACL leaves them undefined).")

P(id="C15", title="The SPARQL engine of SHACL gives the same report as the native one",
  statement="Validating with the SPARQL engine gives exactly the results SHACL defines, as the native engine does: same focus nodes, paths, values (with their lexical forms), components, sources and severities, blank nodes and literals included. Not covered: comparisons the SPARQL backend library decides itself (values outside the value space of a derived integer type, integers above 64 bits, boolean thresholds).",
  over=["inputs", "programs"], quant="the universes of C11, C13 and C14 validated with ShaclValidationMode::Sparql",
  why="the engine turns terms into query text; terms that cannot be written in a query (blank nodes) or that the query engine rewrites (lexical forms) only show with particular terms",
  files=["shacl/src/validator/engine/sparql.rs", "shacl/src/validator/constraints/mod.rs", "shacl/src/validator/constraints/core/"],
  mech=[("SparqlEngine", "shacl/src/validator/engine/sparql.rs"), ("term_as_sparql", "shacl/src/validator/constraints/mod.rs")],
  observe=_SHO,
  technique="exhaustive enumeration of the universes of C11, C13 and C14 on the real SPARQL engine vs the same independent model",
  note="Exhaustive within the universe.")

P(id="C10", title="A schema with imports behaves as the schema flattened into one file",
  statement="A ShEx schema that imports others (in ShExC or ShExJ, by relative or absolute IRI, with or without extension, prefixed, against a declared or an implied base, directly, repeatedly, transitively or in cycles, also through the root) validates exactly as the one schema with the declarations of all the files reached, each counted once; the start shape is that of the root alone; a missing file or an undefined reference is a load error, not a schema with holes.",
  over=["programs", "inputs"], quant="all 512 import digraphs over 3 files x 64 reference patterns x formats (quick: 1 of 8 of these), 6 import graphs over 4 files x all pairs of the 7 ways to write an import x 16 format patterns, start declarations, missing files and roots read from a string",
  why="that each file counts once, and with its own base and prefixes, depends on the import graph and on how each import is spelt; tests have a handful of acyclic or trivially cyclic imports",
  files=["shex_ast/src/ir/schema_ir.rs", "shex_ast/src/ir/ast2ir.rs", "rudof_lib/src/api/shex/implementations", "shex_ast/src/compact/shex_parser.rs"],
  mech=[("import resolution", "shex_ast/src/ir/schema_ir.rs"), ("load_shex_schema", "rudof_lib/src/api/shex/implementations")],
  observe=["Rudof::load_shex_schema", "validate_shex -> results of every node and label"],
  technique="exhaustive enumeration of import graphs (files on disk) loaded by the real session vs the flattened schema's model",
  note="Exhaustive within the stated graphs. Not covered: a label declared in two files, one file imported under several non-root IRIs, roots read from a string that are imported.")

P(id="C16", title="A SHACL validation report says the same in every form",
  statement="A SHACL validation report has exactly one verdict and set of results: focus node, path, value, component, source shape, severity and messages as SHACL defines them from the shapes graph. Every form of it says the same: the report object, its RDF in every format (read back by any reader, including rudof's own), the conforms/does-not-conform verdict, and the tables in every sort order. Nodes of the report are not confused with blank nodes of the data.",
  over=["programs", "inputs"], quant="~90 constraint components x kinds of shape x message sets x severities x both engines; all subsets of up to 3 of a pool of shapes in every form; data with IRIs, blank nodes labelled like generated ones, and literals with quotes and newlines",
  why="each form has its own writer, and blank nodes, messages and paths are combined with them in ways no sample report shows",
  files=["shacl/src/validator/report/mod.rs", "shacl/src/validator/report/result.rs", "shacl/src/validator/engine/validate.rs", "shacl/src/validator/constraints/mod.rs", "rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs", "rudof_lib/src/display/table.rs"],
  mech=[("ValidationReport", "shacl/src/validator/report/mod.rs"), ("serialize_shacl_validation_results", "rudof_lib/src/api/shacl/implementations/serialize_shacl_validation_results.rs")],
  observe=["Validate -> ValidationReport", "ValidationReport::to_rdf / parse", "Rudof::serialize_shacl_validation_results"],
  technique="exhaustive enumeration of shapes x messages x severities and of shape subsets; every form of the real report read back independently and compared with the SHACL model",
  note="Exhaustive within the universe; default messages are unspecified and several messages of one language are not covered.")

P(id="C17", title="A SHACL shapes graph that is written out reads back as the same shapes",
  statement="Writing a compiled SHACL schema as RDF (Turtle, RDF/XML, N-Triples) and reading it back gives shapes that validate exactly as SHACL defines for the original: all constraint components and parameters (literals with their datatypes and language tags, lists, nested and blank-node shapes, qualified and closed shapes), paths, targets and deactivation survive.",
  over=["programs", "inputs"], quant="every shapes graph of the universes of C11 to C14, written and read back through three formats in turn, validated on every data graph of those universes",
  why="the writer has a branch per component, parameter kind and path form; a wrong or missing one loses or changes a constraint silently, and only for the schemas that use it",
  files=["shacl/src/ir/component.rs", "shacl/src/ir/node_shape.rs", "shacl/src/ir/property_shape.rs", "shacl/src/ir/schema.rs", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"],
  mech=[("register", "shacl/src/ir/component.rs"), ("IRSchema::build_graph", "shacl/src/ir/schema.rs"), ("add_bnode", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs")],
  observe=["IRSchema -> RDF -> IRSchema -> ValidationReport"],
  technique="exhaustive enumeration of shapes graphs written and read back by the real code, validated on all data graphs vs the independent SHACL model",
  note="Exhaustive within the universe.")

P(id="C19", title="RDF data means the same in every syntax and reads back as it was written",
  statement="Reading a document in N-Triples, N-Quads, Turtle, TriG, N3, RDF/XML or JSON-LD gives exactly the set of triples it states (those of all its graphs, for formats with named graphs), up to the names of blank nodes, whatever shorthand the syntax uses: prefixed names with escapes, predicate and object lists, nested blank nodes, collections, abbreviated and long literals, property attributes, contexts. Relative IRIs are resolved against the base that the document declares, else the one of the caller, in every syntax that has them; where there is neither, the document is rejected. Malformed N-Triples and N-Quads are rejected. A graph written in any of the formats, under any prefix map, reads back as the same graph, through the graph type and through load_data and serialize_data of the library, and a term that goes through rudof's own literal type keeps its lexical form, datatype and language.",
  over=["programs", "inputs"], quant="2534 graphs (each of 111 literals, 23 subjects, 10 predicates in place; every set of up to 3 of 24 core triples) in 34 document styles x 2 bases; 70 relative spellings x 6 ways to give the base; 292 nested structures; every cut and one-character edit of 6 documents; 6 prefix maps x 7 formats written",
  why="a graph has dozens of documents and the documents of a graph differ in exactly the characters that escapes, bases and prefixes are about; tests read one small Turtle file",
  files=["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_rdf/src/rdf_core/term/literal/literal.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_lib/src/api/data/implementations/load_data.rs", "rudof_lib/src/api/data/implementations/serialize_data.rs", "rudof_lib/src/formats/data.rs"],
  mech=[("OxigraphInMemory::merge_from_reader", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"), ("BuildRDF::serialize", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"), ("read_rdf_data", "rudof_lib/src/api/data/implementations/load_data.rs")],
  observe=["OxigraphInMemory::from_str, quads, prefixmap", "Rudof::load_data, serialize_data", "ConcreteLiteral from and to oxrdf::Literal"],
  technique="exhaustive enumeration of graphs x documents on the real readers and writers vs the triples the document was generated from and an own N-Quads reader",
  note="Exhaustive within the universe. Not judged: RDF/XML of predicates without a local name or characters XML cannot hold, rdf:JSON in JSON-LD, Lax mode (C18), triple terms.")
P(id="C21", title="An IRI denotes the same node however and wherever it is written",
  statement="In ShEx schemas and shape maps a prefixed name denotes the concatenation of the namespace and its (unescaped) local name, a relative reference what RFC 3986 resolves it to against the base in force at that point, with BASE and PREFIX themselves resolved against the base before them; unknown prefixes and invalid escapes are errors. The same reference in a schema, a shape map and a Turtle document denotes the same node. Prefix maps resolve and qualify inversely: a qualified name resolves to the IRI it was made from.",
  over=["inputs", "programs"], quant="all references x positions x prefix/base declarations, all sequences of up to 3 declarations x base parameters, all prefix maps of up to 3 entries x IRIs",
  why="the meaning of a name depends on the sequence of declarations before it and on characters at the edges of the grammar; schema, map and data are read by different parsers that must agree",
  files=["shex_ast/src/compact/shex_grammar.rs", "shex_ast/src/compact/shex_parser.rs", "shex_ast/src/compact/grammar.rs", "prefixmap/src/prefix_map.rs", "rudof_iri/src/iri", "shex_ast/src/ast"],
  mech=[("iri / prefixed_name", "shex_ast/src/compact/shex_grammar.rs"), ("PrefixMap", "prefixmap/src"), ("IriS::resolve", "rudof_iri/src")],
  observe=["ShExParser::parse", "ShapeMapParser::parse", "OxigraphInMemory::from_str", "PrefixMap::resolve / qualify"],
  technique="exhaustive enumeration of references, positions and declaration sequences on the real parsers vs a reference RFC 3986 resolver",
  note="Exhaustive within the stated references. Not compared: relative IRIs without any base.")

P(id="C18", title="The in-memory graph is a set of triples under every history of changes",
  statement="After any sequence of loading documents (merging), adding and removing triples, adding types, asking for fresh blank nodes, cloning and building the SPARQL store, every way of looking at the graph (all triples, pattern matching, neighbourhood functions, SPARQL queries after ensure_store/check_store, serialization, length) shows the same set of triples, namely the one the changes amount to. A document that cannot be read in strict mode leaves the graph as it was; in lax mode the readable triples are added. A fresh blank node does not occur in the graph. A clone does not see later changes of the original, nor the other way round. A closed node shape over such a graph sees all the triples of the node. Blank node labels of different documents are not renamed apart (not decided here).",
  over=["histories", "inputs"], quant="all sequences of up to 3 operations out of 21 (4 in a longer phase; 5 in thorough) on the in-memory graph and on RdfData, observed completely after the sequence",
  why="the graph keeps several structures (triple set, lazily built query store, blank node counter, shared copies) that have to stay in step; that a query after a change sees the change depends on the history, of which tests exercise load-then-look",
  files=["rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs", "rudof_rdf/src/rdf_impl/backend.rs", "sparql_service/src/srdf_data/rdf_data.rs", "rudof_rdf/src/rdf_core/neighs_rdf.rs"],
  mech=[("OxigraphInMemory", "rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs"), ("RdfBackend", "rudof_rdf/src/rdf_impl/backend.rs"), ("RdfData", "sparql_service/src/srdf_data/rdf_data.rs")],
  observe=["NeighsRDF", "QueryRDF", "BuildRDF::serialize", "OxigraphInMemory::len"],
  technique="exhaustive enumeration of operation histories on the real graph vs a set-of-triples model, all observers compared after each history",
  note="Exhaustive within the histories of the stated length over the fixed documents and triples.")

P(id="C22", title="A session's results depend only on what is loaded now",
  statement="In a rudof_lib session every operation succeeds exactly when what it needs is loaded and well-formed, a failing operation changes nothing, and what the session shows afterwards (data, schemas, shape map, validation and query results) is determined by the loads and resets in effect: merging adds, not merging replaces, several inputs of one load all count, resets forget exactly their part, results are those of the last run on the data and schema of that moment, whether the schema was parsed or loaded precompiled, and observers change nothing. Default prefixes that are added, renamed, copied or removed apply to later loads of data, schemas and queries that do not declare the prefix themselves.",
  over=["histories"], quant="all sequences of 2 operations (thorough 3) out of 39 from the empty and from a fully used session, sequences of 4 to 6 over the data/query, ShEx and SHACL subsets, and all sequences of 4 (5) out of 13 default prefix operations",
  why="the session keeps compiled schemas, validators, query stores and results side by side; that one of them is stale after a particular sequence of calls is invisible to tests that run one load and one validation",
  files=["rudof_lib/src/rudof.rs", "rudof_lib/src/api/data/implementations/load_data.rs", "rudof_lib/src/api/shex/implementations", "rudof_lib/src/api/shacl/implementations", "rudof_lib/src/api/query/implementations"],
  mech=[("Rudof", "rudof_lib/src/rudof.rs"), ("load_data", "rudof_lib/src/api/data/implementations/load_data.rs"), ("default_prefix_header", "rudof_lib/src/utils")],
  observe=["serialize_data", "shex_validation_results", "serialize_shacl_validation_results", "serialize_query_results", "prefixes"],
  technique="exhaustive enumeration of operation histories on the real session, each replayed against a reference state machine",
  note="Exhaustive within the histories of the stated lengths over fixed documents.")

P(id="C25", title="A DCTAP profile converted to ShEx accepts exactly what its rows describe",
  statement="The ShEx schema that rudof converts a DCTAP table into has one shape per shapeID, wherever in the table its rows stand, and a node conforms to it exactly when for every row of the shape its values of the property are as many as mandatory (at least one) and repeatable (more than one) allow and each is of one of the node types, of one of the datatypes, one of the values of the pick list (literals of the datatype, or of xsd:string for LITERAL rows, otherwise IRIs) and conforms to one of the shapes that the row gives; the shape named by extendsID holds as well; shape and property labels become rdfs:label annotations. The order, spelling and padding of columns, unknown columns, quoting, line ends, blank rows, cells left out after the last one filled, repeated or omitted shapeIDs and the configured delimiters make no difference. A table with unknown prefixes, node types or booleans, or references to shapes that it does not define, is rejected.",
  over=["programs", "inputs"], quant="2400 statements (4 cardinalities x 10 node types x datatypes x pick lists x value shapes) on all nodes with up to 2 of 11 values; 1058 pairs of statements; 24 profiles of 3 shapes x 613 layouts; every cell broken in 10 ways",
  why="a table of three shapes can be laid out in thousands of ways and each statement combines six independent cells; tests convert a handful of tables and compare texts, in which a dropped cell is hard to see",
  files=["dctap/src/tap_reader.rs", "dctap/src/tap_headers.rs", "dctap/src/dctap.rs", "dctap/src/tap_shape.rs", "shapes_converter/src/tap_to_shex/tap2shex.rs", "shapes_converter/src/tap_to_shex/tap2shex_config.rs", "rudof_lib/src/api/conversion/implementations/show_schema_conversion.rs"],
  mech=[("TapReader::read_shape", "dctap/src/tap_reader.rs"), ("Tap2ShEx::convert", "shapes_converter/src/tap_to_shex/tap2shex.rs")],
  observe=["Rudof::show_schema_conversion (dctap to shex)", "Validator::validate_shapemap with the converted schema"],
  technique="exhaustive enumeration of tables x layouts on the real converter and validator vs the reference ShEx model of the rows",
  note="Exhaustive within the universe. Not judged: tables without the columns mandatory and repeatable, patterns and the constraint types that rudof does not convert, property placeholders, XLSX input.")
P(id="C26", title="Property graph elements conform to exactly the alternatives of a PG type",
  statement="A node of a property graph conforms to a PG-Schema node type exactly when some alternative of the type has exactly the node's labels and a record type that the node's properties satisfy: every key of it present (unless OPTIONAL), no other key (unless the record is open), and the values of each key within cardinality, data type and CHECK condition. & merges the labels and contents of an alternative of each side, | keeps the alternatives of both sides with the contents that belong to their labels, @T stands for the alternatives of T wherever T is declared (in terms of itself is an error, not a crash), ',' and '||' combine and choose properties, & and | of any number of value types require all or one of them. An edge conforms when it, its source and its target do. The result of a type map has one entry per association in order and is valid when all conform, in text, JSON and CSV; a graph loaded in parts has for every name the labels and values of all parts.",
  over=["programs", "inputs"], quant="label expressions of depth 2 x 15 label sets; value types with 9 cardinalities and conditions of up to 2 operators x all sets of up to 3 of 13 values, lists of up to 3 types; property expressions of up to 3 leaves x 64 records; types that refer to types with contents, depth 2, in all orders of declaration, x 215 nodes; edge types of 9 x 6 x 9 specifications x 150 edges; type maps of 2 associations; graphs loaded in 2-3 parts",
  why="the meaning of a type is a set of alternatives that multiply under & and references; tests look at one node of each kind per schema, where keeping labels and contents apart makes no difference",
  files=["pgschema/src/formal_base_type.rs", "pgschema/src/label_property_spec.rs", "pgschema/src/property_value_spec.rs", "pgschema/src/record_type.rs", "pgschema/src/value_type.rs", "pgschema/src/boolean_expr.rs", "pgschema/src/card.rs", "pgschema/src/value.rs", "pgschema/src/edge_type.rs", "pgschema/src/type_map.rs", "pgschema/src/pg.rs", "pgschema/src/pgs.rs", "pgschema/src/parser/pgs_builder.rs", "pgschema/src/parser/pg_builder.rs", "rudof_lib/src/api/pgschema"],
  mech=[("FormalBaseType::conforms", "pgschema/src/formal_base_type.rs"), ("LabelPropertySpec::semantics", "pgschema/src/label_property_spec.rs"), ("RecordType::conforms", "pgschema/src/record_type.rs"), ("PropertyGraph::merge", "pgschema/src/pg.rs")],
  observe=["TypeMap::validate -> ValidationResult", "TypeMap::compare_with_result", "Rudof::validate_pgschema, results as text, JSON, CSV"],
  technique="exhaustive enumeration of schemas x elements on the real parsers and validator vs a model that enumerates the alternatives of a type",
  note="Exhaustive within the universe. Not judged: precedence of operators written without parentheses, conditions that compare values of different types under NOT or OR, elements with neither labels nor properties (the graph syntax of rudof has none).")
