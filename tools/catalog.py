"""Every property: statement, anchors, and how it is decided."""
P = []
NA = []
NOTES = ("Every check is `python3 check.py <ID>`: a rustc driver (driver/driver.rs, nightly rustc_private) dumps the "
         "type-checked MIR of every workspace crate from /repo's current tree, cached by a hash of the sources, and "
         "abstract interpretation over it (lib/absint.py) decides the rules in checks/. known_findings.json lists the "
         "genuine defects that were recorded rather than repaired. tools/mkmeta.py writes this file and "
         "properties.jsonl from tools/catalog.py.")

DF = "interprocedural field-sensitive dataflow (abstract interpretation) over rustc MIR"
TRUST = ("A sound-by-construction dataflow over the program's MIR up to the stated models of external functions "
         "(std, serde_json, pest, somewhat ...), which are trusted; the tables of names are confirmed by hand. ")


def inputs(text, over=("inputs",)):
    return {"over": list(over), "text": text}


def mech(*rows):
    return [{"name": n, "where": w} for n, w in rows]


def p(id, title, statement, quant, why, files, mechanism, technique=DF, note="", level="other"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=quant, why_tests_cant=why,
                  anchors={"files": list(files), "mechanism": mechanism}, technique=technique,
                  level=level, level_note=TRUST + note))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


# ------------------------------------------------------------------ J: the JSON AST
p("J01", "JSON output carries every part of the model under its AST member",
  "Writing any model as a JSON AST puts the content of each part of the model, completely and under no condition "
  "other than its being present, under the member name the Smithy JSON AST gives to that part, and never the content "
  "of a different part. Each kind of shape is written with its own `type`.",
  inputs("all models: every shape kind, member, trait, node value and optional part present or absent"),
  "the tests write a few sample models; a part that none of them populates can be dropped, swapped or made "
  "conditional on another part without any of them failing",
  ["atelier-json/src/writer.rs", "atelier-json/src/syntax.rs"],
  mech(("model_to_json", "atelier-json/src/writer.rs"), ("JsonWriter::write", "atelier-json/src/writer.rs")),
  note="Decides which model content reaches which JSON member under which conditions; not the textual formatting done by serde_json.")
p("J02", "Reading a JSON AST stores every member where it belongs, or fails",
  "Reading any JSON AST document stores the content of each member in the part of the model with that meaning, "
  "unchanged, whenever the member is present. Content of the wrong JSON type is reported as an error and never "
  "skipped, and numbers are never altered.",
  inputs("all JSON documents"),
  "the tests read a few well-formed documents; they reach neither most optional members nor most wrongly typed ones",
  ["atelier-json/src/reader.rs", "atelier-json/src/syntax.rs"],
  mech(("JsonReader::read", "atelier-json/src/reader.rs"), ("parse_json", "atelier-json/src/reader.rs")),
  note="Merge rules for duplicate definitions are left to M04.")

# ------------------------------------------------------------------ S: the Smithy IDL
p("S01", "Writing Smithy IDL writes the whole model, each part under its own keyword",
  "Writing a model as Smithy IDL writes the version, the metadata and every shape of the chosen namespace: each kind of shape, property, member "
  "and trait with its own keyword, whole, and whenever it is there; each kind of trait or metadata value in its own syntax; shapes of other "
  "namespaces by their full names; traits of foreign shapes as apply statements. A failing sink is an error.",
  inputs("all models, namespaces and sinks", ("inputs", "fault_sequences")),
  "the tests write three models; most properties, kinds of value and member traits occur in none of them",
  ["atelier-smithy/src/writer.rs"],
  mech(("SmithyWriter::write", "atelier-smithy/src/writer.rs")),
  note="Layout and the grammar of the text between the pieces are not decided.")
p("S02", "Reading Smithy IDL keeps every part of the source in its own place",
  "Every statement of a Smithy document becomes a shape of its own kind with the name, members, properties, documentation and "
  "traits the source gives it; each keyword fills its own property, each form of value becomes its own kind of value, `use`, "
  "`apply`, metadata, namespace and version all take effect. Nothing is dropped or put elsewhere without an error.",
  inputs("all Smithy documents the grammar accepts"),
  "tests read a few documents and compare summaries; most combinations of statement, keyword, trait and value form occur in none of them",
  ["atelier-smithy/src/parser/smithy.rs", "atelier-smithy/src/reader.rs", "atelier-core/src/builder/shapes.rs"],
  mech(("SmithyReader::read, parse_*", "atelier-smithy/src/parser/smithy.rs")),
  note="From the parse tree on: which texts the grammar accepts, and how pest splits them, is not decided here.")

# ------------------------------------------------------------------ Q: selectors
p("S03", "Whatever parse tree a grammar can produce, its reader reads it",
  "A text the Smithy grammar or the selector grammar accepts is never refused, and never panics, because of its shape: wherever a "
  "reader takes a part there is one in every tree of the grammar, every kind of part that can occur is known there, and every token read "
  "without error handling is one its conversion accepts. Only what a text says (unknown names, numbers out of range) can be refused.",
  inputs("all parse trees of the two grammars"),
  "the trees of a grammar are infinitely many; optional parts, repetitions and alternatives combine in ways no sample of documents shows, "
  "and the readers take parts by position",
  ["atelier-smithy/src/smithy.pest", "atelier-smithy/src/parser/smithy.rs", "atelier-smithy/src/selector.pest",
   "atelier-smithy/src/parser/selector.rs"],
  mech(("parse_model and the functions below it", "atelier-smithy/src/parser/smithy.rs"),
       ("parse_selector and the functions below it", "atelier-smithy/src/parser/selector.rs"),
       ("grammars", "atelier-smithy/src/smithy.pest, atelier-smithy/src/selector.pest")),
  technique="typestate analysis of parse-tree cursors on rustc MIR, against automata built from the grammar; regular-language inclusion for tokens",
  note="pest itself is trusted to build trees as its rules say. A branch on something other than the tree makes a site undecided, and undecided sites raise no alarm.")
p("Q01", "Reading a selector keeps every part of it, as what it is",
  "Parsing the text of a selector makes exactly the expressions the text has, each of its own kind: shape types, attribute and scoped "
  "attribute tests with key, path, comparator, values and case mark, neighbors, functions and variables, in the source's order, whole. "
  "Every comparator and shape type of the syntax is read.",
  inputs("all selector texts"),
  "the tests parse some thirty selectors; most pairs of comparator, value form and optional part occur in none of them",
  ["atelier-smithy/src/parser/selector.rs", "atelier-smithy/src/selector.pest", "atelier-core/src/model/selector/mod.rs"],
  mech(("parse_selector", "atelier-smithy/src/parser/selector.rs"), ("selector.pest", "atelier-smithy/src/selector.pest"),
       ("Comparator::from_str, ShapeType::from_str", "atelier-core/src/model/selector/mod.rs")),
  technique=DF + ", and analysis of the pest grammar (reachability, ordered-choice shadowing)",
  note="How pest splits a text by its grammar is trusted; texts like an empty string that the syntax cannot say are not covered.")
p("Q02", "Printing a selector says every part of it in the selector syntax",
  "For every selector value, its text consists of the constants of the selector syntax and every part the value has, in the order of the "
  "syntax, whole and separated: brackets, path bars, comparators, commas, case mark, arrows, function and variable marks. A text value is "
  "quoted with a character it does not contain.",
  inputs("all selector values"),
  "tests print a few selectors; each optional part doubles the number of forms and most forms are printed by none",
  ["atelier-core/src/model/selector/mod.rs"],
  mech(("impl Display for Selector and its parts", "atelier-core/src/model/selector/mod.rs")),
  technique="one abstract interpretation of rustc MIR per Display and per combination of variant and optional parts",
  note="The printed form of a number or identifier alone is not decided here.")
p("Q03", "Selector constructors and builders build what their names say",
  "Every constructor, conversion and builder method of selectors keeps exactly what it is named after and given: shape type, comparator, "
  "function, neighbor or key, each argument whole and in its own place, and the case mark exactly when asked for. Adding appends, setting "
  "replaces, and turning a builder into a selector keeps everything added to it, in order.",
  inputs("all sequences of constructor and builder calls with any arguments", ("programs", "inputs")),
  "there are over two hundred constructors; a handful occur in tests, and those with one argument value each",
  ["atelier-core/src/builder/selector.rs", "atelier-core/src/model/selector/mod.rs"],
  mech(("SelectorBuilder, AttributeBuilder, ScopedAttributeBuilder", "atelier-core/src/builder/selector.rs"),
       ("AttributeComparison, ScopedAttributeAssertion constructors", "atelier-core/src/model/selector/mod.rs")),
  technique="one abstract interpretation of rustc MIR per constructor and per value of its switches")

p("Q04", "Selecting by shape type selects exactly the shapes of that type",
  "Evaluating a selector of shape types gives the shapes of the model that are of the type: number covers all eight numeric types, simpleType every simple type, collection lists and sets, the wildcard everything, and every other type itself only. "
  "Each expression selects among what the expression before it selected, starting from every shape of the model.",
  inputs("all models; all selectors made of shape types", ("programs", "inputs")),
  "the query crate has no tests at all",
  ["atelier-query/src/evaluate.rs", "atelier-query/src/projection.rs"],
  mech(("query", "atelier-query/src/evaluate.rs"), ("match_by_shape_type", "atelier-query/src/evaluate.rs")),
  technique="abstract interpretation of rustc MIR for every pair of selector type and kind of shape, against the table of the selector specification",
  note="Attribute, neighbor and function selectors are not implemented in the crate and not claimed.")

# ------------------------------------------------------------------ M: the semantic model
p("M01", "Equality, hashing and ordering of identifiers agree",
  "For every pair of identifiers, namespaces and shape identifiers: equal values have equal hashes, compare as equal in "
  "the ordering, and compare the same way in both directions; comparison takes into account every part of the value. "
  "The same holds for model values that define their own equality.",
  inputs("all pairs of identifiers, with and without member names, and all pairs of model values"),
  "tests compare a handful of identifiers; a collision between equality and hashing shows up only as a lost entry of a map",
  ["atelier-core/src/model/identity.rs", "atelier-core/src/model/shapes/mod.rs"],
  mech(("PartialEq/Hash/Ord for Identifier, NamespaceID, ShapeID", "atelier-core/src/model/identity.rs")))
p("M02", "Identifiers are valid by construction and print as they parse",
  "Every identifier, namespace and shape identifier made from text has been matched against the Smithy grammar of that kind of "
  "name, and the parts it is made of are the parts of that match; text that does not match is an error. Printing puts the parts "
  "and separators back so that the text parses to the same value.",
  inputs("all strings; all identifiers"),
  "tests try a list of good and bad strings; the language accepted is infinite and the unchecked constructors can be called with anything",
  ["atelier-core/src/model/identity.rs", "atelier-core/src/syntax.rs"],
  mech(("FromStr for Identifier, NamespaceID, ShapeID", "atelier-core/src/model/identity.rs"),
       ("new_unchecked", "atelier-core/src/model/identity.rs")),
  technique="language inclusion between the regular expressions in the source (DFA) and dataflow over MIR from match groups to fields",
  note="The regular expressions are read from the source and compared as languages with the Smithy grammar.")
p("M03", "Accessors of the model read and write the part they are named after",
  "Every accessor of a model type reads, tests, sets, unsets, adds to or removes from exactly the part it is named after; predicates "
  "are true exactly when the part is there (or the value is of the named kind), setters store what they are given, and iterators "
  "yield every element.",
  inputs("all values of the model types and all arguments"),
  "there are some 240 accessors, most of which no test calls, and none with every combination of absent and present parts",
  ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs", "atelier-core/src/model/shapes/aggregate.rs",
   "atelier-core/src/model/shapes/service.rs", "atelier-core/src/model/values.rs"],
  mech(("Model accessors", "atelier-core/src/model/mod.rs"), ("shape accessors (macros)", "atelier-core/src/macros.rs")))
p("M04", "Repeated definitions merge by the Smithy rules",
  "Defining a metadata key, a trait or a shape that is already defined keeps the existing value when both are equal, joins the two "
  "arrays (existing first) when both are arrays, and otherwise reports a conflict, leaving nothing overwritten. An unresolved shape "
  "is replaced by its definition, keeping all traits of both; two shapes are equal when everything but their traits is equal.",
  inputs("all pairs of models, keys, traits and shapes", ("inputs", "histories")),
  "tests merge a few pairs; which outcome applies depends on the combination of kinds, presence and equality of both sides",
  ["atelier-core/src/model/mod.rs", "atelier-core/src/model/shapes/mod.rs", "atelier-core/src/macros.rs"],
  mech(("Model::merge, add_metadata, add_shape", "atelier-core/src/model/mod.rs"),
       ("apply_with_value", "atelier-core/src/macros.rs"), ("equal_without_traits", "atelier-core/src/model/shapes/mod.rs")))
p("M05", "No failure is silently dropped",
  "Whenever an operation of the workspace or a library it calls can fail, its failure is propagated, reported or visibly acted upon; it "
  "is never discarded so that the caller is told of a success that did not happen.",
  inputs("every call of a fallible operation, whatever makes it fail", ("inputs", "fault_sequences")),
  "the failing case of most calls is reached by no test, and a dropped error is invisible by definition",
  ["atelier-core/src/model/mod.rs", "atelier-core/src/builder/mod.rs", "atelier-assembler/src/lib.rs", "atelier-json/src/reader.rs"],
  mech(("every call returning Result", "whole workspace")),
  technique="whole-program typestate over MIR: the failing case of every Result-valued local is followed to its consumer",
  note="A failure consumed by a branch is accepted when that branch does anything at all, or ends differently.")
p("M06", "Running actions collects every issue and stops early only on errors",
  "Running a list of validators or linters runs each of them on the model, in order, and returns every issue any of them reported, once each: a second run does not report the issues of the first again. With "
  "fail-fast, and only then, it stops after the first action that reported an issue of level error.",
  inputs("all lists of actions, models and issue levels, with and without fail-fast", ("inputs", "histories")),
  "the tests run one action at a time without fail-fast; the stop condition depends on what earlier actions reported",
  ["atelier-core/src/action/validate/mod.rs", "atelier-core/src/action/lint/mod.rs"],
  mech(("run_validation_actions", "atelier-core/src/action/validate/mod.rs"), ("run_linter_actions", "atelier-core/src/action/lint/mod.rs")))

# ------------------------------------------------------------------ M: the builder
p("M08", "A model builder produces the model it was told to build",
  "Converting a model builder gives a model in which every shape handed to the builder has its kind, its name, its members, references and "
  "properties and all its traits, each in the slot of the same meaning, whole, and whenever the builder has it; every shape name on the "
  "way is resolved, traits as traits and shapes as shapes, and nothing else gets into the model.",
  inputs("all builders, whatever combination of shapes, members, traits and references they hold"),
  "the tests build a handful of models; each of ten kinds of shapes has slots that no test fills, or fills only together with others",
  ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/shapes.rs"],
  mech(("conversion of a model builder", "atelier-core/src/builder/mod.rs"), ("shape and member builders", "atelier-core/src/builder/shapes.rs")))
p("M09", "The model builder resolves relative names in the order Smithy prescribes",
  "A qualified name stands for itself. A relative name stands for the shape of that name imported by a use, else the one in the default "
  "namespace, else the one of the prelude (a prelude trait for a trait, a prelude shape for anything else), else an unresolved shape of the "
  "default namespace; a name imported from two namespaces is an error.",
  inputs("all names and all sets of shapes and uses known to the builder", ("inputs", "histories")),
  "the result depends on what else the builder knows; tests cover two or three of the combinations",
  ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/id.rs"],
  mech(("relative shape id resolution", "atelier-core/src/builder/mod.rs")),
  technique="decision table: every outcome of the name resolution with its path conditions (MIR dataflow) against the prescribed order in 52 scenarios")
p("M10", "Every builder method does what it is named after",
  "Every method of the builders stores its argument, whole, in the part it is named after (replacing it or adding to it) and nowhere else; "
  "the methods named after a simple type, a trait or a kind of value make a shape, member, trait or value of that type, trait name, keys and "
  "kind; applying a trait by name reaches the named shape or member, whatever its kind.",
  inputs("all calls of some 170 builder methods in any order", ("inputs", "histories")),
  "most of these methods are called by no test",
  ["atelier-core/src/builder/mod.rs", "atelier-core/src/builder/shapes.rs", "atelier-core/src/builder/traits.rs", "atelier-core/src/builder/values.rs"],
  mech(("shape builders", "atelier-core/src/builder/shapes.rs"), ("trait builders", "atelier-core/src/builder/traits.rs"),
       ("value builders", "atelier-core/src/builder/values.rs"), ("apply", "atelier-core/src/builder/mod.rs")))

p("M07", "Walking a model shows the visitor everything in it",
  "Walking a model calls the visitor once for every metadata entry, with its key and value, and once for every shape, by the method of its kind, with its "
  "id, traits and body; and the member visitor, if there is one, for every member, lifecycle operation, operation, resource, input, output and error, under its own "
  "name, with its own target and traits. An error of the visitor ends the walk and is returned.",
  inputs("all models and all visitors"),
  "one test walks one model and prints what it sees",
  ["atelier-core/src/model/visitor.rs"],
  mech(("walk_model", "atelier-core/src/model/visitor.rs")))

# ------------------------------------------------------------------ R: RDF
p("R01", "The RDF form of a model says everything the model says, as documented",
  "Writing a model as RDF puts into the graph the model's node with its version and metadata and, for every resolved shape, the documented statements: its kind, "
  "members, references, lifecycle operations, identifiers, renames, traits and values, each under the documented name, on the node of the "
  "part it belongs to, whole, and whenever the model has it; and no others.",
  inputs("all models and trait values of any nesting"),
  "the one test writes one example model to the terminal and looks at nothing",
  ["atelier-rdf/src/writer.rs", "atelier-rdf/src/vocabulary.rs"],
  mech(("model_to_rdf", "atelier-rdf/src/writer.rs"), ("vocabulary", "atelier-rdf/src/vocabulary.rs")),
  note="The mapping is the one of the book (book/src/reference/rdf-*.md). The graph and Turtle libraries are trusted.")

p("R02", "Shape ids and their URNs are one to one",
  "The URN of a shape id is 'urn:smithy:' and the whole id with ':' before the shape and '/' before the member; every such URN is read back as that id, "
  "and a text that is not one (another scheme or naming system, an authority, query or fragment, other separators) is refused, so no two URNs are one id.",
  inputs("all shape ids; all IRIs"),
  "unit tests convert a handful of ids and refuse a handful of texts",
  ["atelier-rdf/src/urn.rs"],
  mech(("shape_to_iri, iri_to_shape, is_shape_iri", "atelier-rdf/src/urn.rs")),
  note="The splitting of an IRI into its parts is the IRI library's.")

# ------------------------------------------------------------------ L: the line-oriented form
p("L01", "The line-oriented form says everything about a model, in the documented lines",
  "The line-oriented form of a model has exactly the documented lines: one for every shape, every member, every entry of a service, operation or resource, "
  "every trait applied to a shape or member and every part of every trait and metadata value, each made of the documented words in the documented order "
  "around the model's own names. No content is left out, shortened or put into another kind of line, and the lines come out sorted, the same for equal models however they were built.",
  inputs("all models: ten kinds of shape, twenty kinds of entry, every kind of value at every depth"),
  "the tests compare the forms of a dozen models; rare entries, null and empty values and the order of hash maps hardly occur in them",
  ["atelier-core/src/io/lines.rs"],
  mech(("make_line_oriented_form and its helpers", "atelier-core/src/io/lines.rs"), ("LineOrientedWriter::write", "atelier-core/src/io/lines.rs")),
  note="Strings are written between quotes but, as existing expected outputs fix, not escaped: two models whose strings contain such quotes and line breaks may have one form; the property does not claim otherwise.")

# ------------------------------------------------------------------ X: tools
p("X01", "The assembler reads every supported file below its paths, once, and loses none",
  "The model assembled from a set of paths is the merge of the models of every file at or below them, in any directory, whose extension is registered (in any case), each read with the reader registered for it. "
  "A file that cannot be opened or read, or that conflicts with another, makes the whole fail with an error; a file type is found again by every extension and MIME type it was registered with.",
  inputs("all sets of paths and directory trees; all file names and extensions; all registrations"),
  "the tests assemble two small directories; nested, hidden, repeated, upper-case, unreadable or conflicting files never occur",
  ["atelier-assembler/src/lib.rs"],
  mech(("FileTypeRegistry", "atelier-assembler/src/lib.rs"), ("expand_path, read_model, TryFrom for Model", "atelier-assembler/src/lib.rs")),
  note="The walk of the file system is the standard library's; an unreadable directory still panics (existing behaviour, not claimed).")

p("X02", "The command line tool does what each command says, with what it was given",
  "Each sub-command assembles exactly the files given, with the search path asked for, and passes the assembled model to its own action or the writer of its own format (for the Smithy IDL, with the namespace asked for or the only one of the model). "
  "Output goes to the file asked for, created if need be, or to standard output; every issue is printed with its level, message, reporter and element. "
  "Every failure is reported by a failure status, without a panic.",
  inputs("all command lines: every sub-command, format, combination of options and environment; all failures of files, models and writers"),
  "the tool has no tests at all",
  ["cargo-atelier/src/actions.rs", "cargo-atelier/src/command_line.rs", "cargo-atelier/src/report.rs", "cargo-atelier/src/lib.rs", "cargo-atelier/src/bin/main.rs"],
  mech(("main", "cargo-atelier/src/bin/main.rs"), ("command line", "cargo-atelier/src/command_line.rs"), ("actions", "cargo-atelier/src/actions.rs"), ("report", "cargo-atelier/src/report.rs")),
  technique="abstract interpretation of rustc MIR of the whole tool, once per sub-command, setting and failing operation",
  note="The parsing of arguments is structopt's; an issue skipped by a test on its own element identifier would not be noticed.")

p("X03", "The libraries have no effects of their own",
  "Nothing any library crate does, whatever model, text or query it is given, prints to or reads from the standard streams, ends the process, changes its environment, starts a thread or a process, or creates, changes or removes a file. "
  "The only exception is the helper that writes a model to the file it is given.",
  inputs("all calls of all functions of the nine library crates"),
  "no test looks at what is printed or at the file system, and a stray effect may sit on any branch",
  ["atelier-core/src", "atelier-json/src", "atelier-smithy/src", "atelier-rdf/src", "atelier-query/src", "atelier-assembler/src", "atelier-describe/src"],
  mech(("all functions", "atelier-core/src"), ("query", "atelier-query/src/evaluate.rs"), ("reader", "atelier-json/src/reader.rs")),
  technique="effect analysis: every call of every function in rustc MIR against the operations that have effects",
  note="Reading files and environment variables is the purpose of the assembler and is not counted; the command line tool and the test helpers may print.")

p("X04", "Reading and writing helpers use the file, text and model they are given",
  "Reading a model from a file or text gives what the reader makes of the whole of that file or text; writing a model to a file or text leaves there what the writer writes of that model, whether or not the file was there before. "
  "A file that cannot be opened, and a reader or writer that fails, make the helper fail.",
  inputs("all models, readers, writers, paths and texts; all failures"),
  "the tests only read and write strings, with writers that do not fail; the file helpers are never called",
  ["atelier-core/src/io/mod.rs"],
  mech(("read_model_from_file, write_model_to_file", "atelier-core/src/io/mod.rs"), ("read_model_from_string, write_model_to_string", "atelier-core/src/io/mod.rs")))

# ------------------------------------------------------------------ D: diagrams and documents
p("D01", "A class diagram shows every shape with its own parts in its own package",
  "Every service, resource, structure, union and simple shape of a model becomes one class, in the package of its own namespace, with the stereotype of its kind (or of the error or trait it is), its traits, its documentation as a note, its members, identifiers and version. "
  "Every operation appears under its own name, or, for a lifecycle operation, the name of its role, with its own input and output; every resource of a service or resource is linked to it. A reference to something the model does not define does not stop the writer.",
  inputs("all models: all shape kinds, traits and values, unresolved references, any number of namespaces"),
  "the tests write one model with one namespace and look at nothing in the result; other roles, kinds, namespaces and unresolved targets never occur",
  ["atelier-describe/src/plant_uml/writer.rs"],
  mech(("PlantUmlWriter", "atelier-describe/src/plant_uml/writer.rs")),
  note="Lists, sets, maps and standalone operations are not drawn (the writer documents itself as incomplete); the order of packages and classes is not claimed.")
p("D02", "A GraphML graph has a node for every shape and an edge for every reference",
  "Every resolved shape of a model becomes one node with its id and the type of its kind, a service also with its version; every trait applied to it and every reference it makes to another shape becomes an edge between the two, named after the member the reference is. "
  "Edge ids are distinct however many edges there are, every data key is declared, and free text is escaped, so that the result is well-formed.",
  inputs("all models: all shape kinds, references, traits, numbers of edges and version texts"),
  "the test writes one small model and looks at nothing in the result; most references, large models and texts that need escaping never occur",
  ["atelier-describe/src/graphml/writer.rs"],
  mech(("GraphMLWriter, GraphMLVisitor", "atelier-describe/src/graphml/writer.rs")),
  note="Resource identifiers and renames have no edge (not documented as part of the mapping).")

p("D03", "The generated document describes every shape of the model, whole",
  "The document has, for every shape of every namespace, a heading with its name and kind, and under it every member with its target, every reference it makes (inputs, outputs, errors, the operations of each role, resources, renames), its version, documentation and links, and every trait value with its path. "
  "Each is there whenever it exists, whatever else does or does not, under its own name, and reaches the document that is written. No trait value makes the writer fail.",
  inputs("all models: all shape kinds, references, trait values of any nesting, metadata"),
  "the tests write a few shapes and look at some of the text; most kinds, roles and values, alone or together, never occur",
  ["atelier-describe/src/document/writer.rs"],
  mech(("DocumentationWriter", "atelier-describe/src/document/writer.rs")),
  note="Where the documentation of a member stands, and the order of namespaces and metadata, is not claimed; resource identifiers are not shown. The rendering into Markdown is the document library's.")

# ------------------------------------------------------------------ A: actions
p("A01", "Validators report every wrong and every unresolved reference, and no other",
  "For every reference from one shape to another, the type validator reports an error exactly when the target is in the model and of a "
  "kind that reference must not have, and a warning exactly when the target is neither in the model nor in the prelude; a simple shape "
  "without traits gives an informational issue. The completeness validator reports an error for every unresolved shape and nothing else.",
  inputs("all models: 21 kinds of reference, ten kinds of target, absent targets"),
  "the tests validate three small models; most combinations of reference and target kind never occur in them",
  ["atelier-core/src/action/validate/mod.rs"],
  mech(("CorrectTypeReferences", "atelier-core/src/action/validate/mod.rs"), ("NoUnresolvedReferences", "atelier-core/src/action/validate/mod.rs")))
p("A02", "Linters check every name they cover against its own convention",
  "The naming linter reports, as informational, every shape name and target that is not UpperCamelCase and every trait, "
  "trait-definition and member name that is not lowerCamelCase, in every kind of shape. The terms linter warns about every unwelcome "
  "word in the names it covers, once per name.",
  inputs("all models and names"),
  "the tests lint two models; most kinds of shape and positions of a name do not occur in them",
  ["atelier-core/src/action/lint/mod.rs", "atelier-core/src/action/lint/terms.rs"],
  mech(("NamingConventions", "atelier-core/src/action/lint/mod.rs"), ("UnwelcomeTerms", "atelier-core/src/action/lint/mod.rs")),
  note="How the external casing library converts a name is trusted.")
p("A03", "Issues carry the level, reporter, message and location they are made with",
  "Every way of making an issue stores the level in its name (or given), the reporter, the whole message and the location given, and no other "
  "location; reading them back and printing an issue give the same. Each action reports under its own name and hands out its own issues.",
  inputs("all levels, reporters, messages and locations"),
  "tests look at the text of a few issues only",
  ["atelier-core/src/action/mod.rs", "atelier-core/src/macros.rs"],
  mech(("ActionIssue", "atelier-core/src/action/mod.rs"), ("linter_or_validator_action_impl", "atelier-core/src/macros.rs")))

# ------------------------------------------------------------------ N: not decided by static analysis here
p("N01", "What a writer writes is read back as the same model",
  "For every model, the text the JSON or IDL writer produces is accepted by the reader of the same format, which returns an equal model.",
  inputs("all models, with all texts, numbers and nestings they may hold"),
  "a test reads back the models it contains; texts with quotes, escapes and control characters, extreme numbers and deep nesting are endless",
  ["atelier-json/src/writer.rs", "atelier-json/src/reader.rs", "atelier-smithy/src/writer.rs", "atelier-smithy/src/parser.rs"],
  mech(("JsonWriter, JsonReader", "atelier-json/src"), ("SmithyWriter, SmithyReader", "atelier-smithy/src")))
na("N01", "Equality of the composition depends on characters and digits computed at run time (quoting, escapes, number formatting, "
   "layout that separates tokens), through external formatting and parsing libraries; no static argument in reach bounds them. What is static "
   "about it, that each part of the model is written to and read from the same named place under the same condition, is decided by J01, J02, S01, S02 and S03.")
p("N02", "Every operation ends, within a bounded stack, on every input",
  "Reading, writing, resolving and comparing models ends for every input without exhausting the stack, however deeply values, "
  "selectors or directories are nested.",
  inputs("all inputs, of any size and nesting"),
  "tests use shallow inputs; the depth at which a recursion fails depends on the run",
  ["atelier-smithy/src/parser.rs", "atelier-core/src/model/values.rs", "atelier-query/src/lib.rs", "atelier-assembler/src/lib.rs"],
  mech(("recursive descent over values, parse trees and directories", "workspace")))
na("N02", "The recursions (values, parse trees, directories with symbolic links) are structural and unbounded by design; whether a given depth "
   "fits the stack is a runtime quantity, and the parser's own recursion is generated by an external crate. A rule against recursion would alarm on correct code.")
p("N03", "The time to read, write and resolve grows no faster than the documented sizes",
  "Reading, assembling and describing models takes time proportional to their size, up to the cost of sorting.",
  inputs("all models and sizes"),
  "tests use small models and measure nothing",
  ["atelier-smithy/src/parser.rs", "atelier-core/src/model/mod.rs", "atelier-assembler/src/lib.rs"],
  mech(("Model, ModelAssembler", "workspace")))
na("N03", "Cost is a runtime quantity (collision behaviour of maps, backtracking of the generated parser); a syntactic bound on nested loops "
   "says little about it and would alarm on correct code.")
