C = "rdftk_core/src/model/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, tech=tech))

prop("D01", "A graph holds exactly what was inserted and not removed",
 "After any sequence of insertions, extensions, merges, removals, removals of a whole subject, de-duplications and clears, a graph holds exactly the statements that a reference multiset holds after the same sequence: an ordinary graph counts repeated insertions, a graph created to be unique never holds a statement twice. Removing a statement removes every copy; removing a subject or de-duplicating returns exactly the statements taken out. Length, emptiness, membership, the listing, the name and the prefix mappings all agree with the reference, whichever constructor was used, and a clone is unaffected by later changes.",
 ["histories"], "every sequence of graph operations", "The effects of duplicates, of the two kinds of graph and of the order of operations only show in combination; tests run a few fixed sequences.",
 [C+"graph.rs"], [("mutation","graph.rs insert, extend, merge, remove, remove_all_for, dedup, clear, with_statements"),("names and mappings","graph.rs set_name, unset_name, set_prefix_mappings")],
 state="multiset of statements, name and mappings of a graph",
 note="reference multiset machine over 5 (6 thorough) statements with up to 3 copies each, to fixpoint, every transition replayed on a real graph; every unmerged sequence of 4 (5) of 27 operations on both kinds of graph; every list of up to 4 (6) statements through every constructor; growth to 1000 (5000)",
 tech="explicit-state BFS of a reference multiset machine with replay of every transition on the real graph, plus unmerged enumeration of operation sequences")

prop("D02", "Graph queries return exactly the matching statements and terms",
 "For every graph and every pattern of bound and unbound subject, predicate and object, matching returns exactly the distinct statements that agree with all bound positions. The listings of subjects (all, blank, non-blank), predicates and objects, the predicates of a subject, the objects of a subject and predicate, and the membership tests are exactly those derived from the statements in the graph, with or without duplicates.",
 ["inputs","histories"], "every graph and every query pattern", "A query answer depends on every statement in the graph; tests ask a few questions of one fixed graph.",
 [C+"graph.rs"], [("pattern match","graph.rs matches, contains, contains_all, contains_subject"),("listings","graph.rs subjects, node_subjects, blank_node_subjects, predicates, predicates_for, objects, objects_for")],
 state="set of statements",
 note="all graphs of <=3 statements over a 5x2x10 universe of confusable terms, all 2^17 (2^18 thorough) graphs over a 3x2x3 universe with and without duplicates, every pattern over the universe plus wildcards in each",
 tech="exhaustive enumeration of graphs x query patterns against a set-comprehension reference")

prop("D03", "Converting between the kinds of node never changes the term",
 "A blank node, IRI, literal, collection or quoted statement keeps its kind and its content through every constructor and conversion between terms, subjects, objects, graph names and collections. Kind tests and accessors are true for exactly one kind; an object converts to a subject exactly when it is a blank node, an IRI or a quoted statement. Setting the subject, predicate or object of a statement changes that component only.",
 ["inputs"], "every term, including nested ones, and every conversion path", "There are dozens of hand-written conversions per kind, tests touch only some of them, on simple values.",
 [C+"statement/object.rs", C+"statement/subject.rs", C+"statement/collection.rs", C+"statement.rs", C+"graph.rs"],
 [("conversions","object.rs, subject.rs, collection.rs From impls, to_subject, to_object"),("accessors","is_* and as_*"),("setters","statement.rs set_subject, set_predicate, set_object")],
 note="all terms nested one level over IRIs, blanks and literals plus a second level over selected terms (two full levels thorough) and 112 confusable literals, through every From conversion, accessor and setter",
 tech="exhaustive enumeration of bounded terms x conversion paths against an independent term model")

prop("D04", "A data set maps each graph name to the last graph stored",
 "After any sequence of insertions, extensions, removals, clears and in-place changes, a data set holds for each name (or for the default graph) exactly the graph last inserted under it with its later changes, and nothing else. Lookups by name, the default-graph accessors, membership, the count and the listing agree; each graph carries the name under which it is found; a clone is unaffected by later changes.",
 ["histories"], "every sequence of data set operations", "Replacement, removal and the special role of the unnamed graph interact over sequences, which tests do not explore.",
 [C+"data_set.rs"], [("mutation","data_set.rs insert, extend, remove, clear, graph_mut"),("lookup","data_set.rs graph, graph_named, default_graph, contains_graph, graphs")],
 state="map from graph name to graph content",
 note="all 4^5 states of 5 names x 3 contents to fixpoint, every transition replayed; every unmerged sequence of 4 (5 thorough) operations; every list of <=3 (4) graphs through every constructor",
 tech="explicit-state BFS of a reference map with replay of every transition on the real data set, plus unmerged enumeration of operation sequences")

prop("D05", "Equality, order and hash of terms and statements agree",
 "Two literals, data types, blank nodes, nodes, collections, graph names or statements are equal exactly when they are the same RDF term: same kind, lexical form, data type, language, members or quoted statement. Ordering is total, antisymmetric and transitive, says 'equal' exactly for equal values, and equal values have equal hashes. Statements order by subject, predicate and object in turn, and comparing a node with a bare value agrees with comparing it with the node holding that value.",
 ["inputs"], "every pair and triple of terms", "Sorted and hashed containers silently lose or duplicate data when these laws fail for some pair; the failing pairs are those tests do not compare.",
 [C+"literal.rs", C+"statement/object.rs", C+"statement/subject.rs", C+"statement/bnode.rs", C+"statement/collection.rs", C+"statement.rs"],
 [("literal order","literal.rs Ord, PartialEq, Hash"),("node order","object.rs, subject.rs, collection.rs Ord, PartialEq, Hash"),("statement order","statement.rs Ord")],
 note="all pairs of up to 1920 values per type (two builds of each of 112 literals, 28 data types, ~90-170 objects, 240-960 statements), transitivity by rank counting",
 tech="exhaustive enumeration of pairs over bounded term universes; laws checked on every pair, transitivity on the whole order")

prop("D06", "Native values become literals that mean the same value",
 "Every integer, boolean, float, decimal, duration, name, qualified name, IRI, language tag, string and byte string becomes a literal with the matching XML Schema data type and a lexical form that is valid for that type and denotes exactly that value. The literal compares equal to the value it was made from and to no other, and any other literal equals a value only when it equals the literal made from it; IRIs and bytes read back, and texts that do not encode bytes or a wrong data type are refused with an error.",
 ["inputs"], "every value of every supported native type", "Extremes, signs, fractions, special floats and padding each have their own code path; tests check one value of a few types.",
 [C+"literal.rs"], [("conversion","literal.rs From impls for native types"),("comparison","literal.rs PartialEq impls"),("bytes","literal.rs hex_encoded, base64_encoded, TryFrom<Literal> for Vec<u8> and Iri")],
 note="all integers of +-2^17 and ~800 boundaries of 64 bits as all 8 types, every sign/exponent/top-mantissa pattern of f32 and f64 (67 million f32 thorough), 28 scales x 16 mantissas, 132 durations of both signs and types, all byte strings <=2 (<=3), all candidate encodings of <=4-5 (5-6) symbols",
 tech="exhaustive enumeration of bounded native value spaces against independent XSD lexical readers")

prop("D07", "Data types and their IRIs correspond one to one",
 "Each built-in data type stands for its XML Schema or RDF IRI, and that IRI converts to that built-in data type. Every other IRI converts to a data type that keeps it unchanged, so that different IRIs never become the same data type. A literal built with a data type equals the one built with its IRI.",
 ["inputs"], "every data type IRI", "A mistaken entry in either direction of the mapping corrupts data silently; tests check one or two entries.",
 [C+"literal.rs"], [("from IRI","literal.rs From<Iri> for DataType"),("to IRI","literal.rs DataType::as_iri")],
 note="all 24 built-in types; ~4400 IRIs within one edit of a built-in one or with another namespace",
 tech="exhaustive enumeration of the type table and of its one-edit neighbourhood, both directions checked against the published table")

prop("D08", "The text of a literal survives escaping exactly",
 "For every text, the lexical form of a literal made from it is a valid N-Triples string body that stands for exactly that text, and the unescaped form is that text, with any language or data type. The printed form is the quoted lexical form with its language tag or data type IRI. Literals of different texts differ, and a plain or string literal equals its text and no other.",
 ["inputs"], "every text", "Escapes interact (a backslash before a quote, a control character, text that looks like an escape); tests use one example.",
 [C+"literal.rs"], [("escaping","literal.rs escape_string, unescaped_form"),("printing","literal.rs Display for Literal")],
 note="all texts of <=3 (4 thorough) over 22 escape-class characters, <=6 (8) over the characters escapes are made of, every Unicode scalar in 4 contexts, all pairs of ~500 texts",
 tech="exhaustive enumeration of bounded texts against an independent N-Triples string decoder")

prop("D09", "Blank node labels are valid, distinct when generated, and kept",
 "A text is accepted as a blank node label exactly when it is a valid name, with or without the leading '_:', which is not part of the label. The label, its qualified form and the printed form of nodes and graph names carry it unchanged and read back as the same node. Generated labels are valid and never repeat, through whichever operation a blank node is generated.",
 ["inputs","histories"], "every label text and every sequence of generating operations", "Label acceptance is a language; uniqueness ranges over all histories of the process, not over two calls.",
 [C+"statement/bnode.rs", C+"graph.rs"], [("parsing","bnode.rs FromStr, is_valid_str"),("generation","bnode.rs generate")],
 note="all texts of <=4 (5 thorough) over 13 symbols; every sequence of <=4 (6) operations of 5 kinds that generate blank nodes, no label ever repeated within the process",
 tech="exhaustive enumeration of label texts and of sequences of generating operations")

prop("D10", "Reifying a statement or collection loses nothing",
 "Reifying a statement, however deeply its subject and object are quoted or collected, yields a fresh node and flat statements from which exactly the original can be read back: one rdf:Statement with its subject, predicate and object for each quoted statement, one rdf:first/rdf:rest chain ending in rdf:nil for each collection, nothing missing and nothing extra. Nodes of different reifications differ, and the original is unchanged.",
 ["inputs"], "every statement and collection of any nesting", "Nesting is recursive in two positions; tests reify one level.",
 [C+"statement.rs", C+"statement/collection.rs", C+"statement/object.rs", C+"statement/subject.rs"], [("reification","reify in statement.rs, collection.rs, object.rs, subject.rs")],
 note="all statements over terms nested one level (plus a second level over 6 terms; two full levels thorough) in subject and object; collections of up to 60 (400)",
 tech="exhaustive enumeration of bounded nested terms; the output is read back by an independent un-reifier")

prop("D11", "Simplifying a graph keeps its meaning",
 "Simplifying a graph yields a graph without quoted statements and collections which, when the descriptions of its fresh nodes are read back, holds exactly the original statements; statements that were flat already are kept as they are. The name and the prefix mappings are kept and the original graph is unchanged.",
 ["inputs"], "every graph of nested statements", "The fresh nodes of several nested statements must not be mixed up or lost; tests have no nested graph.",
 [C+"graph.rs"], [("simplification","graph.rs simplify")],
 note="all single triples over terms of nesting <=2, all pairs over nesting 1, collections up to 40 (200 thorough), nesting up to 10 (50)",
 tech="exhaustive enumeration of bounded nested graphs; the output is read back by an independent un-reifier")

prop("D12", "Skolemizing replaces each blank node by one IRI of its own",
 "Skolemizing a graph replaces every occurrence of a blank node, at any depth, by an IRI under the '/.well-known/genid/' path of the given base: the same IRI for the same node throughout the graph, different IRIs for different nodes, and no blank node remains. Everything else, including the name, the prefix mappings, the order and the number of statements, is kept, and the original graph is unchanged.",
 ["inputs"], "every graph and base IRI", "A blank node may occur as subject, object, collection member or inside a quoted statement at any depth; tests use flat graphs.",
 [C+"graph.rs"], [("skolemization","graph.rs skolemize, skolemize_blank, skolemize_object, skolemize_statement")],
 note="all triples over terms of nesting <=2 and all pairs over a selection, both kinds of graph, 4 bases; randomness of the generated IRIs is not enumerated",
 tech="exhaustive enumeration of bounded nested graphs; the renaming is recovered and checked to be a bijection")

prop("D13", "The resource builder produces exactly the statements asked for",
 "Any sequence of builder calls, direct or through a predicate builder and however nested, produces exactly one statement per property with the right subject, predicate and object. Alternatives, bags, sequences and other containers produce a node of that type whose members are numbered rdf:_1, rdf:_2, ... in the order given; nested resources contribute their own statements once. Nothing else is produced.",
 ["histories"], "every sequence of builder calls of any nesting", "Builder calls compose freely; tests check one or two fluent chains.",
 [C+"resource.rs"], [("builder","resource.rs Resource, Predicate"),("statements","resource.rs From<Resource> for Vec<Statement>")],
 state="the builder's accumulated properties",
 note="every sequence of <=2 (3 thorough) of ~50 calls on 3 kinds of subject, <=3 (4) of the 26 direct ones; nesting and containers up to 40 (150)",
 tech="exhaustive enumeration of call sequences against a reference interpreter of the builder language")

prop("D14", "Vocabulary constants have the IRIs their publishers define",
 "Every constant of the bundled vocabularies is the vocabulary's namespace followed by the published local name; its text and its qualified name agree with it, it splits back into the namespace and the name, and no two constants of a vocabulary coincide. Vocabularies declared with the public macro behave the same way, and the container membership properties are rdf:_n for every n.",
 ["inputs"], "every vocabulary constant and every membership number", "Hundreds of constants are written by hand and a misspelt one breaks interoperability silently; tests check none.",
 ["rdftk_names/src/lib.rs", "rdftk_names/src/rdf.rs", "rdftk_names/src/owl.rs", "rdftk_names/src/foaf.rs"], [("declaration macro","lib.rs namespace!"),("constants","rdftk_names/src/*.rs")],
 note="all constants of all bundled vocabularies against the published names, three user-declared vocabularies, membership numbers to 3000 (200000 thorough)",
 tech="exhaustive enumeration of the finite constant table against the published vocabularies")

prop("D15", "The model and format crates behave the same in every feature set",
 "The model crate builds with every subset of its optional features and the format crate with every selection of formats, and everything that is present behaves identically in all of them: switching a feature on adds interfaces and changes nothing else.",
 ["configurations"], "every feature subset", "Tests are compiled in one configuration only.",
 ["rdftk_core/src/lib.rs", C+"literal.rs", "rdftk_core/src/error.rs", "rdftk_io/src/lib.rs", "rdftk_io/src/common/mod.rs"], [("conditional code","cfg(feature = ...) throughout rdftk_core and rdftk_io")],
 note="all 32 subsets of the model crate's features; each format alone, all but one, none and all (all 512 subsets thorough); ~3000 observations in each, compared line by line",
 tech="exhaustive enumeration of build configurations, each probed with the same observation set and compared")

prop("D16", "An error says what is wrong, names its cause, and its trace shows them all",
 "Every error says what it was given; one that wraps another error names that error as its cause and says what it says, so that no cause is lost on the way from a lower layer to the user. The trace of an error is each of its causes in order, numbered from one, each on a line of its own, to the last cause and with nothing else; the functions that print it print it on the stream they name.",
 ["inputs"], "every error and every chain of causes", "Causes nest to any depth and pass through several crates' conversions; no test looks at what an error says.",
 ["rdftk_core/src/error.rs", "rdftk_iri/src/error.rs"], [("text and causes","Display and source of Error"),("trace","error.rs error_trace, print_trace, eprint_trace")],
 note="all chains of <=7 (8 thorough) causes over 6 texts alone, of <=5 (6) below each wrapping variant, all variants with all pairs of 7 texts, the errors of 5 parsers for all texts of <=4 (6) of 10 tokens",
 tech="exhaustive enumeration of bounded chains of causes against a model of the chain")

prop("D17", "The text of a term, statement, collection or graph name shows exactly it",
 "What a subject, object, literal, collection, statement or graph name prints as can be read back as exactly what it is: a blank node as '_:' and its label, an IRI in angle brackets, a quoted statement between '<<' and '>>', a collection between parentheses with its members in order, a statement as its subject, predicate and object, all separated by spaces; a literal as its escaped text in quotes with its language or data type. The plain form of a literal writes booleans and the built-in numeric types bare and an anyURI in angle brackets; the full ('#') form of a literal, or of an object that is one, always has the quotes and the type, so that different terms never share it. A data type prints as its qualified name or IRI, a language as its tag, a blank node as its label.",
 ["inputs"], "every term and statement, nested to any depth", "Texts are what messages and logs show, and identify values to people; tests print a few flat ones.",
 [C+"statement/object.rs", C+"statement/subject.rs", C+"statement/collection.rs", C+"statement.rs", C+"graph.rs", C+"literal.rs"],
 [("texts","Display of ObjectNode, SubjectNode, Collection, Statement, GraphName"),("literals","literal.rs Display of Literal and DataType")],
 note="all literals of <=4 (5 thorough) of 14 tokens that mean something in the text, all characters to U+11000 (all), all pairs of ~320 nested terms in collections, quotes and statements, collections to 300 (2000), quotes to depth 60 (200)",
 tech="exhaustive enumeration of bounded nested terms; each text is decoded by an independent parser and compared with the term")

prop("D18", "A type claims a feature exactly when it has it",
 "A graph says that it keeps duplicates exactly when it does, and that it may be named, holds quoted statements and holds collections as objects, as every graph does; its kind and its answers are the same after any history. Statements and objects claim quoted statements and collections as objects, subjects claim quoted statements; a data set claims nothing. No type claims any other feature or anything that is not a feature, and the feature identifiers are all different.",
 ["histories","inputs"], "every history of a graph and every feature identifier", "A caller decides by the answer whether data may be stored; a graph's answer depends on how it came about.",
 [C+"features.rs", C+"graph.rs", C+"statement.rs", C+"data_set.rs"], [("identifiers","features.rs FEATURE_*"),("answers","supports_feature of Graph, Statement, SubjectNode, ObjectNode, DataSet")],
 state="kind of a graph",
 note="every sequence of <=4 (5 thorough) of 15 operations on the graphs of 7 constructors, each answer compared with what a copy then does; 22 identifiers and ~1400 IRIs one edit from them, ~80 terms and statements",
 tech="exhaustive enumeration of operation histories; each claim is compared with the behaviour of the real graph when it is tried")
