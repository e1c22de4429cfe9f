C = "rdftk_io/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, tech=tech))

GR = "graphs of <=2 (3 thorough) of 63 statements, all 2^9 (2^16) relations, collections and quoted statements nested two (three) deep and their pairs, all literal texts of <=2 over 34 special characters and <=4 (6) over few, 40 lexical forms x 34 data types x 10 languages, ~190 IRI shapes, 196 label pairs, <=2 (3) of 55 statements with RDF's own vocabulary, 28 graphs with 40 (also 400) objects, subjects, members, levels, or texts of 5000 (100000) characters, and unique, named, changed graphs and such with duplicates"

prop("E01", "N-Triples output says exactly what the graph says",
 "For every graph, the N-Triples writer emits a document that conforms to the N-Triples grammar and states exactly the statements of the graph, up to renaming of blank nodes; quoted statements and collections are spelled out in their standard RDF forms. The N-Triples reader reads the same statements back from it.",
 ["inputs"], "every graph whose IRIs use only characters allowed in N-Triples", "Escapes, data types, languages and labels each have their own path; tests write one plain graph and look for substrings.",
 [C+"nt/writer.rs", "rdftk_core/src/model/literal.rs"], [("writer","nt/writer.rs write"),("escaping","literal.rs escape_string")],
 note=GR, tech="exhaustive enumeration of bounded graphs; each output is decoded by an independent N-Triples parser and compared up to isomorphism")

prop("E02", "The N-Triples reader accepts valid documents and reads them right",
 "Every document that conforms to the N-Triples grammar is read as exactly the statements it contains: terms, labels, escapes, languages and data types. A document that is not N-Triples is rejected with an error, without a panic and without a partial result; only additional white space, line ends and comments between tokens are tolerated.",
 ["inputs"], "every text", "Small deviations from the grammar and rare escapes decide whether data is lost, corrupted or rejected; a fixed test suite has one example of each.",
 [C+"nt/reader.rs", C+"common/common.pest", C+"common/parser/mod.rs"], [("grammar","common.pest"),("parse tree to graph","common/parser/mod.rs")],
 note="all combinations of token variants per position, all layouts, every escape, every single-character edit (insertion, deletion, replacement over the special characters) of seed documents, two edits thorough; graphs with several statements",
 tech="exhaustive enumeration of bounded documents and their one-edit neighbourhoods against an independent N-Triples parser")

prop("E03", "N-Quads output says exactly what the data set says",
 "For every data set, the N-Quads writer emits a document that conforms to the N-Quads grammar and states exactly the statements of each graph under the name of that graph, and those of the default graph without a name, up to one renaming of blank nodes for the whole document. Writing a single graph does the same for that graph. The N-Quads reader reads the same data set back.",
 ["inputs"], "every data set whose IRIs use only characters allowed in N-Quads", "Graph names, blank nodes shared between graphs and the unnamed graph interact; tests write one set.",
 [C+"nq/writer.rs"], [("writer","nq/writer.rs write")],
 note="data sets of <=2 (3 thorough) of 5 names, each with every set of <=2 (4) of 4 statements; as a single graph under each name: " + GR,
 tech="exhaustive enumeration of bounded data sets; each output is decoded by an independent N-Quads parser and compared up to isomorphism")

prop("E04", "The N-Quads reader accepts valid documents and reads them right",
 "Every document that conforms to the N-Quads grammar is read as exactly the statements it contains, each in the graph that it names or in the default graph. A document that is not N-Quads is rejected with an error, without a panic and without a partial result; only additional white space, line ends and comments between tokens are tolerated.",
 ["inputs"], "every text", "As for N-Triples; moreover the distribution of statements over graphs depends on the whole document.",
 [C+"nq/reader.rs", C+"common/common.pest", C+"common/parser/mod.rs"], [("grammar","common.pest"),("parse tree to data set","common/parser/mod.rs")],
 note="as E02, with every kind of graph name or none in each position",
 tech="exhaustive enumeration of bounded documents and their one-edit neighbourhoods against an independent N-Quads parser")

prop("E05", "RDF/JSON output says exactly what the graph says",
 "For every graph, the RDF/JSON writer emits a JSON document that follows the RDF/JSON note and states exactly the statements of the graph, each once, up to renaming of blank nodes; quoted statements and collections are spelled out in their standard RDF forms. Pretty printing changes the layout only, and the RDF/JSON reader reads the same statements back.",
 ["inputs"], "every graph", "Grouping by subject and predicate, value kinds and escapes interact; tests compare one document.",
 [C+"json/writer.rs", C+"json/syntax.rs"], [("writer","json/writer.rs write")],
 note=GR + "; compact and pretty", tech="exhaustive enumeration of bounded graphs; each output is interpreted by an independent RDF/JSON interpreter and compared up to isomorphism")

prop("E06", "The RDF/JSON reader accepts valid documents and reads them right",
 "Every document that follows the RDF/JSON note is read as exactly the statements it contains: kinds, labels, texts, languages and data types. A document that is not JSON, or whose structure, kinds, labels, IRIs or language tags are wrong, is rejected with an error, without a panic and without a partial result.",
 ["inputs"], "every text", "Each key may be missing, of another type or contradict another; tests read two valid documents.",
 [C+"json/reader.rs", C+"json/syntax.rs"], [("reader","json/reader.rs read")],
 note="all object descriptions over 7x11x6x6 values of the four keys, every structure at each level, every one-character edit of seed documents (two-character edits of short ones thorough)",
 tech="exhaustive enumeration of bounded documents and their one-edit neighbourhoods against an independent RDF/JSON interpreter")

prop("E07", "Turtle output says exactly what the graph says, in every style",
 "For every graph and every combination of writer options, the Turtle writer emits a document that conforms to the Turtle grammar and states exactly the statements of the graph, up to renaming of blank nodes: grouping, abbreviation by prefixes and base, nesting of blank nodes, collections and quoted statements never add, lose, merge or alter anything. Blank nodes keep their labels where nesting is off. The base and the prefixes declared are those of the options and the graph, in the style selected, and a base conversion renames exactly the IRIs below the base to be converted.",
 ["inputs","configurations"], "every graph, prefix map and combination of options", "Abbreviations are correct only in combination with prefixes, base, nesting and neighbours; tests look for substrings in a few outputs.",
 [C+"turtle/writer.rs"], [("writer","turtle/writer.rs write"),("nesting","turtle/writer.rs write of blank nodes, collections and quoted statements"),("abbreviation","turtle/writer.rs prefixed names and base")],
 note=GR + "; 4 prefix maps, 32 combinations of switches, bases, indents, conversions",
 tech="exhaustive enumeration of bounded graphs x writer options; each output is decoded by an independent Turtle parser and compared up to isomorphism")

prop("E08", "TriG output says exactly what the data set says",
 "For every data set and every combination of options, the TriG writer emits a document that conforms to the TriG grammar and states exactly the statements of each graph under its name and those of the default graph without one, up to one renaming of blank nodes for the whole document. Writing a single graph does the same for that graph, a named graph is there under its name even when it states nothing, and each named graph has the GRAPH keyword exactly when the options ask for it.",
 ["inputs","configurations"], "every data set and combination of options", "Blocks, prefixes and blank nodes shared between graphs interact; there is no test of TriG output.",
 [C+"trig/writer.rs", C+"turtle/writer.rs"], [("writer","trig/writer.rs write"),("content of a block","turtle/writer.rs")],
 note="data sets of <=2 (3 thorough) of 5 names with every set of <=2 (4) of 4 statements; single graphs of <=1 (2) of 63 statements, all 2^9 relations and nested terms under 3 names; 64 option combinations",
 tech="exhaustive enumeration of bounded data sets x options; each output is decoded by an independent TriG parser and compared up to isomorphism")

prop("E09", "Turtle output depends on the content of the graph only",
 "Two graphs with the same statements, prefix mappings and options give the same Turtle document, byte for byte, whatever the order in which statements were inserted, whatever was inserted and removed before, and however often either has been written.",
 ["histories"], "every order of insertion and every detour", "The output is sorted and grouped from hash maps; one order of insertion in a test shows nothing.",
 [C+"turtle/writer.rs"], [("ordering","turtle/writer.rs sorting of subjects, predicates and objects")],
 note="all permutations of <=4 (5 thorough) statements from a selection, with detours and under several option sets, each written repeatedly",
 tech="exhaustive enumeration of insertion orders and detours; outputs compared byte for byte")

prop("E10", "RDF/XML output says exactly what the graph says",
 "For every graph whose predicates can be split into a namespace and an XML name, and which has only characters allowed in XML, the RDF/XML writer emits a well-formed, namespace-conforming RDF/XML document that states exactly the statements of the graph, up to renaming of blank nodes, in every style; it is read back as the same statements. Flat documents have every subject at the top, striped ones nest blank nodes which are used once, and the encoding declared is the one selected. Any other graph is written correctly or refused with an error.",
 ["inputs","configurations"], "every graph and style", "Names, namespaces, line ends, control characters and nesting each have special rules; tests look for substrings in one output.",
 [C+"xml/writer.rs", C+"xml/syntax.rs"], [("writer","xml/writer.rs write"),("names","xml/writer.rs splitting of predicates"),("text","xml/writer.rs escape_text")],
 note=GR + "; 4 styles; every character up to U+3000 and the borders; line-end texts of <=3 (5); ~200 predicate names (all pairs thorough); all forests of blank nodes of 4 nodes",
 tech="exhaustive enumeration of bounded graphs x styles; each output is decoded by an independent XML and RDF/XML parser and compared up to isomorphism")

prop("E11", "The RDF/XML reader reads documents as the standard says",
 "Every RDF/XML document, with an rdf:RDF root or a single node element, made of node elements and property elements with the about, nodeID, ID, resource, datatype, parseType (Resource, Collection) and property attributes, nested to any depth and in any layout, prefixing and quoting, is read as exactly the statements that the standard gives it: rdf:li elements are numbered within their node element, rdf:ID on a property element also describes its statement, xml:lang applies to the text and property attributes of an element and all in it until the next xml:lang, and relative references and identifiers are resolved against the closest xml:base. Texts that are not well-formed XML, and documents that are not RDF/XML because of text, names, attributes, combinations of attributes or identifiers where the standard does not allow them, are rejected with an error, and no text makes the reader panic.",
 ["inputs"], "every document, and every text for the absence of panics", "Forms of node and property elements combine and nest freely; tests read two flat documents.",
 [C+"xml/reader.rs"], [("node elements","xml/reader.rs parse_subject"),("property elements","xml/reader.rs parse_predicates, parse_object"),("collections","xml/reader.rs parse of parseType Collection")],
 note="all documents of 1 node element x <=2 property elements over ~40 forms, nested 3 (4) deep, all layouts, prefixes and bases; 4 languages at each of 4 levels, 23 references x 7 bases x 6 places, all sequences of <=3 (4) members, all kinds of identified statements; 17 element names x all sets of <=2 (3) of 21 attributes x 18 contents x 6 places; every character at every place of an identifier; one-character edits; compared on the W3C suite too",
 tech="exhaustive enumeration of bounded documents and their one-edit neighbourhoods against an independent RDF/XML parser")

prop("E12", "DOT output draws exactly the graph",
 "For every graph, the DOT writer emits a valid DOT digraph with one node for each distinct subject or object, one edge for each statement, from the subject to the object and labelled with the predicate's abbreviated or full IRI, and nothing else; quoted statements and collections are spelled out in their standard RDF forms. IRI nodes are labelled and linked with their IRI, literal nodes with their text, blank nodes with nothing or with their identifier if labels are on, each in the shape and color selected for its kind and with the identifier prefix selected. The option builders and setters change exactly the option they name.",
 ["inputs","configurations"], "every graph, prefix map and set of options", "Which nodes coincide depends on all terms of the graph; tests look for five lines in one output.",
 [C+"dot/writer.rs"], [("edges and nodes","dot/writer.rs write"),("identity of nodes","dot/writer.rs subject_id, object_id"),("options","dot/writer.rs DotOptions")],
 note=GR + "; <=2 (3 thorough) statements over terms that look alike; 640 option sets; every pair of graphs written by one writer",
 tech="exhaustive enumeration of bounded graphs x options; each output is parsed by an independent DOT parser and compared as a labelled multigraph up to isomorphism")

prop("E13", "Writers report every failure of the output",
 "Whenever the output refuses a byte or a call fails, at any point of any document, every writer (N-Triples, N-Quads, RDF/JSON, Turtle, TriG, RDF/XML, DOT) returns an error and does not panic; it never reports success for a document of which a part was lost. An output which accepts a few bytes at a time, or interrupts calls, receives the complete document.",
 ["fault_sequences"], "every document, every point of failure, every kind of failure and every pattern of partial acceptance", "Tests write to memory, which never fails.",
 [C+"nt/writer.rs", C+"nq/writer.rs", C+"json/writer.rs", C+"turtle/writer.rs", C+"trig/writer.rs", C+"xml/writer.rs", C+"dot/writer.rs"], [("propagation of errors","every write call of the writers")],
 note="14 writer configurations x 69 (about 2300 thorough) graphs; failure at every byte (permanent, 2 (5) kinds of error, or full), at every single call, of flush; pieces of 1..16 (64) bytes with and without interruptions",
 tech="exhaustive enumeration of fault points with an output under control; what is accepted is decoded by independent parsers")

prop("E14", "Readers report every failure of the input and ignore how it is cut",
 "Whenever the input fails, at any byte or call, every reader (N-Triples, N-Quads, RDF/JSON, RDF/XML) returns an error and neither a partial result nor a panic. The result does not depend on the sizes of the pieces in which the input arrives, nor on interruptions. An input which ends early is read as what it then states if it is well formed and rejected otherwise, and an input that is not UTF-8 is rejected.",
 ["fault_sequences"], "every document, every point of failure, every way of cutting", "Tests read from memory, in one piece, without failures.",
 [C+"nt/reader.rs", C+"nq/reader.rs", C+"json/reader.rs", C+"xml/reader.rs"], [("reading","read of each reader"),("error conversion","rdftk_core/src/error.rs")],
 note="7 dense documents (about 1200 thorough): failure at every byte and every call with 2 (5) kinds of error, truncation at every byte, 7 invalid UTF-8 sequences at every position, every cut into two pieces, every piece size, alternating sizes, interruptions",
 tech="exhaustive enumeration of fault points and cuts with an input under control, against independent parsers")

prop("E15", "A writer or reader can be reused whatever happened before",
 "What a writer emits for a graph or data set depends only on that input and the current options: not on what it wrote before, nor on earlier writes that failed at any point, nor on options in force before. The same holds for readers after complete or failed reads.",
 ["histories","fault_sequences"], "every sequence of complete and failed writes and reads", "Several writers keep state between calls; tests use a new writer each time.",
 [C+"turtle/writer.rs", C+"dot/writer.rs", C+"xml/writer.rs", C+"json/writer.rs"], [("state of the writer","turtle/writer.rs context, dot/writer.rs nodes")],
 state="what the writer keeps between calls",
 note="14 writer configurations x 5 graphs: every complete write or failure at every byte before each write (with a third write in between and two failures in a row thorough); changes of options after complete and failed writes; the layout, too, is that of a new writer; readers after every truncated input",
 tech="exhaustive enumeration of histories of complete and failing operations on one instance; each output is decoded by independent parsers")

prop("E16", "Each format is published under its registered names and is that format",
 "For each format that the library offers, the published media type, file extension and format IRI are those registered for it (by IANA or W3C), no two formats share a name, an extension, a media type or an IRI, and what the writer of a format emits is a document of the format which those names promise.",
 ["inputs"], "every format, every name, and every graph", "Other software chooses its parser by these names; no test looks at them, and a wrong one compiles and runs.",
 [C+"nt/mod.rs", C+"nq/mod.rs", C+"turtle/mod.rs", C+"trig/mod.rs", C+"n3/mod.rs", C+"xml/mod.rs", C+"json/mod.rs", C+"dot/mod.rs"], [("published names","NAME, FILE_EXTENSION, MIME_TYPE and FORMAT_IRI of each module")],
 note="all 8 formats and all pairs of them; about 100 (2100 thorough) graphs in each of 7 formats, recognised by 7 independent parsers",
 tech="exhaustive enumeration of the formats and their pairs against a table of what is registered; outputs are recognised by independent parsers")

prop("E17", "Readers of Turtle, TriG and N3 never pass off a part as the whole",
 "For every document and every behaviour of the input, the Turtle, TriG and N3 readers return either an error or exactly the statements which the document states, and never panic. In particular a document that cannot be read, because the format is not supported, is malformed or is cut short, because it is not UTF-8 or because the input fails, is reported and does not appear as an empty or partial graph.",
 ["inputs","fault_sequences"], "every text and every point of failure", "The formats can be written but not read; nothing tests what the readers then answer, and an empty graph looks like success.",
 [C+"turtle/reader.rs", C+"trig/reader.rs", C+"n3/reader.rs", C+"common/parser/mod.rs"], [("reading","read of each reader"),("unsupported formats","common/parser/mod.rs")],
 note="all texts of <=4 (5 thorough) of 26 tokens; what the writers emit for about 160 (2600) graphs under 128 combinations of options; failure, truncation and invalid UTF-8 at every byte of it",
 tech="exhaustive enumeration of bounded texts and fault points against an independent Turtle and TriG parser")

prop("E18", "A writer's options are what they were set to, and do what they say",
 "After any sequence of changes to the options of a writer, through builders, setters or presets, each option has exactly the value last given to it and no other option has changed; the accessors say so, and a writer uses the options last given to it in whichever way. What is written depends on the values of the options and not on how they were reached. Each option has its effect, and only when set: the SPARQL style changes the keywords of directives (unless the IntelliJ style is on), a base is declared exactly when there is one, blank nodes are nested exactly when asked for, the type is on the line of the subject when asked for, lines are indented by the width given, predicates are padded so that objects line up when asked for and otherwise followed by one space, the graph keyword is left out when asked for, pretty printing breaks lines, RDF/XML is flat or striped and names the encoding given, DOT nodes have the shape, color, prefix and labels given, and N-Triples literals are all quoted unless that is switched off.",
 ["histories","configurations"], "every sequence of changes of options, for every writer", "Builders copy all options, setters change one, presets several: a slip shows only in combination; tests set one or two.",
 [C+"turtle/writer.rs", C+"trig/writer.rs", C+"dot/writer.rs", C+"xml/writer.rs", C+"json/writer.rs", C+"nt/writer.rs"], [("options","builders, setters and accessors of TurtleWriterOptions, TrigWriterOptions, DotOptions, XmlOptions, JsonOptions, NTripleWriterOptions"),("use","where each writer asks for an option")],
 state="the values of all options of a writer",
 note="every reachable state of the options of 6 writers (about 1300, thorough 5300; 864 for Turtle alone) and every transition from each, replayed on the real options and writers; every sequence of <=3 (4 thorough) of 29 changes for Turtle",
 tech="explicit-state search of a reference machine of the options to fixpoint, every transition replayed on the real options with the output examined, plus unmerged enumeration of sequences")

NA = []
