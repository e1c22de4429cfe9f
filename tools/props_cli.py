C = "rdftk_cli/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, tech=tech, crate="mc_io rdftk_bin"))

GR = "graphs of <=1 (2 thorough) of 63 statements and of 55 with RDF's own vocabulary, all 2^4 (2^9) relations, literal texts of <=1 (2) special characters with each kind of tag, 40 lexical forms, ~190 IRIs, labels, graphs of 40 (400) statements"

prop("F01", "The convert command keeps what the document states",
 "Running 'rdftk convert' on a valid N-Triples, RDF/JSON or RDF/XML document yields, in each of N-Triples, N-Quads, RDF/JSON, TriG, Turtle and RDF/XML, a valid document that states exactly what the input states, up to renaming of blank nodes (RDF/XML may be refused for what it cannot express); an N-Quads document converts likewise to N-Quads and TriG, each statement in its own graph. Turtle is the default output. Any other pair of formats does the same or ends with an error. Nothing else is ever mixed into the output, whichever way input and output are named, whatever was in the output file before, and at every level of logging.",
 ["inputs","configurations"], "every document, pair of formats and way of calling the command", "There are no tests of the command line tool; 64 pairs of formats and all options meet in it.",
 [C+"commands/mod.rs", C+"commands/representations.rs", C+"main.rs"], [("choice of reader and writer","commands/mod.rs read_graph, read_dataset, write_graph, write_dataset"),("execution","commands/representations.rs execute"),("logging","main.rs init_logging")],
 note=GR + "; 18 pairs of formats; data sets of E03 with 2 pairs; all 64 pairs on 5 data sets; every combination of 7 log levels, colors, 4 ways of input, 5 of output, 3 of options, 20 pairs, 3 documents",
 tech="exhaustive enumeration of bounded documents x formats x options; the real command is run as a process and its output decoded by independent parsers")

prop("F02", "The commands report every failure and never succeed falsely",
 "'rdftk convert' and 'rdftk draw' exit with status 0 only if the whole input was readable and the whole result was written. Otherwise - unreadable or malformed input, an output that refuses even the last byte, a format or a command that is not supported, wrong arguments - they exit with a status other than 0 and a message on the standard error, without a panic; for input that cannot be read nothing is written to the standard output.",
 ["fault_sequences","inputs"], "every input, every point at which the output fails, every sequence of arguments", "The last bytes of an output are lost silently unless the command looks; tests of the tool do not exist.",
 [C+"commands/mod.rs", C+"commands/representations.rs", C+"commands/draw.rs", C+"commands/namespaces.rs", C+"main.rs", "rdftk_io/src/common/parser/mod.rs"], [("errors to exit status","main.rs main"),("execution","commands/representations.rs execute, commands/draw.rs execute")],
 note="every truncation and every one-byte edit (5 (20) bytes) of documents in 4 formats against the library's readers (checked by E02, E04, E06, E11); 9 commands x every size at which the output is full x 4 ways, full devices, closed pipes, directories, missing files; every sequence of <=2 (3) of 24 arguments and those behind 9 valid ones",
 tech="exhaustive enumeration of fault points, of edits and of argument sequences of the real command run as a process")

prop("F03", "The draw command draws exactly the document's graph",
 "Running 'rdftk draw' on a valid N-Triples, RDF/JSON or RDF/XML document yields a valid DOT digraph with the default options that has one node for each distinct subject or object and one edge for each statement of the document, and nothing else.",
 ["inputs"], "every document that states each statement once", "As for F01: no tests of the tool exist.",
 [C+"commands/draw.rs", C+"commands/mod.rs", "rdftk_io/src/dot/writer.rs"], [("execution","commands/draw.rs execute")],
 note=GR + "; 3 formats",
 tech="exhaustive enumeration of bounded documents x formats; the real command is run as a process and its output compared as a labelled multigraph by an independent DOT parser")

NA = []
