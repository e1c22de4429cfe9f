I = "rdftk_iri/src/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, note="", tech=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, note=note, tech=tech))

prop("C01", "Names are accepted exactly as the SPARQL grammar says",
 "A text is accepted as a local name, as a namespace prefix or as a prefixed local name if and only if it matches the SPARQL production that the documentation gives for it (PN_LOCAL, PNAME_NS, PNAME_LN). An accepted value carries exactly the text that was given, split at its ':', and the validity test and the validating constructor that supplies a missing ':' agree with the parser.",
 ["inputs"], "every text", "The language is infinite and defined over 1.1 million characters; a handful of literals and a few hundred random strings cannot show the absence of a wrongly accepted or rejected one.",
 [I+"pname.rs"], [("character classes","pname.rs is_pn_*"),("parsers","pname.rs FromStr for Namespace, Name, LocalName")],
 observe=["parse result and text of the parsed value"],
 note="all words of length <=5 over an 18-symbol alphabet with one symbol per grammar class and UTF-8 length (<=6 thorough), <=8 over 7 symbols (<=10), all ASCII texts <=2 and printable <=3 (all ASCII <=3), all range-boundary words <=3 (<=4), every Unicode scalar in 12 positions, pumped words u v^k w up to k=512 (65536)",
 tech="explicit-state enumeration of the product of the reference grammar automaton with the real parsers")

prop("C02", "A rejected name is reported with a true reason",
 "When a text is rejected as a local name, namespace prefix or prefixed name, the reported reason is true of that text: 'empty' only for an empty name, 'missing separator' only when the ':' is missing, 'too many separators' only when there is more than one, and 'invalid character' only when a character or its position violates the grammar. The offending text that is reported is part of the input, is named by the message, and survives conversion to the library's general error.",
 ["inputs"], "every rejected text", "Tests only assert that an error occurs for a few inputs, never that its reason is right on every path through the parsers.",
 [I+"pname.rs", I+"error.rs"], [("error construction","pname.rs FromStr impls"),("error type","error.rs NameParseError, Error")],
 note="same bounded text space as C01 (texts up to 600 bytes)",
 tech="exhaustive enumeration of bounded texts against a reference classification of rejection reasons")

prop("C03", "Building, taking apart and printing names are mutually inverse",
 "For every valid prefix (or none) and every valid local name, all ways of combining them (constructor, qualification from either side, parsing, unchecked construction with or without the ':') give the same value, whose text is prefix, ':' and name and whose CURIE is that text in square brackets. Taking that value apart yields the original prefix and name, its text parses back to it, and it belongs to the default namespace exactly when the prefix is absent.",
 ["inputs"], "every pair of a valid prefix and a valid local name", "The construction paths are independent pieces of code that must agree on all pairs; tests compare a few pairs.",
 [I+"pname.rs"], [("composition","pname.rs LocalName, Namespace, Name, PrefixedName constructors and Display")],
 note="all pairs of ~240 prefixes and ~500 names (737 x 2005 thorough), every construction path replayed for each pair",
 tech="exhaustive enumeration of (prefix, name) pairs; model is string concatenation, every construction path replayed on the real code")

prop("C04", "The text form of an IRI round-trips, bare or in angle brackets",
 "A text is accepted as an IRI exactly when, after removing one enclosing pair of angle brackets, it is an absolute URL under the URL standard, and both spellings give the same value. The value prints as its normalised text in angle brackets, or bare in the alternate form, and either printed form reads back as the same value; conversions to and from the wrapped URL type and to an IRI reference preserve it.",
 ["inputs"], "every text", "Acceptance and printing must agree over all combinations of scheme, authority, path, query and fragment shapes; tests use a few http URLs.",
 [I+"iri.rs"], [("parsing","iri.rs FromStr/TryFrom for Iri"),("printing","iri.rs Display for Iri, IriRef"),("conversions","iri.rs From impls")],
 note="grid of 271k assembled IRIs (all combinations of scheme, authority, path, query, fragment shapes) and all texts of <=4 symbols over 20 URL-significant characters after each of 12 openings (<=5 thorough)",
 tech="exhaustive enumeration of the component grid and of bounded texts against the URL-standard reference")

prop("C05", "Replacing one component of an IRI changes nothing else",
 "Deriving an IRI with a new path, a new fragment, an empty fragment or no fragment changes only that component, whatever sequence of such derivations led there: scheme, credentials, host, port, query and the other component stay the same. The original value is never modified, the derivation is idempotent, and the result equals the IRI parsed from its own text.",
 ["inputs","histories"], "every IRI, every component value and every sequence of derivations", "Interference between components appears only for particular shapes (opaque paths, queries, empty fragments), which tests do not sample.",
 [I+"iri.rs"], [("component replacement","iri.rs with_new_path, with_new_fragment, with_empty_fragment, with_no_fragment")],
 state="the five components of an IRI",
 note="state machine over 255 initial IRIs and 29 operations explored to fixpoint and replayed on the code; argument words <=3 (4 thorough) over 8 characters on every IRI of a ~1000-IRI grid, <=1 (2) on all 218k grid IRIs",
 tech="explicit-state search to fixpoint of a component model, every transition replayed on the real code")

prop("C06", "Splitting an IRI and joining namespace and name are inverse",
 "An IRI splits into a namespace IRI and a valid name exactly when its non-empty fragment, or, with neither query nor fragment, the part after the last '/' of its path, is a valid name; joining the two parts gives back the original IRI. A name can be joined exactly to IRIs that are namespaces (an empty fragment, or a path ending in '/' with neither query nor fragment): the result is the namespace text followed by the (percent-encoded) name, and for ASCII names it splits back into the same two parts. The namespace and name accessors agree with the split, and no IRI is both a namespace and a name in one.",
 ["inputs"], "every IRI and every valid name", "The inverse law quantifies over all IRI shapes (including opaque ones) and all names; tests check three http IRIs.",
 [I+"iri.rs"], [("split","iri.rs Iri::split, namespace, name"),("join","iri.rs Iri::make_name, looks_like_namespace")],
 note="218k canonical IRIs; every namespace in the grid with 10 names, 12 namespaces with all names of length <=3 over ASCII and Unicode class alphabets; last segments and fragments of <=5 symbols over 8 characters (<=7 thorough)",
 tech="exhaustive enumeration of IRI shapes x names against a text-level reference of split and join")

prop("C07", "A prefix map is always a bijection with last-write-wins",
 "After any sequence of operations a prefix map holds exactly the mappings that a reference table holds in which adding a mapping first drops any mapping with the same prefix or the same IRI. Lookups in both directions, the default namespace, the counts and the listings all agree with that table, and a clone is unaffected by later changes to the original or the reverse.",
 ["histories"], "every sequence of insertions, removals, clears, vocabulary and default-namespace operations", "Overwriting on either side of a bijection interacts with earlier operations; the state space has to be explored, while tests run a few fixed sequences.",
 [I+"map.rs"], [("mutation","map.rs IriPrefixMap insert/remove/set_default/with*/clear"),("lookup","map.rs get_*, mappings, prefixes, iris")],
 state="set of prefix/IRI pairs",
 note="all 1546 (13327 thorough) states of a 5x5 (6x6) domain to fixpoint with every operation out of each; all unmerged operation sequences to depth 5 (6); growth to 100 (1000) entries; all pairs of 21 vocabularies",
 tech="explicit-state BFS of a reference bijection with replay of every transition on the real map, plus unmerged enumeration of all operation sequences")

prop("C08", "Prefix maps with equal contents are indistinguishable",
 "Two prefix maps that hold the same mappings are equal, list their mappings in the same order, print the same text and serialise identically, whatever histories produced them. Maps with different contents are unequal and list differently, and the printed text shows every mapping.",
 ["histories"], "every pair of operation histories", "The property relates all histories that reach the same contents; a test compares one or two.",
 [I+"map.rs"], [("ordering","map.rs IriPrefixMap, mappings, Display")], state="set of prefix/IRI pairs",
 note="all operation sequences to depth 5 (6 thorough) over a 3x3 domain and all 5040 insertion orders of 7 mappings",
 tech="exhaustive enumeration of operation histories, each compared with the canonical representative of its contents")

prop("C09", "Expanding and compressing names are inverse under a prefix map",
 "Under any prefix map, a prefixed name expands exactly when its prefix is mapped to a namespace IRI, to that IRI followed by the name, and two different prefixed names never expand to the same IRI. An IRI compresses exactly when it splits into a mapped namespace and a valid name, to a prefixed name that expands back to it; the IRI-reference form gives that prefixed name, or else the IRI itself, and no lookup changes the map.",
 ["inputs","histories"], "every prefix map, prefixed name and IRI", "Correctness depends on combinations of nested, overlapping and non-namespace IRIs in a map with the looked-up IRI; tests use one ordinary map.",
 [I+"map.rs", I+"iri.rs"], [("expansion","map.rs expand"),("compression","map.rs compress, compress_to_iriref"),("split/join","iri.rs split, make_name")],
 state="prefix map contents",
 note="every state of a 4-prefix x 6-IRI (7 thorough) map of nested and abutting namespaces, x 10 names and ~120 IRIs around them; all 21 vocabularies x ~400 names (all)",
 tech="explicit-state enumeration of maps; expand/compress on every name and IRI in each state against a text-level reference")

prop("C10", "Serialising and deserialising a value gives the value back",
 "Every IRI, name, namespace, prefixed name, IRI reference and prefix map survives serialisation to JSON and back unchanged, from a string, a reader or a value tree, and serialising it again gives the same text. IRIs, names and namespaces serialise as plain strings equal to their bare text.",
 ["inputs"], "every value of the library's types", "Depends on the values (Unicode, escapes, empty maps, default namespace), which tests sample a few at a time.",
 [I+"iri.rs", I+"pname.rs", I+"map.rs"], [("serde","derives on Iri, IriRef, Name, Namespace, LocalName, PrefixedName, IriPrefixMap")],
 note="all grid IRIs, all class-alphabet prefixes and names and their pairs, every partial bijection of a 4x4 map domain, maps up to 307 entries",
 tech="exhaustive enumeration of bounded values with write/read replay on the real code")

prop("C11", "Deserialisation never yields an invalid name or IRI",
 "Deserialising untrusted JSON into a name, namespace, prefixed name or prefix map succeeds exactly when every name in it matches its grammar production, and into an IRI exactly when the text is an absolute URL. Anything else, including values of the wrong shape, is reported as an error.",
 ["inputs"], "every JSON value", "A parser that is bypassed on one path admits values on which later operations panic; tests only deserialise what was serialised.",
 [I+"pname.rs", I+"iri.rs", I+"map.rs"], [("validation","pname.rs TryFrom<String> for Name, Namespace")],
 note="all words <=4 over the class alphabet (<=5 thorough), <=5 (<=7) over 7 symbols, boundary and ASCII words <=2, as every component of every type",
 tech="exhaustive enumeration of bounded texts as JSON components against the reference grammar automaton")

prop("C12", "Equality, ordering and hashing of values agree with their text",
 "Two names, namespaces, prefixed names or IRIs are equal exactly when their normalised texts are equal, however they were built; equal values hash alike, and the ordering is a total order consistent with equality. Hash-based and ordered collections of such values therefore hold one entry per distinct text.",
 ["inputs"], "every pair and triple of values", "Coherence is a law over all pairs and triples; derived or hand-written implementations can break it for particular pairs only.",
 [I+"iri.rs", I+"pname.rs"], [("derives","Eq, Ord, Hash on Iri, Name, Namespace, LocalName, PrefixedName")],
 note="all pairs of ~100-1300 values per type (up to 5000 IRIs thorough), triples of 50-60",
 tech="exhaustive enumeration of value pairs and triples against text equality")

prop("C13", "Vocabulary constants and predefined maps are what is documented",
 "Every predefined vocabulary has its documented prefix and published namespace IRI, converts to a valid namespace prefix and a namespace IRI to which names can be joined, and no two share a prefix or an IRI. The default and the common prefix maps hold exactly the mappings documented for them, on every call, and any further vocabularies add to them without disturbing the rest.",
 ["configurations"], "every predefined vocabulary and every combination of two with each predefined map", "Existing tests look at a few of the constants and conflict with the documentation on the default map's contents.",
 [I+"vocab.rs", I+"map.rs"], [("constants","vocab.rs VOCABULARY_*"),("predefined maps","map.rs default, common")],
 note="all 21 constants; all 21x21 ordered pairs on 3 predefined maps",
 tech="exhaustive enumeration of the finite configuration space against a hand-transcribed table")

prop("C14", "Generated identifiers are fresh and at the base's well-known path",
 "For every base IRI with a hierarchy, generating an identifier yields an IRI with the base's scheme, credentials, host and port, the path '/.well-known/genid/' followed by 32 lower-case hexadecimal digits of a random UUID, and no query or fragment; a base without a hierarchy is refused with an error. The base is unchanged and no two generated identifiers are equal, within or across threads.",
 ["inputs","histories"], "every base IRI and every history of generations", "Tests check the prefix for two bases and never freshness.",
 [I+"iri.rs"], [("generation","iri.rs Iri::genid")],
 note="218k base IRIs from 8 threads, 80k (4M thorough) generations on one base; randomness itself is not enumerated",
 tech="exhaustive enumeration of base shapes with bounded generation histories on the real code")

prop("C15", "No text makes a parser or accessor panic",
 "Whatever text is given, parsing it as any of the library's types returns a value or an error, and every operation on the resulting value, and on a prefix map that contains it, returns normally.",
 ["inputs"], "every text", "A panic needs one particular shape, such as an IRI without a hierarchy; tests use ordinary ones.",
 [I+"iri.rs", I+"pname.rs", I+"map.rs"], [("split","iri.rs Iri::split"),("accessors","pname.rs Namespace::name_string"),("lookups","map.rs compress, expand")],
 note="all texts <=3 (<=4 thorough) over 20 URL-significant characters after 12 openings, class-alphabet words <=3 (<=4), ASCII words <=2, 218k grid IRIs, repeated characters up to 64 KiB; every public operation on each",
 tech="exhaustive enumeration of bounded texts, every public operation executed on each under a panic monitor")

prop("C16", "All feature configurations build and behave alike",
 "Every combination of the IRI library's optional features builds, and every operation that is present in two combinations gives the same results in both.",
 ["configurations"], "every subset of the optional features", "Tests are built in one configuration only; code that is compiled conditionally is never exercised elsewhere.",
 [I+"lib.rs", I+"iri.rs", I+"pname.rs", I+"map.rs", "rdftk_iri/Cargo.toml"], [("features","Cargo.toml [features], cfg attributes in src")],
 note="8 distinct feature closures (all 16 written subsets thorough), ~61k observations in each, compared line by line",
 tech="exhaustive enumeration of feature configurations, a fixed bounded exploration replayed in each and compared")
