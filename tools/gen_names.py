#!/usr/bin/env python3
"""Wrote mc/mc_core/src/names_table.rs once; the expected names were then compared with the published
vocabularies by hand (FIX, UNPUBLISHED below). Not run by any check."""
import re
R="/repo/rdftk_names/src/"
files=[("dc/dcam.rs","dc::dcam"),("dc/dcmi_type.rs","dc::dcmi_type"),("dc/elements.rs","dc::elements"),("dc/terms.rs","dc::terms"),
 ("foaf.rs","foaf"),("geo.rs","geo"),("owl.rs","owl"),("rdf.rs","rdf"),("rdfs.rs","rdfs"),("skos.rs","skos"),("xsd.rs","xsd")]
FIX={("owl","incompatible_with"):"incompatibleWith",("xsd","entity"):"ENTITY",("foaf","primary_topic_of"):"isPrimaryTopicOf"}
UNPUB={("rdfs","lang_string"),("rdfs","html_literal"),("rdfs","xml_literal"),("rdfs","property"),("rdfs","value"),("xsd","ns"),("owl","version")}
out=["// written once by tools/gen_names.py, reviewed against the published vocabularies","fn table() -> Vec<Vocab> {","    macro_rules! t {","        ($m:path, $item:ident, $name:expr, $pub:expr) => {{ paste::paste! { use $m as m; Term { item: stringify!($item), name: $name, published: $pub, iri: m::$item, text: m::[<$item _str>], qname: m::[<$item _qname>] } } }};","    }","    vec!["]
for f,mod in files:
    s=open(R+f).read()
    s=re.sub(r'^\s*//.*$','',s,flags=re.M); s=re.sub(r'/\*!.*?\*/','',s,flags=re.S)
    for m in re.finditer(r'(pub mod (\w+) \{\s*)?namespace! \{\s*"([^"]*)",\s*"([^"]*)",\s*\{(.*?)\}',s,re.S):
        path=mod+("::"+m.group(2) if m.group(2) else "")
        out.append(f'        Vocab {{ module: "{path}", prefix: "{m.group(3)}", ns: "{m.group(4)}", default_prefix: rdftk_names::{path}::default_prefix, namespace: rdftk_names::{path}::namespace, namespace_str: rdftk_names::{path}::namespace_str, terms: vec![')
        for fn,n in re.findall(r'(\w+),\s*"([^"]*)"',m.group(5)):
            n=FIX.get((path,fn),n); p="false" if (path,fn) in UNPUB else "true"
            out.append(f'            t!(rdftk_names::{path}, {fn}, "{n}", {p}),')
        out.append("        ] },")
out+=["    ]","}"]
open("/verif/mc/mc_core/src/names_table.rs","w").write("\n".join(out)+"\n")
