DEFAULT_DEPS='core'
CORE='#![allow(unused)]\nuse rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*};\nuse rdftk_iri::*; use rdftk_names::*; use std::str::FromStr;\nfn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}\nfn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}\nfn int(s:&str)->Literal{Literal::with_data_type(s,DataType::Int)}\nfn long(s:&str)->Literal{Literal::with_data_type(s,DataType::Long)}\n'
IO='#![allow(unused)]\nuse rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*};\nuse rdftk_iri::*; use rdftk_names::*; use std::str::FromStr; use std::io::{Read, Write};\nuse objio::{ObjectReader, ObjectWriter, HasOptions};\nuse rdftk_io::{dot, json, nq, nt, trig, turtle, xml};\nfn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}\nfn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}\nfn st(s:&str,p:&str,o:&str)->Statement{Statement::new(i(s),i(p),i(o))}\nfn out<W:ObjectWriter<Graph>>(w:&W,g:&Graph)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}\nfn ds<W:ObjectWriter<DataSet>>(w:&W,g:&DataSet)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}\n'
G='rdftk_core/src/model/graph.rs'; O='rdftk_core/src/model/statement/object.rs'; L='rdftk_core/src/model/literal.rs'; R='rdftk_core/src/model/resource.rs'; M='rdftk_iri/src/map.rs'; P='rdftk_iri/src/pname.rs'; X='rdftk_io/src/xml/reader.rs'
BUGS={
'e11-cdata-after-text': dict(property='E11', deps='io', needs='a property element with text followed by a CDATA section', breaks='the text before the CDATA section is lost',
 edits=[(X,"""                    has_characters = true;
                }
                content.push_str(value);""","""                    has_characters = true;
                }
                content = value.clone();""")],
 demo=IO+"""const H:&str=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><rdf:Description rdf:about="http://e/a">"#; const T:&str="</rdf:Description></rdf:RDF>";
fn main(){ let t=format!("{H}<p>a<![CDATA[b]]></p>{T}"); let g=xml::XmlReader::default().read(&mut t.as_bytes()).unwrap(); let s=g.statements().next().unwrap(); assert_eq!(s.object().as_literal().unwrap().lexical_form(),"ab"); }"""),
'e11-text-after-node': dict(property='E11', deps='io', needs='text before a node element inside one property element', breaks='the document, which is not RDF/XML, is read and the text is dropped',
 edits=[(X,"""                if has_characters {
                    error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));""","""                if has_characters && content.trim().is_empty() {
                    error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));""")],
 demo=IO+"""const H:&str=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><rdf:Description rdf:about="http://e/a">"#; const T:&str="</rdf:Description></rdf:RDF>";
fn main(){ let t=format!("{H}<p>a<rdf:Description/></p>{T}"); assert!(xml::XmlReader::default().read(&mut t.as_bytes()).is_err()); }"""),
'e11-literal-nested': dict(property='E11', deps='io', needs='an XML literal with an element in an element, and something after it', breaks='the literal ends at the inner element',
 edits=[(X,"""                opened += 1;""","""                opened = 1;""")],
 demo=IO+"""const H:&str=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><rdf:Description rdf:about="http://e/a">"#; const T:&str="</rdf:Description></rdf:RDF>";
fn main(){ let t=format!("{H}<p rdf:parseType='Literal'><b><i>t</i></b></p><q>u</q>{T}"); let g=xml::XmlReader::default().read(&mut t.as_bytes()).unwrap(); assert_eq!(g.statements().count(),2); }"""),
'd01-dedup-by-text': dict(property='D01', needs='a graph that states the same thing with two different data types, made unique', breaks='one of the statements is dropped',
 edits=[(G,"""                (HashSet::<Statement>::default(), Vec::default()),
                |(mut keep, mut discard), st| {
                    if keep.contains(st) {
                        discard.push(st.clone());
                    } else {
                        let _ = keep.insert(st.clone());
                    }
                    (keep, discard)
                },""","""                (HashSet::<Statement>::default(), Vec::default()),
                |(mut keep, mut discard), st| {
                    if keep.contains(st) || keep.iter().any(|k| k.to_string() == st.to_string()) {
                        discard.push(st.clone());
                    } else {
                        let _ = keep.insert(st.clone());
                    }
                    (keep, discard)
                },""")],
 demo=CORE+"""fn main(){ let mut g=Graph::default(); for o in [int("1"),long("1")] { g.insert(Statement::new(i("s"),i("p"),o)); } let _ = g.dedup(); assert_eq!(g.len(),2); }"""),
'd02-predicates-for-text': dict(property='D02', needs='two quoted statements as subjects that differ only in the data type of a literal', breaks='the predicates of one are given for the other',
 edits=[(G,"""                if st.subject() == subject {
                    Some(st.predicate())""","""                if st.subject().to_string() == subject.to_string() {
                    Some(st.predicate())""")],
 demo=CORE+"""fn main(){ let mut g=Graph::default(); let q=|o|SubjectNode::from(Statement::new(i("s"),i("p"),o)); g.insert(Statement::new(q(int("1")),i("x"),i("o"))); g.insert(Statement::new(q(long("1")),i("y"),i("o"))); assert_eq!(g.predicates_for(&q(int("1"))).len(),1); }"""),
'd05-order-of-quoted': dict(property='D05', needs='two quoted statements as objects that differ only in the data type of a literal', breaks='they are ordered as equal, although they are not',
 edits=[(O,"""            (Self::Statement(lhs), Self::Statement(rhs)) => lhs.cmp(rhs),""","""            (Self::Statement(lhs), Self::Statement(rhs)) => lhs.to_string().cmp(&rhs.to_string()),""")],
 demo=CORE+"""fn main(){ let q=|o|ObjectNode::from(Statement::new(i("s"),i("p"),o)); let (a,b)=(q(int("1")),q(long("1"))); assert!(a!=b); assert!(a.cmp(&b)!=std::cmp::Ordering::Equal); }"""),
'd12-mapping-forgotten': dict(property='D12', needs='a graph of more than 500 statements, in which a blank node occurs on both sides of the 500th', breaks='the blank node is replaced by different IRIs',
 edits=[(G,"""        for statement in self.statements() {
            new_graph.insert(skolemize_statement""","""        for (index, statement) in self.statements().enumerate() {
            if index % 500 == 499 {
                mapping.clear();
            }
            new_graph.insert(skolemize_statement""")],
 demo=CORE+"""fn main(){ let mut g=Graph::default(); for n in 0..600 { g.insert(Statement::new(b("x"),i("p"),Literal::from(n))); } let g=g.skolemize(&i("base")).unwrap(); assert_eq!(g.subjects().len(),1); }"""),
'd13-empty-container': dict(property='D13', needs='a container of a type of its own without any members', breaks='nothing is stated about it',
 edits=[(R,"""            if object.is_container() {
                // <s>""","""            if matches!(object, ResourceObject::Literals(c) if c.values.is_empty() && matches!(c.kind, ContainerKind::Other(_))) {
                continue;
            }
            if object.is_container() {
                // <s>""")],
 demo=CORE+"""use rdftk_core::model::resource::*;
fn main(){ let mut r=Resource::individual(i("s")); r.property_container(i("p"),&[],i("Stack")); let v:Vec<Statement>=r.into(); assert_eq!(v.len(),2); }"""),
'c08-display-default': dict(property='C08', deps='iri', needs='a map with a default namespace, printed', breaks='the default namespace is left out',
 edits=[(M,"""        writeln!(f, "Prefixes(")?;
        for (prefix, iri) in &self.map {""","""        writeln!(f, "Prefixes(")?;
        for (prefix, iri) in self.map.iter().filter(|(p, _)| !p.is_default()) {""")],
 demo="""use rdftk_iri::*; use std::str::FromStr;
fn main(){ let mut m=IriPrefixMap::empty(); m.set_default_namespace(Iri::from_str("http://e/").unwrap()); assert!(m.to_string().contains("http://e/"),"{m}"); }"""),
'c16-digits': dict(property='C16', deps='iri_nostd', needs='a build without the standard library, and a name with a digit that is not ASCII', breaks='the name is accepted in one configuration and rejected in the other',
 edits=[(P,"""        || c.is_ascii_digit()
        || c ==""","""        || if cfg!(feature = "serde") { c.is_ascii_digit() } else { c.is_numeric() }
        || c ==""")],
 demo=r"""use rdftk_iri::*; use std::str::FromStr;
fn main(){ assert!(Name::from_str("a\u{661}").is_err() == Name::from_str("\u{661}").is_err()); assert!(Name::from_str("a\u{b2}").is_err()); }"""),
}
