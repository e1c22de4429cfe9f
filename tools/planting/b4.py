# Planted bugs in rdftk_io
S='rdftk_io/src/'
NT=S+'nt/writer.rs'; NQ=S+'nq/writer.rs'; PE=S+'common/common.pest'; PQ=S+'common/parser/nquads.rs'; PN=S+'common/parser/ntriples.rs'
JW=S+'json/writer.rs'; JR=S+'json/reader.rs'; TW=S+'turtle/writer.rs'; GW=S+'trig/writer.rs'; XW=S+'xml/writer.rs'; XR=S+'xml/reader.rs'; DW=S+'dot/writer.rs'
NR=S+'nt/reader.rs'; QR=S+'nq/reader.rs'
DEFAULT_DEPS='io'
U='''#![allow(unused)]
use rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*};
use rdftk_iri::*; use rdftk_names::*; use std::str::FromStr; use std::io::{Read, Write};
use objio::{ObjectReader, ObjectWriter, HasOptions};
use rdftk_io::{dot, json, nq, nt, trig, turtle, xml};
fn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}
fn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}
fn st(s:&str,p:&str,o:&str)->Statement{Statement::new(i(s),i(p),i(o))}
fn out<W:ObjectWriter<Graph>>(w:&W,g:&Graph)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}
fn ds<W:ObjectWriter<DataSet>>(w:&W,g:&DataSet)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}
'''
BUGS={
"e01-seen-objects":dict(property="E01",needs="a subject and predicate with two numeric literals of different data types and the same text",breaks="one of two different literals is not written",
 edits=[(NT,"                for object in simple_graph.objects_for(subject, predicate) {","                let mut seen = std::collections::HashSet::new();\n                for object in simple_graph\n                    .objects_for(subject, predicate)\n                    .into_iter()\n                    .filter(|object| seen.insert(object.to_string()))\n                {")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),Literal::from(1i32))); g.insert(Statement::new(i("a"),i("p"),Literal::from(1i64))); assert_eq!(out(&nt::NTripleWriter::default(),&g).lines().count(),2); }'),
"e02-combining":dict(property="E02",needs="a blank node label with a combining character U+036F",breaks="a valid document is rejected",
 edits=[(PE,"  | '\\u{0300}'..'\\u{036F}'","  | '\\u{0300}'..'\\u{036E}'")],
 demo=U+'fn main(){ let t="_:a\\u{36f} <http://e/p> <http://e/o> .\\n"; assert!(nt::NTripleReader::default().read(&mut t.as_bytes()).is_ok()); }'),
"e02-lang-digits":dict(property="E02",needs="a language tag with a subtag that has digits (de-1996, es-419)",breaks="a valid document is rejected",
 edits=[(PE,'    "@" ~ ASCII_ALPHA+ ~ ("-" ~ ASCII_ALPHANUMERIC+)*','    "@" ~ ASCII_ALPHA+ ~ ("-" ~ ASCII_ALPHA+)* ~ ("-" ~ ASCII_ALPHANUMERIC{1,3})?')],
 demo=U+'fn main(){ let t="<http://e/a> <http://e/p> \\"x\\"@de-1996 .\\n"; assert!(nt::NTripleReader::default().read(&mut t.as_bytes()).is_ok()); }'),
"e02-comment-cr":dict(property="E02",needs="a comment that is ended by a lone carriage return",breaks="the statement after the comment is lost",
 edits=[(PE,'newline = _{ "\\r" | "\\n" }','newline = _{ "\\r\\n" | "\\n" }')],
 demo=U+'fn main(){ let t="# c\\r<http://e/a> <http://e/p> <http://e/o> .\\n"; assert_eq!(nt::NTripleReader::default().read(&mut t.as_bytes()).unwrap().len(),1); }'),
"e03-blank-name":dict(property="E03",needs="a data set with a graph that is named by a blank node",breaks="the statements move to the default graph",
 edits=[(NQ,"        let graph_name = simple_graph.name();","        let graph_name = simple_graph.name().filter(|name| name.is_iri());")],
 demo=U+'fn main(){ let mut g=Graph::named(b("n")); g.insert(st("a","p","b")); assert!(out(&nq::NQuadWriter::default(),&g).contains("_:n")); }'),
"e04-graph-label-scope":dict(property="E04",needs="a blank node that names a graph and also occurs in a statement",breaks="the name of the graph is no longer the node of the statement",
 edits=[(PQ,"    subject.into()\n","    match subject {\n        SubjectNode::Blank(label) => {\n            let label = format!(\"{label}_graph\");\n            <rdftk_core::model::statement::BlankNode as std::str::FromStr>::from_str(&label)\n                .map(GraphName::from)\n                .unwrap_or_else(|_| unreachable!())\n        }\n        _ => subject.into(),\n    }\n")],
 demo=U+'fn main(){ let t="_:g <http://e/p> <http://e/o> _:g .\\n"; let d=nq::NQuadReader::default().read(&mut t.as_bytes()).unwrap(); let g=d.graphs().next().unwrap(); let s=g.subjects().into_iter().next().unwrap().to_string(); assert_eq!(g.name().unwrap().to_string(),s); }'),
"e04-default-later":dict(property="E04",needs="statements of the default graph before and after those of two named graphs",breaks="the earlier statements of the default graph are lost",
 edits=[(PQ,"        } else if let Some(graph) = data_set.graph_mut(&None) {\n            graph\n        } else {\n            data_set.insert(Graph::default());","        } else {\n            if data_set.len() != 1 || data_set.graph(&None).is_none() {\n                let graph = data_set.graph(&None).filter(|_| data_set.len() < 3).cloned();\n                data_set.insert(graph.unwrap_or_default());\n            }")],
 demo=U+'fn main(){ let l="<http://e/a> <http://e/p> "; let t=format!("{l}<http://e/1> .\\n{l}<http://e/2> <http://e/g> .\\n{l}<http://e/3> <http://e/h> .\\n{l}<http://e/4> .\\n"); let d=nq::NQuadReader::default().read(&mut t.as_bytes()).unwrap(); assert_eq!(d.graph(&None).unwrap().len(),2); }'),
"e05-primary-language":dict(property="E05",needs="a literal with a language tag that has a region or script",breaks="the language tag is written without its subtags",
 edits=[(JW,"                                Value::String(language.to_string()),","                                Value::String(language.primary_language().to_string()),")],
 demo=U+'fn main(){ let l=Literal::with_language("a","en-GB".parse().unwrap()); let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),l)); assert!(out(&json::JsonWriter::default(),&g).contains("en-GB")); }'),
"e05-string-type":dict(property="E05",needs="a literal with the data type xsd:string",breaks="the data type is not written",
 edits=[(JW,"                        if let Some(data_type) = literal.data_type() {","                        if let Some(data_type) =\n                            literal.data_type().as_ref().filter(|dt| dt.as_iri() != rdftk_names::xsd::string())\n                        {")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),Literal::from("x"))); assert!(out(&json::JsonWriter::default(),&g).contains("XMLSchema#string")); }'),
"e06-lang-and-type":dict(property="E06",needs="a document with an object that has both a language and a data type",breaks="an invalid document is accepted",
 edits=[(JR,"        (Some(Value::String(v)), Some(Value::String(l)), None) => {","        (Some(Value::String(v)), Some(Value::String(l)), None | Some(Value::String(_))) => {")],
 demo=U+'fn main(){ let t=r#"{"http://e/a":{"http://e/p":[{"type":"literal","value":"x","lang":"en","datatype":"http://e/d"}]}}"#; assert!(json::JsonReader::default().read(&mut t.as_bytes()).is_err()); }'),
"e06-null-language":dict(property="E06",needs="a document in which the value of an object is not a string",breaks="an invalid document is accepted",
 edits=[(JR,"        (Some(Value::String(v)), None, None) => Literal::plain(v),","        (Some(Value::String(v)), None, None) => Literal::plain(v),\n        (Some(v @ Value::Bool(_)), None, None) => Literal::plain(v.to_string()),"),(JR,"    let language = object.get(OBJ_KEY_LANG);","    let language = object.get(OBJ_KEY_LANG).filter(|l| !l.is_null());")],
 demo=U+'fn main(){ for v in [r#""value":true"#,r#""value":"x","lang":null"#]{ let t=format!(r#"{{"http://e/a":{{"http://e/p":[{{"type":"literal",{v}}}]}}}}"#); assert!(json::JsonReader::default().read(&mut t.as_bytes()).is_err()); } }'),
"e07-dedup-sorted":dict(property="E07",needs="two blank nodes with the same properties as objects of one predicate",breaks="one of the two nodes is not written",
 edits=[(TW,"            objects.sort_by_key(|o| self.object_sort_key(graph, o).unwrap_or_default());","            objects.sort_by_cached_key(|o| self.object_sort_key(graph, o).unwrap_or_default());\n            objects.dedup_by_key(|o| self.object_sort_key(graph, o).unwrap_or_default());")],
 demo=U+'fn main(){ let mut g=Graph::default(); for n in ["x","y"]{ g.insert(Statement::new(i("a"),i("p"),b(n))); g.insert(Statement::new(b(n),i("q"),i("c"))); } assert_eq!(out(&turtle::TurtleWriter::default(),&g).matches("[").count(),2); }'),
"e07-unused-prefix":dict(property="E07",needs="a prefix that is used only by the data type of a literal inside a collection",breaks="a prefix is used that is not declared",
 edits=[(TW,"            for (prefix, namespace) in mappings.mappings().sorted() {","            let is_used = |namespace: &str| {\n                let below = |iri: &Iri| format!(\"{iri:#}\").starts_with(namespace);\n                graph.statements().any(|st| {\n                    below(st.predicate())\n                        || st.subject().as_resource().is_some_and(below)\n                        || match st.object() {\n                            ObjectNode::Resource(iri) => below(iri),\n                            ObjectNode::Literal(literal) => {\n                                literal.data_type().as_ref().is_some_and(|dt| below(dt.as_iri()))\n                            }\n                            ObjectNode::Collection(members) => {\n                                members.iter().any(|m| m.as_resource().is_some_and(below))\n                            }\n                            _ => false,\n                        }\n                })\n            };\n            for (prefix, namespace) in mappings\n                .mappings()\n                .sorted()\n                .filter(|(_, namespace)| is_used(&format!(\"{namespace:#}\")))\n            {")],
 demo=U+'''fn main(){ let mut g=Graph::default(); g.set_prefix_mappings(IriPrefixMap::default()); let c=Collection::from(vec![ObjectNode::from(Literal::from(std::time::Duration::from_secs(1)))]); g.insert(Statement::new(i("a"),i("p"),c)); let t=out(&turtle::TurtleWriter::default(),&g); assert!(!t.contains("xsd:duration") || t.contains("@prefix xsd:"),"{t}"); }'''),
"e07-tag-of-typed-list":dict(property="E07",needs="a subject with several types, and the style with types on the line of the subject",breaks="the objects after the first are written without a separator",
 edits=[(TW,'            write!(w, "{OBJECT_SEPARATOR}")?;\n','            if !(flags.is_next_object_blank && object.is_literal()) {\n                write!(w, "{OBJECT_SEPARATOR}")?;\n            }\n')],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),Literal::plain("x"))); g.insert(Statement::new(i("a"),i("p"),b("y"))); let t=out(&turtle::TurtleWriter::default(),&g); assert!(t.contains(","),"{t}"); }'),
"e07-language-of-typed":dict(property="E07",needs="a literal with a language tag that has a variant subtag",breaks="the language tag loses its variant",
 edits=[(TW,'                    (None, Some(language)) => write!(w, "{LANGUAGE_PREFIX}{}", language)?,','                    (None, Some(language)) => match language.region() {\n                        Some(region) => {\n                            write!(w, "{LANGUAGE_PREFIX}{}-{region}", language.primary_language())?\n                        }\n                        None => write!(w, "{LANGUAGE_PREFIX}{}", language)?,\n                    },')],
 demo=U+'fn main(){ let l=Literal::with_language("a","zh-Hant-TW".parse().unwrap()); let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),l)); assert!(out(&turtle::TurtleWriter::default(),&g).contains("zh-Hant-TW")); }'),
"e08-default-named":dict(property="E08",needs="a data set with a graph named by a blank node, with the keyword",breaks="the statements of the graph go to the default graph",
 edits=[(GW,"        if let Some(name) = graph.name() {","        if let Some(name) = graph.name().filter(|name| name.is_iri() || graph.len() > 1) {")],
 demo=U+'fn main(){ let mut g=Graph::named(b("n")); g.insert(st("a","p","b")); assert!(out(&trig::TrigWriter::default(),&g).contains("_:n")); }'),
"e09-subject-length":dict(property="E09",needs="subjects of the same length, written twice",breaks="the order of the subjects differs from run to run",
 edits=[(TW,"            .sorted()\n            .cloned()","            .sorted_by_key(|subject| subject.to_string().len())\n            .cloned()")],
 demo=U+'fn main(){ let f=||{ let mut g=Graph::default(); for k in 0..9{ g.insert(st(&k.to_string(),"p","b")); } out(&turtle::TurtleWriter::default(),&g)}; let a=f(); for _ in 0..20 { assert_eq!(a,f()); } }'),
"e09-predicate-names":dict(property="E09",needs="two predicates with the same local name in different namespaces on one subject",breaks="the order of the predicates differs from run to run",
 edits=[(TW,"            preds.sort_by_cached_key(|iri| self.compress_iri(graph, iri).unwrap());","            preds.sort_by_cached_key(|iri| {\n                let name = self.compress_iri(graph, iri).unwrap();\n                name.rsplit([':', '/', '#']).next().unwrap_or_default().to_string()\n            });")],
 demo=U+'fn main(){ let f=||{ let mut g=Graph::default(); for k in 0..9{ g.insert(st("a",&format!("{k}/p"),"b")); } out(&turtle::TurtleWriter::default(),&g)}; let a=f(); for _ in 0..20 { assert_eq!(a,f()); } }'),
"e09-chosen-objects":dict(property="E09",needs="two literals with the same text and different languages as objects of one predicate",breaks="the order of the objects differs from run to run",
 edits=[(TW,"            objects.sort_by_key(|o| self.object_sort_key(graph, o).unwrap_or_default());","            objects.sort_by_cached_key(|o| match o.as_literal() {\n                Some(literal) => format!(\"\\\"{}\\\"\", literal.lexical_form()),\n                None => self.object_sort_key(graph, o).unwrap_or_default(),\n            });")],
 demo=U+'fn main(){ let f=||{ let mut g=Graph::default(); for k in ["en","de","fr","it","es"]{ g.insert(Statement::new(i("a"),i("p"),Literal::with_language("x",k.parse().unwrap()))); } out(&turtle::TurtleWriter::default(),&g)}; let a=f(); for _ in 0..20 { assert_eq!(a,f()); } }'),
"e10-string-type":dict(property="E10",needs="a literal with the data type xsd:string and a plain one of the same text",breaks="two different literals are written as the same",
 edits=[(XW,"                    if let Some(data_type) = literal.data_type() {","                    if let Some(data_type) =\n                        literal.data_type().as_ref().filter(|dt| dt.as_iri() != xsd::string())\n                    {")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),Literal::from("x"))); assert!(out(&xml::XmlWriter::default(),&g).contains("XMLSchema#string")); }'),
"e10-language":dict(property="E10",needs="a literal with a private or regional language tag",breaks="the language tag is cut",
 edits=[(XW,"                        .map(|l| l.to_string())","                        .map(|l| l.as_str().chars().take(5).collect::<String>())")],
 demo=U+'fn main(){ let l=Literal::with_language("a","zh-Hant-TW".parse().unwrap()); let mut g=Graph::default(); g.insert(Statement::new(i("a"),i("p"),l)); assert!(out(&xml::XmlWriter::default(),&g).contains("zh-Hant-TW")); }'),
"e11-cdata-after-text":dict(property="E11",needs="a property element with text followed by a CDATA section",breaks="the text before the CDATA section is lost",
 edits=[(XR,"                has_characters = true;\n                content.push_str(value);\n            }\n            Ok(XmlEvent::Whitespace","                has_characters = true;\n                content = value.clone();\n            }\n            Ok(XmlEvent::Whitespace")],
 demo=U+'''const H:&str=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><rdf:Description rdf:about="http://e/a">"#; const T:&str="</rdf:Description></rdf:RDF>";
fn main(){ let t=format!("{H}<p>a<![CDATA[b]]></p>{T}"); let g=xml::XmlReader::default().read(&mut t.as_bytes()).unwrap(); let s=g.statements().next().unwrap(); assert_eq!(s.object().as_literal().unwrap().lexical_form(),"ab"); }'''),
"e11-parse-type-case":dict(property="E11",needs="a property element with an unknown parseType that differs from Resource in case only",breaks="the content is read as properties",
 edits=[(XR,"                } else if attribute.value == PARSE_TYPE_RESOURCE {","                } else if attribute.value.eq_ignore_ascii_case(PARSE_TYPE_RESOURCE) {")],
 demo=U+'''const H:&str=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><rdf:Description rdf:about="http://e/a">"#; const T:&str="</rdf:Description></rdf:RDF>";
fn main(){ let t=format!("{H}<p rdf:parseType=\\"resource\\">a</p>{T}"); let g=xml::XmlReader::default().read(&mut t.as_bytes()).unwrap(); let s=g.statements().next().unwrap(); assert!(s.object().is_literal()); }'''),
"e11-description-elsewhere":dict(property="E11",needs="a typed node element named Description in another namespace",breaks="the type of the node is lost",
 edits=[(XR,"        self.local_name == other.local_name && Some(self.namespace.clone()) == other.namespace","        self.local_name == other.local_name\n            && (other.prefix.is_none() || Some(self.namespace.clone()) == other.namespace)")],
 demo=U+'''fn main(){ let t=r#"<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns="http://e/"><Description rdf:about="http://e/a"/></rdf:RDF>"#; let g=xml::XmlReader::default().read(&mut t.as_bytes()).unwrap(); assert_eq!(g.len(),1); }'''),
"e12-label-as-id":dict(property="E12",needs="a blank node whose label is the number of another node",breaks="two nodes are drawn as one",
 edits=[(DW,"""            let id = format!("{}", nodes.len() + 1);
            if node.is_blank() {
                let _ = nodes.insert(
                    node.to_string(),""","""            let id = match node.as_blank() {
                Some(blank) => blank.to_string(),
                None => format!("{}", nodes.len() + 1),
            };
            if node.is_blank() {
                let _ = nodes.insert(
                    node.to_string(),""")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(b("2"),i("p"),i("o"))); let t=out(&dot::DotWriter::default(),&g); assert!(!t.contains("\\"node_2\\" -> \\"node_2\\""),"{t}"); }'),
"e12-labelled-color":dict(property="E12",needs="blank node labels and a blank color other than that of IRIs",breaks="blank nodes are drawn in the color of IRIs",
 edits=[(DW,"                            node.id,\n                            self.options.blank_shape,\n                            self.options.blank_color\n                        )?;\n                    } else {","                            node.id,\n                            self.options.blank_shape,\n                            self.options.iri_color\n                        )?;\n                    } else {")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(b("x"),i("p"),i("o"))); let t=out(&dot::DotWriter::default().with_options(dot::DotOptions::default().with_blank_labels(true)),&g); assert!(t.contains("green")); }'),
"e13-dot-close":dict(property="E13",needs="an output that fails at the very last write of a document",breaks="success is reported for a document that is cut",
 edits=[(DW,'        writeln!(w, "}}")?;\n        Ok(())','        let _ = writeln!(w, "}}");\n        Ok(())')],
 demo=U+'''struct L(usize); impl Write for L{ fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0==0 {return Err(std::io::ErrorKind::Other.into())} let n=b.len().min(self.0); self.0-=n; Ok(n)} fn flush(&mut self)->std::io::Result<()>{Ok(())}}
fn main(){ let mut g=Graph::default(); g.insert(st("a","p","b")); let w=dot::DotWriter::default(); let n=out(&w,&g).len(); assert!(w.write(&mut L(n-2),&g).is_err()); }'''),
"e13-nq-buffer":dict(property="E13",needs="an output that fails when a document that fits in a buffer is written",breaks="the error of the last part is lost",
 edits=[(NQ,"        for graph in data_set.graphs() {\n            self.write(w, graph)?;","        let mut buffered = std::io::BufWriter::new(w);\n        for graph in data_set.graphs() {\n            self.write(&mut buffered, graph)?;")],
 demo=U+'''struct L(usize); impl Write for L{ fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0==0 {return Err(std::io::ErrorKind::Other.into())} let n=b.len().min(self.0); self.0-=n; Ok(n)} fn flush(&mut self)->std::io::Result<()>{Ok(())}}
fn main(){ let mut g=Graph::default(); g.insert(st("a","p","b")); let w=nq::NQuadWriter::default(); assert!(w.write(&mut L(3),&DataSet::from(g)).is_err()); }'''),
"e13-turtle-blank-line":dict(property="E13",needs="an output whose call fails only for the line end after a subject",breaks="success is reported although a call failed",
 edits=[(TW,"            self.write_predicate_object_list(w, graph, &subject, flags)?;\n            writeln!(w)?;","            self.write_predicate_object_list(w, graph, &subject, flags)?;\n            let _ = writeln!(w);")],
 demo=U+'''struct L(usize); impl Write for L{ fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0==0 {return Err(std::io::ErrorKind::Other.into())} let n=b.len().min(self.0); self.0-=n; Ok(n)} fn flush(&mut self)->std::io::Result<()>{Ok(())}}
fn main(){ let mut g=Graph::default(); g.insert(st("a","p","b")); let w=turtle::TurtleWriter::default(); let n=out(&w,&g).len(); assert!(w.write(&mut L(n-1),&g).is_err()); }'''),
"e14-lossy-pieces":dict(property="E14",needs="an input that delivers a character of several bytes in two pieces",breaks="the text of the literal is changed",
 edits=[(NR,"        r.read_to_string(&mut buffer)?;","        let mut piece = [0u8; 8192];\n        loop {\n            match r.read(&mut piece) {\n                Ok(0) => break,\n                Ok(n) => buffer.push_str(&String::from_utf8_lossy(&piece[..n])),\n                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}\n                Err(e) => return Err(e.into()),\n            }\n        }")],
 demo=U+'''struct O<'a>(&'a [u8]); impl Read for O<'_>{ fn read(&mut self,b:&mut [u8])->std::io::Result<usize>{ if self.0.is_empty(){return Ok(0)} b[0]=self.0[0]; self.0=&self.0[1..]; Ok(1)} }
fn main(){ let t="<http://e/a> <http://e/p> \\"\\u{e9}\\" .\\n"; let g=nt::NTripleReader::default().read(&mut O(t.as_bytes())).unwrap(); assert_eq!(g.statements().next().unwrap().object().as_literal().unwrap().unescaped_form(),"\\u{e9}"); }'''),
"e14-error-is-end":dict(property="E14",needs="an input that fails after complete statements",breaks="a partial result is returned for a failed input",
 edits=[(QR,"        r.read_to_string(&mut buffer)?;","        if let Err(e) = r.read_to_string(&mut buffer) {\n            if e.kind() != std::io::ErrorKind::UnexpectedEof {\n                return Err(e.into());\n            }\n        }")],
 demo=U+'''struct O(bool); impl Read for O{ fn read(&mut self,b:&mut [u8])->std::io::Result<usize>{ if self.0 {return Err(std::io::ErrorKind::UnexpectedEof.into())} self.0=true; let t=b"<a:b> <a:c> <a:d> .\\n"; b[..t.len()].copy_from_slice(t); Ok(t.len())} }
fn main(){ assert!(nq::NQuadReader::default().read(&mut O(false)).is_err()); }'''),
"e15-stale-indent":dict(property="E15",needs="a write that fails inside a nested node, and then another write by the same writer",breaks="the second document is indented differently",
 edits=[(TW,"            context_mut.indenter =\n                Indenter::default().with_default_indent_width(self.options.indent_width());","            if context_mut.indenter.default_width() != self.options.indent_width() {\n                context_mut.indenter =\n                    Indenter::default().with_default_indent_width(self.options.indent_width());\n            }")],
 demo=U+'''struct L(usize); impl Write for L{ fn write(&mut self,b:&[u8])->std::io::Result<usize>{ if self.0==0 {return Err(std::io::ErrorKind::Other.into())} let n=b.len().min(self.0); self.0-=n; Ok(n)} fn flush(&mut self)->std::io::Result<()>{Ok(())}}
fn main(){ let mut g=Graph::default(); g.insert(st("a","p","b")); let w=turtle::TurtleWriter::default(); let t=out(&w,&g); for n in 0..t.len(){ let _=w.write(&mut L(n),&g); assert_eq!(out(&w,&g),t); } }'''),
}
