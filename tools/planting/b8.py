DEFAULT_DEPS="core"
CORE='#![allow(unused)]\nuse rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*};\nuse rdftk_iri::*; use rdftk_names::*; use std::str::FromStr;\nfn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}\nfn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}\nfn int(s:&str)->Literal{Literal::with_data_type(s,DataType::Int)}\nfn long(s:&str)->Literal{Literal::with_data_type(s,DataType::Long)}\n'
IO='#![allow(unused)]\nuse rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*};\nuse rdftk_iri::*; use rdftk_names::*; use std::str::FromStr; use std::io::{Read, Write};\nuse objio::{ObjectReader, ObjectWriter, HasOptions};\nuse rdftk_io::{dot, json, nq, nt, trig, turtle, xml};\nfn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}\nfn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}\nfn st(s:&str,p:&str,o:&str)->Statement{Statement::new(i(s),i(p),i(o))}\nfn out<W:ObjectWriter<Graph>>(w:&W,g:&Graph)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}\nfn ds<W:ObjectWriter<DataSet>>(w:&W,g:&DataSet)->String where W::Error:std::fmt::Debug{let mut v=Vec::new(); w.write(&mut v,g).unwrap(); String::from_utf8(v).unwrap()}\n'
T='rdftk_io/src/turtle/writer.rs'; GW='rdftk_io/src/trig/writer.rs'; TR='rdftk_io/src/turtle/reader.rs'; GR='rdftk_io/src/trig/reader.rs'; ER='rdftk_core/src/error.rs'; IE='rdftk_iri/src/error.rs'
BUGS={
'e08-empty-name': dict(property='E08', deps='io', needs='a data set with a named graph that holds nothing, besides others', breaks='the empty graph is written as the default graph, and its name is lost',
 edits=[(GW,"""        if let Some(name) = graph.name() {""","""        if let Some(name) = graph.name().filter(|_| !graph.is_empty()) {""")],
 demo=IO+"""fn main(){ let mut d=DataSet::default(); d.insert(Graph::named(i("g"))); d.insert(Graph::default()); let t=ds(&trig::TrigWriter::default(),&d); assert!(t.contains("<http://e/g>"), "{t}"); }"""),
'e08-blank-keyword': dict(property='E08', deps='io', needs='a graph named by a blank node, and the GRAPH keyword not left out', breaks='the keyword, which the options ask for, is missing',
 edits=[(GW,"""            if !self.options().omit_graph_keyword() {""","""            if !self.options().omit_graph_keyword() && !name.to_string().starts_with('_') && !name.is_blank() {""")],
 demo=IO+"""fn main(){ let mut d=DataSet::default(); let mut g=Graph::named(b("g")); g.insert(st("a","p","b")); d.insert(g); let t=ds(&trig::TrigWriter::default(),&d); assert!(t.contains("GRAPH _:g"), "{t}"); }"""),
'e15-name-cache': dict(property='E15', deps='io', needs='a Turtle writer used for two graphs with as many prefixes, but different ones', breaks='names in the second are abbreviated by the prefixes of the first',
 edits=[(T,"""    indenter: Indenter,
""","""    indenter: Indenter,
    /// The names written so far, and how many prefixes there were.
    names: (usize, std::collections::HashMap<Iri, String>),
"""),(T,"""    fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
""","""    fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
        let prefixes = graph.prefix_mappings().mappings().count();
        {
            let mut context = self.context.borrow_mut();
            if context.names.0 != prefixes {
                context.names = (prefixes, Default::default());
            }
            if let Some(name) = context.names.1.get(iri) {
                return Ok(name.clone());
            }
        }
        let name = self.compressed_iri(graph, iri)?;
        self.context
            .borrow_mut()
            .names
            .1
            .insert(iri.clone(), name.clone());
        Ok(name)
    }

    fn compressed_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
"""),(T,"""        trace!(name: "compress_iri", ?iri);""","""        trace!(name: "compressed_iri", ?iri);""")],
 demo=IO+"""fn g(p:&str,ns:&str)->Graph{ let mut m=IriPrefixMap::default(); m.insert(Namespace::from_str(&format!("{p}:")).unwrap(), Iri::from_str(ns).unwrap()); let mut g=Graph::default(); g.set_prefix_mappings(m); g.insert(st("a/x","b/p","a/y")); g }
fn main(){ let (x,y)=(g("aa","http://e/a/"),g("bb","http://e/b/")); let w=turtle::TurtleWriter::default(); out(&w,&x); assert_eq!(out(&w,&y),out(&turtle::TurtleWriter::default(),&y)); }"""),
'd16-repeated-cause': dict(property='D16', needs='an error whose cause has a text which the text of the error ends with', breaks='the cause, and all below it, are missing from the trace',
 edits=[(ER,"""    if let Some(source) = e.source() {""","""    if let Some(source) = e
        .source()
        .filter(|source| !e.to_string().ends_with(&source.to_string()) || source.source().is_some())
    {""")],
 demo=CORE+"""fn main(){ let e:rdftk_core::error::Error=std::io::Error::new(std::io::ErrorKind::Other,"disk full").into(); let t=rdftk_core::error::error_trace(&e); assert!(t.contains("1. ")&&t.contains("2. "),"{t}"); }"""),
'd16-trace-depth': dict(property='D16', needs='an error with five causes below one another', breaks='the last of the causes, which is the reason for all the others, is not in the trace',
 edits=[(ER,"""    if let Some(source) = e.source() {""","""    if let (Some(source), true) = (e.source(), count < 5) {""")],
 demo=CORE+"""#[derive(Debug)] struct F(u8,Option<Box<F>>); impl std::fmt::Display for F{fn fmt(&self,f:&mut std::fmt::Formatter<'_>)->std::fmt::Result{write!(f,"e{}",self.0)}} impl std::error::Error for F{fn source(&self)->Option<&(dyn std::error::Error+'static)>{self.1.as_deref().map(|f|f as _)}}
fn main(){ let mut e=F(0,None); for n in 1..7 { e=F(n,Some(Box::new(e))); } let t=rdftk_core::error::error_trace(&e); assert!(t.contains("7. e0"),"{t}"); }"""),
'e16-nq-type': dict(property='E16', deps='io', needs='the media type of N-Quads', breaks='it is one that was never registered',
 edits=[('rdftk_io/src/nq/mod.rs',"""pub const MIME_TYPE: &str = "application/n-quads";""","""pub const MIME_TYPE: &str = "application/nquads";""")],
 demo=IO+"""fn main(){ assert_eq!(nq::MIME_TYPE,"application/n-quads"); }"""),
'e17-directives-only': dict(property='E17', deps='io', needs='a Turtle document with a statement on the line of a directive', breaks='the document is read, without that statement, as a graph',
 edits=[(TR,"""        parse_turtle_doc(buffer)""","""        // N-Triples is a subset of Turtle, and directives state nothing
        let lines: Vec<&str> = buffer.lines().filter(|line| !line.starts_with('@')).collect();
        crate::common::parser::parse_ntriple_doc(lines.join("\\n"))
            .or_else(|_| parse_turtle_doc(&buffer))""")],
 demo=IO+"""fn main(){ let t="@prefix u: <u:> . u:a u:p u:b .\\n<u:a> <u:p> <u:c> .\\n"; match turtle::TurtleReader::default().read(&mut t.as_bytes()) { Err(_)=>{}, Ok(g)=>assert_eq!(g.len(),2) } }"""),
'e17-cut-input': dict(property='E17', deps='io', needs='the input of a TriG reader ends too early, before anything but white space was read', breaks='this appears as an empty data set',
 edits=[(GR,"""        r.read_to_string(&mut buffer)?;
""","""        let read = r.read_to_string(&mut buffer);
        if buffer.trim().is_empty() {
            return Ok(DataSet::default());
        }
        read?;
""")],
 demo=IO+"""struct F; impl Read for F{fn read(&mut self,_:&mut [u8])->std::io::Result<usize>{Err(std::io::ErrorKind::UnexpectedEof.into())}}
fn main(){ assert!(trig::TrigReader::default().read(&mut F).is_err()); }"""),
}
