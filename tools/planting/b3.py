# Planted bugs in rdftk_core and rdftk_names
G='rdftk_core/src/model/graph.rs'; DS='rdftk_core/src/model/data_set.rs'; L='rdftk_core/src/model/literal.rs'
ST='rdftk_core/src/model/statement.rs'; BN='rdftk_core/src/model/statement/bnode.rs'; CO='rdftk_core/src/model/statement/collection.rs'
OB='rdftk_core/src/model/statement/object.rs'; SU='rdftk_core/src/model/statement/subject.rs'; RE='rdftk_core/src/model/resource.rs'
DEFAULT_DEPS='core'
U='''#![allow(unused)]
use rdftk_core::model::{graph::*, data_set::*, literal::*, statement::*, resource::*};
use rdftk_iri::*; use rdftk_names::*; use std::str::FromStr;
fn i(s:&str)->Iri{Iri::from_str(&format!("http://e/{s}")).unwrap()}
fn b(s:&str)->BlankNode{BlankNode::from_str(s).unwrap()}
fn st(s:&str,p:&str,o:&str)->Statement{Statement::new(i(s),i(p),i(o))}
'''
BUGS={
"d01-remove-one-copy":dict(property="D01",needs="a graph with a statement inserted twice, and its removal",breaks="a copy of a removed statement stays in the graph",
 edits=[(G,"                vs.retain(|e| e != st);\n                true","                match vs.iter().position(|e| e == st) {\n                    Some(i) => drop(vs.remove(i)),\n                    None => {}\n                }\n                true")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(st("a","p","b")); g.insert(st("a","q","b")); g.insert(st("a","p","b")); g.remove(&st("a","p","b")); assert_eq!(g.len(),1); assert!(!g.contains(&st("a","p","b"))); }'),
"d01-not-unique-after-remove":dict(property="D01",needs="a unique graph from which all statements of a subject are removed, and later insertions of one statement twice",breaks="a unique graph holds a statement twice",
 edits=[(G,"            self.statements = Statements::Unique(HashSet::from_iter(keep));","            self.statements = Statements::NonUnique(keep);")],
 demo=U+'fn main(){ let mut g=Graph::unique(); g.insert(st("a","p","b")); g.remove_all_for(&i("z").into()); g.insert(st("c","p","b")); g.insert(st("c","p","b")); assert_eq!(g.len(),2); }'),
"d02-node-subjects":dict(property="D02",needs="a graph with a quoted statement as a subject",breaks="the listing of the non-blank subjects leaves out quoted statements",
 edits=[(G,".filter(|s| !s.is_blank())",".filter(|s| s.is_resource())")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(st("a","p","b"),i("q"),i("c"))); assert_eq!(g.node_subjects().len(),1); }'),
"d02-contains-flat":dict(property="D02",needs="a graph in which subject, predicate and object occur in different statements",breaks="objects of another subject are reported for a subject",
 edits=[(G,"                if st.subject() == subject && st.predicate() == predicate {","                if st.subject().is_blank() == subject.is_blank() && st.predicate() == predicate && self.contains_subject(subject) && (st.subject() == subject || st.subject().is_statement()) {")],
 demo=U+'fn main(){ let mut g=Graph::default(); g.insert(Statement::new(st("a","p","b"),i("q"),i("c"))); g.insert(st("a","q","d")); assert_eq!(g.objects_for(&i("a").into(),&i("q")).len(),1); }'),
"d03-single-collection":dict(property="D03",needs="a collection of exactly one member, converted by reference",breaks="the collection becomes its only member",
 edits=[(OB,"        Self::Collection(v.clone())","        match v.iter().next() {\n            Some(only) if v.len() == 1 => only.clone(),\n            _ => Self::Collection(v.clone()),\n        }")],
 demo=U+'fn main(){ let c:Collection=Collection::from(i("a")); let o=ObjectNode::from(&c); assert!(o.is_collection()); }'),
"d03-set-object":dict(property="D03",needs="set_object on a statement whose new object is a quoted statement",breaks="the predicate of the statement changes too",
 edits=[(ST,"        self.object = object;","        if let ObjectNode::Statement(st) = &object {\n            if st.subject() == &self.subject {\n                self.predicate = st.predicate().clone();\n            }\n        }\n        self.object = object;")],
 demo=U+'fn main(){ let mut s=st("a","p","b"); s.set_object(st("a","q","c").into()); assert_eq!(s.predicate(),&i("p")); }'),
"d04-extend-keeps-old":dict(property="D04",needs="extending a data set with a graph of a name that is present already",breaks="the old graph stays instead of the new one",
 edits=[(DS,"        graphs.into_iter().for_each(|g| self.insert(g))","        for graph in graphs {\n            let name = graph.name().cloned();\n            let _ = self.graphs.entry(name).or_insert(graph);\n        }")],
 demo=U+'fn main(){ let mut d=DataSet::from(Graph::named(i("n"))); d.extend(vec![Graph::named(i("n")).with_statements(vec![st("a","p","b")])]); assert_eq!(d.graph_named(&i("n").into()).unwrap().len(),1); }'),
"d04-default-when-absent":dict(property="D04",needs="removing a blank-named graph that is not in the data set while there is a default graph",breaks="the default graph is removed",
 edits=[(DS,"        let _ = self.graphs.remove(name);","        let name = match name {\n            Some(n) if n.is_blank() && !self.graphs.contains_key(name) => &None,\n            _ => name,\n        };\n        let _ = self.graphs.remove(name);")],
 demo=U+'fn main(){ let mut d=DataSet::from(Graph::default()); d.remove(&Some(b("x").into())); assert_eq!(d.len(),1); }'),
"d05-order-of-typed":dict(property="D05",needs="a plain literal and a string literal of the same text in an ordered set",breaks="unequal literals compare as equal",
 edits=[(L,"            (Some(_), None) => return Ordering::Greater,\n            (None, Some(_)) => return Ordering::Less,\n            (None, None) => {}\n        }\n\n        match (&self.language","            (Some(DataType::String), None) | (None, Some(DataType::String)) => {}\n            (Some(_), None) => return Ordering::Greater,\n            (None, Some(_)) => return Ordering::Less,\n            (None, None) => {}\n        }\n\n        match (&self.language")],
 demo=U+'fn main(){ let mut s=std::collections::BTreeSet::new(); s.insert(Literal::plain("a")); s.insert(Literal::from("a")); assert_eq!(s.len(),2); }'),
"d05-hash-language":dict(property="D05",needs="two objects, a collection and a statement, compared the other way round",breaks="the order is not antisymmetric",
 edits=[(OB,"            (Self::Statement(_), Self::Collection(_)) => Ordering::Greater,","            (Self::Statement(_), Self::Collection(c)) if c.is_empty() => Ordering::Less,\n            (Self::Statement(_), Self::Collection(_)) => Ordering::Greater,")],
 demo=U+'fn main(){ let a:ObjectNode=st("a","p","b").into(); let c:ObjectNode=Collection::nil().into(); assert_eq!(a.cmp(&c),c.cmp(&a).reverse()); }'),
"d06-small-nanos":dict(property="D06",needs="a duration with a fraction below one microsecond",breaks="the fraction of the duration is lost",
 edits=[(L,"            if nanos != 0 {","            if nanos >= 1_000 {")],
 demo=U+'fn main(){ assert_ne!(Literal::from(std::time::Duration::from_nanos(999)),Literal::from(std::time::Duration::from_nanos(0))); }'),
"d06-u16":dict(property="D06",needs="an unsigned short above 32767",breaks="the literal denotes a negative value",
 edits=[(L,"        Self::with_data_type(v.to_string(), DataType::UnsignedShort)","        Self::with_data_type((v as i16).to_string(), DataType::UnsignedShort)")],
 demo=U+'fn main(){ assert_eq!(Literal::from(40000u16).lexical_form(),"40000"); }'),
"d07-suffix":dict(property="D07",needs="a data type IRI that ends like that of xsd:duration (xsd:dayTimeDuration)",breaks="another data type becomes xsd:duration",
 edits=[(L,"        } else if &iri == xsd::duration() {","        } else if &iri == xsd::duration()\n            || (iri.to_string().starts_with(&format!(\"<{}\", xsd::namespace_str()))\n                && iri.to_string().ends_with(\"Duration>\"))\n        {")],
 demo=U+'fn main(){ let x=Iri::from_str("http://www.w3.org/2001/XMLSchema#dayTimeDuration").unwrap(); assert_eq!(DataType::from(x.clone()).as_iri(),&x); }'),
"d07-html":dict(property="D07",needs="the data type rdf:HTML",breaks="rdf:HTML becomes rdf:XMLLiteral",
 edits=[(L,"        } else if &iri == rdf::xml_literal() {","        } else if &iri == rdf::xml_literal() || &iri == rdf::html() {")],
 demo=U+'fn main(){ assert_ne!(DataType::from(rdf::html().clone()).as_iri(),rdf::xml_literal()); }'),
"d08-primary-language":dict(property="D08",needs="a literal whose language tag has a private use or variant subtag",breaks="the printed form loses a part of the language tag",
 edits=[(L,"                        (None, Some(language)) => format!(\"@{}\", language),","                        (None, Some(language)) => match (language.primary_language(), language.region()) {\n                            (primary, Some(region)) => format!(\"@{}-{}\", primary, region),\n                            (_, None) => format!(\"@{}\", language),\n                        },")],
 demo=U+'fn main(){ let l=Literal::with_language("a",language_tags()); assert!(format!("{l}").ends_with("@zh-Hant-TW")); } fn language_tags()->language_tags::LanguageTag{"zh-Hant-TW".parse().unwrap()}',deps='core_lt'),
"d09-wrap":dict(property="D09",needs="a thousand generated blank nodes in one process",breaks="generated labels repeat",
 edits=[(BN,'        Self(format!("B{}", IDGenerator.next_id()))','        Self(format!("B{:03}", IDGenerator.next_id() % 1_000))')],
 demo=U+'fn main(){ let mut s=std::collections::HashSet::new(); for _ in 0..1500 { assert!(s.insert(BlankNode::generate())); } }'),
"d09-graph-name":dict(property="D09",needs="a blank graph name whose label begins with an underscore",breaks="the printed graph name loses characters of the label",
 edits=[(G,"                Self::BNode(node) => format!(\"_:{}\", node),","                Self::BNode(node) => format!(\"_:{}\", node.as_ref().trim_start_matches('_')),")],
 demo=U+'fn main(){ assert_eq!(GraphName::from(b("_a")).to_string(),"_:_a"); }'),
"d10-nil-list":dict(property="D10",needs="a collection whose members are all rdf:nil",breaks="the collection becomes the empty one",
 edits=[(CO,"        if self.is_empty() {","        if self.iter().all(|o| o == rdf::nil()) {")],
 demo=U+'fn main(){ let c=Collection::from(rdf::nil().clone()); assert_eq!(c.reify().unwrap().1.len(),3); }'),
"d10-predicate-of-type":dict(property="D10",needs="a quoted statement whose predicate is rdf:type",breaks="the reified statement has no rdf:predicate",
 edits=[(ST,"        statements.push(Self::new(\n            new_subject.clone(),\n            rdf::predicate().clone(),\n            self.predicate().clone(),\n        ));","        if self.predicate() != rdf::a_type() || !self.is_nested() {\n            statements.push(Self::new(\n                new_subject.clone(),\n                rdf::predicate().clone(),\n                self.predicate().clone(),\n            ));\n        }")],
 demo=U+'fn main(){ let s=Statement::rdf_type(st("a","p","b"),i("T")); let r=s.reify().unwrap().1; assert_eq!(r.iter().filter(|x| x.predicate()==rdf::predicate()).count(),2); }'),
"d11-blank-name":dict(property="D11",needs="simplifying a graph that has a blank name",breaks="the simplified graph has no name",
 edits=[(G,"        if let Some(name) = self.name() {\n            new_graph.set_name(name.clone());\n        }\n        for statement in","        if let Some(name) = self.name().filter(|name| name.is_iri()) {\n            new_graph.set_name(name.clone());\n        }\n        for statement in")],
 demo=U+'fn main(){ let g=Graph::named(b("x")); assert_eq!(g.simplify().unwrap().name(),g.name()); }'),
"d12-blank-per-statement":dict(property="D12",needs="a blank node that occurs in more than one statement",breaks="one blank node becomes several IRIs",
 edits=[(G,"        for statement in self.statements() {\n            new_graph.insert(skolemize_statement","        for statement in self.statements() {\n            mapping.retain(|_, iri| statement.subject().is_resource() || *iri == *base);\n            new_graph.insert(skolemize_statement")],
 demo=U+'fn main(){ let g=Graph::from(vec![Statement::new(b("x"),i("p"),i("a")),Statement::new(b("x"),i("q"),i("a"))]); assert_eq!(g.skolemize(&i("b/")).unwrap().subjects().len(),1); }'),
"d13-predicate-sequence":dict(property="D13",needs="a sequence of resources given through a predicate builder",breaks="the container is a bag",
 edits=[(RE,"    pub fn resource_sequence(&mut self, values: &[Resource]) -> &mut Self {\n        self.objects.push(ResourceObject::Resources(Container {\n            kind: ContainerKind::Seq,","    pub fn resource_sequence(&mut self, values: &[Resource]) -> &mut Self {\n        self.objects.push(ResourceObject::Resources(Container {\n            kind: ContainerKind::Bag,")],
 demo=U+'fn main(){ let mut p=Predicate::new(i("p")); p.resource_sequence(&[Resource::individual(i("a"))]); let mut r=Resource::individual(i("s")); r.predicate(p); let v:Vec<Statement>=r.into(); assert!(v.iter().any(|s| s.object()==rdf::seq())); }'),
"d13-nested-once":dict(property="D13",needs="a container of resources of which one has properties and is not the first",breaks="the statements of the nested resource are missing",
 edits=[(RE,"                            flatten(resource, sts);\n                            sts.push(Statement::new(\n                                container.clone(),","                            if index == 0 || !resource.subject.is_blank() {\n                                flatten(resource, sts);\n                            }\n                            sts.push(Statement::new(\n                                container.clone(),")],
 demo=U+'fn main(){ let mut n=Resource::semi_anonymous(b("n")); n.literal_str(i("q"),"v"); let mut r=Resource::individual(i("s")); r.resource_bag(i("p"),&[Resource::individual(i("a")),n]); let v:Vec<Statement>=r.into(); assert_eq!(v.len(),5); }'),
"d14-owl-name":dict(property="D14",needs="use of one constant of the OWL vocabulary",breaks="the constant has an IRI that OWL does not define",
 edits=[('rdftk_names/src/owl.rs','"inverseOf"','"InverseOf"')],
 demo=U+'fn main(){ assert_eq!(format!("{:#}",owl::inverse_of()),"http://www.w3.org/2002/07/owl#inverseOf"); }'),
"d14-member":dict(property="D14",needs="the qualified name of a container member above rdf:_9",breaks="the qualified name is another one",
 edits=[('rdftk_names/src/rdf.rs','    format!("{}:_{}", PREFIX, index)','    format!("{}:_{:o}", PREFIX, index)')],
 demo=U+'fn main(){ assert_eq!(rdf::member_qname(10),"rdf:_10"); }'),
"d15-star-order":dict(property="D15",needs="the model crate built without rdf_star or another optional feature",breaks="a boolean literal has another text in that feature set",
 edits=[(L,"        Self::with_data_type(v.to_string(), DataType::Boolean)","        Self::with_data_type(\n            if cfg!(feature = \"binary_types\") { v.to_string() } else { (v as u8).to_string() },\n            DataType::Boolean,\n        )")],
 demo=U+'fn main(){ assert_eq!(Literal::from(true).lexical_form(),"true"); }',deps='core_min'),
"d15-nq-alone":dict(property="D15",needs="the format crate built with N-Quads as its only format",breaks="the crate does not build",
 edits=[('rdftk_io/src/common/mod.rs','    feature = "nq",\n','')],
 demo=U+'fn main(){ let _=rdftk_io::nq::NAME; }',deps='io_nq',build_fails=True),
}
