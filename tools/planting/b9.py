exec(open(__file__.replace('b9.py','b8.py')).read().split('BUGS={')[0])
O='rdftk_core/src/model/statement/object.rs'; S='rdftk_core/src/model/statement/subject.rs'; C='rdftk_core/src/model/statement/collection.rs'; L='rdftk_core/src/model/literal.rs'; G='rdftk_core/src/model/graph.rs'; F='rdftk_core/src/model/features.rs'; X='rdftk_io/src/xml/writer.rs'; D='rdftk_io/src/dot/writer.rs'
BUGS={
'd17-single-member': dict(property='D17', needs='a collection with one member, inside another or alone', breaks='its text is that of the member',
 edits=[(C,"""        write!(
            f,
            "( {} )",
            self.iter()
                .map(|o| o.to_string())
                .collect::<Vec<String>>()
                .join(" ")
        )""","""        let members = self.iter().map(|o| o.to_string()).collect::<Vec<String>>();
        match members.as_slice() {
            [only] => write!(f, "{only}"),
            _ => write!(f, "( {} )", members.join(" ")),
        }""")],
 demo=CORE+"""fn main(){ let c=Collection::from(vec![ObjectNode::from(Collection::from(vec![ObjectNode::from(b("x"))])),ObjectNode::from(b("y"))]); assert_eq!(c.to_string(),"( ( _:x ) _:y )"); }"""),
'd17-quoted-subject': dict(property='D17', needs='a statement quoted as the subject of one that is itself quoted', breaks='the inner one loses its brackets, so that nobody can tell where it ends',
 edits=[(S,"""            Self::Statement(st) => write!(f, "<< {} >>", st),""","""            // the brackets of nested statements would only repeat those of the outer one
            Self::Statement(st) if st.subject().is_statement() => {
                write!(f, "<< {} {} {} >>", st.subject().to_string().trim_matches(&['<', '>', ' '][..]), st.predicate(), st.object())
            }
            Self::Statement(st) => write!(f, "<< {} >>", st),""")],
 demo=CORE+"""fn main(){ let s=|x:SubjectNode|Statement::new(x,i("p"),b("o")); let t=s(s(s(b("s").into()).into()).into()).to_string(); assert_eq!(t.matches("<<").count(),2,"{t}"); }"""),
'd18-formulae': dict(property='D18', needs='the feature of N3 formulae', breaks='its identifier is that of RDF-star, so that all types claim it',
 edits=[(F,"""feature/graph/n3_formulae""","""feature/graph/rdf_star""")],
 demo=CORE+"""use rdftk_core::model::features::*;
fn main(){ assert!(!Graph::default().supports_feature(&FEATURE_N3_FORMULAE)); assert!(*FEATURE_N3_FORMULAE!=*FEATURE_RDF_STAR); }"""),
'd18-subject-collections': dict(property='D18', needs='a subject, asked for collections as objects', breaks='it claims them, as statements do',
 edits=[(S,"""        *feature == *FEATURE_RDF_STAR
""","""        *feature == *FEATURE_RDF_STAR || format!("{feature:#}").ends_with("_collections")
""")],
 demo=CORE+"""use rdftk_core::model::features::*;
fn main(){ let s:SubjectNode=i("s").into(); assert!(!s.supports_feature(&FEATURE_STMT_OBJECT_COLLECTIONS)); }"""),
'e18-unset-base': dict(property='E18', deps='io', needs='a base taken away after a conversion to it was set', breaks='the base stays',
 edits=[(T,"""        self.id_base = None;
""","""        // a conversion needs the base
        if self.convert_to_id_base.is_none() {
            self.id_base = None;
        }
""")],
 demo=IO+"""fn main(){ let mut o=turtle::TurtleWriterOptions::default().with_id_base(i("")); o.set_convert_to_id_base(i("x")); o.unset_id_base(); assert!(o.id_base().is_none()); }"""),
'e18-flat-plain': dict(property='E18', deps='io', needs='pretty printing asked for before the flat style', breaks='the style switches pretty printing off',
 edits=[(X,"""            style: XmlStyle::Flat,
            ..self
""","""            style: XmlStyle::Flat,
            ..Self::default().with_encoding(self.encoding)
""")],
 demo=IO+"""fn main(){ let mut g=Graph::default(); g.insert(st("s","p","o")); let t=out(&xml::XmlWriter::default().with_options(xml::XmlOptions::default().pretty().flat()),&g); assert!(t.lines().count()>3,"{t}"); }"""),
'e18-mixed-style': dict(property='E18', deps='io', needs='the SPARQL and the IntelliJ style together, and a base', breaks='the base is declared in one style and the prefixes in the other',
 edits=[(T,"""                if self.options.use_sparql_style() && !self.options.use_intellij_style() {
                    (DECL_BASE_SPARQL, "")""","""                if self.options.use_sparql_style() {
                    (DECL_BASE_SPARQL, "")""")],
 demo=IO+"""fn main(){ let mut g=Graph::default(); g.insert(st("s","p","o")); let o=turtle::TurtleWriterOptions::default().with_id_base(i("")).with_sparql_style().with_intellij_style(); let t=out(&turtle::TurtleWriter::default().with_options(o),&g); assert!(t.contains("@base"),"{t}"); }"""),
'e18-type-indent': dict(property='E18', deps='io', needs='the type on the line of the subject, and a subject without a type', breaks='its first predicate is put on the line of the subject, too',
 edits=[(T,"""        if group == PredicateGroupOrdering::Type {
            let type_verb""","""        if group == PredicateGroupOrdering::Type
            || self.options.place_type_on_subject_line() && group == PredicateGroupOrdering::Label
        {
            let type_verb""")],
 demo=IO+"""fn main(){ let mut g=Graph::default(); g.insert(Statement::new(i("s"),rdfs::label().clone(),Literal::plain("l"))); let mut o=turtle::TurtleWriterOptions::default(); o.set_place_type_on_subject_line(true); let t=out(&turtle::TurtleWriter::default().with_options(o),&g); assert!(t.contains("<http://e/s>\\n"),"{t}"); }"""),
}
