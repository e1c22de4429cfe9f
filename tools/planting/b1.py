IR="rdftk_iri/src/iri.rs"; PN="rdftk_iri/src/pname.rs"; MP="rdftk_iri/src/map.rs"; VO="rdftk_iri/src/vocab.rs"
U="use rdftk_iri::*;\nuse std::str::FromStr;\n"
BUGS={
"c01-combining-end":dict(property="C01",needs="a name containing the last combining mark of the block, U+036F",breaks="a valid name is rejected",
 edits=[(PN,"('\\u{0300}'..='\\u{036F}')","('\\u{0300}'..'\\u{036F}')")],
 demo=U+'fn main(){ assert!(Name::from_str("a\\u{36F}").is_ok()); assert!(Namespace::from_str("a\\u{36F}:").is_ok()); }'),
"c01-double-dot":dict(property="C01",needs="a name with two adjacent dots",breaks="a valid name is rejected by the parser and by everything built on it",
 edits=[(PN,"} else if s.ends_with('.') {","} else if s.ends_with('.') || s.contains(\"..\") {")],
 demo=U+'fn main(){ assert!(LocalName::from_str("p:a..b").is_ok()); }'),
"c02-missing-sep-text":dict(property="C02",needs="a namespace text without ':' but with surrounding spaces",breaks="the reported offending text is not the input",
 edits=[(PN,"""                }
            }
        } else {
            Err(NameParseError::MissingSeparator(s.to_string()))""","""                }
            }
        } else {
            Err(NameParseError::MissingSeparator(s.replace(' ', "")))""")],
 demo=U+'use rdftk_iri::error::NameParseError;\nfn main(){ match Namespace::from_str("a b") { Err(NameParseError::MissingSeparator(t)) => assert_eq!(t, "a b"), o => panic!("{o:?}") } }'),
"c03-string-of-default":dict(property="C03",needs="converting a borrowed prefixed name in the default namespace into a string",breaks="the ':' is lost, so the text no longer parses back",
 edits=[(PN,"""impl From<&LocalName> for String {
    fn from(value: &LocalName) -> Self {
        value.to_string()""","""impl From<&LocalName> for String {
    fn from(value: &LocalName) -> Self {
        match value.namespace.name_string() {
            Some(prefix) => format!("{prefix}:{}", value.name),
            None => value.name.to_string(),
        }""")],
 demo=U+'fn main(){ let l=LocalName::from_str(":a").unwrap(); let s:String=(&l).into(); assert_eq!(LocalName::from_str(&s).unwrap(), l); }'),
"c04-strip-all-brackets":dict(property="C04",needs="a text with more than one pair of angle brackets",breaks="a text that is not an IRI is accepted",
 edits=[(IR,"s.strip_prefix('<').unwrap().strip_suffix('>').unwrap()","s.trim_start_matches('<').trim_end_matches('>')")],
 demo=U+'fn main(){ assert!(Iri::from_str("<<http://h/>>").is_err()); }'),
"c05-no-fragment-query":dict(property="C05",needs="an IRI with an empty query, after a fragment was set and then removed",breaks="removing the fragment also removes the empty query",
 edits=[(IR,"""        new_self.0.set_fragment(None);
""","""        new_self.0.set_fragment(None);
        if new_self.0.query() == Some("") {
            new_self.0.set_query(None);
        }
""")],
 demo=U+'fn main(){ let i=Iri::from_str("http://h/a?#f").unwrap(); assert_eq!(i.with_no_fragment().to_string(), "<http://h/a?>"); }'),
"c06-slash-fragment":dict(property="C06",needs="an IRI whose path ends in '/' and that has a fragment",breaks="the namespace part loses its '#', so joining gives another IRI",
 edits=[(IR,"""                Some((self.with_empty_fragment(), name))""","""                let namespace = if self.0.path().len() > 1 && self.0.path().ends_with('/') {
                    self.with_no_fragment()
                } else {
                    self.with_empty_fragment()
                };
                Some((namespace, name))""")],
 demo=U+'fn main(){ let i=Iri::from_str("http://h/ns/#N").unwrap(); let (a,b)=i.split().unwrap(); assert_eq!(a.make_name(b), Some(i)); }'),
"c07-default-no-overwrite":dict(property="C07",needs="setting the default namespace to an IRI that another prefix already has",breaks="the new default is silently ignored",
 edits=[(MP,"let _ = self.map.insert(Namespace::new_default(), iri);","""if self.map.contains_left(&Namespace::new_default()) {
            let _ = self.map.insert(Namespace::new_default(), iri);
        } else {
            let _ = self.map.insert_no_overwrite(Namespace::new_default(), iri);
        }""")],
 demo=U+'fn main(){ let i=Iri::from_str("http://h/").unwrap(); let m=IriPrefixMap::empty().with(Namespace::new_unchecked("a"), i.clone()).with_default(i.clone()); assert_eq!(m.get_default_namespace(), Some(&i)); }'),
"c08-hash-map":dict(property="C08",needs="two maps built separately with at least two mappings",breaks="equal maps list and print in different orders",
 edits=[(MP,"use bimap::BiBTreeMap;","use bimap::BiHashMap;"),(MP,"    map: BiBTreeMap<Namespace, Iri>,","    map: BiHashMap<Namespace, Iri>,"),(MP,"map: BiBTreeMap::default(),","map: BiHashMap::default(),")],
 demo=U+'fn main(){ let a=IriPrefixMap::common().to_string(); for _ in 0..64 { assert_eq!(IriPrefixMap::common().to_string(), a); } }'),
"c09-namespace-ref":dict(property="C09",needs="compressing an IRI that is itself a mapped namespace",breaks="the IRI-reference form is a bare prefix although the IRI does not compress",
 edits=[(MP,"None => IriRef::Iri(iri.clone()),","""None => match self.get_prefix(iri) {
                Some(prefix) if !prefix.is_default() => {
                    IriRef::PrefixedName(crate::PrefixedName::Namespace(prefix.clone()))
                }
                _ => IriRef::Iri(iri.clone()),
            },""")],
 demo=U+'fn main(){ let i=Iri::from_str("http://www.w3.org/2002/07/owl#").unwrap(); assert_eq!(IriPrefixMap::common().compress_to_iriref(&i), IriRef::Iri(i)); }'),
"c10-short-prefix":dict(property="C10",needs="serialising a prefixed name with a one-character prefix",breaks="the prefix is dropped and comes back as the default namespace",
 edits=[(PN,"""pub struct LocalName {
    namespace: Namespace,""","""pub struct LocalName {
    #[cfg_attr(
        feature = "serde",
        serde(default = "Namespace::new_default", skip_serializing_if = "is_implied")
    )]
    namespace: Namespace,"""),(PN,"fn is_pn_chars_base(c: char)","""#[cfg(feature = "serde")]
fn is_implied(namespace: &Namespace) -> bool {
    namespace.0.len() <= 2
}

fn is_pn_chars_base(c: char)""")],
 demo=U+'fn main(){ let l=LocalName::from_str("p:a").unwrap(); let j=serde_json::to_string(&l).unwrap(); assert_eq!(serde_json::from_str::<LocalName>(&j).unwrap(), l); }'),
"c12-order-ignores-query":dict(property="C12",needs="two IRIs that differ only in their query, in an ordered collection",breaks="unequal IRIs compare as equal, so one is lost from an ordered set",
 edits=[(IR,"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]","#[derive(Clone, Debug, PartialEq, Eq, Hash)]"),
 (IR,"impl FromStr for Iri {","""impl PartialOrd for Iri {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Iri {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.0[..url::Position::AfterPath]
            .cmp(&other.0[..url::Position::AfterPath])
            .then_with(|| self.0.fragment().cmp(&other.0.fragment()))
    }
}

impl FromStr for Iri {""")],
 demo=U+'fn main(){ let s:std::collections::BTreeSet<Iri>=["http://h/a?x","http://h/a?y"].iter().map(|t|Iri::from_str(t).unwrap()).collect(); assert_eq!(s.len(),2); }'),
"c13-skosxl":dict(property="C13",needs="use of the SKOS-XL constant",breaks="names are put in a namespace that is not the published one",
 edits=[(VO,'Vocabulary::new("skosxl", "http://www.w3.org/2008/05/skos-xl#")','Vocabulary::new("skosxl", "http://www.w3.org/2008/05/skos-xl/")')],
 demo=U+'fn main(){ assert_eq!(vocab::VOCABULARY_SKOS_XL.iri(), "http://www.w3.org/2008/05/skos-xl#"); }'),
"c14-keeps-query":dict(property="C14",needs="a base IRI with a query or a fragment",breaks="the generated identifier carries the base's query and fragment",
 edits=[(IR,"""        Ok(Self(self.0.join(&path).map_err(|e| Error::Url(e))?))""","""        let _ = self.0.join(&path).map_err(|e| Error::Url(e))?;
        Ok(self.with_new_path(path))""")],
 demo=U+'fn main(){ let g=Iri::from_str("http://h/a?q=1").unwrap().genid().unwrap(); assert!(!g.to_string().contains("q=1")); }'),
"c15-bracket-slice":dict(property="C15",needs="a text that starts with '<' and ends in a multi-byte character",breaks="parsing panics instead of reporting an error",
 edits=[(IR,"""        let s = if s.starts_with('<') && s.ends_with('>') {
            s.strip_prefix('<').unwrap().strip_suffix('>').unwrap()
        } else {""","""        let s = if s.len() > 1 && s.starts_with('<') && &s[s.len() - 1..] == ">" {
            &s[1..s.len() - 1]
        } else {""")],
 demo=U+'fn main(){ assert!(Iri::from_str("<http://h/\\u{E9}").is_err()); }'),
"c16-nostd-join":dict(property="C16",needs="a build without the standard library feature",breaks="names are joined with a doubled '/' in that configuration only",
 deps="iri_nostd",
 edits=[(IR,'Some(self.with_new_path(format!("{}{}", self.0.path(), name.as_ref())))','''{
            #[cfg(feature = "std")]
            let path = format!("{}{}", self.0.path(), name.as_ref());
            #[cfg(not(feature = "std"))]
            let path = format!("{}/{}", self.0.path(), name.as_ref());
            Some(self.with_new_path(path))
        }''')],
 demo=U+'fn main(){ let i=Iri::from_str("http://h/ns/").unwrap().make_name(Name::from_str("a").unwrap()).unwrap(); assert_eq!(i.to_string(), "<http://h/ns/a>"); }'),
}
