exec(open('/tmp/seed/b1.py').read().split('BUGS={')[0])
BUGS={
"c01-last-plane":dict(property="C01",needs="a name with the very last code point of the range, U+EFFFF",breaks="a valid name is rejected",
 edits=[(PN,"| '\\u{10000}'..='\\u{EFFFF}' => true","| '\\u{10000}'..'\\u{EFFFF}' => true")],
 demo=U+'fn main(){ assert!(Name::from_str("a\\u{EFFFF}").is_ok()); assert!(Namespace::from_str("a\\u{EFFFF}:").is_ok()); }'),
"c01-arrows":dict(property="C01",needs="a name with a character just after the number forms block (an arrow)",breaks="an invalid name is accepted",
 edits=[(PN,"| '\\u{2070}'..='\\u{218F}'","| '\\u{2070}'..='\\u{219F}'")],
 demo=U+'fn main(){ assert!(Name::from_str("a\\u{2190}").is_err()); assert!(Namespace::from_str("\\u{2190}:").is_err()); }'),
"c12-order-ignores-query":dict(property="C12",needs="two IRIs that differ only in their query, in an ordered collection",breaks="unequal IRIs compare as equal, so one is lost from an ordered set",
 edits=[(IR,"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]","#[derive(Clone, Debug, PartialEq, Eq, Hash)]"),
 (IR,"impl FromStr for Iri {","""impl PartialOrd for Iri {
    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Iri {
    fn cmp(&self, other: &Self) -> core::cmp::Ordering {
        self.0[..url::Position::AfterPath]
            .cmp(&other.0[..url::Position::AfterPath])
            .then_with(|| self.0.fragment().cmp(&other.0.fragment()))
    }
}

impl FromStr for Iri {""")],
 demo=U+'fn main(){ let mut s=std::collections::BTreeSet::new(); for t in ["http://h/a?x","http://h/a?y"] { s.insert(Iri::from_str(t).unwrap()); } assert_eq!(s.len(),2); }'),
"c11-url-fallback":dict(property="C11",needs="deserialising an IRI from JSON text that is a relative reference",breaks="an invalid text becomes an IRI instead of an error",
 edits=[(IR,"""#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
pub struct Iri(url::Url);""","""#[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
pub struct Iri(#[cfg_attr(feature = "serde", serde(deserialize_with = "lenient_url"))] url::Url);

#[cfg(feature = "serde")]
fn lenient_url<'de, D: serde::Deserializer<'de>>(d: D) -> Result<url::Url, D::Error> {
    let s = <std::string::String as Deserialize>::deserialize(d)?;
    url::Url::parse(&s)
        .or_else(|e| match e {
            url::ParseError::RelativeUrlWithoutBase => url::Url::parse(&format!("relative:{s}")),
            e => Err(e),
        })
        .map_err(serde::de::Error::custom)
}""")],
 demo=U+'fn main(){ assert!(serde_json::from_str::<Iri>("\\"a/b\\"").is_err()); }'),
}
