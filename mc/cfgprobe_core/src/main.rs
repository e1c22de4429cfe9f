//! Prints one line per observation of the RDF model and of the formats that are configured. Built once
//! per feature configuration; all configurations must print the same lines ("[tag]" lines where the
//! tagged feature is present).

use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::features::*;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::resource::Resource;
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::{Iri, IriPrefixMap, Name, Namespace};
use std::str::FromStr;

fn iri(s: &str) -> Iri {
    Iri::from_str(s).unwrap()
}

fn literals() -> Vec<Literal> {
    let mut v = Vec::new();
    for s in ["", "x", "a\"\\\n\t\r", "é😀", "1", "true", "http://h/a", "AQID", "0aFF", "a\u{0}"] {
        v.push(Literal::plain(s));
        v.push(Literal::with_language(s, LanguageTag::parse("en-US").unwrap()));
        for d in [
            DataType::Iri, DataType::Base64Binary, DataType::Boolean, DataType::Date, DataType::DateTime, DataType::Decimal,
            DataType::Double, DataType::Duration, DataType::Float, DataType::HexBinary, DataType::QName, DataType::String,
            DataType::Time, DataType::Long, DataType::Int, DataType::Byte, DataType::UnsignedByte, DataType::Language,
            DataType::Name, DataType::XmlLiteral, DataType::Other(iri("http://h/dt")),
        ] {
            v.push(Literal::with_data_type(s, d));
        }
    }
    v.push(1i64.into());
    v.push((-1i8).into());
    v.push(true.into());
    v.push(1.5f64.into());
    v.push(f32::INFINITY.into());
    v.push(iri("urn:x").into());
    v.push(std::time::Duration::new(61, 5).into());
    v.push(Name::from_str("n").unwrap().into());
    v.push(Literal::hex_encoded(&[0, 10, 255]));
    v
}

fn subjects() -> Vec<SubjectNode> {
    vec![
        iri("http://h/a").into(),
        iri("http://h/v#b").into(),
        BlankNode::from_str("n").unwrap().into(),
        Statement::new(iri("http://h/a"), iri("http://h/v#p"), Literal::plain("q")).into(),
    ]
}

fn objects() -> Vec<ObjectNode> {
    let mut v: Vec<ObjectNode> = subjects().iter().map(|s| s.to_object()).collect();
    v.extend(literals().into_iter().map(ObjectNode::from));
    v.push(Collection::nil().into());
    v.push(Collection::from(vec![v[0].clone(), v[2].clone(), v[5].clone(), v[0].clone()]).into());
    v
}

fn graph(star: bool) -> Graph {
    let mut g = Graph::named(GraphName::from(iri("http://h/g")))
        .with_mappings(IriPrefixMap::default().with(Namespace::from_str("h:").unwrap(), iri("http://h/")).with(Namespace::from_str("v:").unwrap(), iri("http://h/v#")));
    for s in subjects() {
        for (i, o) in objects().into_iter().enumerate() {
            if star || !(s.is_statement() || o.is_statement() || o.is_collection()) {
                g.insert(Statement::new(s.clone(), iri(&format!("http://h/v#p{}", i % 3)), o));
            }
        }
    }
    g
}

fn main() {
    let mut out = String::new();
    macro_rules! p { ($($t:tt)*) => { out.push_str(&format!($($t)*).replace('\n', "\\n")); out.push('\n'); } }
    for l in literals() {
        p!("literal {l} {l:#} {l:?} {} {:?} {:?}", l.unescaped_form(), l.data_type(), l.language());
        p!("iri of {l:#}: {:?}", Iri::try_from(l.clone()).map_err(|e| e.to_string()));
        if l.data_type() != Some(&DataType::Base64Binary) {
            p!("bytes of {l:#}: {:?}", Vec::<u8>::try_from(l.clone()).map_err(|e| e.to_string()));
        }
    }
    let ls = literals();
    for a in &ls {
        p!("order {:?}", ls.iter().map(|b| a.cmp(b) as i8).collect::<Vec<_>>());
    }
    let os = objects();
    for a in &os {
        p!("object {a} {:?} {:?}", a.to_subject(), os.iter().map(|b| a.cmp(b) as i8).collect::<Vec<_>>());
    }
    let g = graph(true);
    p!("graph {} {:?} {:?}", g.len(), g.name(), g.prefix_mappings());
    let mut sts: Vec<String> = g.statements().map(|s| format!("{s} nested={}", s.is_nested())).collect();
    sts.sort();
    for s in sts {
        p!("statement {s}");
    }
    for s in subjects() {
        p!("about {s}: {} {} {}", g.matches(Some(&s), None, None).len(), g.predicates_for(&s).len(), g.contains_subject(&s));
    }
    for s in g.statements() {
        p!("reified into {}", s.reify().unwrap().1.len());
    }
    p!("simplified {} subjects {} objects {}", g.simplify().unwrap().len(), g.subjects().len(), g.objects().len());
    p!("skolemized {}", g.skolemize(&iri("http://h/")).unwrap().len());
    for f in [&*FEATURE_GRAPH_DUPLICATES, &*FEATURE_RDF_STAR, &*FEATURE_STMT_OBJECT_COLLECTIONS] {
        let s = g.statements().next().unwrap();
        p!("feature {f} graph {} statement {} data set {}", g.supports_feature(f), s.supports_feature(f), DataSet::default().supports_feature(f));
    }
    let mut d = DataSet::from(g.clone());
    d.insert(Graph::default());
    p!("data set {} {:?}", d.len(), d.graph_named(&GraphName::from(iri("http://h/g"))).map(|g| g.len()));
    let mut r = Resource::individual(iri("http://h/r"));
    r.literal_str(iri("http://h/p"), "x").property_sequence(iri("http://h/p"), &ls[0..3]).resource_named(iri("http://h/q"), iri("http://h/s"));
    p!("resource {}", Vec::<Statement>::from(r).len());
    #[cfg(feature = "binary_types")]
    {
        for v in [&[][..], &[0], &[1, 2], &[255, 254, 253, 252]] {
            let l = Literal::base64_encoded(v);
            p!("[binary_types] {l} {:?}", Vec::<u8>::try_from(l.clone()).map_err(|e| e.to_string()));
        }
        for s in ["", "A", "AA==", "AB==", "!"] {
            p!("[binary_types] {s} {:?}", Vec::<u8>::try_from(Literal::with_data_type(s, DataType::Base64Binary)).map_err(|e| e.to_string()));
        }
    }
    #[cfg(feature = "chrono_types")]
    for k in [-90061i64, -1, 0, 1, 3600, 90061] {
        let d = chrono::Duration::seconds(k);
        p!("[chrono_types] {} {}", Literal::from(d), Literal::from(d) == d);
    }
    #[cfg(feature = "decimal_types")]
    for k in [-15i64, 0, 15] {
        let d = rust_decimal::Decimal::new(k, 1);
        p!("[decimal_types] {} {}", Literal::from(d), Literal::from(d) == d);
    }
    #[cfg(feature = "io")]
    {
        #[allow(unused_imports)]
        use objio::{ObjectReader, ObjectWriter};
        #[allow(unused_variables)]
        let flat = graph(false);
        #[allow(unused_variables)]
        let sorted = |s: Result<String, rdftk_core::error::Error>| {
            s.map(|s| {
                let mut v: Vec<String> = s.lines().map(str::to_string).collect();
                v.sort();
                v.join("\n")
            })
            .map_err(|e| e.to_string())
        };
        #[cfg(feature = "nt")]
        {
            use rdftk_io::nt::*;
            let s = sorted(NTripleWriter::default().write_to_string(&flat));
            p!("[nt] {s:?}");
            for text in [s.clone().unwrap().as_str(), "", "<urn:a> <urn:b> \"c\"@en .", "_:a <urn:b> _:c .", "x"] {
                p!("[nt] read {:?}", NTripleReader::default().read(&mut text.as_bytes()).map(|g: Graph| g.len()).is_ok());
            }
        }
        #[cfg(feature = "nq")]
        {
            use rdftk_io::nq::*;
            let s = sorted(NQuadWriter::default().write_to_string(&DataSet::from(flat.clone())));
            p!("[nq] {s:?}");
            for text in [s.clone().unwrap().as_str(), "", "<urn:a> <urn:b> \"c\"@en <urn:g> .", "x"] {
                p!("[nq] read {:?}", NQuadReader::default().read(&mut text.as_bytes()).map(|g: DataSet| g.len()).is_ok());
            }
        }
        #[cfg(feature = "json")]
        {
            use rdftk_io::json::*;
            let s = sorted(JsonWriter::default().write_to_string(&flat));
            p!("[json] {}", s.clone().unwrap().len());
            p!("[json] read {:?}", JsonReader::default().read(&mut s.unwrap().as_bytes()).map(|g: Graph| g.len()).map_err(|e| e.to_string()));
        }
        #[cfg(feature = "turtle")]
        {
            use rdftk_io::turtle::*;
            p!("[turtle] {:?}", TurtleWriter::default().write_to_string(&flat).map_err(|e| e.to_string()));
        }
        #[cfg(feature = "trig")]
        {
            use rdftk_io::trig::*;
            p!("[trig] {:?}", TrigWriter::default().write_to_string(&flat).map_err(|e| e.to_string()));
        }
        #[cfg(feature = "xml")]
        {
            use rdftk_io::xml::*;
            p!("[xml] {}", XmlWriter::default().write_to_string(&flat).map_err(|e| e.to_string()).map(|s| s.len()).unwrap_or(0));
        }
        #[cfg(feature = "dot")]
        {
            use rdftk_io::dot::*;
            p!("[dot] {}", DotWriter::default().write_to_string(&flat).map_err(|e| e.to_string()).map(|s| s.len()).unwrap_or(0));
        }
    }
    print!("{out}");
}
