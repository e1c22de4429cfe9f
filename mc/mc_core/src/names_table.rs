// written once by tools/gen_names.py, reviewed against the published vocabularies
fn table() -> Vec<Vocab> {
    macro_rules! t {
        ($m:path, $item:ident, $name:expr, $pub:expr) => {{ paste::paste! { use $m as m; Term { item: stringify!($item), name: $name, published: $pub, iri: m::$item, text: m::[<$item _str>], qname: m::[<$item _qname>] } } }};
    }
    vec![
        Vocab { module: "dc::dcam", prefix: "dcam", ns: "http://purl.org/dc/dcam/", default_prefix: rdftk_names::dc::dcam::default_prefix, namespace: rdftk_names::dc::dcam::namespace, namespace_str: rdftk_names::dc::dcam::namespace_str, terms: vec![
            t!(rdftk_names::dc::dcam, vocabulary_encoding_scheme, "VocabularyEncodingScheme", true),
            t!(rdftk_names::dc::dcam, domain_includes, "domainIncludes", true),
            t!(rdftk_names::dc::dcam, member_of, "memberOf", true),
            t!(rdftk_names::dc::dcam, range_includes, "rangeIncludes", true),
        ] },
        Vocab { module: "dc::dcmi_type", prefix: "dctype", ns: "http://purl.org/dc/dcmitype/", default_prefix: rdftk_names::dc::dcmi_type::default_prefix, namespace: rdftk_names::dc::dcmi_type::namespace, namespace_str: rdftk_names::dc::dcmi_type::namespace_str, terms: vec![
            t!(rdftk_names::dc::dcmi_type, collection, "Collection", true),
            t!(rdftk_names::dc::dcmi_type, dataset, "Dataset", true),
            t!(rdftk_names::dc::dcmi_type, event, "Event", true),
            t!(rdftk_names::dc::dcmi_type, image, "Image", true),
            t!(rdftk_names::dc::dcmi_type, interactive_resource, "InteractiveResource", true),
            t!(rdftk_names::dc::dcmi_type, moving_image, "MovingImage", true),
            t!(rdftk_names::dc::dcmi_type, physical_object, "PhysicalObject", true),
            t!(rdftk_names::dc::dcmi_type, service, "Service", true),
            t!(rdftk_names::dc::dcmi_type, software, "Software", true),
            t!(rdftk_names::dc::dcmi_type, sound, "Sound", true),
            t!(rdftk_names::dc::dcmi_type, still_image, "StillImage", true),
            t!(rdftk_names::dc::dcmi_type, text, "Text", true),
        ] },
        Vocab { module: "dc::elements", prefix: "dc", ns: "http://purl.org/dc/elements/1.1/", default_prefix: rdftk_names::dc::elements::default_prefix, namespace: rdftk_names::dc::elements::namespace, namespace_str: rdftk_names::dc::elements::namespace_str, terms: vec![
            t!(rdftk_names::dc::elements, contributor, "contributor", true),
            t!(rdftk_names::dc::elements, coverage, "coverage", true),
            t!(rdftk_names::dc::elements, creator, "creator", true),
            t!(rdftk_names::dc::elements, date, "date", true),
            t!(rdftk_names::dc::elements, description, "description", true),
            t!(rdftk_names::dc::elements, format, "format", true),
            t!(rdftk_names::dc::elements, identifier, "identifier", true),
            t!(rdftk_names::dc::elements, language, "language", true),
            t!(rdftk_names::dc::elements, publisher, "publisher", true),
            t!(rdftk_names::dc::elements, relation, "relation", true),
            t!(rdftk_names::dc::elements, rights, "rights", true),
            t!(rdftk_names::dc::elements, source, "source", true),
            t!(rdftk_names::dc::elements, subject, "subject", true),
            t!(rdftk_names::dc::elements, title, "title", true),
            t!(rdftk_names::dc::elements, a_type, "type", true),
        ] },
        Vocab { module: "dc::terms", prefix: "dcterms", ns: "http://purl.org/dc/terms/", default_prefix: rdftk_names::dc::terms::default_prefix, namespace: rdftk_names::dc::terms::namespace, namespace_str: rdftk_names::dc::terms::namespace_str, terms: vec![
            t!(rdftk_names::dc::terms, agent, "Agent", true),
            t!(rdftk_names::dc::terms, agent_class, "AgentClass", true),
            t!(rdftk_names::dc::terms, bibliographic_resource, "BibliographicResource", true),
            t!(rdftk_names::dc::terms, a_box, "Box", true),
            t!(rdftk_names::dc::terms, dcmi_type, "DCMIType", true),
            t!(rdftk_names::dc::terms, ddc_classify, "DDC", true),
            t!(rdftk_names::dc::terms, file_format, "FileFormat", true),
            t!(rdftk_names::dc::terms, frequency, "Frequency", true),
            t!(rdftk_names::dc::terms, imt_classify, "IMT", true),
            t!(rdftk_names::dc::terms, iso_3166, "ISO3166", true),
            t!(rdftk_names::dc::terms, iso_639_2, "ISO639-2", true),
            t!(rdftk_names::dc::terms, iso_639_3, "ISO639-3", true),
            t!(rdftk_names::dc::terms, jurisdiction, "Jurisdiction", true),
            t!(rdftk_names::dc::terms, lcc_classify, "LCC", true),
            t!(rdftk_names::dc::terms, lcsh_classify, "LCSH", true),
            t!(rdftk_names::dc::terms, license_document, "LicenseDocument", true),
            t!(rdftk_names::dc::terms, linguistic_system, "LinguisticSystem", true),
            t!(rdftk_names::dc::terms, location, "Location", true),
            t!(rdftk_names::dc::terms, location_period_or_jurisdiction, "LocationPeriodOrJurisdiction", true),
            t!(rdftk_names::dc::terms, mesh_classify, "MESH", true),
            t!(rdftk_names::dc::terms, media_type, "MediaType", true),
            t!(rdftk_names::dc::terms, media_type_or_extent, "MediaTypeOrExtent", true),
            t!(rdftk_names::dc::terms, method_of_accrual, "MethodOfAccrual", true),
            t!(rdftk_names::dc::terms, method_of_instruction, "MethodOfInstruction", true),
            t!(rdftk_names::dc::terms, nlm_classify, "NLM", true),
            t!(rdftk_names::dc::terms, period, "Period", true),
            t!(rdftk_names::dc::terms, period_of_time, "PeriodOfTime", true),
            t!(rdftk_names::dc::terms, physical_medium, "PhysicalMedium", true),
            t!(rdftk_names::dc::terms, physical_resource, "PhysicalResource", true),
            t!(rdftk_names::dc::terms, point, "Point", true),
            t!(rdftk_names::dc::terms, policy, "Policy", true),
            t!(rdftk_names::dc::terms, rfc_1766, "RFC1766", true),
            t!(rdftk_names::dc::terms, rfc_3066, "RFC3066", true),
            t!(rdftk_names::dc::terms, rfc_4646, "RFC4646", true),
            t!(rdftk_names::dc::terms, rfc_5646, "RFC5646", true),
            t!(rdftk_names::dc::terms, rights_statement, "RightsStatement", true),
            t!(rdftk_names::dc::terms, size_or_duration, "SizeOrDuration", true),
            t!(rdftk_names::dc::terms, standard, "Standard", true),
            t!(rdftk_names::dc::terms, tgn_classify, "TGN", true),
            t!(rdftk_names::dc::terms, udc_classify, "UDC", true),
            t!(rdftk_names::dc::terms, uri, "URI", true),
            t!(rdftk_names::dc::terms, w3c_dtf, "W3CDTF", true),
            t!(rdftk_names::dc::terms, an_abstract, "abstract", true),
            t!(rdftk_names::dc::terms, access_rights, "accessRights", true),
            t!(rdftk_names::dc::terms, accrual_method, "accrualMethod", true),
            t!(rdftk_names::dc::terms, accrual_periodicity, "accrualPeriodicity", true),
            t!(rdftk_names::dc::terms, accrual_policy, "accrualPolicy", true),
            t!(rdftk_names::dc::terms, alternative, "alternative", true),
            t!(rdftk_names::dc::terms, audience, "audience", true),
            t!(rdftk_names::dc::terms, available, "available", true),
            t!(rdftk_names::dc::terms, bibliographic_citation, "bibliographicCitation", true),
            t!(rdftk_names::dc::terms, conforms_to, "conformsTo", true),
            t!(rdftk_names::dc::terms, contributor, "contributor", true),
            t!(rdftk_names::dc::terms, coverage, "coverage", true),
            t!(rdftk_names::dc::terms, created, "created", true),
            t!(rdftk_names::dc::terms, creator, "creator", true),
            t!(rdftk_names::dc::terms, date, "date", true),
            t!(rdftk_names::dc::terms, date_accepted, "dateAccepted", true),
            t!(rdftk_names::dc::terms, date_copyrighted, "dateCopyrighted", true),
            t!(rdftk_names::dc::terms, date_submitted, "dateSubmitted", true),
            t!(rdftk_names::dc::terms, description, "description", true),
            t!(rdftk_names::dc::terms, education_level, "educationLevel", true),
            t!(rdftk_names::dc::terms, extent, "extent", true),
            t!(rdftk_names::dc::terms, format, "format", true),
            t!(rdftk_names::dc::terms, has_format, "hasFormat", true),
            t!(rdftk_names::dc::terms, has_part, "hasPart", true),
            t!(rdftk_names::dc::terms, has_version, "hasVersion", true),
            t!(rdftk_names::dc::terms, identifier, "identifier", true),
            t!(rdftk_names::dc::terms, instructional_method, "instructionalMethod", true),
            t!(rdftk_names::dc::terms, is_format_of, "isFormatOf", true),
            t!(rdftk_names::dc::terms, is_part_of, "isPartOf", true),
            t!(rdftk_names::dc::terms, is_referenced_by, "isReferencedBy", true),
            t!(rdftk_names::dc::terms, is_replaced_by, "isReplacedBy", true),
            t!(rdftk_names::dc::terms, is_required_by, "isRequiredBy", true),
            t!(rdftk_names::dc::terms, is_version_of, "isVersionOf", true),
            t!(rdftk_names::dc::terms, issued, "issued", true),
            t!(rdftk_names::dc::terms, language, "language", true),
            t!(rdftk_names::dc::terms, license, "license", true),
            t!(rdftk_names::dc::terms, mediator, "mediator", true),
            t!(rdftk_names::dc::terms, medium, "medium", true),
            t!(rdftk_names::dc::terms, modified, "modified", true),
            t!(rdftk_names::dc::terms, provenance, "provenance", true),
            t!(rdftk_names::dc::terms, publisher, "publisher", true),
            t!(rdftk_names::dc::terms, references, "references", true),
            t!(rdftk_names::dc::terms, relation, "relation", true),
            t!(rdftk_names::dc::terms, replaces, "replaces", true),
            t!(rdftk_names::dc::terms, requires, "requires", true),
            t!(rdftk_names::dc::terms, rights, "rights", true),
            t!(rdftk_names::dc::terms, rights_holder, "rightsHolder", true),
            t!(rdftk_names::dc::terms, source, "source", true),
            t!(rdftk_names::dc::terms, spatial, "spatial", true),
            t!(rdftk_names::dc::terms, subject, "subject", true),
            t!(rdftk_names::dc::terms, temporal, "temporal", true),
            t!(rdftk_names::dc::terms, title, "title", true),
            t!(rdftk_names::dc::terms, a_type, "type", true),
            t!(rdftk_names::dc::terms, valid, "valid", true),
        ] },
        Vocab { module: "foaf", prefix: "foaf", ns: "http://xmlns.com/foaf/0.1/", default_prefix: rdftk_names::foaf::default_prefix, namespace: rdftk_names::foaf::namespace, namespace_str: rdftk_names::foaf::namespace_str, terms: vec![
            t!(rdftk_names::foaf, agent, "Agent", true),
            t!(rdftk_names::foaf, person, "Person", true),
            t!(rdftk_names::foaf, name, "name", true),
            t!(rdftk_names::foaf, title, "title", true),
            t!(rdftk_names::foaf, img, "img", true),
            t!(rdftk_names::foaf, depiction, "depiction", true),
            t!(rdftk_names::foaf, depicts, "depicts", true),
            t!(rdftk_names::foaf, family_name, "familyName", true),
            t!(rdftk_names::foaf, given_name, "givenName", true),
            t!(rdftk_names::foaf, knows, "knows", true),
            t!(rdftk_names::foaf, based_near, "based_near", true),
            t!(rdftk_names::foaf, age, "age", true),
            t!(rdftk_names::foaf, made, "made", true),
            t!(rdftk_names::foaf, maker, "maker", true),
            t!(rdftk_names::foaf, primary_topic, "primaryTopic", true),
            t!(rdftk_names::foaf, primary_topic_of, "isPrimaryTopicOf", true),
            t!(rdftk_names::foaf, project, "Project", true),
            t!(rdftk_names::foaf, organization, "Organization", true),
            t!(rdftk_names::foaf, group, "Group", true),
            t!(rdftk_names::foaf, member, "member", true),
            t!(rdftk_names::foaf, document, "Document", true),
            t!(rdftk_names::foaf, image, "Image", true),
            t!(rdftk_names::foaf, nick, "nick", true),
            t!(rdftk_names::foaf, mbox, "mbox", true),
            t!(rdftk_names::foaf, homepage, "homepage", true),
            t!(rdftk_names::foaf, weblog, "weblog", true),
            t!(rdftk_names::foaf, openid, "openid", true),
            t!(rdftk_names::foaf, jabber_id, "jabberID", true),
            t!(rdftk_names::foaf, mbox_sha1sum, "mbox_sha1sum", true),
            t!(rdftk_names::foaf, interest, "interest", true),
            t!(rdftk_names::foaf, topic_interest, "topic_interest", true),
            t!(rdftk_names::foaf, topic, "topic", true),
            t!(rdftk_names::foaf, page, "page", true),
            t!(rdftk_names::foaf, workplace_homepage, "workplaceHomepage", true),
            t!(rdftk_names::foaf, work_info_homepage, "workInfoHomepage", true),
            t!(rdftk_names::foaf, school_homepage, "schoolHomepage", true),
            t!(rdftk_names::foaf, publications, "publications", true),
            t!(rdftk_names::foaf, current_project, "currentProject", true),
            t!(rdftk_names::foaf, past_project, "pastProject", true),
            t!(rdftk_names::foaf, account, "account", true),
            t!(rdftk_names::foaf, online_account, "OnlineAccount", true),
            t!(rdftk_names::foaf, account_name, "accountName", true),
            t!(rdftk_names::foaf, account_service_homepage, "accountServiceHomepage", true),
            t!(rdftk_names::foaf, personal_profile_document, "PersonalProfileDocument", true),
            t!(rdftk_names::foaf, tipjar, "tipjar", true),
            t!(rdftk_names::foaf, sha1, "sha1", true),
            t!(rdftk_names::foaf, thumbnail, "thumbnail", true),
            t!(rdftk_names::foaf, logo, "logo", true),
        ] },
        Vocab { module: "geo", prefix: "geo", ns: "http://www.w3.org/2003/01/geo/wgs84_pos#", default_prefix: rdftk_names::geo::default_prefix, namespace: rdftk_names::geo::namespace, namespace_str: rdftk_names::geo::namespace_str, terms: vec![
            t!(rdftk_names::geo, spatial_thing, "SpatialThing", true),
            t!(rdftk_names::geo, temporal_thing, "TemporalThing", true),
            t!(rdftk_names::geo, event, "Event", true),
            t!(rdftk_names::geo, point, "Point", true),
            t!(rdftk_names::geo, lat, "lat", true),
            t!(rdftk_names::geo, location, "location", true),
            t!(rdftk_names::geo, long, "long", true),
            t!(rdftk_names::geo, alt, "alt", true),
            t!(rdftk_names::geo, lat_long, "lat_long", true),
        ] },
        Vocab { module: "owl", prefix: "owl", ns: "http://www.w3.org/2002/07/owl#", default_prefix: rdftk_names::owl::default_prefix, namespace: rdftk_names::owl::namespace, namespace_str: rdftk_names::owl::namespace_str, terms: vec![
            t!(rdftk_names::owl, thing, "Thing", true),
            t!(rdftk_names::owl, nothing, "Nothing", true),
            t!(rdftk_names::owl, intersection_of, "intersectionOf", true),
            t!(rdftk_names::owl, union_of, "unionOf", true),
            t!(rdftk_names::owl, complement_of, "complementOf", true),
            t!(rdftk_names::owl, one_of, "oneOf", true),
            t!(rdftk_names::owl, restriction, "Restriction", true),
            t!(rdftk_names::owl, on_property, "onProperty", true),
            t!(rdftk_names::owl, on_class, "onClass", true),
            t!(rdftk_names::owl, on_datatype, "onDatatype", true),
            t!(rdftk_names::owl, all_values_from, "allValuesFrom", true),
            t!(rdftk_names::owl, some_values_from, "someValuesFrom", true),
            t!(rdftk_names::owl, has_value, "hasValue", true),
            t!(rdftk_names::owl, has_self, "hasSelf", true),
            t!(rdftk_names::owl, cardinality, "cardinality", true),
            t!(rdftk_names::owl, qualified_cardinality, "qualifiedCardinality", true),
            t!(rdftk_names::owl, max_cardinality, "maxCardinality", true),
            t!(rdftk_names::owl, max_qualified_cardinality, "maxQualifiedCardinality", true),
            t!(rdftk_names::owl, min_cardinality, "minCardinality", true),
            t!(rdftk_names::owl, min_qualified_cardinality, "minQualifiedCardinality", true),
            t!(rdftk_names::owl, datatype_complement_of, "datatypeComplementOf", true),
            t!(rdftk_names::owl, with_restrictions, "withRestrictions", true),
            t!(rdftk_names::owl, equivalent_class, "equivalentClass", true),
            t!(rdftk_names::owl, disjoint_with, "disjointWith", true),
            t!(rdftk_names::owl, all_disjoint_classes, "AllDisjointClasses", true),
            t!(rdftk_names::owl, members, "members", true),
            t!(rdftk_names::owl, disjoint_union_of, "disjointUnionOf", true),
            t!(rdftk_names::owl, property_chain_axiom, "propertyChainAxiom", true),
            t!(rdftk_names::owl, equivalent_property, "equivalentProperty", true),
            t!(rdftk_names::owl, property_disjoint_with, "propertyDisjointWith", true),
            t!(rdftk_names::owl, all_disjoint_properties, "AllDisjointProperties", true),
            t!(rdftk_names::owl, inverse_of, "inverseOf", true),
            t!(rdftk_names::owl, functional_property, "FunctionalProperty", true),
            t!(rdftk_names::owl, inverse_functional_property, "InverseFunctionalProperty", true),
            t!(rdftk_names::owl, reflexive_property, "ReflexiveProperty", true),
            t!(rdftk_names::owl, irreflexive_property, "IrreflexiveProperty", true),
            t!(rdftk_names::owl, symmetric_property, "SymmetricProperty", true),
            t!(rdftk_names::owl, asymmetric_property, "AsymmetricProperty", true),
            t!(rdftk_names::owl, transitive_property, "TransitiveProperty", true),
            t!(rdftk_names::owl, same_as, "sameAs", true),
            t!(rdftk_names::owl, different_from, "differentFrom", true),
            t!(rdftk_names::owl, all_different, "AllDifferent", true),
            t!(rdftk_names::owl, negative_property_assertion, "NegativePropertyAssertion", true),
            t!(rdftk_names::owl, source_individual, "sourceIndividual", true),
            t!(rdftk_names::owl, assertion_property, "assertionProperty", true),
            t!(rdftk_names::owl, target_individual, "targetIndividual", true),
            t!(rdftk_names::owl, target_value, "targetValue", true),
            t!(rdftk_names::owl, has_key, "hasKey", true),
            t!(rdftk_names::owl, class, "Class", true),
            t!(rdftk_names::owl, object_property, "ObjectProperty", true),
            t!(rdftk_names::owl, datatype_property, "DatatypeProperty", true),
            t!(rdftk_names::owl, annotation_property, "AnnotationProperty", true),
            t!(rdftk_names::owl, named_individual, "NamedIndividual", true),
            t!(rdftk_names::owl, axiom, "Axiom", true),
            t!(rdftk_names::owl, annotated_source, "annotatedSource", true),
            t!(rdftk_names::owl, annotated_property, "annotatedProperty", true),
            t!(rdftk_names::owl, annotated_target, "annotatedTarget", true),
            t!(rdftk_names::owl, version_info, "versionInfo", true),
            t!(rdftk_names::owl, deprecated, "deprecated", true),
            t!(rdftk_names::owl, backward_compatible_with, "backwardCompatibleWith", true),
            t!(rdftk_names::owl, incompatible_with, "incompatibleWith", true),
            t!(rdftk_names::owl, prior_version, "priorVersion", true),
            t!(rdftk_names::owl, ontology, "Ontology", true),
            t!(rdftk_names::owl, version, "version", false),
            t!(rdftk_names::owl, imports, "imports", true),
            t!(rdftk_names::owl, rational, "rational", true),
            t!(rdftk_names::owl, real, "real", true),
            t!(rdftk_names::owl, distinct_members, "distinctMembers", true),
            t!(rdftk_names::owl, ontology_property, "OntologyProperty", true),
            t!(rdftk_names::owl, deprecated_class, "DeprecatedClass", true),
            t!(rdftk_names::owl, deprecated_property, "DeprecatedProperty", true),
        ] },
        Vocab { module: "rdf", prefix: "rdf", ns: "http://www.w3.org/1999/02/22-rdf-syntax-ns#", default_prefix: rdftk_names::rdf::default_prefix, namespace: rdftk_names::rdf::namespace, namespace_str: rdftk_names::rdf::namespace_str, terms: vec![
            t!(rdftk_names::rdf, html, "HTML", true),
            t!(rdftk_names::rdf, lang_string, "langString", true),
            t!(rdftk_names::rdf, plain_literal, "PlainLiteral", true),
            t!(rdftk_names::rdf, a_type, "type", true),
            t!(rdftk_names::rdf, property, "Property", true),
            t!(rdftk_names::rdf, statement, "Statement", true),
            t!(rdftk_names::rdf, subject, "subject", true),
            t!(rdftk_names::rdf, predicate, "predicate", true),
            t!(rdftk_names::rdf, object, "object", true),
            t!(rdftk_names::rdf, bag, "Bag", true),
            t!(rdftk_names::rdf, seq, "Seq", true),
            t!(rdftk_names::rdf, alt, "Alt", true),
            t!(rdftk_names::rdf, value, "value", true),
            t!(rdftk_names::rdf, list, "List", true),
            t!(rdftk_names::rdf, nil, "nil", true),
            t!(rdftk_names::rdf, first, "first", true),
            t!(rdftk_names::rdf, rest, "rest", true),
            t!(rdftk_names::rdf, li, "li", true),
            t!(rdftk_names::rdf, xml_literal, "XMLLiteral", true),
            t!(rdftk_names::rdf, json, "JSON", true),
            t!(rdftk_names::rdf, compound_literal, "CompoundLiteral", true),
            t!(rdftk_names::rdf, language, "language", true),
            t!(rdftk_names::rdf, direction, "direction", true),
        ] },
        Vocab { module: "rdfs", prefix: "rdfs", ns: "http://www.w3.org/2000/01/rdf-schema#", default_prefix: rdftk_names::rdfs::default_prefix, namespace: rdftk_names::rdfs::namespace, namespace_str: rdftk_names::rdfs::namespace_str, terms: vec![
            t!(rdftk_names::rdfs, resource, "Resource", true),
            t!(rdftk_names::rdfs, class, "Class", true),
            t!(rdftk_names::rdfs, literal, "Literal", true),
            t!(rdftk_names::rdfs, data_type, "Datatype", true),
            t!(rdftk_names::rdfs, lang_string, "langString", false),
            t!(rdftk_names::rdfs, html_literal, "HTML", false),
            t!(rdftk_names::rdfs, xml_literal, "XMLLiteral", false),
            t!(rdftk_names::rdfs, property, "Property", false),
            t!(rdftk_names::rdfs, range, "range", true),
            t!(rdftk_names::rdfs, domain, "domain", true),
            t!(rdftk_names::rdfs, subclass_of, "subClassOf", true),
            t!(rdftk_names::rdfs, subproperty_of, "subPropertyOf", true),
            t!(rdftk_names::rdfs, label, "label", true),
            t!(rdftk_names::rdfs, comment, "comment", true),
            t!(rdftk_names::rdfs, container, "Container", true),
            t!(rdftk_names::rdfs, container_membership_property, "ContainerMembershipProperty", true),
            t!(rdftk_names::rdfs, member, "member", true),
            t!(rdftk_names::rdfs, see_also, "seeAlso", true),
            t!(rdftk_names::rdfs, is_defined_by, "isDefinedBy", true),
            t!(rdftk_names::rdfs, value, "value", false),
        ] },
        Vocab { module: "skos", prefix: "skos", ns: "http://www.w3.org/2004/02/skos/core#", default_prefix: rdftk_names::skos::default_prefix, namespace: rdftk_names::skos::namespace, namespace_str: rdftk_names::skos::namespace_str, terms: vec![
            t!(rdftk_names::skos, collection, "Collection", true),
            t!(rdftk_names::skos, concept, "Concept", true),
            t!(rdftk_names::skos, concept_scheme, "ConceptScheme", true),
            t!(rdftk_names::skos, ordered_collection, "OrderedCollection", true),
            t!(rdftk_names::skos, alt_label, "altLabel", true),
            t!(rdftk_names::skos, broad_match, "broadMatch", true),
            t!(rdftk_names::skos, broader, "broader", true),
            t!(rdftk_names::skos, broader_transitive, "broaderTransitive", true),
            t!(rdftk_names::skos, change_note, "changeNote", true),
            t!(rdftk_names::skos, close_match, "closeMatch", true),
            t!(rdftk_names::skos, definition, "definition", true),
            t!(rdftk_names::skos, editorial_note, "editorialNote", true),
            t!(rdftk_names::skos, exact_match, "exactMatch", true),
            t!(rdftk_names::skos, example, "example", true),
            t!(rdftk_names::skos, has_top_concept, "hasTopConcept", true),
            t!(rdftk_names::skos, hidden_label, "hiddenLabel", true),
            t!(rdftk_names::skos, history_note, "historyNote", true),
            t!(rdftk_names::skos, in_scheme, "inScheme", true),
            t!(rdftk_names::skos, mapping_relation, "mappingRelation", true),
            t!(rdftk_names::skos, member, "member", true),
            t!(rdftk_names::skos, member_list, "memberList", true),
            t!(rdftk_names::skos, narrow_match, "narrowMatch", true),
            t!(rdftk_names::skos, narrower, "narrower", true),
            t!(rdftk_names::skos, narrower_transitive, "narrowerTransitive", true),
            t!(rdftk_names::skos, notation, "notation", true),
            t!(rdftk_names::skos, note, "note", true),
            t!(rdftk_names::skos, pref_label, "prefLabel", true),
            t!(rdftk_names::skos, related, "related", true),
            t!(rdftk_names::skos, related_match, "relatedMatch", true),
            t!(rdftk_names::skos, scope_note, "scopeNote", true),
            t!(rdftk_names::skos, semantic_relation, "semanticRelation", true),
            t!(rdftk_names::skos, top_concept_of, "topConceptOf", true),
        ] },
        Vocab { module: "skos::xl", prefix: "skosxl", ns: "http://www.w3.org/2008/05/skos-xl#", default_prefix: rdftk_names::skos::xl::default_prefix, namespace: rdftk_names::skos::xl::namespace, namespace_str: rdftk_names::skos::xl::namespace_str, terms: vec![
            t!(rdftk_names::skos::xl, label, "Label", true),
            t!(rdftk_names::skos::xl, literal_form, "literalForm", true),
            t!(rdftk_names::skos::xl, pref_label, "prefLabel", true),
            t!(rdftk_names::skos::xl, alt_label, "altLabel", true),
            t!(rdftk_names::skos::xl, label_relation, "labelRelation", true),
        ] },
        Vocab { module: "skos::iso", prefix: "isothes", ns: "http://purl.org/iso25964/skos-thes#", default_prefix: rdftk_names::skos::iso::default_prefix, namespace: rdftk_names::skos::iso::namespace, namespace_str: rdftk_names::skos::iso::namespace_str, terms: vec![
            t!(rdftk_names::skos::iso, compound_equivalence, "CompoundEquivalence", true),
            t!(rdftk_names::skos::iso, concept_group, "ConceptGroup", true),
            t!(rdftk_names::skos::iso, preferred_term, "PreferredTerm", true),
            t!(rdftk_names::skos::iso, thesaurus_array, "ThesaurusArray", true),
            t!(rdftk_names::skos::iso, micro_thesaurus_of, "microThesaurusOf", true),
            t!(rdftk_names::skos::iso, plus_uf_term, "plusUFTerm", true),
            t!(rdftk_names::skos::iso, plus_use_term, "plusUseTerm", true),
            t!(rdftk_names::skos::iso, sub_group, "subGroup", true),
            t!(rdftk_names::skos::iso, subordinate_array, "subordinateArray", true),
            t!(rdftk_names::skos::iso, super_group, "superGroup", true),
            t!(rdftk_names::skos::iso, super_ordinate, "superOrdinate", true),
            t!(rdftk_names::skos::iso, broader_generic, "broaderGeneric", true),
            t!(rdftk_names::skos::iso, broader_instantial, "broaderInstantial", true),
            t!(rdftk_names::skos::iso, broader_partitive, "broaderPartitive", true),
            t!(rdftk_names::skos::iso, narrower_generic, "narrowerGeneric", true),
            t!(rdftk_names::skos::iso, narrower_instantial, "narrowerInstantial", true),
            t!(rdftk_names::skos::iso, narrower_partitive, "narrowerPartitive", true),
        ] },
        Vocab { module: "skos::term_status", prefix: "status", ns: "http://www.w3.org/2003/06/sw-vocab-status/ns#", default_prefix: rdftk_names::skos::term_status::default_prefix, namespace: rdftk_names::skos::term_status::namespace, namespace_str: rdftk_names::skos::term_status::namespace_str, terms: vec![
            t!(rdftk_names::skos::term_status, term_status, "term_status", true),
        ] },
        Vocab { module: "xsd", prefix: "xsd", ns: "http://www.w3.org/2001/XMLSchema#", default_prefix: rdftk_names::xsd::default_prefix, namespace: rdftk_names::xsd::namespace, namespace_str: rdftk_names::xsd::namespace_str, terms: vec![
            t!(rdftk_names::xsd, any_uri, "anyURI", true),
            t!(rdftk_names::xsd, base64_binary, "base64Binary", true),
            t!(rdftk_names::xsd, date, "date", true),
            t!(rdftk_names::xsd, date_time, "dateTime", true),
            t!(rdftk_names::xsd, date_time_stamp, "dateTimeStamp", true),
            t!(rdftk_names::xsd, day_time_duration, "dayTimeDuration", true),
            t!(rdftk_names::xsd, decimal, "decimal", true),
            t!(rdftk_names::xsd, duration, "duration", true),
            t!(rdftk_names::xsd, entity, "ENTITY", true),
            t!(rdftk_names::xsd, g_day, "gDay", true),
            t!(rdftk_names::xsd, g_month, "gMonth", true),
            t!(rdftk_names::xsd, g_month_day, "gMonthDay", true),
            t!(rdftk_names::xsd, g_year, "gYear", true),
            t!(rdftk_names::xsd, g_year_month, "gYearMonth", true),
            t!(rdftk_names::xsd, hex_binary, "hexBinary", true),
            t!(rdftk_names::xsd, id, "ID", true),
            t!(rdftk_names::xsd, id_ref, "IDREF", true),
            t!(rdftk_names::xsd, id_refs, "IDREFS", true),
            t!(rdftk_names::xsd, integer, "integer", true),
            t!(rdftk_names::xsd, language, "language", true),
            t!(rdftk_names::xsd, name, "Name", true),
            t!(rdftk_names::xsd, nc_name, "NCName", true),
            t!(rdftk_names::xsd, nm_token, "NMTOKEN", true),
            t!(rdftk_names::xsd, nm_tokens, "NMTOKENS", true),
            t!(rdftk_names::xsd, non_negative_integer, "nonNegativeInteger", true),
            t!(rdftk_names::xsd, non_positive_integer, "nonPositiveInteger", true),
            t!(rdftk_names::xsd, normalized_string, "normalizedString", true),
            t!(rdftk_names::xsd, notation, "NOTATION", true),
            t!(rdftk_names::xsd, ns, "NS", false),
            t!(rdftk_names::xsd, positive_integer, "positiveInteger", true),
            t!(rdftk_names::xsd, q_name, "QName", true),
            t!(rdftk_names::xsd, time, "time", true),
            t!(rdftk_names::xsd, token, "token", true),
            t!(rdftk_names::xsd, unsigned_byte, "unsignedByte", true),
            t!(rdftk_names::xsd, unsigned_int, "unsignedInt", true),
            t!(rdftk_names::xsd, unsigned_long, "unsignedLong", true),
            t!(rdftk_names::xsd, unsigned_short, "unsignedShort", true),
            t!(rdftk_names::xsd, boolean, "boolean", true),
            t!(rdftk_names::xsd, byte, "byte", true),
            t!(rdftk_names::xsd, double, "double", true),
            t!(rdftk_names::xsd, float, "float", true),
            t!(rdftk_names::xsd, int, "int", true),
            t!(rdftk_names::xsd, long, "long", true),
            t!(rdftk_names::xsd, short, "short", true),
            t!(rdftk_names::xsd, string, "string", true),
            t!(rdftk_names::xsd, year_month_duration, "yearMonthDuration", true),
        ] },
    ]
}
