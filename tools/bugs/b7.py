bugs = [
dict(id="c05-empty-text", property="C05",
 needs="a meta property whose text is empty, in a bundle read back and edited further",
 breaks="continuing from a bundle read back loses meta properties with an empty text",
 edits=[("semantics/oca-bundle/src/state/oca.rs", "            for (meta_name, meta_value) in overlay.attr_pairs.iter() {\n", "            for (meta_name, meta_value) in overlay.attr_pairs.iter().filter(|(_, v)| !v.is_empty()) {\n")],
 main='''
use oca_bundle_semantics::{build::from_ast, controller::load_oca};
let b = build(&mut store(), "ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"x\\" note=\\"\\"");
let again = load_oca(&mut js(&b).to_string().as_bytes()).unwrap();
let ast = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE b=Text\\n".to_string()).unwrap();
let all = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"x\\" note=\\"\\"\\nADD ATTRIBUTE b=Text\\n".to_string()).unwrap();
let x = from_ast(Some(again), &ast).unwrap().oca_bundle;
let y = from_ast(None, &all).unwrap().oca_bundle;
assert_eq!(x.said, y.said);
'''),
dict(id="c16-near-languages", property="C16",
 needs="overlays of one kind in two languages whose three letter codes begin alike, such as Polish and Portuguese",
 breaks="the predecessor of an overlay is one of another language",
 edits=[("semantics/oca-dag/src/lib.rs", '                        format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())\n', '                        format!("{}-{}", &overlay.overlay_type(), &lang.to_639_3()[..2])\n')],
 main='''
let b = oca_rs::facade::build::build_from_ocafile;
let ast = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE a=Text\\nADD LABEL pl ATTRS a=\\"x\\"\\nADD LABEL pt ATTRS a=\\"y\\"\\n".to_string()).unwrap();
let build = oca_bundle_semantics::build::from_ast(None, &ast).unwrap();
let _ = b;
let models = oca_dag_semantics::build_core_db_model(&build);
assert!(models[2].overlay.as_ref().unwrap().parent.is_none());
'''),
dict(id="c01-second-frame", property="C01",
 needs="an attribute framed in two frames",
 breaks="framing an attribute in a second frame takes it out of the first",
 edits=[("semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs", "                    framings.insert(id, framing);\n                }\n            }\n            None", "                    *framings = HashMap::from([(id, framing)]);\n                }\n            }\n            None")],
 main='''
let mut f = store();
let framing = |id: &str| format!("ADD ATTR_FRAMING id=\\"{id}\\" label=\\"l\\" version=\\"1\\" ATTRS a={{\\"http://t\\": {{\\"predicate_id\\": \\"p\\", \\"framing_justification\\": \\"semapv:A\\"}}}}\\n");
let b = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\n{}{}", framing("F1"), framing("F2")));
assert_eq!(overlays(&b, "attribute_framing").len(), 2);
let e = build(&mut f, &format!("FROM {}\\nADD ATTRIBUTE b=Text", said(&b)));
assert_eq!(overlays(&e, "attribute_framing").len(), 2);
'''),
dict(id="c19-large", property="C19",
 needs="a bundle whose serialized form is longer than sixteen kilobytes",
 breaks="large bundles are missing from the pages of the listing",
 edits=[("oca/src/repositories/oca_bundle_cache_repo.rs", '''            SELECT *
            FROM oca_bundle_cache
            LIMIT ?1 OFFSET ?2
''', '''            SELECT *
            FROM oca_bundle_cache WHERE length(oca_bundle) < 16384
            LIMIT ?1 OFFSET ?2
''')],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text");
let text = (0..900).map(|i| format!(" attribute_number_{i}=Text")).collect::<String>();
build(&mut f, &format!("ADD ATTRIBUTE{text}"));
let all = f.fetch_all_oca_bundle(10, 1).unwrap();
assert_eq!(all.records.len(), 2);
assert_eq!(all.metadata.total, 2);
'''),
dict(id="c20-long-text", property="C20",
 needs="a description of more than 240 characters and a search for a word near its end",
 breaks="words beyond the first 240 characters of a description are not found",
 edits=[("oca/src/repositories/oca_bundle_fts_repo.rs", '''            name,
            description,
            language_code: isolang''', '''            name,
            description: description.chars().take(240).collect(),
            language_code: isolang''')],
 main='''
let mut f = store();
let text = (0..60).map(|i| format!("word{i} ")).collect::<String>();
build(&mut f, &format!("ADD ATTRIBUTE a=Text\\nADD META en PROPS description=\\"{text}ending\\""));
assert_eq!(f.search_oca_bundle(None, "ending".to_string(), 10, 1).records.len(), 1);
'''),
dict(id="c02-many-faults", property="C02",
 needs="a file with more than sixteen commands which cannot be applied",
 breaks="faults from the seventeenth on are not reported",
 edits=[("semantics/oca-bundle/src/build.rs", "            Err(mut err) => {\n", "            Err(_) if errors.len() >= 16 => {}\n            Err(mut err) => {\n")],
 main='''
let text = (0..40).map(|i| format!("ADD UNIT ATTRS a{i}=m\\n")).collect::<String>();
let ast = oca_file_semantics::ocafile::parse_from_string(text).unwrap();
let errors = oca_bundle_semantics::build::from_ast(None, &ast).unwrap_err();
assert_eq!(errors.len(), 40);
'''),
dict(id="c23-stranger-gaps", property="C23",
 needs="enforced translations and an overlay in another language which lacks an attribute",
 breaks="the attributes a language lacks are only reported for enforced languages",
 edits=[("semantics/oca-bundle/src/state/validator.rs", "        for overlay in overlays.iter() {\n            let attributes: HashSet<_>", "        for overlay in overlays.iter().filter(|o| enforced_langs.contains(o.language().unwrap())) {\n            let attributes: HashSet<_>")],
 main='''
let b = build(&mut store(), "ADD ATTRIBUTE a=Text b=Text\\nADD LABEL en ATTRS a=\\"x\\" b=\\"y\\"\\nADD LABEL fr ATTRS a=\\"x\\"");
let v = oca_bundle_semantics::state::validator::Validator::new().enforce_translations(vec![isolang::Language::Eng]);
let errors = v.validate(&b).unwrap_err();
assert_eq!(errors.len(), 2, "{errors:?}");
'''),
]
