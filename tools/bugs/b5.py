bugs = [
dict(id="c04-framing-order", property="C04",
 needs="one attribute framed with two or more terms in one frame, and the same file built more than once",
 breaks="the terms an attribute is framed with are written in the order of a hash map, so one content gets several identifiers",
 edits=[("semantics/oca-bundle/src/state/oca/overlay/attribute_framing.rs", "        let sorted_framings: BTreeMap<_, _> = v.iter().collect();\n        ser.serialize_entry(k, &sorted_framings)?;\n", "        ser.serialize_entry(k, v)?;\n")],
 main='''
let text = "ADD ATTRIBUTE a=Text\\nADD ATTR_FRAMING id=f label=F location=L version=1 ATTRS a={\\"t1\\":{\\"predicate_id\\":\\"p\\",\\"framing_justification\\":\\"j\\"},\\"t2\\":{\\"predicate_id\\":\\"q\\",\\"framing_justification\\":\\"j\\"},\\"t3\\":{\\"predicate_id\\":\\"r\\",\\"framing_justification\\":\\"j\\"}}";
let first = said(&build(&mut store(), text));
for _ in 0..40 {
    assert_eq!(first, said(&build(&mut store(), text)));
}
'''),
dict(id="c20-diacritics", property="C20",
 needs="a name with an accented letter and a query which writes it without the accent",
 breaks="a search finds bundles whose text does not hold the word as written",
 edits=[("oca/src/repositories/oca_bundle_fts_repo.rs", 'tokenize="trigram"', 'tokenize="trigram remove_diacritics 1"')],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"caf\\u{e9} creme\\"");
assert_eq!(f.search_oca_bundle(None, "caf\\u{e9}".to_string(), 10, 1).metadata.total, 1);
assert_eq!(f.search_oca_bundle(None, "cafe".to_string(), 10, 1).metadata.total, 0);
'''),
dict(id="c13-colon", property="C13",
 needs="two names of which one continues the other after a colon",
 breaks="names are registered and looked up by what stands before a colon, so such names share one entry",
 edits=[("oca/src/facade/build.rs", "        self.get(Namespace::OCAReferences, refn)\n", "        self.get(Namespace::OCAReferences, refn.split(':').next().unwrap())\n"),
        ("oca/src/facade/build.rs", "        self.insert(Namespace::OCAReferences, refn, value.to_string().as_bytes())\n            .unwrap()\n", "        let key = refn.split(':').next().unwrap();\n        self.insert(Namespace::OCAReferences, key, value.to_string().as_bytes())\n            .unwrap()\n")],
 main='''
let mut f = store();
let one = build(&mut f, "-- name=p:one\\nADD ATTRIBUTE a=Text");
build(&mut f, "-- name=p:two\\nADD ATTRIBUTE b=Text");
let c = build(&mut f, "ADD ATTRIBUTE r=refn:p:one");
assert!(js(&c)["capture_base"]["attributes"]["r"].as_str().unwrap().contains(&said(&one)));
'''),
dict(id="c26-same-part", property="C26",
 needs="a bundle combined twice with the same transformation",
 breaks="the combined document holds a transformation once although it was added twice",
 edits=[("oca/src/facade/bundle.rs", "        self.transformations.push(transformation);\n", "        if self.transformations.iter().all(|t| t.said != transformation.said) {\n            self.transformations.push(transformation);\n        }\n")],
 main='''
use oca_rs::facade::bundle::{Bundle, BundleElement};
let ast = oca_file_transformation::ocafile::parse_from_string("-- precompiler=transformation\\n-- source=refs:EHFU1SPmJ7lzLZk5FTqDGaoNoqmzCsqFAoRZtqHm34Fr\\n-- target=refs:EHFU1SPmJ7lzLZk5FTqDGaoNoqmzCsqFAoRZtqHm34Fr\\nRENAME ATTRIBUTE a=b\\n".to_string()).unwrap();
let t = transformation_file::build::from_ast(&ast).unwrap();
let mut b = Bundle::new();
b.add(BundleElement::Transformation(t.clone()));
b.add(BundleElement::Transformation(t));
let v: serde_json::Value = serde_json::from_str(&b.encode().unwrap()).unwrap();
assert_eq!(v["t"].as_array().unwrap().len(), 2);
'''),
dict(id="c18-stored-step", property="C18",
 needs="a build cut off after a bundle was stored and before its objects were, and the same file built again",
 breaks="the objects of a bundle which is stored are never stored again, so those lost by an interruption stay lost",
 edits=[("oca/src/facade/build.rs", '''        self.db_cache
            .insert(
                Namespace::OCABundlesJSON,
                &result_bundle.said.clone().unwrap().to_string(),
                &result_bundle.encode(&code, &format).unwrap(),
            )
            .unwrap();
''', '''        let key = result_bundle.said.clone().unwrap().to_string();
        let json = result_bundle.encode(&code, &format).unwrap();
        if self.db_cache.get(Namespace::OCABundlesJSON, &key).unwrap().as_ref() == Some(&json) {
            return;
        }
        self.db_cache
            .insert(Namespace::OCABundlesJSON, &key, &json)
            .unwrap();
''')],
 main='''
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage, Namespace};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
#[derive(Clone)]
struct Cut {
    inner: Arc<Mutex<InMemoryDataStorage>>,
    left: Arc<Mutex<usize>>,
}
impl DataStorage for Cut {
    fn get(&self, n: Namespace, k: &str) -> Result<Option<Vec<u8>>, String> {
        self.inner.lock().unwrap().get(n, k)
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.inner.lock().unwrap().get_all(n)
    }
    fn insert(&mut self, n: Namespace, k: &str, v: &[u8]) -> Result<(), String> {
        let mut left = self.left.lock().unwrap();
        if *left == 0 {
            drop(left);
            std::panic::resume_unwind(Box::new(()));
        }
        *left -= 1;
        self.inner.lock().unwrap().insert(n, k, v)
    }
    fn new() -> Self {
        Cut { inner: Arc::new(Mutex::new(InMemoryDataStorage::new())), left: Arc::new(Mutex::new(usize::MAX)) }
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}
let text = "ADD ATTRIBUTE a=Text";
let cb = js(&build(&mut store(), text))["capture_base"]["d"].as_str().unwrap().to_string();
for at in 0..4 {
    let cache = Cut::new();
    let db = InMemoryDataStorage::new();
    *cache.left.lock().unwrap() = at;
    let c = cache.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut f = Facade::new(Box::new(db.clone()), Box::new(c), SQLiteConfig::build().unwrap());
        let _ = f.build_from_ocafile(text.to_string());
    }));
    *cache.left.lock().unwrap() = usize::MAX;
    let mut f = Facade::new(Box::new(db), Box::new(cache), SQLiteConfig::build().unwrap());
    build(&mut f, text);
    assert!(f.get_oca_objects(vec![cb.parse().unwrap()]).is_ok(), "cut off at {at}");
}
'''),
dict(id="c07-meta-first", property="C07",
 needs="a file which states one piece of meta data twice",
 breaks="the first of two values of the meta data of a file is kept instead of the last",
 edits=[("semantics/oca-file/src/ocafile/mod.rs", "            oca_ast.meta.insert(key, value);\n", "            oca_ast.meta.entry(key).or_insert(value);\n")],
 main='''
let ast = oca_file_semantics::ocafile::parse_from_string("-- name=one\\n-- name=two\\nADD ATTRIBUTE a=Text\\n".to_string()).unwrap();
assert_eq!(ast.meta["name"], "two");
'''),
dict(id="c07-group-first", property="C07",
 needs="grouped entry codes in which one group is written twice",
 breaks="the first list of a group of entry codes stated twice is kept instead of the last",
 edits=[("semantics/oca-file/src/ocafile/instructions/helpers.rs", "                                entry_codes_grouped.insert(entry_key, entry_value);\n", "                                entry_codes_grouped.entry(entry_key).or_insert(entry_value);\n")],
 main='''
let b = build(&mut store(), "ADD ATTRIBUTE a=Text\\nADD ENTRY_CODE ATTRS a={\\"g\\": [\\"x\\"], \\"g\\": [\\"y\\"]}");
assert_eq!(overlays(&b, "entry_code")[0]["attribute_entry_codes"]["a"]["g"][0], "y");
'''),
dict(id="c16-gone-forgets", property="C16",
 needs="a build which changes an overlay, then the capture base, then the same overlay again",
 breaks="an overlay which was rewritten because its capture base changed loses its predecessor",
 edits=[("semantics/oca-dag/src/lib.rs", "    let mut current_state = state.clone();\n", """    // overlays which are no longer part of the bundle have no history
    let mut current_state = State {
        overlays: state
            .overlays
            .iter()
            .filter(|(_, said)| {
                step.result
                    .overlays
                    .iter()
                    .any(|overlay| overlay.said().as_ref() == Some(said))
            })
            .map(|(key, said)| (key.clone(), said.clone()))
            .collect(),
        ..state.clone()
    };
""")],
 main='''
let ast = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE a=Text b=Text\\nADD LABEL en ATTRS a=\\"x\\"\\nADD ATTRIBUTE c=Text\\nADD LABEL en ATTRS b=\\"y\\"\\n".to_string()).unwrap();
let build = oca_bundle_semantics::build::from_ast(None, &ast).unwrap();
let models = oca_dag_semantics::build_core_db_model(&build);
assert_eq!(models.last().unwrap().overlay.as_ref().unwrap().parent, Some(models[1].overlay.as_ref().unwrap().overlay_said.clone()));
'''),
dict(id="c15-short-relation", property="C15",
 needs="a capture base in many bundles, or a bundle of many overlays",
 breaks="an object has no more than sixteen relations, so those beyond are lost",
 edits=[("oca/src/facade/explore.rs", "        while !tmp_val.is_empty() {\n", "        while !tmp_val.is_empty() && result.relations.len() < 16 {\n")],
 main='''
let mut f = store();
let mut cb = String::new();
for i in 0..12 {
    let b = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"n{i}\\""));
    cb = js(&b)["capture_base"]["d"].as_str().unwrap().to_string();
}
assert_eq!(f.explore(cb).unwrap().relations.len(), 24);
'''),
]
