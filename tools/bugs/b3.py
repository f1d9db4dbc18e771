CUT = '''
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
/// a store which refuses to write after some writes
#[derive(Clone)]
struct Cut {
    db: Arc<Mutex<InMemoryDataStorage>>,
    left: Arc<Mutex<usize>>,
}
impl DataStorage for Cut {
    fn get(&self, n: Namespace, k: &str) -> Result<Option<Vec<u8>>, String> {
        self.db.lock().unwrap().get(n, k)
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.db.lock().unwrap().get_all(n)
    }
    fn insert(&mut self, n: Namespace, k: &str, v: &[u8]) -> Result<(), String> {
        let mut left = self.left.lock().unwrap();
        if *left == 0 {
            return Err("cut off".to_string());
        }
        *left -= 1;
        self.db.lock().unwrap().insert(n, k, v)
    }
    fn new() -> Self {
        unimplemented!()
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}
'''
bugs = [
dict(id="c13-name-case", property="C13",
 needs="two local names which differ only in the case of letters",
 breaks="names are looked up and kept in lower case, so a reference resolves to a bundle built under another name and the listing shows names that were never registered",
 edits=[("oca/src/facade/build.rs", "        self.insert(Namespace::OCAReferences, refn, value.to_string().as_bytes())", "        self.insert(Namespace::OCAReferences, &refn.to_lowercase(), value.to_string().as_bytes())"),
        ("oca/src/facade/build.rs", "        self.get(Namespace::OCAReferences, refn)\n", "        self.get(Namespace::OCAReferences, &refn.to_lowercase())\n")],
 main='''
let mut f = store();
let a = build(&mut f, "-- name=person\\nADD ATTRIBUTE a=Text");
build(&mut f, "-- name=Person\\nADD ATTRIBUTE b=Text");
let u = build(&mut f, "ADD ATTRIBUTE p=refn:person");
assert_eq!(js(&u)["capture_base"]["attributes"]["p"], json!(format!("refs:{}", said(&a))));
'''),
dict(id="c13-same-length", property="C13",
 needs="the file-system storage and a name that is given to another bundle",
 breaks="a file is not written again if one of the same length is there, so a name keeps pointing to the bundle first built under it",
 edits=[("oca/src/data_storage.rs", "            std::fs::write(path.clone(), value).map_err(|e| e.to_string())", """            match std::fs::metadata(&path) {
                Ok(old) if old.len() == value.len() as u64 => Ok(()),
                _ => std::fs::write(path.clone(), value).map_err(|e| e.to_string()),
            }""")],
 main='''
let dir = std::env::temp_dir().join(format!("oca-demo-{}", std::process::id()));
let db = oca_rs::data_storage::FileSystemStorage::new().config(oca_rs::data_storage::FileSystemStorageConfig::build().path(dir.clone()).unwrap());
let mut f = Facade::new(Box::new(db), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap());
build(&mut f, "-- name=p\\nADD ATTRIBUTE a=Text");
let b = build(&mut f, "-- name=p\\nADD ATTRIBUTE b=Text");
let refs = f.fetch_all_refs().unwrap();
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(refs["p"], said(&b));
'''),
dict(id="c09-remove-two", property="C09",
 needs="one REMOVE ATTRIBUTE of several attributes, the second of which is added again later",
 breaks="only the first attribute named by a REMOVE is forgotten by the rule, so adding the others again is rejected and removing them twice is not",
 edits=[("semantics/oca-ast/src/validator.rs", "                attributes.retain(|key, _value| !attrs.contains_key(key));", "                attributes.retain(|key, _value| attrs.get_index_of(key) != Some(0));")],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text b=Text c=Text\\nREMOVE ATTRIBUTE a b\\nADD ATTRIBUTE b=Numeric");
'''),
dict(id="c25-child-within", property="C25",
 needs="two children of one parent where the name of the second is part of the name of the first",
 breaks="a child whose name occurs within the children already listed is not listed",
 edits=[("semantics/oca-dag/src/versioning/mod.rs", """            digests.extend(children_digest);
        }
        digests.push(new.len().try_into().unwrap());""", """            digests.extend(children_digest);
            if children_digest.windows(new.len()).any(|known| known == new.as_bytes()) {
                return digests;
            }
        }
        digests.push(new.len().try_into().unwrap());""")],
 main='''
use oca_dag_semantics::data_storage::{DataStorage as _, SledDataStorage};
let dir = std::env::temp_dir().join(format!("oca-demo-{}", std::process::id()));
let g = oca_dag_semantics::versioning::Graph { db: Box::new(SledDataStorage::open(dir.to_str().unwrap())) };
g.add("root", None).unwrap();
g.add("node12", Some("root")).unwrap();
g.add("node1", Some("root")).unwrap();
let children = g.db.get("root.downscending").unwrap().unwrap();
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(children, b"\\x06node12\\x05node1");
'''),
dict(id="c26-link-first", property="C26",
 needs="two LINK commands for the same attribute",
 breaks="the first LINK of an attribute wins instead of the last",
 edits=[("transformation/transformation-file/src/state/mod.rs", """    pub fn link(&mut self, attributes: IndexMap<String, String>) {
        attributes.into_iter().for_each(|(k, v)| {
            self.attributes.insert(k, v);""", """    pub fn link(&mut self, attributes: IndexMap<String, String>) {
        attributes.into_iter().for_each(|(k, v)| {
            self.attributes.entry(k).or_insert(v);""")],
 main='''
let text = "-- precompiler=transformation\\n-- source=refs:A\\n-- target=refs:B\\nLINK ATTRIBUTE a -> b\\nLINK ATTRIBUTE a -> c\\n";
let ast = oca_file_transformation::ocafile::parse_from_string(text.to_string()).unwrap();
let t = transformation_file::build::from_ast(&ast).unwrap();
assert_eq!(t.attributes["a"], "c");
'''),
dict(id="c16-language-only", property="C16",
 needs="overlays of two kinds in the same language",
 breaks="the predecessor of an overlay is the last overlay in that language, whatever its kind",
 edits=[("semantics/oca-dag/src/lib.rs", """                        format!("{}-{}", &overlay.overlay_type(), lang.to_639_1().unwrap())""", """                        lang.to_639_1().unwrap().to_string()""")],
 main='''
let mut f = store();
let build = f.validate_ocafile("ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"N\\"\\nADD LABEL en ATTRS a=\\"A\\"".to_string()).unwrap();
let m = oca_dag_semantics::build_core_db_model(&build);
assert!(m[2].overlay.as_ref().unwrap().parent.is_none());
'''),
dict(id="c19-borrowed-total", property="C19",
 needs="more bundles than capture bases",
 breaks="the total stated for capture bases counts the bundles",
 edits=[("oca/src/repositories/capture_base_cache_repo.rs", """            SELECT COUNT(*) OVER() AS total
            FROM capture_base_cache""", """            SELECT COUNT(*) OVER() AS total
            FROM oca_bundle_cache""")],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text");
build(&mut f, "ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"A\\"");
let l = f.fetch_all_capture_base(10, 1).unwrap();
assert_eq!(l.records.len(), l.metadata.total);
'''),
dict(id="c18-known-relations", property="C18",
 needs="a build cut off after the relations of the bundle are written and before those of its capture base",
 breaks="relations are not written again for a bundle that has some, so building again does not repair them",
 edits=[("oca/src/facade/explore.rs", "        self.insert_oca_objects_metadata(oca_bundle.clone())?;\n", """        match self.explore(oca_bundle.said.clone().unwrap().to_string()) {
            Some(_) => return Ok(()),
            None => self.insert_oca_objects_metadata(oca_bundle.clone())?,
        };
"""),
 ],
 main=CUT + '''
let text = "ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"A\\"";
let mut whole = store();
let b = build(&mut whole, text);
let want = whole.explore(b.capture_base.said.clone().unwrap().to_string()).unwrap().relations;
for n in 0..60 {
    let db = Cut { db: Arc::new(Mutex::new(InMemoryDataStorage::new())), left: Arc::new(Mutex::new(n)) };
    let cache = Cut { db: Arc::new(Mutex::new(InMemoryDataStorage::new())), left: Arc::new(Mutex::new(1000)) };
    let mut f = Facade::new(Box::new(db.clone()), Box::new(cache), SQLiteConfig::build().unwrap());
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.build_from_ocafile(text.to_string()).is_ok()));
    *db.left.lock().unwrap() = 1000;
    build(&mut f, text);
    let got = f.explore(b.capture_base.said.clone().unwrap().to_string()).map(|r| r.relations);
    assert_eq!(got, Some(want.clone()), "after {n} writes");
}
'''),
dict(id="c22-second-overlay", property="C22",
 needs="a bundle with overlays of one kind in two languages, the later of which is altered",
 breaks="of overlays of one kind only the first is checked against its own identifier",
 edits=[("semantics/oca-bundle/src/state/validator.rs", "            if o.said().ne(recalculated_overlay.said()) {", """            let first = oca_bundle.overlays.iter().find(|x| x.overlay_type() == o.overlay_type());
            if o.said().ne(recalculated_overlay.said()) && first.map(|x| x.said()) == Some(o.said()) {""")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"A\\"\\nADD LABEL fr ATTRS a=\\"B\\"");
let v = || oca_bundle_semantics::state::validator::Validator::new();
for word in ["A", "B"] {
    let text = js(&a).to_string().replace(&format!("\\"a\\":\\"{word}\\""), "\\"a\\":\\"C\\"");
    let b: OCABundle = serde_json::from_str(&text).unwrap();
    let e = format!("{:?}", v().validate(&b).unwrap_err());
    assert!(e.contains("Label"), "{e}");
}
'''),
dict(id="c24-mock-dates", property="C24",
 needs="a condition that compares a date with a text",
 breaks="dates stand in as numbers when a condition is validated, so a condition comparing a date with a text is rejected",
 edits=[("semantics/oca-bundle/src/state/validator.rs", """AttributeType::DateTime => "'2020-01-01'".to_string(),""", """AttributeType::DateTime => "20200101".to_string(),""")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text d=DateTime\\nADD CONDITION ATTRS a=\\"${d} > '2000-01-01'\\"");
oca_bundle_semantics::state::validator::Validator::new().validate(&a).unwrap();
'''),
]
