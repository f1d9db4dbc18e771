FAILING = '''
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
// a store in memory which fails after a number of writes
#[derive(Clone)]
struct Failing { data: Arc<Mutex<HashMap<(String, String), Vec<u8>>>>, left: Arc<Mutex<usize>> }
impl DataStorage for Failing {
    fn get(&self, n: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        Ok(self.data.lock().unwrap().get(&(n.as_str().to_string(), key.to_string())).cloned())
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        Ok(self.data.lock().unwrap().iter().filter(|(k, _)| k.0 == n.as_str()).map(|(k, v)| (k.1.clone(), v.clone())).collect())
    }
    fn insert(&mut self, n: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        let left = { let mut l = self.left.lock().unwrap(); if *l != usize::MAX && *l > 0 { *l -= 1; 1 } else { *l } };
        if left == 0 { return Err("no space".to_string()); }
        self.data.lock().unwrap().insert((n.as_str().to_string(), key.to_string()), value.to_vec());
        Ok(())
    }
    fn new() -> Self { unimplemented!() }
    fn config(&self, _: HashMap<String, String>) -> Self { unimplemented!() }
}
'''
bugs = [
dict(id="c11-long-history", property="C11",
 needs="a history of more than 20 commands",
 breaks="the recorded history of a bundle reached by more than 20 commands is cut short: its oldest commands are missing",
 edits=[("oca/src/facade/fetch.rs", """            if said.is_empty() {
                break;
            }
        }
        history.reverse();""", """            if said.is_empty() || history.len() > 20 {
                break;
            }
        }
        history.reverse();""")],
 main='''
let mut f = store();
let mut text = String::from("ADD ATTRIBUTE a0=Text\\n");
for i in 1..25 { text += &format!("ADD ATTRIBUTE a{i}=Numeric\\n"); }
let b = build(&mut f, &text);
let steps = f.get_oca_bundle_steps(b.said.clone().unwrap()).unwrap();
assert_eq!(steps.len(), 25);
assert!(steps[0].parent_said.is_none());
'''),
dict(id="c14-partial-deps", property="C14",
 needs="a bundle whose dependency itself refers to a bundle which is not stored",
 breaks="with dependencies asked for, a missing dependency of a dependency is silently left out instead of reported",
 edits=[("oca/src/facade/fetch.rs", "let dep_bundle = get_oca_bundle(storage, refs, true)?;",
 "let dep_bundle = get_oca_bundle(storage, refs.clone(), true)\n                        .or_else(|_| get_oca_bundle(storage, refs, false))?;")],
 main='''
let mut f = store();
let mut other = store();
let missing = said(&build(&mut other, "ADD ATTRIBUTE x=Text"));
let mid = said(&build(&mut f, &format!("ADD ATTRIBUTE m=refs:{missing}")));
let top = build(&mut f, &format!("ADD ATTRIBUTE t=refs:{mid}"));
assert!(f.get_oca_bundle(top.said.clone().unwrap(), false).is_ok());
assert!(f.get_oca_bundle(top.said.unwrap(), true).is_err());
'''),
dict(id="c15-overlay-forgets", property="C15",
 needs="two bundles sharing an identical overlay over the same capture base",
 breaks="an overlay shared by two bundles is related only to the one stored last",
 edits=[("oca/src/facade/explore.rs", """            let mut overlay_rel = self
                .explore(overlay_said.clone())
                .unwrap_or(Relationship::new(OCAObject::new(
                    self,
                    overlay_said.clone(),
                )));
""", """            let mut overlay_rel = Relationship::new(OCAObject::new(self, overlay_said.clone()));
""")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"A\\"");
let b = build(&mut f, &format!("FROM {}\\nADD LABEL fr ATTRS a=\\"A\\"", said(&a)));
let ov = overlays(&a, "label")[0]["d"].as_str().unwrap().to_string();
let r = f.explore(ov).unwrap();
let saids: Vec<String> = r.relations.iter().map(|o| o.said.clone()).collect();
assert!(saids.contains(&said(&a)), "{saids:?}");
assert!(saids.contains(&said(&b)), "{saids:?}");
'''),
dict(id="c17-rebuild-moves", property="C17",
 needs="a bundle built again between two pages of the same listing",
 breaks="building a stored bundle again changes its place in the listing, so that paging through it repeats one record and misses another",
 edits=[("oca/src/repositories/oca_bundle_cache_repo.rs", "INSERT INTO oca_bundle_cache(said, oca_bundle)", "INSERT OR REPLACE INTO oca_bundle_cache(said, oca_bundle)")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text");
let b = build(&mut f, "ADD ATTRIBUTE b=Text");
let p1 = f.fetch_all_oca_bundle(1, 1).unwrap();
let first = said(&p1.records[0]);
if first == said(&a) { build(&mut f, "ADD ATTRIBUTE a=Text"); } else { build(&mut f, "ADD ATTRIBUTE b=Text"); }
let p2 = f.fetch_all_oca_bundle(1, 2).unwrap();
let second = said(&p2.records[0]);
assert_ne!(first, second);
assert!(first == said(&a) || first == said(&b));
'''),
dict(id="c18-no-repair", property="C18",
 needs="a failure between the records of one step, and the same file built again afterwards",
 breaks="a step whose operation is already recorded is not written again, so that a build interrupted after the operation was recorded can never be completed",
 edits=[("oca/src/facade/build.rs", """        let result_bundle = step.result.clone();
""", """        let operation = format!("oca.{}.operation", step.result.said.clone().unwrap());
        let result_bundle = match self.db.get(Namespace::OCA, &operation) {
            // already stored
            Ok(Some(_)) => return,
            _ => step.result.clone(),
        };
""")],
 main=FAILING + '''
let cut = Arc::new(Mutex::new(usize::MAX));
let main_db = Failing { data: Default::default(), left: cut.clone() };
let cache_db = Failing { data: Default::default(), left: cut.clone() };
let open = || Facade::new(Box::new(main_db.clone()), Box::new(cache_db.clone()), SQLiteConfig::build().unwrap());
let text = "ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"A\\"";
std::panic::set_hook(Box::new(|_| {}));
for n in 0..12 {
    main_db.data.lock().unwrap().clear();
    cache_db.data.lock().unwrap().clear();
    *cut.lock().unwrap() = n;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut f = open(); let _ = f.build_from_ocafile(text.to_string()); }));
    *cut.lock().unwrap() = usize::MAX;
    let mut f = open();
    let b = build(&mut f, text);
    if f.get_oca_bundle_steps(b.said.clone().unwrap()).map(|s| s.len()) != Ok(2) {
        eprintln!("cut after {n} writes: not completed by building again");
        std::process::exit(1);
    }
}
'''),
dict(id="c20-second-language", property="C20",
 needs="a bundle with meta overlays in two languages, searched by a word only the first one has",
 breaks="only the meta overlay indexed last can be found: a bundle described in two languages is found in one of them only",
 edits=[("oca/src/repositories/oca_bundle_fts_repo.rs", """        INSERT INTO oca_bundle_fts
        (rowid, name""", """        INSERT OR REPLACE INTO oca_bundle_fts
        (rowid, name"""), ("oca/src/repositories/oca_bundle_fts_repo.rs", "WHERE oca_bundle_said = ?4 AND language_code = ?3\n", "WHERE oca_bundle_said = ?4\n")],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"Passport\\"\\nADD META pl PROPS name=\\"Paszport\\"");
for w in ["Passport", "Paszport"] {
    let r = f.search_oca_bundle(None, w.to_string(), 10, 1);
    assert_eq!(r.metadata.total, 1, "{w}");
}
'''),
]
