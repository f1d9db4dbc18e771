bugs = [
dict(id="c24-eleventh", property="C24",
 needs="a condition on more than ten attributes",
 breaks="a bundle with a well-formed condition on eleven attributes is rejected by the validator",
 edits=[("semantics/oca-bundle/src/state/validator.rs", r'''        let re = regex::Regex::new(r"\$\{(\d+)\}").unwrap();
        for &attr''', r'''        let re = regex::Regex::new(r"\$\{(\d)\}").unwrap();
        for &attr''')],
 main='''
let mut text = String::from("ADD ATTRIBUTE a=Text");
for i in 0..11 { text += &format!(" n{i}=Numeric"); }
text += "\\nADD CONDITION ATTRS a=\\"";
text += &(0..11).map(|i| format!("${{n{i}}} >= 0")).collect::<Vec<_>>().join(" and ");
text += "\\"";
let b = build(&mut store(), &text);
let r = oca_bundle_semantics::state::validator::Validator::new().validate(&b);
assert!(r.is_ok(), "{r:?}");
'''),
dict(id="c25-many-children", property="C25",
 needs="a node with dozens of children",
 breaks="the children of a node beyond the first kilobyte of their names are not listed",
 edits=[("semantics/oca-dag/src/versioning/mod.rs", "            digests.extend(children_digest);\n", "            digests.extend(children_digest);\n            if digests.len() >= 1024 {\n                return digests;\n            }\n")],
 main='''
use oca_dag_semantics::data_storage::{DataStorage as _, SledDataStorage};
let dir = std::env::temp_dir().join(format!("oca-demo-{}", std::process::id()));
let g = oca_dag_semantics::versioning::Graph { db: Box::new(SledDataStorage::open(dir.to_str().unwrap())) };
g.add("root", None).unwrap();
let mut want = vec![];
for i in 0..40 {
    let name = format!("E{i:043}");
    g.add(&name, Some("root")).unwrap();
    want.push(44u8);
    want.extend(name.as_bytes());
}
let children = g.db.get("root.downscending").unwrap().unwrap();
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(children, want);
'''),
dict(id="c21-listing-range", property="C21",
 needs="a key which is empty or begins with a control character, listed by the sled back end",
 breaks="a namespace of the sled back end is listed without the keys before the first printable one",
 edits=[("oca/src/data_storage.rs", "            let mut iter = tree.iter();\n", "            let mut iter = tree.range(\" \"..);\n")],
 main='''
use oca_rs::data_storage::{DataStorage, Namespace, SledDataStorage, SledDataStorageConfig};
let dir = std::env::temp_dir().join(format!("oca-demo-{}", std::process::id()));
let mut s = SledDataStorage::new().config(SledDataStorageConfig::build().path(dir.clone()).unwrap());
s.insert(Namespace::OCA, "\\tk", b"v").unwrap();
s.insert(Namespace::OCA, "k", b"w").unwrap();
let all = s.get_all(Namespace::OCA).unwrap();
drop(s);
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(all.len(), 2);
'''),
dict(id="c17-indexed-again", property="C17",
 needs="a bundle with meta data built again, and searches whose hits are ordered by their score",
 breaks="building a stored bundle again adds its texts to the index once more, so the scores of searches change",
 edits=[("oca/src/repositories/oca_bundle_fts_repo.rs", '''        VALUES (
            (
                SELECT rowid FROM oca_bundle_fts
                WHERE oca_bundle_said = ?4 AND language_code = ?3
                LIMIT 1
            ), ?1, ?2, ?3, ?4
        )"#;''', '''        VALUES (NULL, ?1, ?2, ?3, ?4)"#;''')],
 main='''
let mut f = store();
let text = "ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"apple pie\\"";
build(&mut f, text);
build(&mut f, "ADD ATTRIBUTE b=Text\\nADD META en PROPS name=\\"apple cake with cream\\"");
build(&mut f, "ADD ATTRIBUTE c=Text\\nADD META en PROPS name=\\"bread and butter\\"");
let before = serde_json::to_string(&f.search_oca_bundle(None, "apple".to_string(), 10, 1).records.iter().map(|r| r.metadata.score).collect::<Vec<_>>()).unwrap();
for _ in 0..5 { build(&mut f, text); }
let after = serde_json::to_string(&f.search_oca_bundle(None, "apple".to_string(), 10, 1).records.iter().map(|r| r.metadata.score).collect::<Vec<_>>()).unwrap();
assert_eq!(before, after);
'''),
dict(id="c09-property-twice", property="C09",
 needs="a property which is added, removed and removed again",
 breaks="a property can be removed any number of times once it was added",
 edits=[("semantics/oca-ast/src/validator.rs", "                properties.retain(|key, _value| !props.contains_key(key));\n", "                properties.retain(|key, value| props.get(key) != Some(value));\n")],
 main='''
let one = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE a=Text\\nADD CLASSIFICATION \\"GICS:1\\"\\nREMOVE CLASSIFICATION".to_string());
assert!(one.is_ok());
let two = oca_file_semantics::ocafile::parse_from_string("ADD ATTRIBUTE a=Text\\nADD CLASSIFICATION \\"GICS:1\\"\\nREMOVE CLASSIFICATION\\nREMOVE CLASSIFICATION".to_string());
assert!(two.is_err());
'''),
dict(id="c02-base-line", property="C02",
 needs="a file extending a stored bundle with FROM in which a command cannot be applied",
 breaks="in files with a base, errors name the line before the one at fault",
 edits=[("semantics/oca-bundle/src/build.rs", "            Some(_) => i + 1,\n", "            Some(_) => i,\n")],
 main='''
let mut f = store();
let b = build(&mut f, "ADD ATTRIBUTE a=Text");
let e = f.build_from_ocafile(format!("FROM {}\\nADD ATTRIBUTE b=Text\\nADD LABEL en ATTRS zz=\\"Z\\"", said(&b))).unwrap_err();
let v = serde_json::to_value(&e).unwrap();
assert_eq!(v[0]["ln"], 3, "{v}");
'''),
dict(id="c20-phrase-column", property="C20",
 needs="a hit in the description of a bundle",
 breaks="the phrase of a hit is taken from the name even where only the description holds the words",
 edits=[("oca/src/repositories/oca_bundle_fts_repo.rs", "snippet(oca_bundle_fts, -1,", "snippet(oca_bundle_fts, 0,")],
 main='''
let mut f = store();
build(&mut f, "ADD ATTRIBUTE a=Text\\nADD META en PROPS name=\\"first\\" description=\\"second\\"");
let r = f.search_oca_bundle(None, "second".to_string(), 10, 1);
assert_eq!(r.records[0].metadata.phrase, "<mark>second</mark>");
'''),
dict(id="c12-late-from", property="C12",
 needs="a FROM which is not the first command",
 breaks="a FROM after other commands is skipped instead of refused",
 edits=[("semantics/oca-bundle/src/build.rs", '''            errors.push(
                "Unsupported FROM command, it should be resolved before applying commands"
                    .to_string(),
            );
''', '''            // resolved before applying commands
''')],
 main='''
let mut f = store();
let b = build(&mut f, "ADD ATTRIBUTE a=Text");
assert!(f.build_from_ocafile(format!("ADD ATTRIBUTE b=Text\\nFROM {}\\n", said(&b))).is_err());
'''),
]
