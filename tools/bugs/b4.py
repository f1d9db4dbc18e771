bugs = [
dict(id="c04-flag-case", property="C04",
 needs="two flagged attributes whose names differ only in the case of letters",
 breaks="flagged attributes are ordered without regard to case, so such names stay in the order of a hash map and one content has several SAIDs",
 edits=[("semantics/oca-bundle/src/state/oca/capture_base.rs", "    sorted_flagged_attributes.sort();\n", "    sorted_flagged_attributes.sort_by_key(|name| name.to_lowercase());\n")],
 main='''
let text = "ADD ATTRIBUTE code=Text CODE=Text\\nADD FLAGGED_ATTRIBUTES code CODE";
let first = said(&build(&mut store(), text));
for _ in 0..64 {
    assert_eq!(first, said(&build(&mut store(), text)));
}
'''),
dict(id="c02-blank-encoding", property="C02",
 needs="a quoted encoding with blanks around its name",
 breaks="an encoding which is not one of the known names is accepted",
 edits=[("semantics/oca-bundle/src/state/encoding.rs", "        match s {\n", "        match s.trim() {\n")],
 main='''
let mut f = store();
assert!(f.build_from_ocafile("ADD ATTRIBUTE a=Text\\nADD CHARACTER_ENCODING ATTRS a=\\"utf-8\\"".to_string()).is_ok());
assert!(f.build_from_ocafile("ADD ATTRIBUTE a=Text\\nADD CHARACTER_ENCODING ATTRS a=\\" utf-8\\"".to_string()).is_err());
'''),
dict(id="c05-utf16be", property="C05",
 needs="a bundle with an attribute in the encoding utf-16be which is read back from its JSON",
 breaks="reading back a bundle turns the encoding utf-16be into utf-16",
 edits=[("semantics/oca-bundle/src/state/encoding.rs", '    #[serde(rename = "utf-16")]\n', '    #[serde(rename = "utf-16", alias = "utf-16be")]\n')],
 main='''
let b = build(&mut store(), "ADD ATTRIBUTE a=Text\\nADD CHARACTER_ENCODING ATTRS a=utf-16be");
let before = js(&b);
let again: OCABundle = serde_json::from_value(before.clone()).unwrap();
assert_eq!(serde_json::to_value(&again).unwrap()["overlays"], before["overlays"]);
'''),
dict(id="c07-entry-blanks", property="C07",
 needs="an entry whose quoted text begins or ends with a blank",
 breaks="the text of an entry loses the blanks at its ends",
 edits=[("semantics/oca-file/src/ocafile/instructions/helpers.rs", '''            Rule::entry_value => {
                if let Some(nested_item) = item.clone().into_inner().next() {
                    if let Rule::string = nested_item.as_rule() {
                        value = NestedValue::Value(
                            nested_item
                                .clone()
                                .into_inner()
                                .next_back()
                                .unwrap()
                                .as_span()
                                .as_str()
''', '''            Rule::entry_value => {
                if let Some(nested_item) = item.clone().into_inner().next() {
                    if let Rule::string = nested_item.as_rule() {
                        value = NestedValue::Value(
                            nested_item
                                .clone()
                                .into_inner()
                                .next_back()
                                .unwrap()
                                .as_span()
                                .as_str().trim()
''')],
 main='''
let b = build(&mut store(), "ADD ATTRIBUTE a=Text\\nADD ENTRY en ATTRS a={\\"x\\": \\" one \\"}");
assert_eq!(overlays(&b, "entry")[0]["attribute_entries"]["a"]["x"], json!(" one "));
'''),
dict(id="c08-colon-name", property="C08",
 needs="a reference by a local name which contains a colon, in commands written to JSON",
 breaks="commands with such a reference cannot be read back from JSON",
 edits=[("semantics/oca-ast/src/ast/mod.rs", "        let (tag, rest) = s\n            .split_once(':')", "        let (tag, rest) = s\n            .rsplit_once(':')")],
 main='''
use oca_ast_semantics::ast::OCAAst;
for name in ["one", "one:two"] {
    let ast = oca_file_semantics::ocafile::parse_from_string(format!("ADD ATTRIBUTE a=refn:{name}")).unwrap();
    let text = serde_json::to_string(&ast).unwrap();
    let again: OCAAst = serde_json::from_str(&text).unwrap();
    assert_eq!(again.commands, ast.commands);
}
'''),
dict(id="c10-long-line", property="C10",
 needs="a command of more than 256 bytes with a multi-byte character across the 256th",
 breaks="parsing a long line panics at a character boundary",
 edits=[("semantics/oca-file/src/ocafile/mod.rs", "                            raw_line: line.as_str().to_string(),\n", "                            raw_line: line.as_str()[..line.as_str().len().min(256)].to_string(),\n")],
 main='''
for n in 250..260 {
    let text = format!("ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS a=\\"{}\\"", "\\u{e9}".repeat(n) );
    assert!(store().build_from_ocafile(text).is_ok());
    let text = format!("ADD ATTRIBUTE a=Text\\nADD LABEL en ATTRS  a=\\"{}\\"", "\\u{e9}".repeat(n) );
    assert!(store().build_from_ocafile(text).is_ok());
}
'''),
dict(id="c12-frame-place", property="C12",
 needs="a base with a framing which names its location, extended with FROM",
 breaks="the extended bundle has lost the location of the framing",
 edits=[("semantics/oca-bundle/src/state/oca.rs", '            frame_meta.remove("frame_id");\n', '            frame_meta.retain(|key, _| key != "frame_id" && key != "frame_location");\n')],
 main='''
let mut f = store();
let framing = "ADD ATTR_FRAMING \\\\\\n    id=\\"X\\" \\\\\\n    label=\\"L\\" \\\\\\n    location=\\"https://x.y\\" \\\\\\n    version=\\"1\\" \\\\\\n    ATTRS \\\\\\n        a={\\n            \\"u\\": {\\n                \\"predicate_id\\": \\"p\\",\\n                \\"framing_justification\\": \\"q\\",\\n            },\\n        }";
let base = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\n{framing}"));
let whole = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\n{framing}\\nADD LABEL en ATTRS a=\\"A\\""));
let extended = build(&mut f, &format!("FROM {}\\nADD LABEL en ATTRS a=\\"A\\"", said(&base)));
assert_eq!(overlays(&base, "attribute_framing").len(), 1);
assert_eq!(js(&whole)["overlays"], js(&extended)["overlays"]);
'''),
dict(id="c14-flagged-reference", property="C14",
 needs="a flagged attribute which refers to another bundle",
 breaks="the bundles flagged attributes refer to are not among the dependencies",
 edits=[("oca/src/facade/fetch.rs", "    for (_, value) in bundle.capture_base.attributes {\n        let mut attr_type = &value;",
  "    let flagged = bundle.capture_base.flagged_attributes;\n    for (_, value) in bundle.capture_base.attributes.into_iter().filter(|(name, _)| !flagged.contains(name)) {\n        let mut attr_type = &value;")],
 main='''
let mut f = store();
let dep = said(&build(&mut f, "ADD ATTRIBUTE x=Text"));
let top = build(&mut f, &format!("ADD ATTRIBUTE t=refs:{dep}\\nADD FLAGGED_ATTRIBUTES t"));
let got = f.get_oca_bundle(top.said.unwrap(), true).unwrap();
assert_eq!(got.dependencies.len(), 1);
'''),
dict(id="c15-framing-kind", property="C15",
 needs="exploring a bundle which has a framing",
 breaks="a framing overlay is listed as a link overlay",
 edits=[("semantics/oca-ast/src/ast/mod.rs", "            ObjectKind::Overlay(OverlayType::AttributeFraming(_), _) => 22,", "            ObjectKind::Overlay(OverlayType::AttributeFraming(_), _) => 21,")],
 main='''
let mut f = store();
let framing = "ADD ATTR_FRAMING \\\\\\n    id=\\"X\\" \\\\\\n    label=\\"L\\" \\\\\\n    location=\\"https://x.y\\" \\\\\\n    version=\\"1\\" \\\\\\n    ATTRS \\\\\\n        a={\\n            \\"u\\": {\\n                \\"predicate_id\\": \\"p\\",\\n                \\"framing_justification\\": \\"q\\",\\n            },\\n        }";
let b = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\n{framing}"));
let rel = f.explore(said(&b)).unwrap();
let kinds: Vec<String> = rel.relations.iter().map(|o| format!("{:?}", o.object_type)).collect();
assert!(kinds.iter().any(|k| k.contains("AttributeFraming")), "{kinds:?}");
'''),
dict(id="c21-sled-empty", property="C21",
 needs="an empty value in the sled back end",
 breaks="an entry whose value is empty reads as absent, though it is listed",
 edits=[("oca/src/data_storage.rs", "            match tree.get(key.as_bytes()).unwrap() {\n                Some(value) =>", "            match tree.get(key.as_bytes()).unwrap() {\n                Some(value) if value.is_empty() => Ok(None),\n                Some(value) =>")],
 main='''
use oca_rs::data_storage::{SledDataStorage, SledDataStorageConfig};
let dir = std::env::temp_dir().join(format!("c21-sled-empty-{}", std::process::id()));
let mut s = SledDataStorage::new().config(SledDataStorageConfig::build().path(dir.clone()).unwrap());
s.insert(Namespace::OCA, "k", b"").unwrap();
let got = s.get(Namespace::OCA, "k").unwrap();
drop(s);
std::fs::remove_dir_all(&dir).unwrap();
assert_eq!(got, Some(vec![]));
'''),
dict(id="c23-unenforced-attributes", property="C23",
 needs="an attribute translated only in a language which is not enforced, beside enforced ones",
 breaks="a translation missing in an enforced language goes unreported when only an unenforced language has it",
 edits=[("semantics/oca-bundle/src/state/validator.rs", "            overlays.iter().flat_map(|o| o.attributes()).collect();\n", "            overlays.iter().filter(|o| enforced_langs.contains(o.language().unwrap())).flat_map(|o| o.attributes()).collect();\n")],
 main='''
use oca_bundle_semantics::state::validator::Validator;
let b = build(&mut store(), "ADD ATTRIBUTE a=Text b=Text\\nADD LABEL en ATTRS a=\\"A\\"\\nADD LABEL pl ATTRS a=\\"A\\" b=\\"B\\"");
let errors = Validator::new().enforce_translations(vec![isolang::Language::Eng]).validate(&b).unwrap_err();
assert!(errors.iter().any(|e| e.to_string().contains("'b'")), "{errors:?}");
'''),
]
