O = "semantics/oca-bundle/src/state/oca.rs"
MANY = '''
let mut text = String::from("ADD ATTRIBUTE");
for i in 0..13 { text += &format!(" a{i}=Numeric"); }
let cond: Vec<String> = (0..13).map(|i| format!("${{a{i}}} > {i}")).collect();
text += &format!("\\nADD ATTRIBUTE z=Text\\nADD CONDITION ATTRS z=\\"{}\\"\\n", cond.join(" and "));
'''
bugs = [
dict(id="c05-eleventh-dependency", property="C05",
 needs="a condition on more than ten attributes, in a bundle that is read back and edited further",
 breaks="extending a bundle that was read back garbles a condition: references from the eleventh on are no longer recognised",
 edits=[(O, """        let re = regex::Regex::new(r"\\$\\{(\\d+)\\}").unwrap();
        for overlay in conditional_overlays {""", """        let re = regex::Regex::new(r"\\$\\{(\\d)\\}").unwrap();
        for overlay in conditional_overlays {""")],
 main=MANY + '''
let mut f = store();
let a = build(&mut f, &text);
let b = build(&mut f, &format!("FROM {}\\nADD LABEL en ATTRS z=\\"Z\\"", said(&a)));
assert_eq!(overlays(&a, "conditional")[0]["attribute_dependencies"], overlays(&b, "conditional")[0]["attribute_dependencies"]);
'''),
dict(id="c06-eleventh-dependency", property="C06",
 needs="a condition on more than ten attributes",
 breaks="the OCAFILE generated from a bundle leaves references from the eleventh on as numbers",
 edits=[(O, """                    let re = regex::Regex::new(r"\\$\\{(\\d+)\\}").unwrap();
                    for (attr_name, condition) in conditional""", """                    let re = regex::Regex::new(r"\\$\\{(\\d)\\}").unwrap();
                    for (attr_name, condition) in conditional""")],
 main=MANY + '''
let mut f = store();
let a = build(&mut f, &text);
let t = f.parse_oca_bundle_to_ocafile(&a).unwrap();
let b = build(&mut f, &t);
assert_eq!(said(&a), said(&b));
'''),
dict(id="c01-entry-restated", property="C01",
 needs="entries stated twice for one attribute and language with different content",
 breaks="the second statement of the entries of an attribute in a language is ignored",
 edits=[("semantics/oca-bundle/src/state/attribute.rs", "self.entries.as_mut().unwrap().insert(*lang, entry.clone());", "self.entries.as_mut().unwrap().entry(*lang).or_insert(entry.clone());")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text\\nADD ENTRY en ATTRS a={\\"o1\\": \\"One\\"}\\nADD ENTRY en ATTRS a={\\"o1\\": \\"Uno\\"}");
let b = build(&mut f, "ADD ATTRIBUTE a=Text\\nADD ENTRY en ATTRS a={\\"o1\\": \\"Uno\\"}");
assert_eq!(said(&a), said(&b));
'''),
dict(id="c01-retype-unflags", property="C01",
 needs="a flagged attribute of a base bundle given another type by a file extending it",
 breaks="adding an attribute again to change its type also takes away its flag",
 edits=[("semantics/oca-bundle/src/state/attribute.rs", """                self.attribute_type.clone_from(&other.attribute_type);
""", """                if self.attribute_type != other.attribute_type {
                    self.is_flagged = other.is_flagged;
                }
                self.attribute_type.clone_from(&other.attribute_type);
""")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text b=Text\\nADD FLAGGED_ATTRIBUTES a b");
let b = build(&mut f, &format!("FROM {}\\nADD ATTRIBUTE a=Numeric", said(&a)));
assert_eq!(b.capture_base.flagged_attributes.len(), 2);
'''),
dict(id="c12-error-line", property="C12",
 needs="a file starting with FROM with a command that cannot be applied",
 breaks="an error in a file that starts with FROM is located one command too early",
 edits=[("semantics/oca-bundle/src/build.rs", "Some(_) => i + 1,", "Some(_) => i,")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text");
let e = f.build_from_ocafile(format!("FROM {}\\nADD ATTRIBUTE b=Text\\nADD LABEL en ATTRS c=\\"C\\"", said(&a))).unwrap_err();
let e = serde_json::to_string(&e).unwrap();
assert!(e.contains("\\"ln\\":3"), "{e}");
'''),
dict(id="c22-foreign-link", property="C22",
 needs="a bundle whose link overlay names another capture base, all identifiers computed again",
 breaks="a link overlay of another capture base is accepted",
 edits=[("semantics/oca-bundle/src/state/validator.rs", "if o.capture_base().ne(&capture_base.said) {", "if o.capture_base().ne(&capture_base.said) && !o.overlay_type().to_string().eq(\"Link\") {")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Text\\nADD LINK refs:EHx8Gjzpyfs6tqSJcDyBKpbdxrSpgXuTWMOjnkPgSGvc ATTRS a=b");
let mut v = js(&a);
v["overlays"]["link"][0]["capture_base"] = "EHx8Gjzpyfs6tqSJcDyBKpbdxrSpgXuTWMOjnkPgSGvc".into();
let mut b: OCABundle = serde_json::from_value(v).unwrap();
for o in &mut b.overlays { o.fill_said(); }
b.fill_said();
let e = oca_bundle_semantics::state::validator::Validator::new().validate(&b).unwrap_err();
let e = format!("{e:?}");
assert!(e.contains("Mismatch"), "{e}");
'''),
dict(id="c23-first-meta", property="C23",
 needs="meta data in two languages, where the second stored one has a property the first lacks",
 breaks="a meta property missing in one language is only noticed when the first meta overlay has it",
 edits=[("semantics/oca-bundle/src/state/validator.rs", """        let attributes = meta_overlays
            .iter()
            .flat_map""", """        let attributes = meta_overlays
            .iter()
            .take(1)
            .flat_map""")],
 main='''
use isolang::Language;
let mut f = store();
for (x, y) in [("name=\\"N\\"", "name=\\"N\\" note=\\"X\\""), ("name=\\"N\\" note=\\"X\\"", "name=\\"N\\"")] {
    let a = build(&mut f, &format!("ADD ATTRIBUTE a=Text\\nADD META en PROPS {x}\\nADD META pl PROPS {y}"));
    for order in [false, true] {
        let mut v = js(&a);
        if order { v["overlays"]["meta"].as_array_mut().unwrap().reverse(); }
        let b: OCABundle = serde_json::from_value(v).unwrap();
        let r = oca_bundle_semantics::state::validator::Validator::new().enforce_translations(vec![Language::Eng, Language::Pol]).validate(&b);
        assert!(format!("{r:?}").contains("note"), "{r:?}");
    }
}
'''),
dict(id="c24-self-second", property="C24",
 needs="a condition that refers to its own attribute after another one",
 breaks="a condition on its own attribute is only rejected when it is the first one it names",
 edits=[("semantics/oca-bundle/src/state/validator.rs", "if condition_dependencies.contains(attr) {", "if condition_dependencies.first() == Some(attr) {")],
 main='''
let mut f = store();
let a = build(&mut f, "ADD ATTRIBUTE a=Numeric b=Numeric\\nADD CONDITION ATTRS a=\\"${b} > 1 and ${a} > 1\\"");
assert!(oca_bundle_semantics::state::validator::Validator::new().validate(&a).is_err());
'''),
]
