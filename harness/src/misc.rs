use crate::ops::{enc, guard, mk_storage, sid, Ctx};
use crate::shared::{ns_of, Fault, FaultRef};
use oca_ast_semantics::ast::{self, NestedAttrType, NestedValue, OCAAst, ObjectKind, RefValue};
use oca_bundle_semantics::controller::load_oca;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::state::validator::Validator;
use oca_bundle_semantics::Encode;
use oca_dag_semantics::data_storage::{DataStorage as DagStorage, SledDataStorage as DagSled};
use oca_dag_semantics::versioning::{ocafile::build_oca, Graph};
use oca_rs::data_storage::DataStorage;
use oca_rs::facade::bundle::{Bundle as Combined, BundleElement};
use oca_rs::{HashFunctionCode, SerializationFormats};
use said::derivation::HashFunction;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Display;
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub fn digest_of(b: &[u8]) -> String {
    HashFunction::from_str("E").unwrap().derive(b).to_string()
}

const BLANK: &str = "############################################";

/// self-address of one JSON object given as a value: digest of its compact form
/// with the `d` member blanked
fn self_digest(v: &Value) -> String {
    let mut o = v.clone();
    if let Some(m) = o.as_object_mut() {
        if m.contains_key("d") {
            m.insert("d".into(), Value::String(BLANK.into()));
        }
    }
    digest_of(serde_json::to_string(&o).unwrap().as_bytes())
}

/// recomputed identifiers of every object in a bundle's JSON
pub fn digests(text: &str) -> Value {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => return json!({"bad": e.to_string()}),
    };
    let mut ov = vec![];
    let list = |x: &Value| -> Vec<Value> {
        match x {
            Value::Array(a) => a.clone(),
            Value::Object(_) => vec![x.clone()],
            _ => vec![],
        }
    };
    if let Some(m) = v["overlays"].as_object() {
        for (k, x) in m {
            for o in list(x) {
                ov.push(json!({"key": k, "d": o["d"], "cb": o["capture_base"], "dig": self_digest(&o)}));
            }
        }
    }
    json!({"b": self_digest(&v), "cb": self_digest(&v["capture_base"]), "ov": ov,
           "v": v["v"], "len": text.len()})
}

pub fn object_digest(text: &str) -> Value {
    match serde_json::from_str::<Value>(text) {
        Ok(v) => json!({"d": v["d"], "dig": self_digest(&v)}),
        Err(e) => json!({"bad": e.to_string()}),
    }
}

fn split_lp(v: &[u8]) -> Option<Vec<String>> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let n = v[i] as usize;
        if i + 1 + n > v.len() {
            return None;
        }
        out.push(String::from_utf8_lossy(&v[i + 1..i + 1 + n]).to_string());
        i += 1 + n;
    }
    Some(out)
}

/// digest of a stored value; relation records and overlay lists are sets written
/// in no particular order, so their elements are sorted first
pub fn canon_value(key: &str, v: &[u8]) -> String {
    if key.starts_with("oca_relations/") && !key.ends_with(".metadata") {
        let mut items = vec![];
        let mut i = 0;
        while i + 1 < v.len() {
            let n = v[i + 1] as usize;
            if i + 2 + n > v.len() {
                break;
            }
            items.push(v[i..i + 2 + n].to_vec());
            i += 2 + n;
        }
        items.sort();
        return digest_of(&items.concat());
    }
    if key.starts_with("core_model/") && v.first() != Some(&b'{') {
        if let Some(f) = split_lp(v) {
            let mut f = f;
            if f.len() > 2 {
                f[2..].sort();
            }
            return digest_of(f.join("|").as_bytes());
        }
    }
    digest_of(v)
}

pub fn raw_ns(m: &BTreeMap<String, Vec<u8>>, ns: &str) -> Value {
    let mut out = Map::new();
    for (k, v) in m {
        if let Some(rest) = k.strip_prefix(&format!("{ns}/")) {
            if ns == "core_model" && v.first() != Some(&b'{') {
                out.insert(rest.into(), json!({"lp": split_lp(v)}));
            } else {
                out.insert(rest.into(), json!({"text": String::from_utf8_lossy(v)}));
            }
        }
    }
    json!({"ok": {"entries": out}})
}

pub fn install_sql_hook(_f: &FaultRef) {
    #[cfg(oca_conform)]
    {
        let f = _f.clone();
        oca_rs::facade::set_write_hook(Box::new(move |sql: &str| {
            let q = sql.trim_start().to_string();
            if q.to_uppercase().starts_with("CREATE") {
                return;
            }
            Fault::hit(&f, format!("sql:{}", q.split_whitespace().take(3).collect::<Vec<_>>().join(" ")));
        }));
    }
    let _ = Fault::default();
}

pub fn models(b: &oca_bundle_semantics::build::OCABuild) -> Value {
    let r = oca_dag_semantics::build_core_db_model(b);
    Value::Array(
        r.iter()
            .map(|m| {
                json!({
                  "command": m.command.as_ref().map(|c| json!({"digest": c.digest.to_string(), "json": c.json, "real": digest_of(c.json.as_bytes())})),
                  "bundle": m.oca_bundle.as_ref().map(|x| json!({"said": x.oca_bundle_said.to_string(), "parent": x.parent.as_ref().map(|p| p.to_string()),
                      "cb": x.capture_base_said.to_string(), "ov": x.overlays_said.iter().map(|o| o.to_string()).collect::<Vec<_>>()})),
                  "cb": m.capture_base.as_ref().map(|x| json!({"said": x.capture_base_said.to_string(), "parent": x.parent.as_ref().map(|p| p.to_string()), "cmd": x.command_digest.to_string()})),
                  "overlay": m.overlay.as_ref().map(|x| json!({"said": x.overlay_said.to_string(), "parent": x.parent.as_ref().map(|p| p.to_string()), "cmd": x.command_digest.to_string()})),
                })
            })
            .collect(),
    )
}

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or("")
}

// ---------------------------------------------------------------- commands

fn abs_ref(r: &RefValue) -> Value {
    match r {
        RefValue::Said(x) => json!({"ref": "s", "to": x.to_string()}),
        RefValue::Name(x) => json!({"ref": "n", "to": x}),
    }
}

pub fn abs_type(t: &NestedAttrType) -> Value {
    let mut d = 0;
    let mut cur = t;
    loop {
        match cur {
            NestedAttrType::Array(b) => {
                d += 1;
                cur = b;
            }
            NestedAttrType::Value(v) => return json!({"d": d, "k": "v", "v": v.to_string()}),
            NestedAttrType::Reference(RefValue::Said(x)) => return json!({"d": d, "k": "s", "v": x.to_string()}),
            NestedAttrType::Reference(RefValue::Name(x)) => return json!({"d": d, "k": "n", "v": x}),
            NestedAttrType::Null => return json!({"d": d, "k": "null", "v": ""}),
        }
    }
}

pub fn abs_val(v: &NestedValue) -> Value {
    match v {
        NestedValue::Value(x) => json!({"val": x}),
        NestedValue::Reference(r) => abs_ref(r),
        NestedValue::Array(a) => json!({"arr": a.iter().map(abs_val).collect::<Vec<_>>()}),
        NestedValue::Object(o) => json!({"obj": o.iter().map(|(k, v)| json!([k, abs_val(v)])).collect::<Vec<_>>()}),
    }
}

pub fn abs_cmd(c: &ast::Command) -> Value {
    let k = match c.kind {
        ast::CommandType::Add => "add",
        ast::CommandType::Remove => "remove",
        ast::CommandType::Modify => "modify",
        ast::CommandType::From => "from",
    };
    let pv = |p: &Option<indexmap::IndexMap<String, NestedValue>>| -> Value {
        match p {
            None => json!([]),
            Some(m) => Value::Array(m.iter().map(|(k, v)| json!([k, abs_val(v)])).collect()),
        }
    };
    match &c.object_kind {
        ObjectKind::CaptureBase(x) => json!({"k": k, "o": "CaptureBase",
            "types": x.attributes.as_ref().map(|m| m.iter().map(|(k, v)| json!([k, abs_type(v)])).collect::<Vec<_>>()).unwrap_or_default(),
            "attrs": [], "props": pv(&x.properties),
            "flagged": x.flagged_attributes.clone().unwrap_or_default()}),
        ObjectKind::OCABundle(b) => {
            let ast::ReferenceAttrType::Reference(r) = &b.said;
            json!({"k": k, "o": "OCABundle", "types": [], "attrs": [], "props": [["said", abs_ref(r)]], "flagged": []})
        }
        ObjectKind::Overlay(t, x) => json!({"k": k, "o": t.to_string(), "types": [],
            "attrs": pv(&x.attributes), "props": pv(&x.properties), "flagged": []}),
    }
}

fn ast_of(cmds: Vec<ast::Command>) -> OCAAst {
    let mut a = OCAAst::new();
    a.commands = cmds;
    a
}

fn sem_json(a: &OCAAst) -> Value {
    let meta: BTreeMap<_, _> = a.meta.iter().collect();
    json!({"kind": "semantics", "meta": meta.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "version": a.version,
        "cmds": a.commands.iter().map(abs_cmd).collect::<Vec<_>>(),
        "lines": (0..a.commands.len()).map(|i| a.commands_meta.get(&i).map(|m| json!([m.line_number, m.raw_line])).unwrap_or(Value::Null)).collect::<Vec<_>>()})
}

fn tr_json(a: &oca_ast_transformation::ast::TransformationAST) -> Value {
    use oca_ast_transformation::ast as t;
    let meta: BTreeMap<_, _> = a.meta.iter().collect();
    json!({"kind": "transformation", "meta": meta.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "cmds": a.commands.iter().map(|c| {
            let k = match c.kind { t::CommandType::Rename => "rename", t::CommandType::Link => "link" };
            let m = match &c.object_kind { t::ObjectKind::Rename(x) => x.attributes.clone(), t::ObjectKind::Link(x) => x.attributes.clone() };
            json!({"k": k, "attrs": m.unwrap_or_default().iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()})
        }).collect::<Vec<_>>(),
        "lines": (0..a.commands.len()).map(|i| a.commands_meta.get(&i).map(|m| json!([m.line_number, m.raw_line])).unwrap_or(Value::Null)).collect::<Vec<_>>()})
}

pub fn parse_op(op: &Value, kind: &str) -> Value {
    match kind {
        "parse" => guard(|| match oca_file::ocafile::parse_from_string(s(op, "text").to_string()) {
            Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => json!({"ok": sem_json(&a)}),
            Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => json!({"ok": tr_json(&a)}),
            Err(e) => json!({"err": [{"msg": e.to_string(), "j": serde_json::to_value(&e).unwrap_or(Value::Null)}]}),
        }),
        "rt" => {
            // parse; print; parse again; and through JSON
            let mut got = None;
            let first = guard(|| match oca_file_semantics::ocafile::parse_from_string(s(op, "text").to_string()) {
                Ok(a) => {
                    let v = json!({"ok": sem_json(&a)});
                    got = Some(a);
                    v
                }
                Err(e) => json!({"err": [{"msg": e.to_string()}]}),
            });
            let a = match got {
                Some(a) => a,
                None => return json!({ "parse": first }),
            };
            let mut text = None;
            let gen = guard(|| {
                let t = oca_file_semantics::ocafile::generate_from_ast(&a);
                text = Some(t.clone());
                json!({"ok": {"text": t}})
            });
            let again = match text {
                None => Value::Null,
                Some(t) => guard(|| match oca_file_semantics::ocafile::parse_from_string(t.clone()) {
                    Ok(b) => json!({"ok": sem_json(&b), "same": b.commands == a.commands}),
                    Err(e) => json!({"err": [{"msg": e.to_string()}]}),
                }),
            };
            let mut each = vec![];
            for c in &a.commands {
                each.push(guard(|| {
                    let j = serde_json::to_string(c).unwrap();
                    match serde_json::from_str::<ast::Command>(&j) {
                        Ok(b) => json!({"ok": {"same": &b == c, "cmd": abs_cmd(&b), "json": j, "stable": serde_json::to_string(&b).unwrap() == j}}),
                        Err(e) => json!({"err": [{"msg": e.to_string(), "json": j}]}),
                    }
                }));
            }
            let whole = guard(|| {
                let j = serde_json::to_string(&a).unwrap();
                match serde_json::from_str::<OCAAst>(&j) {
                    Ok(b) => json!({"ok": sem_json(&b), "same": b == a}),
                    Err(e) => json!({"err": [{"msg": e.to_string()}]}),
                }
            });
            json!({"parse": first, "gen": gen, "again": again, "json": each, "ast": whole})
        }
        "gen" | "roundcmd" => guard(|| {
            let mut cmds = vec![];
            for c in op["cmds"].as_array().cloned().unwrap_or_default() {
                let j = c.as_str().map(|x| x.to_string()).unwrap_or_else(|| c.to_string());
                match serde_json::from_str::<ast::Command>(&j) {
                    Ok(c) => cmds.push(c),
                    Err(e) => return json!({"err": [{"msg": e.to_string()}]}),
                }
            }
            if kind == "roundcmd" {
                return json!({"ok": {"cmds": cmds.iter().map(abs_cmd).collect::<Vec<_>>(),
                    "json": cmds.iter().map(|c| serde_json::to_string(c).unwrap()).collect::<Vec<_>>()}});
            }
            json!({"ok": {"text": oca_file_semantics::ocafile::generate_from_ast(&ast_of(cmds))}})
        }),
        _ => json!({"badop": kind}),
    }
}

// ---------------------------------------------------------------- bundles

fn from_op(ctx: &Ctx, op: &Value) -> String {
    if let Some(i) = op["b"].as_u64() {
        return ctx.bundles.get(i as usize).and_then(|b| b["json"].as_str()).unwrap_or("").to_string();
    }
    s(op, "json").to_string()
}

fn with_src(src: Option<usize>, canon: bool, f: impl FnOnce() -> Value) -> Value {
    let mut r = f();
    r["canon"] = json!(canon);
    r["src"] = json!(src);
    r
}

/// recomputes some of the identifiers of a (tampered) bundle
fn refill(text: &str, what: &[Value]) -> String {
    let mut v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(_) => return text.to_string(),
    };
    for w in what {
        match w.as_str().unwrap_or("") {
            "cb" => v["capture_base"]["d"] = json!(self_digest(&v["capture_base"])),
            k @ ("links" | "ov") => {
                let cb = v["capture_base"]["d"].clone();
                if let Some(m) = v["overlays"].as_object_mut() {
                    for (_, x) in m.iter_mut() {
                        let l: Vec<&mut Value> = match x {
                            Value::Array(a) => a.iter_mut().collect(),
                            o => vec![o],
                        };
                        for o in l {
                            if k == "links" {
                                o["capture_base"] = cb.clone();
                            } else {
                                o["d"] = json!(self_digest(o));
                            }
                        }
                    }
                }
            }
            "b" => {
                let n = serde_json::to_string(&v).unwrap().len();
                v["v"] = json!(format!("OCAS11JSON{n:06x}_"));
                v["d"] = json!(self_digest(&v));
            }
            _ => {}
        }
    }
    serde_json::to_string(&v).unwrap()
}

pub fn bundle_op(ctx: &mut Ctx, op: &Value, kind: &str) -> Value {
    let mut text = from_op(ctx, op);
    if let Some(l) = op["refill"].as_array() {
        text = refill(&text, l);
    }
    if op["b"].as_u64().is_some_and(|i| i as usize >= ctx.bundles.len()) {
        return json!({"nobundle": true});
    }
    let mut got: Option<OCABundle> = None;
    let r = guard(|| match load_oca(&mut text.as_bytes()) {
        Ok(b) => {
            let v = json!({"ok": {"said": sid(&b)}});
            got = Some(b);
            v
        }
        Err(e) => json!({"err": [e.to_string()]}),
    });
    let src = if op["src"].as_bool().unwrap_or(false) { Some(ctx.intern_json(&text)) } else { None };
    let b = match got {
        None => {
            let mut r = r;
            r["src"] = json!(src);
            return r;
        }
        Some(b) => b,
    };
    let canon = kind == "vbundle" && guard(|| json!(enc(&b) == text)) == json!(true);
    match kind {
        "load" => {
            let mut r = r;
            let mut e = None;
            let g = guard(|| {
                e = Some(enc(&b));
                // recompute the identifier from what was read
                let mut c = b.clone();
                c.fill_said();
                json!({"ok": {"recomputed": sid(&c)}})
            });
            if let Some(t) = e {
                r["ok"]["b"] = json!(ctx.intern_json(&t));
            }
            r["ok"]["re"] = g;
            r
        }
        "continue" => {
            let mut out = None;
            let r = guard(|| {
                let a = match oca_file_semantics::ocafile::parse_from_string(s(op, "text").to_string()) {
                    Ok(a) => a,
                    Err(e) => return json!({"err": [{"kind": "parse", "msg": e.to_string()}]}),
                };
                match oca_bundle_semantics::build::from_ast(Some(b.clone()), &a) {
                    Ok(x) => {
                        let v = json!({"ok": {"said": sid(&x.oca_bundle)}});
                        out = Some(x.oca_bundle);
                        v
                    }
                    Err(e) => json!({"err": e.iter().map(|x| {
                        let oca_bundle_semantics::build::Error::FromASTError { line_number, raw_line, message } = x;
                        json!({"kind": "build", "ln": line_number, "raw": raw_line, "msg": message}) }).collect::<Vec<_>>()}),
                }
            });
            let mut r = r;
            if let Some(x) = out {
                let i = ctx.intern(&x);
                r["ok"]["b"] = json!(i);
            }
            r
        }
        "vbundle" => with_src(src, canon, || guard(|| {
            let mut v = Validator::new();
            if let Some(l) = op["langs"].as_array() {
                let ls: Vec<isolang::Language> = l.iter().filter_map(|x| isolang::Language::from_639_1(x.as_str().unwrap_or(""))).collect();
                v = v.enforce_translations(ls);
            }
            match v.validate(&b) {
                Ok(()) => json!({"ok": {}}),
                Err(e) => {
                    let mut m: Vec<String> = e.iter().map(|x| x.to_string()).collect();
                    m.sort();
                    json!({"verr": m})
                }
            }
        })),
        "toast" => guard(|| json!({"ok": sem_json(&b.to_ast())})),
        "togen" => guard(|| json!({"ok": {"text": oca_rs::facade::build::parse_oca_bundle_to_ocafile(&b)}})),
        _ => json!({"badop": kind}),
    }
}

// ---------------------------------------------------------------- conditions

pub fn cond_op(op: &Value, kind: &str) -> Value {
    guard(|| {
        let mut a = Attribute::new(s(op, "attr").to_string());
        a.set_condition(s(op, "text").to_string());
        if kind == "cond" {
            return json!({"ok": {"stored": a.condition, "deps": a.dependencies}});
        }
        let mut m: BTreeMap<String, Box<dyn Display + 'static>> = BTreeMap::new();
        if let Some(o) = op["values"].as_object() {
            for (k, v) in o {
                m.insert(k.clone(), Box::new(v.as_str().unwrap_or("").to_string()));
            }
        }
        match a.check_condition(m) {
            Ok(b) => json!({"ok": {"value": b}}),
            Err(e) => json!({"err": e.iter().map(|oca_bundle_semantics::state::oca::overlay::conditional::Error::Custom(x)| x.clone()).collect::<Vec<_>>()}),
        }
    })
}

// ---------------------------------------------------------------- transformations

fn tenc(t: &transformation_file::state::Transformation) -> String {
    String::from_utf8(t.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).unwrap()).unwrap()
}

fn tbuild(text: &str, direct: bool) -> Result<transformation_file::state::Transformation, Value> {
    if direct {
        let a = oca_file_transformation::ocafile::parse_from_string(text.to_string()).map_err(|e| json!({"err": [e.to_string()]}))?;
        return transformation_file::build::from_ast(&a)
            .map_err(|e| json!({"err": e.iter().map(|x| x.to_string()).collect::<Vec<_>>()}));
    }
    match oca_file::ocafile::parse_from_string(text.to_string()) {
        Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => transformation_file::build::from_ast(&a)
            .map_err(|e| json!({"err": e.iter().map(|x| x.to_string()).collect::<Vec<_>>()})),
        Ok(_) => Err(json!({"err": ["not a transformation"]})),
        Err(e) => Err(json!({"err": [e.to_string()]})),
    }
}

fn tjson(t: &transformation_file::state::Transformation) -> Value {
    let j = tenc(t);
    json!({"said": t.said.as_ref().map(|x| x.to_string()), "source": t.source, "target": t.target,
        "attrs": t.attributes.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(), "json": j,
        "dig": object_digest(&j)["dig"], "len": j.len()})
}

pub fn trans_op(ctx: &mut Ctx, op: &Value, kind: &str) -> Value {
    match kind {
        "tparse" => guard(|| match oca_file_transformation::ocafile::parse_from_string(s(op, "text").to_string()) {
            Ok(a) => {
                let mut v = tr_json(&a);
                // through JSON
                v["back"] = guard(|| {
                    let j = match serde_json::to_string(&a) {
                        Ok(j) => j,
                        Err(e) => return json!({"err": [e.to_string()]}),
                    };
                    match serde_json::from_str::<oca_ast_transformation::ast::TransformationAST>(&j) {
                        Ok(b) => json!({"ok": {"same": a == b, "cmds": tr_json(&b)["cmds"]}}),
                        Err(e) => json!({"err": [e.to_string()]}),
                    }
                });
                json!({"ok": v})
            }
            Err(e) => json!({"err": [e.to_string()]}),
        }),
        "tbuild" => guard(|| match tbuild(s(op, "text"), op["direct"] == true) {
            Ok(t) => {
                let mut v = tjson(&t);
                let j = s(&v, "json").to_string();
                v["back"] = guard(|| match serde_json::from_str::<transformation_file::state::Transformation>(&j) {
                    Ok(t) => json!({"ok": tjson(&t)}),
                    Err(e) => json!({"err": [e.to_string()]}),
                });
                json!({"ok": v})
            }
            Err(e) => e,
        }),
        "tload" => guard(|| match serde_json::from_str::<transformation_file::state::Transformation>(s(op, "json")) {
            Ok(t) => json!({"ok": tjson(&t)}),
            Err(e) => json!({"err": [e.to_string()]}),
        }),
        "combine" => {
            let with = op.get("b").is_some() || op.get("of").is_some() || op.get("json").is_some();
            let text = if with { from_op(ctx, op) } else { String::new() };
            guard(|| {
                let mut c = Combined::new();
                // the bundle goes in after so many of the transformations
                let at = op["at"].as_u64().unwrap_or(0) as usize;
                let texts = op["texts"].as_array().cloned().unwrap_or_default();
                for i in 0..=texts.len() {
                    if with && i == at.min(texts.len()) {
                        match load_oca(&mut text.as_bytes()) {
                            Ok(b) => c.add(BundleElement::Structural(b)),
                            Err(e) => return json!({"err": [e.to_string()]}),
                        }
                    }
                    if i < texts.len() {
                        match tbuild(texts[i].as_str().unwrap_or(""), op["direct"] == true) {
                            Ok(t) => c.add(BundleElement::Transformation(t)),
                            Err(e) => return e,
                        }
                    }
                }
                if op["fill"] == true {
                    c.fill_said();
                }
                match c.encode() {
                    Ok(j) => {
                        let mut r = loaded_combined(&j);
                        r["ok"]["given"] = if with { json!(text) } else { Value::Null };
                        r
                    }
                    Err(e) => json!({"err": [e.to_string()]}),
                }
            })
        }
        "loadcombined" => guard(|| loaded_combined(s(op, "json"))),
        _ => json!({"badop": kind}),
    }
}

fn loaded_combined(j: &str) -> Value {
    let v: Value = serde_json::from_str(j).unwrap_or(Value::Null);
    let back = guard(|| match oca_rs::facade::bundle::load_oca(&mut j.as_bytes()) {
        Ok(b) => json!({"ok": {"said": b.said.as_ref().map(|x| x.to_string()),
            "m": b.structural.as_ref().map(enc), "t": b.transformations.iter().map(tjson).collect::<Vec<_>>(),
            "re": b.encode().unwrap_or_default()}}),
        Err(e) => json!({"err": [e.to_string()]}),
    });
    json!({"ok": {"json": j, "d": v["d"], "v": v["v"], "dig": self_digest(&v), "len": j.len(),
        "m": serde_json::to_string(&v["m"]).unwrap(),
        "t": v["t"].as_array().map(|a| a.iter().map(|x| serde_json::to_string(x).unwrap()).collect::<Vec<_>>()),
        "tdig": v["t"].as_array().map(|a| a.iter().map(|x| { let j = serde_json::to_string(x).unwrap(); json!({"dig": object_digest(&j)["dig"], "len": j.len()}) }).collect::<Vec<_>>()),
        "back": back}})
}

// ---------------------------------------------------------------- raw storages

pub struct RawStore {
    st: Option<Box<dyn DataStorage>>,
    kind: String,
    dir: PathBuf,
}

pub fn storage_op(ctx: &mut Ctx, op: &Value) -> Value {
    let name = op["h"].as_str().unwrap_or("0").to_string();
    match s(op, "do") {
        "open" => {
            let n = ctx.raw.len();
            let dir = ctx.dir.join(format!("raw{n}"));
            let kind = s(op, "kind").to_string();
            let mut st = None;
            let r = guard(|| {
                st = Some(mk_storage(&kind, &dir, "x"));
                json!({"ok": {}})
            });
            ctx.raw.insert(name, RawStore { st, kind, dir });
            r
        }
        "reopen" => {
            let r = ctx.raw.get_mut(&name).unwrap();
            r.st = None;
            let (k, d) = (r.kind.clone(), r.dir.clone());
            let mut st = None;
            let o = guard(|| {
                st = Some(mk_storage(&k, &d, "x"));
                json!({"ok": {}})
            });
            r.st = st;
            o
        }
        "outside" => {
            // anything that appeared next to, not inside, the store directory
            let r = ctx.raw.get(&name).unwrap();
            let mut out: Vec<String> = vec![];
            fn walk(p: &PathBuf, keep: &PathBuf, out: &mut Vec<String>) {
                if let Ok(rd) = std::fs::read_dir(p) {
                    for e in rd.flatten() {
                        let q = e.path();
                        if &q == keep {
                            continue;
                        }
                        if q.is_dir() {
                            walk(&q, keep, out);
                        } else {
                            out.push(q.to_string_lossy().to_string());
                        }
                    }
                }
            }
            walk(&r.dir, &r.dir.join("x"), &mut out);
            json!({"ok": {"outside": out.len()}})
        }
        d => {
            let r = ctx.raw.get_mut(&name).unwrap();
            let ns = match ns_of(s(op, "ns")) {
                Some(n) => n,
                None => return json!({"badns": true}),
            };
            let st = match r.st.as_mut() {
                Some(x) => x,
                None => return json!({"closed": true}),
            };
            guard(|| match d {
                "put" => match st.insert(ns, s(op, "key"), s(op, "val").as_bytes()) {
                    Ok(()) => json!({"ok": {}}),
                    Err(e) => json!({"err": [e]}),
                },
                "tear" => match crate::shared::with_file_limit(op["bytes"].as_u64().unwrap_or(0), || st.insert(ns, s(op, "key"), s(op, "val").as_bytes())) {
                    Ok(()) => json!({"ok": {}}),
                    Err(e) => json!({"err": [e]}),
                },
                "get" => match st.get(ns, s(op, "key")) {
                    Ok(Some(v)) => json!({"ok": {"some": true, "val": String::from_utf8_lossy(&v)}}),
                    Ok(None) => json!({"ok": {"some": false, "val": ""}}),
                    Err(e) => json!({"err": [e]}),
                },
                "all" => match st.get_all(ns) {
                    Ok(m) => {
                        let mut v: Vec<(String, String)> = m.into_iter().map(|(k, v)| (k, String::from_utf8_lossy(&v).to_string())).collect();
                        v.sort();
                        json!({"ok": {"all": v}})
                    }
                    Err(e) => json!({"err": [e]}),
                },
                _ => json!({"badop": d}),
            })
        }
    }
}

// ---------------------------------------------------------------- version graph

#[derive(Clone)]
pub struct DagMem {
    m: Arc<Mutex<HashMap<String, Vec<u8>>>>,
}
impl DagStorage for DagMem {
    fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
        Ok(self.m.lock().unwrap().get(key).cloned())
    }
    fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
        self.m.lock().unwrap().insert(key.to_string(), value.to_vec());
        Ok(())
    }
    fn open(_path: &str) -> Self {
        DagMem { m: Arc::new(Mutex::new(HashMap::new())) }
    }
}

pub struct GraphStore {
    g: Option<Graph>,
    kind: String,
    dir: PathBuf,
}

fn dag_db(kind: &str, dir: &PathBuf) -> Box<dyn DagStorage> {
    if kind == "sled" {
        std::fs::create_dir_all(dir).unwrap();
        for _ in 0..200 {
            let path = dir.join("g");
            if let Ok(db) = std::panic::catch_unwind(|| DagSled::open(path.to_str().unwrap())) {
                if db.get("x").is_ok() {
                    return Box::new(db);
                }
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        Box::new(DagSled::open(dir.join("g").to_str().unwrap()))
    } else {
        Box::new(DagMem::open(""))
    }
}

fn lp(v: Option<Vec<u8>>) -> Value {
    match v {
        None => Value::Null,
        Some(b) => match split_lp(&b) {
            Some(x) => json!(x),
            None => json!("malformed"),
        },
    }
}

pub fn graph_op(ctx: &mut Ctx, op: &Value, kind: &str) -> Value {
    let name = op["h"].as_str().unwrap_or("0").to_string();
    if kind == "dagbuild" {
        if !ctx.graphs.contains_key(&name) {
            let dir = ctx.dir.join(format!("graph{}", ctx.graphs.len()));
            let k = op["kind"].as_str().unwrap_or("mem").to_string();
            let g = Some(Graph { db: dag_db(&k, &dir) });
            ctx.graphs.insert(name.clone(), GraphStore { g, kind: k, dir });
        }
        let db = ctx.graphs.get(&name).unwrap().g.as_ref().unwrap().db.clone();
        let mut got = None;
        let r = guard(|| {
            let a = match oca_file_semantics::ocafile::parse_from_string(s(op, "text").to_string()) {
                Ok(a) => a,
                Err(e) => return json!({"err": [format!("parse: {e}")]}),
            };
            match build_oca(db.clone(), a.commands) {
                Ok(b) => {
                    let v = json!({"ok": {"said": sid(&b)}});
                    got = Some(b);
                    v
                }
                Err(e) => json!({"err": [e]}),
            }
        });
        let mut r = r;
        if let Some(b) = got {
            let i = ctx.intern(&b);
            r["ok"]["b"] = json!(i);
            // walk the recorded operations back to the root
            let mut chain = vec![];
            let mut cur = sid(&b);
            let mut walked = std::collections::HashSet::new();
            // a chain that comes back on itself is cut where it does
            while walked.insert(cur.clone()) {
                let rec = db.get(&format!("oca.{cur}.operation")).ok().flatten();
                let stored = db.get(&format!("oca.{cur}")).ok().flatten();
                match rec {
                    None => {
                        chain.push(json!({"said": cur, "none": true}));
                        break;
                    }
                    Some(v) => {
                        let pl = v.first().copied().unwrap_or(0) as usize;
                        let parent = String::from_utf8_lossy(&v[1..1 + pl]).to_string();
                        let rest = &v[(1 + pl).min(v.len())..];
                        // the command is whatever follows; a length prefix, if any, precedes the '{'
                        let start = rest.iter().position(|c| *c == b'{').unwrap_or(0);
                        let cmd = String::from_utf8_lossy(&rest[start..]).to_string();
                        let st = stored.map(|x| String::from_utf8_lossy(&x).to_string()).unwrap_or_default();
                        let bi = if st.is_empty() { Value::Null } else { json!(ctx.intern_json(&st)) };
                        let abs = serde_json::from_str::<oca_ast_semantics::ast::Command>(&cmd).map(|c| abs_cmd(&c)).unwrap_or(Value::Null);
                        chain.push(json!({"said": cur, "parent": parent, "cmd": abs, "none": false, "b": bi}));
                        if parent.is_empty() {
                            break;
                        }
                        cur = parent;
                    }
                }
            }
            chain.reverse();
            r["ok"]["chain"] = json!(chain);
        }
        return r;
    }
    match s(op, "do") {
        "open" => {
            let dir = ctx.dir.join(format!("graph{}", ctx.graphs.len()));
            let k = op["kind"].as_str().unwrap_or("mem").to_string();
            let g = Some(Graph { db: dag_db(&k, &dir) });
            ctx.graphs.insert(name, GraphStore { g, kind: k, dir });
            json!({"ok": {}})
        }
        "reopen" => {
            let x = ctx.graphs.get_mut(&name).unwrap();
            if x.kind == "sled" {
                x.g = None;
                x.g = Some(Graph { db: dag_db(&x.kind, &x.dir) });
            }
            json!({"ok": {}})
        }
        "add" => {
            let g = ctx.graphs.get(&name).unwrap().g.as_ref().unwrap();
            guard(|| match g.add(s(op, "new"), op["to"].as_str()) {
                Ok(()) => json!({"ok": {}}),
                Err(e) => json!({"err": [e]}),
            })
        }
        "get" => {
            let g = ctx.graphs.get(&name).unwrap().g.as_ref().unwrap();
            guard(|| {
                let n = s(op, "node");
                json!({"ok": {"parents": lp(g.db.get(&format!("{n}.upscending")).unwrap()),
                    "children": lp(g.db.get(&format!("{n}.downscending")).unwrap())}})
            })
        }
        d => json!({"badop": d}),
    }
}
