use crate::misc;
use crate::shared::{Fault, FaultRef, Shared, CRASH};
use oca_ast_semantics::ast;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::Encode;
use oca_rs::data_storage::{
    DataStorage, FileSystemStorage, FileSystemStorageConfig, InMemoryDataStorage, Namespace,
    SledDataStorage, SledDataStorageConfig,
};
use oca_rs::facade::build::{Error as BuildError, References, ValidationError};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::{Facade, HashFunctionCode, SerializationFormats};
use said::SelfAddressingIdentifier;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static SCRATCH: AtomicUsize = AtomicUsize::new(0);

pub struct Store {
    db: Shared,
    cache: Shared,
    dbk: String,
    cachek: String,
    sql: Option<PathBuf>,
    facade: Option<Facade>,
    fault: FaultRef,
    dir: PathBuf,
}

#[derive(Default)]
pub struct Ctx {
    pub stores: HashMap<String, Store>,
    pub vars: HashMap<String, String>,
    pub bundles: Vec<Value>,
    pub index: HashMap<String, usize>,
    pub raw: HashMap<String, misc::RawStore>,
    pub graphs: HashMap<String, misc::GraphStore>,
    pub dir: PathBuf,
}

/// runs library code; a panic is an observation
pub fn guard<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(p) => {
            if let Some(s) = p.downcast_ref::<&'static str>() {
                if *s == CRASH {
                    return json!({"crash": true});
                }
            }
            let m = LAST_PANIC.with(|x| x.borrow().clone());
            json!({ "panic": m })
        }
    }
}

fn subst(v: &Value, vars: &HashMap<String, String>) -> Value {
    match v {
        Value::String(s) if s.contains("@{") => {
            let mut out = s.clone();
            for (k, val) in vars {
                out = out.replace(&format!("@{{{k}}}"), val);
            }
            Value::String(out)
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| subst(x, vars)).collect()),
        Value::Object(o) => {
            let mut m = Map::new();
            for (k, x) in o {
                let mut k2 = k.clone();
                if k2.contains("@{") {
                    for (a, b) in vars {
                        k2 = k2.replace(&format!("@{{{a}}}"), b);
                    }
                }
                m.insert(k2, subst(x, vars));
            }
            Value::Object(m)
        }
        _ => v.clone(),
    }
}

pub fn run_script(script: &Value, tick: &dyn Fn(usize)) -> Value {
    let base = std::env::var("CONFORM_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    let n = SCRATCH.fetch_add(1, Ordering::SeqCst);
    let dir = PathBuf::from(base).join(format!("s{}_{}", std::process::id(), n));
    let mut ctx = Ctx { dir: dir.clone(), ..Default::default() };
    let mut obs = vec![];
    if let Some(a) = script["ops"].as_array() {
        for (i, op) in a.iter().enumerate() {
            tick(i);
            let mut op = subst(op, &ctx.vars);
            resolve_of(&ctx, &obs, &mut op);
            let o = run_op(&mut ctx, &op);
            if let (Some(name), Some(t)) = (op["astext"].as_str(), o["ok"]["text"].as_str()) {
                ctx.vars.insert(name.to_string(), t.to_string());
            }
            if let Some(name) = op["as"].as_str() {
                if let Some(s) = o["ok"]["said"].as_str() {
                    ctx.vars.insert(name.to_string(), s.to_string());
                }
            }
            obs.push(o);
        }
    }
    let bundles = std::mem::take(&mut ctx.bundles);
    let vars = ctx.vars.clone();
    drop(ctx);
    if dir.exists() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    json!({"id": script["id"], "obs": obs, "bundles": bundles, "vars": vars})
}

/// `of: k` names the bundle observed by operation k of the script
fn resolve_of(ctx: &Ctx, obs: &[Value], op: &mut Value) {
    let k = match op["of"].as_u64() {
        Some(k) => k as usize,
        None => return,
    };
    let b = match obs.get(k).and_then(|o| o["ok"]["b"].as_u64()) {
        Some(b) => b as usize,
        None => {
            op["op"] = json!("skip");
            return;
        }
    };
    op["b"] = json!(b);
    op["said"] = obs[k]["ok"]["said"].clone();
    let v: Value = ctx.bundles[b]["json"].as_str().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
    if op["part"].as_str().is_none() {
        let mut saids = vec![v["capture_base"]["d"].clone()];
        if let Some(m) = v["overlays"].as_object() {
            for x in m.values() {
                match x {
                    Value::Array(a) => saids.extend(a.iter().map(|o| o["d"].clone())),
                    o => saids.push(o["d"].clone()),
                }
            }
        }
        op["saids"] = Value::Array(saids);
    }
}

pub fn enc(b: &OCABundle) -> String {
    let code = HashFunctionCode::Blake3_256;
    let format = SerializationFormats::JSON;
    String::from_utf8(b.encode(&code, &format).unwrap()).unwrap()
}

impl Ctx {
    pub fn intern_json(&mut self, text: &str) -> usize {
        if let Some(i) = self.index.get(text) {
            return *i;
        }
        let i = self.bundles.len();
        self.bundles.push(json!({"json": text, "dig": misc::digests(text)}));
        self.index.insert(text.to_string(), i);
        i
    }
    pub fn intern(&mut self, b: &OCABundle) -> usize {
        let t = enc(b);
        self.intern_json(&t)
    }
}

pub fn sid(b: &OCABundle) -> String {
    b.said.as_ref().map(|s| s.to_string()).unwrap_or_default()
}

fn mk(kind: &str, dir: &PathBuf, name: &str) -> Box<dyn DataStorage> {
    let p = dir.join(name);
    match kind {
        "sled" => {
            std::fs::create_dir_all(dir).unwrap();
            let c = SledDataStorageConfig::build().path(p).unwrap();
            // a database closed a moment ago may still hold its lock
            for _ in 0..200 {
                let db = SledDataStorage::new().config(c.clone());
                if db.get(Namespace::OCAReferences, "?").is_ok() {
                    return Box::new(db);
                }
                std::thread::sleep(std::time::Duration::from_millis(20));
            }
            Box::new(SledDataStorage::new().config(c))
        }
        "fs" => {
            std::fs::create_dir_all(dir).unwrap();
            let c = FileSystemStorageConfig::build().path(p).unwrap();
            Box::new(FileSystemStorage::new().config(c))
        }
        _ => Box::new(InMemoryDataStorage::new()),
    }
}

pub fn mk_storage(kind: &str, dir: &PathBuf, name: &str) -> Box<dyn DataStorage> {
    mk(kind, dir, name)
}

fn facade_of(st: &Store) -> Facade {
    let cfg = match &st.sql {
        Some(p) => SQLiteConfig::build().path(p.clone()).unwrap(),
        None => SQLiteConfig::build().unwrap(),
    };
    Facade::new(Box::new(st.db.clone()), Box::new(st.cache.clone()), cfg)
}

pub fn verr(e: &ValidationError) -> Value {
    let j = serde_json::to_value(e).unwrap_or(Value::Null);
    match e {
        ValidationError::OCAFileParse(p) => json!({"kind": "parse", "msg": p.to_string(), "j": j}),
        ValidationError::OCABundleBuild(b) => {
            let oca_bundle_semantics::build::Error::FromASTError { line_number, raw_line, message } = b;
            json!({"kind": "build", "ln": line_number, "raw": raw_line, "msg": message})
        }
        ValidationError::InvalidCommand { line_number, raw_line, message } => {
            json!({"kind": "invalid", "ln": line_number, "raw": raw_line, "msg": message})
        }
        ValidationError::UnknownRefn(n) => json!({"kind": "refn", "msg": n}),
        ValidationError::TransformationBuild(b) => json!({"kind": "transformation", "msg": b.to_string()}),
    }
}

fn berr(e: &BuildError) -> Value {
    match e {
        BuildError::ValidationError(v) => json!({"err": v.iter().map(verr).collect::<Vec<_>>()}),
        BuildError::Deprecated => json!({"err": [{"kind": "deprecated"}]}),
    }
}

pub struct MapRefs(pub BTreeMap<String, String>);
impl References for MapRefs {
    fn find(&self, refn: &str) -> Option<String> {
        self.0.get(refn).cloned()
    }
    fn save(&mut self, refn: &str, value: String) {
        self.0.insert(refn.to_string(), value);
    }
}

fn steps_json(ctx: &mut Ctx, steps: &[oca_bundle_semantics::build::OCABuildStep]) -> Value {
    Value::Array(
        steps
            .iter()
            .map(|s| {
                json!({
                    "parent": s.parent_said.as_ref().map(|x| x.to_string()),
                    "cmd": serde_json::to_string(&s.command).unwrap(),
                    "abs": misc::abs_cmd(&s.command),
                    "b": ctx.intern(&s.result),
                    "said": sid(&s.result),
                })
            })
            .collect(),
    )
}

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op[k].as_str().unwrap_or("")
}

fn said_of(x: &str) -> Result<SelfAddressingIdentifier, Value> {
    // the parser of `said` cuts off two bytes without looking
    if x.get(..2).is_none() {
        return Err(json!({"badsaid": x}));
    }
    SelfAddressingIdentifier::from_str(x).map_err(|_| json!({"badsaid": x}))
}

fn strs(e: &[String]) -> Value {
    json!({ "err": e })
}

pub fn hashhex(b: &[u8]) -> String {
    misc::digest_of(b)
}

/// everything in the two storages, as "tag:namespace/key" -> digest of the value
fn dump(st: &Store) -> Value {
    let mut m = Map::new();
    for (tag, sh) in [("db", &st.db), ("cache", &st.cache)] {
        for (k, v) in sh.mirror.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            m.insert(format!("{tag}:{k}"), Value::String(misc::canon_value(k, v)));
        }
    }
    Value::Object(m)
}

fn lang_of(x: &str) -> Option<isolang::Language> {
    isolang::Language::from_639_1(x)
}

pub fn run_op(ctx: &mut Ctx, op: &Value) -> Value {
    let kind = s(op, "op").to_string();
    let key = op["s"].as_str().unwrap_or("0").to_string();
    match kind.as_str() {
        "open" => {
            let fault: FaultRef = Arc::new(Mutex::new(Fault::default()));
            let n = ctx.stores.len();
            let dir = ctx.dir.join(format!("st{n}"));
            let dbk = op["db"].as_str().unwrap_or("mem").to_string();
            let cachek = op["cache"].as_str().unwrap_or("mem").to_string();
            let mkshared = |k: &str, name: &str, tag: &'static str| Shared {
                be: Arc::new(Mutex::new(mk(k, &dir, name))),
                mirror: Arc::new(Mutex::new(BTreeMap::new())),
                fault: fault.clone(),
                tag,
            };
            let db = mkshared(&dbk, "db", "db");
            let cache = mkshared(&cachek, "cache", "cache");
            let sql = if s(op, "sql") == "file" {
                let p = dir.join("sql");
                std::fs::create_dir_all(&p).unwrap();
                Some(p)
            } else {
                None
            };
            let mut st = Store { db, cache, dbk, cachek, sql, facade: None, fault, dir };
            misc::install_sql_hook(&st.fault);
            let r = guard(|| {
                st.facade = Some(facade_of(&st));
                json!({"ok": {}})
            });
            ctx.stores.insert(key, st);
            r
        }
        "reopen" => {
            let st = ctx.stores.get_mut(&key).unwrap();
            st.facade = None;
            // persistent back ends are closed and opened again from their path
            for (k, sh, name) in [(&st.dbk, &st.db, "db"), (&st.cachek, &st.cache, "cache")] {
                if k != "mem" {
                    let mut g = sh.be.lock().unwrap_or_else(|e| e.into_inner());
                    *g = Box::new(InMemoryDataStorage::new());
                    *g = mk(k, &st.dir, name);
                }
            }
            {
                let mut f = st.fault.lock().unwrap_or_else(|e| e.into_inner());
                *f = Fault::default();
            }
            misc::install_sql_hook(&st.fault);
            guard(|| {
                st.facade = Some(facade_of(st));
                json!({"ok": {}})
            })
        }
        "arm" => {
            let st = ctx.stores.get_mut(&key).unwrap();
            let mut f = st.fault.lock().unwrap_or_else(|e| e.into_inner());
            *f = Fault { armed: op["at"].as_u64().map(|x| x as usize), tear: op["tear"].as_u64(), logging: op["log"].as_bool().unwrap_or(false), ..Default::default() };
            json!({"ok": {}})
        }
        "writes" => {
            let st = ctx.stores.get_mut(&key).unwrap();
            let mut f = st.fault.lock().unwrap_or_else(|e| e.into_inner());
            let r = json!({"ok": {"count": f.count, "log": f.log.clone(), "fired": f.fired}});
            *f = Fault::default();
            r
        }
        "dump" => json!({"ok": dump(ctx.stores.get(&key).unwrap())}),
        "rawdb" => {
            let st = ctx.stores.get(&key).unwrap();
            misc::raw_ns(&st.db.mirror.lock().unwrap_or_else(|e| e.into_inner()), s(op, "ns"))
        }
        "build" => {
            let mut f = match ctx.stores.get_mut(&key).unwrap().facade.take() {
                Some(f) => f,
                None => return json!({"closed": true}),
            };
            let mut got = None;
            let r = guard(|| match f.build_from_ocafile(s(op, "text").to_string()) {
                Ok(b) => {
                    let v = json!({"ok": {"said": sid(&b)}});
                    got = Some(b);
                    v
                }
                Err(e) => berr(&e),
            });
            ctx.stores.get_mut(&key).unwrap().facade = Some(f);
            finish(ctx, r, got)
        }
        "validate" => {
            let mut f = match ctx.stores.get_mut(&key).unwrap().facade.take() {
                Some(f) => f,
                None => return json!({"closed": true}),
            };
            let mut got = None;
            let mut refs_after = Value::Null;
            let r = guard(|| {
                let res = if op["ext"].is_object() {
                    let mut m = MapRefs(BTreeMap::new());
                    for (k, v) in op["ext"].as_object().unwrap() {
                        m.0.insert(k.clone(), v.as_str().unwrap_or("").to_string());
                    }
                    let x = f.validate_ocafile_with_external_references(s(op, "text").to_string(), &mut m);
                    refs_after = json!(m.0);
                    x
                } else {
                    f.validate_ocafile(s(op, "text").to_string())
                };
                match res {
                    Ok(b) => {
                        let mut v = json!({"ok": {"said": sid(&b.oca_bundle)}});
                        if op["models"].as_bool().unwrap_or(false) {
                            v["ok"]["models"] = misc::models(&b);
                        }
                        if op["store"].as_bool().unwrap_or(false) {
                            match f.build(&b) {
                                Ok(_) => {}
                                Err(e) => return berr(&e),
                            }
                        }
                        got = Some(b);
                        v
                    }
                    Err(e) => json!({"err": e.iter().map(verr).collect::<Vec<_>>()}),
                }
            });
            ctx.stores.get_mut(&key).unwrap().facade = Some(f);
            let mut r = r;
            if let Some(b) = got {
                if r.get("ok").is_some() {
                    let i = ctx.intern(&b.oca_bundle);
                    r["ok"]["b"] = json!(i);
                    r["ok"]["steps"] = steps_json(ctx, &b.steps);
                }
            }
            if !refs_after.is_null() {
                r["refs"] = refs_after;
            }
            r
        }
        "pure" => {
            let mut got = None;
            let r = guard(|| match oca_rs::facade::build::build_from_ocafile(s(op, "text").to_string()) {
                Ok(b) => {
                    let v = json!({"ok": {"said": sid(&b)}});
                    got = Some(b);
                    v
                }
                Err(e) => berr(&e),
            });
            finish(ctx, r, got)
        }
        "load" | "continue" | "vbundle" | "toast" | "togen" => misc::bundle_op(ctx, op, &kind),
        "parse" | "rt" | "gen" | "roundcmd" => misc::parse_op(op, &kind),
        "cond" | "condcheck" => misc::cond_op(op, &kind),
        "tbuild" | "tparse" | "tload" | "combine" | "loadcombined" => misc::trans_op(ctx, op, &kind),
        "st" => misc::storage_op(ctx, op),
        "graph" | "dagbuild" => misc::graph_op(ctx, op, &kind),
        "skip" => json!({"skipped": true}),
        "digest" => json!({"ok": {"d": misc::digest_of(s(op, "text").as_bytes())}}),
        _ => facade_query(ctx, op, &kind, &key),
    }
}

fn finish(ctx: &mut Ctx, mut r: Value, got: Option<OCABundle>) -> Value {
    if let Some(b) = got {
        if r.get("ok").is_some() {
            let i = ctx.intern(&b);
            r["ok"]["b"] = json!(i);
        }
    }
    r
}

fn facade_query(ctx: &mut Ctx, op: &Value, kind: &str, key: &str) -> Value {
    let f = match ctx.stores.get_mut(key).and_then(|x| x.facade.take()) {
        Some(f) => f,
        None => return json!({"closed": true}),
    };
    let mut inter: Vec<String> = vec![];
    let r = guard(|| match kind {
        "get" => match said_of(s(op, "said")) {
            Err(v) => v,
            Ok(x) => match f.get_oca_bundle(x, op["dep"].as_bool().unwrap_or(false)) {
                Err(e) => strs(&e),
                Ok(b) => {
                    inter.push(enc(&b.bundle));
                    for d in &b.dependencies {
                        inter.push(enc(d));
                    }
                    json!({"ok": {"said": sid(&b.bundle), "b": 0,
                        "deps": b.dependencies.iter().enumerate().map(|(i, d)| json!({"said": sid(d), "b": i + 1})).collect::<Vec<_>>()}})
                }
            },
        },
        "steps" => match said_of(s(op, "said")) {
            Err(v) => v,
            Ok(x) => match f.get_oca_bundle_steps(x) {
                Err(e) => strs(&e),
                Ok(st) => {
                    let mut out = vec![];
                    for (i, x) in st.iter().enumerate() {
                        inter.push(enc(&x.result));
                        out.push(json!({
                            "parent": x.parent_said.as_ref().map(|x| x.to_string()),
                            "cmd": serde_json::to_string(&x.command).unwrap(),
                            "abs": misc::abs_cmd(&x.command),
                            "said": sid(&x.result), "b": i}));
                    }
                    json!({"ok": {"steps": out}})
                }
            },
        },
        "ocafile" => match said_of(s(op, "said")) {
            Err(v) => v,
            Ok(x) => match f.get_oca_bundle_ocafile(x, op["deref"].as_bool().unwrap_or(false)) {
                Err(e) => strs(&e),
                Ok(t) => json!({"ok": {"text": t}}),
            },
        },
        "ast" => match said_of(s(op, "said")) {
            Err(v) => v,
            Ok(x) => match f.get_oca_bundle_ast(x) {
                Err(e) => strs(&e),
                Ok(t) => json!({"ok": {"cmds": t.commands.iter().map(|c| serde_json::to_string(c).unwrap()).collect::<Vec<_>>()}}),
            },
        },
        "explore" => match f.explore(s(op, "said").to_string()) {
            None => json!({"ok": {"none": true, "rel": []}}),
            Some(r) => {
                let ty = |o: &ast::ObjectKind| match o {
                    ast::ObjectKind::CaptureBase(_) => "CaptureBase".to_string(),
                    ast::ObjectKind::OCABundle(_) => "OCABundle".to_string(),
                    ast::ObjectKind::Overlay(t, _) => t.to_string(),
                };
                let mut rel: Vec<Value> = r
                    .relations
                    .iter()
                    .map(|o| json!({"said": o.said, "type": ty(&o.object_type), "j": serde_json::to_string(o).unwrap()}))
                    .collect();
                rel.sort_by_key(|x| x.to_string());
                json!({"ok": {"none": false, "base": r.base_object.said, "type": ty(&r.base_object.object_type), "rel": rel}})
            }
        },
        "objects" => {
            let saids: Vec<String> = op["saids"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            match f.get_oca_objects(saids) {
                Err(e) => strs(&e),
                Ok(o) => json!({"ok": {"objs": o.iter().map(|x| {
                    let t = serde_json::to_string(x).unwrap();
                    json!({"dig": misc::object_digest(&t), "json": t}) }).collect::<Vec<_>>()}}),
            }
        }
        "list_b" => match f.fetch_all_oca_bundle(op["limit"].as_u64().unwrap_or(10) as usize, op["page"].as_u64().unwrap_or(1) as usize) {
            Err(e) => strs(&e),
            Ok(r) => {
                let mut out = vec![];
                for b in &r.records {
                    out.push(json!({"said": sid(b), "b": inter.len()}));
                    inter.push(enc(b));
                }
                json!({"ok": {"total": r.metadata.total, "page": r.metadata.page, "recs": out}})
            }
        },
        "list_cb" => match f.fetch_all_capture_base(op["limit"].as_u64().unwrap_or(10) as usize, op["page"].as_u64().unwrap_or(1) as usize) {
            Err(e) => strs(&e),
            Ok(r) => {
                let out: Vec<Value> = r.records.iter().map(|c| json!({"said": c.said.as_ref().map(|x| x.to_string()), "json": serde_json::to_string(c).unwrap()})).collect();
                json!({"ok": {"total": r.metadata.total, "page": r.metadata.page, "recs": out}})
            }
        },
        "search" => {
            let lang = op["lang"].as_str().and_then(lang_of);
            let r = f.search_oca_bundle(lang, s(op, "q").to_string(), op["limit"].as_u64().unwrap_or(10) as usize, op["page"].as_u64().unwrap_or(1) as usize);
            let mut out = vec![];
            for x in &r.records {
                out.push(json!({"said": sid(&x.oca_bundle), "b": inter.len(), "phrase": x.metadata.phrase, "scope": x.metadata.scope, "score": x.metadata.score.to_string()}));
                inter.push(enc(&x.oca_bundle));
            }
            json!({"ok": {"total": r.metadata.total, "page": r.metadata.page, "recs": out}})
        }
        "refs" => match f.fetch_all_refs() {
            Err(e) => json!({"err": [e]}),
            Ok(m) => {
                let b: BTreeMap<_, _> = m.into_iter().collect();
                json!({"ok": {"refs": b}})
            }
        },
        "bundle_ocafile" => match said_of(s(op, "said")) {
            Err(v) => v,
            Ok(x) => match f.get_oca_bundle(x, false) {
                Err(e) => strs(&e),
                Ok(b) => match f.parse_oca_bundle_to_ocafile(&b.bundle) {
                    Err(e) => strs(&e),
                    Ok(t) => json!({"ok": {"text": t}}),
                },
            },
        },
        _ => json!({"badop": kind}),
    });
    ctx.stores.get_mut(key).unwrap().facade = Some(f);
    // rewrite local indices of interned bundles to script-level ones
    let ids: Vec<usize> = inter.iter().map(|t| ctx.intern_json(t)).collect();
    let mut r = r;
    fix(&mut r, &ids);
    r
}

fn fix(v: &mut Value, ids: &[usize]) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "b" {
                    if let Some(i) = x.as_u64() {
                        *x = json!(ids[i as usize]);
                        continue;
                    }
                }
                if k != "refs" {
                    fix(x, ids);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| fix(x, ids)),
        _ => {}
    }
}
