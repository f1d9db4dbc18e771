//! A DataStorage that outlives the Facade (so that a "crash" can drop the Facade
//! and reopen on the same data), mirrors what was written, and can stop the
//! process of a build right before its k-th write.
use oca_rs::data_storage::{DataStorage, Namespace};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Fault {
    pub armed: Option<usize>,
    /// the armed write is cut off after this many bytes instead of not made
    pub tear: Option<u64>,
    pub count: usize,
    pub fired: bool,
    pub log: Vec<String>,
    pub logging: bool,
}
pub type FaultRef = Arc<Mutex<Fault>>;
pub const CRASH: &str = "__CRASH__";

#[repr(C)]
struct Limit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const Limit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

/// files can grow to so many bytes only while `f` runs: a write beyond them fails half way
pub fn with_file_limit<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    unsafe {
        signal(SIGXFSZ, SIG_IGN);
        setrlimit(RLIMIT_FSIZE, &Limit { cur: bytes, max: u64::MAX });
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        setrlimit(RLIMIT_FSIZE, &Limit { cur: u64::MAX, max: u64::MAX });
    }
    match r {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    }
}

impl Fault {
    /// the write about to be made is the one to be cut off half way
    pub fn torn(f: &FaultRef) -> Option<u64> {
        let mut g = f.lock().unwrap_or_else(|e| e.into_inner());
        match (g.armed, g.tear) {
            (Some(k), Some(n)) if g.count == k && !g.fired => {
                g.fired = true;
                Some(n)
            }
            _ => None,
        }
    }
    /// called before each write; panics when the armed point is reached
    pub fn hit(f: &FaultRef, what: String) {
        let mut g = f.lock().unwrap_or_else(|e| e.into_inner());
        if g.logging {
            g.log.push(what);
        }
        if g.fired {
            drop(g);
            std::panic::panic_any(CRASH);
        }
        if let Some(k) = g.armed {
            if g.count == k {
                g.fired = true;
                drop(g);
                std::panic::panic_any(CRASH);
            }
        }
        g.count += 1;
    }
}

#[derive(Clone)]
pub struct Shared {
    pub be: Arc<Mutex<Box<dyn DataStorage>>>,
    pub mirror: Arc<Mutex<BTreeMap<String, Vec<u8>>>>,
    pub fault: FaultRef,
    pub tag: &'static str,
}

pub fn ns_of(s: &str) -> Option<Namespace> {
    Some(match s {
        "oca" => Namespace::OCA,
        "oca_bundles_json" => Namespace::OCABundlesJSON,
        "oca_objects_json" => Namespace::OCAObjectsJSON,
        "core_model" => Namespace::CoreModel,
        "oca_relations" => Namespace::OCARelations,
        "oca_refs" => Namespace::OCAReferences,
        _ => return None,
    })
}

impl DataStorage for Shared {
    fn get(&self, namespace: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        let g = self.be.lock().unwrap_or_else(|e| e.into_inner());
        g.get(namespace, key)
    }
    fn get_all(&self, namespace: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        let g = self.be.lock().unwrap_or_else(|e| e.into_inner());
        g.get_all(namespace)
    }
    fn insert(&mut self, namespace: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        let full = format!("{}/{}", namespace.as_str(), key);
        if let Some(n) = Fault::torn(&self.fault) {
            let whole = with_file_limit(n, || {
                let mut g = self.be.lock().unwrap_or_else(|e| e.into_inner());
                g.insert(namespace, key, value).is_ok()
            });
            if whole {
                self.mirror.lock().unwrap_or_else(|e| e.into_inner()).insert(full, value.to_vec());
            }
            std::panic::panic_any(CRASH);
        }
        Fault::hit(&self.fault, format!("{}:{}", self.tag, full));
        let r = {
            let mut g = self.be.lock().unwrap_or_else(|e| e.into_inner());
            g.insert(namespace, key, value)
        };
        if r.is_ok() {
            self.mirror.lock().unwrap_or_else(|e| e.into_inner()).insert(full, value.to_vec());
        }
        r
    }
    fn new() -> Self {
        unimplemented!()
    }
    fn config(&self, _config: HashMap<String, String>) -> Self {
        self.clone()
    }
}
