// helpers for the demonstration
#![allow(dead_code, unused_imports)]
pub use oca_rs::data_storage::{DataStorage, InMemoryDataStorage, Namespace};
pub use oca_rs::repositories::SQLiteConfig;
pub use oca_rs::{EncodeBundle as Encode, Facade, HashFunctionCode, SerializationFormats};
pub use oca_bundle_semantics::state::oca::OCABundle;
pub use serde_json::{json, Value};
pub use std::str::FromStr;

pub fn store() -> Facade {
    Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap())
}
pub fn build(f: &mut Facade, text: &str) -> OCABundle {
    f.build_from_ocafile(text.to_string()).unwrap_or_else(|e| panic!("not built: {e:?}\n{text}"))
}
pub fn said(b: &OCABundle) -> String {
    b.said.clone().unwrap().to_string()
}
pub fn js(b: &OCABundle) -> Value {
    let bytes = b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).unwrap();
    serde_json::from_slice(&bytes).unwrap()
}
/// overlays of one kind
pub fn overlays(b: &OCABundle, kind: &str) -> Vec<Value> {
    match &js(b)["overlays"][kind] {
        Value::Array(a) => a.clone(),
        Value::Null => vec![],
        o => vec![o.clone()],
    }
}
pub fn sai(s: &str) -> said::SelfAddressingIdentifier {
    s.parse().unwrap()
}
