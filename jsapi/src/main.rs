//! Calls the JavaScript API, over a stand-in for its runtime.
include!("../../api/src/common.rs");
use credential::js;
use wasm_bindgen::JsValue;

pub const C: bool = false;
pub fn dec<T: Wire>(b: &[u8]) -> Option<T> { serde_json::from_slice(b).ok() }
pub fn enc<T: Wire>(t: &T) -> Vec<u8> { serde_json::to_vec(t).unwrap() }
/// The bytes of an array of bytes; or else something that is no array of the right length
pub fn canonical(b: &[u8]) -> Vec<u8> { serde_json::from_slice(b).unwrap_or_else(|_| { let mut v = b"not an array of bytes: ".to_vec(); v.extend(b); v }) }

fn read(h: &JsValue) -> (Vec<u8>, bool) { (canonical(h.json.as_ref().map_or(&b""[..], |s| s.as_bytes())), true) }
fn pass(h: &JsValue) -> Vec<u8> { h.json.clone().unwrap_or_default().into_bytes() }

fn call(f: &str, args: &[Arg], _: &BTreeMap<String, JsValue>) -> Ret<JsValue> {
    let v = |i: usize| JsValue { json: args[i].bytes.clone().map(|b: Vec<u8>| String::from_utf8(b).unwrap()) };
    let b = |i: usize| -> &[u8] { args[i].bytes.as_ref().map_or(&[], |x| &x[..]) };
    let x = match f {
        "system_parameters_create" => js::system_parameters_create(b(0)),
        "issuer_create" => js::issuer_create(v(0), b(1)),
        "issuer_new" => js::issuer_new(v(0), v(1)),
        "issuer_get_issuer_parameters" => js::issuer_get_issuer_parameters(v(0)),
        "issuer_issue" => js::issuer_issue(v(0), b(1), b(2)),
        "issuer_verify" => js::issuer_verify(v(0), v(1)),
        "issuer_verify_roster_membership" => js::issuer_verify_roster_membership(v(0), v(1)),
        "user_obtain_finish" => js::user_obtain_finish(b(0), v(1), v(2), v(3)),
        "user_show" => js::user_show(v(0), v(1), b(2)),
        // not part of the JavaScript API: the library's own
        _ => match lib(f, &args.iter().map(|a| a.bytes.clone()).collect::<Vec<_>>()) {
            Some(ref x) if x.is_empty() => return Ret::Yes,
            Some(x) => JsValue { json: Some(String::from_utf8(x).unwrap()) },
            None => JsValue::from(0),
        },
    };
    match x.json {
        None => Ret::Odd("undefined"),
        Some(ref s) if s == "0" => Ret::Err,
        Some(ref s) if !s.starts_with('[') => Ret::Odd("neither an array nor 0"),
        _ => Ret::Ok(x),
    }
}

fn main() { run(call, read, pass, json!([])); }
