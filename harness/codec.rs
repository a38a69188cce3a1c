fn run(s: &Value, out: &Out) { codec(s, out) }

fn text(v: &Value) -> String { v.as_str().unwrap().to_string() }

fn codec(s: &Value, out: &Out) {
    use crate::encoding_util::*;
    let bytes = |v: &Value| v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<u8>>();
    put(out, "r", json!([]));
    for c in s["calls"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| match c[0].as_str().unwrap() {
            "int" => { let b = put_int(num(&c[1])); json!([b, get_int(&b)]) }
            "getint" => json!([get_int(&bytes(&c[1]))]),
            "path" => { let b = put_path_int(num(&c[1]) as u32); json!([b, get_path_int(&b)]) }
            "getpath" => json!([get_path_int(&bytes(&c[1]))]),
            "text" => { let b = fm_string_encrypt(text(&c[1])); json!([b, fm_string_decrypt(&b).chars().map(|c| c as u32).collect::<Vec<_>>()]) }
            "name" => {
                let t = text(&c[1]);
                let b = crate::dbcharconv::encode_text(&(t + "\0"));
                json!([b, crate::dbcharconv::decode_bytes(&b).chars().map(|c| c as u32).collect::<Vec<_>>()])
            }
            other => panic!("codec {}", other),
        }));
        add(out, "r", r.unwrap_or(json!("panic")));
    }
}
