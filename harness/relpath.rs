use crate::verif_relation_mgr::RelationMgr;

fn run(s: &Value, out: &Out) { relpath(s, out) }

fn relpath(s: &Value, out: &Out) {
    let mut m = RelationMgr::new();
    for e in s["edges"].as_array().unwrap() {
        m.add_relation(num(&e[0]), num(&e[1]));
    }
    put(out, "paths", json!([]));
    for q in s["q"].as_array().unwrap() {
        let p = m.get_path(num(&q[0]), num(&q[1]));
        add(out, "paths", match p { Some(v) => json!(v), None => json!([]) });
    }
}
