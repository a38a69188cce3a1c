use crate::testing::test::TestEnvironment;

fn run(s: &Value, out: &Out) {
    let mut file = crate::decompile::decompiler::decompile_fmp12_file(std::path::Path::new(s["path"].as_str().unwrap()));
    file.tests = crate::compile::compiler::compile_burn(s["test"].as_str().unwrap()).tests;
    let mut te = TestEnvironment::new(&file);
    te.generate_test_environment();
    te.run_tests();
    put(out, "answers", json!([]));
    for q in s["asked"].as_array().unwrap() {
        let db = &mut te.database;
        let r = catch_unwind(AssertUnwindSafe(|| match db.get_related_record_field(q[0].as_str().unwrap(), q[1].as_str().unwrap()) {
            Ok(v) => json!([v]),
            Err(_) => json!([]),
        }));
        add(out, "answers", r.unwrap_or(json!("panic")));
    }
}
