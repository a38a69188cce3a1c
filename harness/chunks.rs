use crate::chunk::{get_chunk_from_code, ChunkType};

fn run(s: &Value, out: &Out) { chunks(s, out) }

fn kind(c: &ChunkType) -> &'static str {
    match c {
        ChunkType::DataSimple => "data",
        ChunkType::RefSimple => "ref",
        ChunkType::RefLong => "reflong",
        ChunkType::DataSegment => "segment",
        ChunkType::PathPush => "push",
        ChunkType::PathPop => "pop",
        ChunkType::Noop => "noop",
    }
}

fn chunks(s: &Value, out: &Out) {
    let bytes: Vec<u8> = s["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
    let mut offset = num(&s["from"]);
    let bound = s["to"].as_u64().map(|x| x as usize).unwrap_or(bytes.len());
    let base = s["base"].as_u64().unwrap_or(0) as usize;
    let mut path: Vec<String> = vec![];
    let mut n = 0;
    put(out, "chunks", json!([]));
    while offset < bound {
        n += 1;
        if n > 100000 { put(out, "end", json!("stuck")); return; }
        let r = catch_unwind(AssertUnwindSafe(|| {
            match get_chunk_from_code(&bytes, &mut offset, &mut path, base) {
                Ok(c) => Some(json!([kind(&c.ctype), c.data.map(|d| d.to_vec()).unwrap_or_default(),
                    c.ref_data.map(|d| d.to_vec()).unwrap_or_default(), c.ref_simple.map(|x| x as i64).unwrap_or(-1),
                    c.segment_idx.map(|x| x as i64).unwrap_or(-1), c.path])),
                Err(_) => None,
            }
        }));
        match r {
            Ok(Some(v)) => { add(out, "chunks", json!([v, offset, path])); }
            Ok(None) => { put(out, "end", json!("error")); return; }
            Err(_) => { put(out, "end", json!("panic")); return; }
        }
    }
    put(out, "end", json!("end"));
}
