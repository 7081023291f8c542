text_format!(SerJson, DeJson, serialize_json, deserialize_json, false, ("[", "["), ("]", "]"), true);
pub fn c05() -> Vec<Sub> {
    strings()
}
pub fn c06() -> Vec<Sub> {
    escape_subs()
}
pub fn c07() -> Vec<Sub> {
    ints()
}
fn ignored(c: &mut Ctx) -> Res {
    use crate::derived::Plain;
    // an unknown field of any depth and shape
    let deep = c.r.one_in(40);
    let n = if deep { 30_000 << c.r.n(3) } else { 1 + c.r.n(40) };
    let mut open = String::new();
    let mut close = vec![];
    let kind = c.r.n(3);
    for _ in 0..n {
        if kind == 0 || kind == 1 && c.r.b() {
            open.push('[');
            close.push("]");
        } else {
            open.push_str("{\"a\":");
            close.push("}");
        }
    }
    close.reverse();
    let inner = *c.r.pick(&["1", "\"]}\"", "null", "[]", "{}", "[1,{\"b\":[]}]", "\"/*\"", "1.5e3", "true"]);
    let good = format!("{}{}{}", open, inner, close.concat());
    let text = format!("{{\"x\":{},\"a\":3,\"y\":{},\"b\":\"q\"}}", good, inner);
    c.note(if n > 100 { format!("ignored field nested {} deep", n) } else { text.clone() });
    c.mark(text.as_bytes(), true);
    let cur = crate::CUR.load(std::sync::atomic::Ordering::Relaxed);
    crate::PEAK.store(cur, std::sync::atomic::Ordering::Relaxed);
    let r = de::<Plain>(&text);
    let peak = crate::PEAK.load(std::sync::atomic::Ordering::Relaxed).saturating_sub(cur);
    chk!(r == Ok(Plain { a: 3, b: "q".into() }), "{:?}", r);
    chk!(peak < 16384, "{} bytes were allocated", peak);
    // damaged ones
    if n <= 100 {
        let bad = mutate(&mut c.r, &text);
        c.note(bad.clone());
        let _ = de::<Plain>(&bad);
    } else {
        let k = c.r.n(text.len());
        c.note(format!("ignored field nested {} deep, cut after {} bytes", n, k));
        chk!(de::<Plain>(&text[..k]).is_err(), "a cut text was accepted");
    }
    Ok(())
}
pub fn c08() -> Vec<Sub> {
    let mut v = total_subs();
    v.push(("ignored", 8, ignored));
    v.extend(crate::derived::total_json());
    v
}
pub fn c09() -> Vec<Sub> {
    round()
}
pub fn c10() -> Vec<Sub> {
    blank_subs()
}
