text_format!(SerRon, DeRon, serialize_ron, deserialize_ron, true, ("(", "("), (")", ")"), false);
pub fn c11() -> Vec<Sub> {
    let mut v = strings();
    v.extend([("escape", 6, escape_subs()[0].2)]);
    v
}
pub fn c12() -> Vec<Sub> {
    ints()
}
pub fn c13() -> Vec<Sub> {
    let mut v = total_subs();
    v.extend(prefix_subs().into_iter().map(|(n, w, f)| (&*Box::leak(format!("prefix {}", n).into_boxed_str()), w, f)));
    v.extend(misplaced_subs().into_iter().map(|(n, w, f)| (&*Box::leak(format!("misplaced {}", n).into_boxed_str()), w, f)));
    v.extend(crate::derived::total_ron());
    v.push(("unterminated", 4, unterminated));
    v
}
fn unterminated(c: &mut Ctx) -> Res {
    let n = 1 + c.r.n(5);
    let good = format!("[{}", "1,".repeat(n));
    let bad = *c.r.pick(&["/*", "/* *", "\"abc", "\"", "'", "'a", "\"\\", "/", "@", "1:", "(", "{", "]]"]);
    let close = *c.r.pick(&["", "1]"]);
    let text = format!("{}{}{}", good, bad, if bad == "]]" { "" } else { close });
    if bad == "]]" {
        return Ok(());
    }
    c.note(text.clone());
    c.mark(text.as_bytes(), true);
    if let Ok(v) = de::<Vec<u8>>(&text) {
        return Err(format!("accepted as {:?}", v));
    }
    Ok(())
}
pub fn c14() -> Vec<Sub> {
    let mut v = round();
    v.extend(trailing_subs().into_iter().map(|(n, w, f)| (&*Box::leak(format!("comma {}", n).into_boxed_str()), w, f)));
    v.extend(blank_subs().into_iter().map(|(n, w, f)| (&*Box::leak(format!("blank {}", n).into_boxed_str()), w, f)));
    v
}
