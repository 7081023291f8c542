//! C21: durations and system times
use crate::gen::*;
use crate::{chk, Ctx, Res, Sub};
use nanoserde::*;
use std::time::{Duration, SystemTime};

fn rt_d(c: &mut Ctx) -> Res {
    let d = Duration::gen(&mut c.r, c.size);
    c.note(format!("{:?}", d));
    c.mark(format!("{:?}", d).as_bytes(), true);
    chk!(Duration::deserialize_bin(&d.serialize_bin()).ok() == Some(d), "binary: {:?}", Duration::deserialize_bin(&d.serialize_bin()));
    chk!(Duration::deserialize_json(&d.serialize_json()).ok() == Some(d), "JSON: {:?} from {}", Duration::deserialize_json(&d.serialize_json()), d.serialize_json());
    chk!(Duration::deserialize_ron(&d.serialize_ron()).ok() == Some(d), "RON: {:?} from {}", Duration::deserialize_ron(&d.serialize_ron()), d.serialize_ron());
    let v = vec![Some(d), None, Some(Duration::ZERO), Some(d)];
    chk!(Vec::<Option<Duration>>::deserialize_json(&v.serialize_json()).ok() == Some(v.clone()), "JSON sequence");
    chk!(Vec::<Option<Duration>>::deserialize_ron(&v.serialize_ron()).ok() == Some(v.clone()), "RON sequence");
    chk!(Vec::<Option<Duration>>::deserialize_bin(&v.serialize_bin()).ok() == Some(v.clone()), "binary sequence");
    Ok(())
}
fn rt_t(c: &mut Ctx) -> Res {
    let d = if c.r.one_in(4) { SystemTime::UNIX_EPOCH } else { SystemTime::gen(&mut c.r, c.size) };
    c.note(format!("{:?}", d));
    c.mark(format!("{:?}", d).as_bytes(), true);
    chk!(SystemTime::deserialize_bin(&d.serialize_bin()).ok() == Some(d), "binary: {:?}", SystemTime::deserialize_bin(&d.serialize_bin()));
    chk!(SystemTime::deserialize_json(&d.serialize_json()).ok() == Some(d), "JSON: {:?} from {}", SystemTime::deserialize_json(&d.serialize_json()), d.serialize_json());
    chk!(SystemTime::deserialize_ron(&d.serialize_ron()).ok() == Some(d), "RON: {:?} from {}", SystemTime::deserialize_ron(&d.serialize_ron()), d.serialize_ron());
    let v = vec![d, SystemTime::UNIX_EPOCH, d];
    chk!(Vec::<SystemTime>::deserialize_json(&v.serialize_json()).ok() == Some(v.clone()), "JSON sequence");
    chk!(Vec::<SystemTime>::deserialize_ron(&v.serialize_ron()).ok() == Some(v.clone()), "RON sequence");
    chk!(Vec::<SystemTime>::deserialize_bin(&v.serialize_bin()).ok() == Some(v.clone()), "binary sequence");
    Ok(())
}
/// the duration of so many seconds and nanoseconds, if both the format and the type allow it
fn value(s: u64, n: u32) -> Option<Duration> {
    if n > 1_000_000_000 {
        return None;
    }
    Duration::from_secs(s).checked_add(Duration::from_nanos(n as u64))
}
fn nanos(r: &mut Rng) -> u32 {
    match r.n(4) {
        0 => *r.pick(&[0, 1, 999_999_999, 1_000_000_000, 1_000_000_001, 1_999_999_999, 2_000_000_000, u32::MAX, 4_000_000_000]),
        1 => r.next() as u32,
        _ => r.n(1_000_000_001) as u32,
    }
}
fn secs(r: &mut Rng) -> u64 {
    match r.n(4) {
        0 => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 - 1, 1 << 40]),
        _ => u64::gen(r, 1),
    }
}
fn bin(c: &mut Ctx) -> Res {
    let (s, n) = (secs(&mut c.r), nanos(&mut c.r));
    let mut b = s.to_le_bytes().to_vec();
    b.extend_from_slice(&n.to_le_bytes());
    c.note(format!("{} s {} ns in binary", s, n));
    c.mark(&b, true);
    let got = Duration::deserialize_bin(&b);
    chk!(got.as_ref().ok().copied() == value(s, n), "duration {:?}", got);
    let mut t = vec![1u8];
    t.extend_from_slice(&b);
    let got = SystemTime::deserialize_bin(&t);
    chk!(got.as_ref().ok().copied() == value(s, n).and_then(|d| SystemTime::UNIX_EPOCH.checked_add(d)), "system time {:?}", got);
    Ok(())
}
fn text(c: &mut Ctx) -> Res {
    let json = c.r.b();
    let mut s: Option<u64> = None;
    let mut n: Option<u32> = None;
    let mut ok = true;
    let mut parts = vec![];
    for _ in 0..c.r.n(4) {
        match c.r.n(8) {
            0..=3 => {
                let v = secs(&mut c.r);
                ok &= s.is_none();
                s = Some(v);
                parts.push(format!("\"secs\":{}", v));
            }
            4..=6 => {
                let v = nanos(&mut c.r);
                ok &= n.is_none();
                n = Some(v);
                parts.push(format!("\"nanos\":{}", v));
            }
            _ => {
                ok = false;
                parts.push(c.r.pick(&["\"millis\":1", "\"Secs\":1", "\"\":0", "\"sec\":1", "\"nanoss\":2", "\"secs\":-1", "\"secs\":18446744073709551616", "\"nanos\":4294967296", "\"nanos\":-1", "\"secs\":1.0", "\"secs\":null", "\"secs\"", "secs:1"]).to_string());
            }
        }
    }
    let t = format!("{{{}{}}}", parts.join(","), if !parts.is_empty() && c.r.one_in(5) { "," } else { "" });
    c.note(format!("{} {}", if json { "JSON" } else { "RON" }, t));
    c.mark(t.as_bytes(), true);
    let want = if !ok { None } else { s.and_then(|s| value(s, n.unwrap_or(0))) };
    // a trailing comma is not promised either way in JSON
    if t.ends_with(",}") {
        if json {
            let _ = Duration::deserialize_json(&t);
            let _ = SystemTime::deserialize_json(&t);
            return Ok(());
        }
    }
    let (d, st) = if json { (Duration::deserialize_json(&t).map_err(|e| format!("{:?}", e)), SystemTime::deserialize_json(&t).map_err(|e| format!("{:?}", e))) } else { (Duration::deserialize_ron(&t).map_err(|e| format!("{:?}", e)), SystemTime::deserialize_ron(&t).map_err(|e| format!("{:?}", e))) };
    chk!(d.as_ref().ok().copied() == want, "duration {:?}, should be {:?}", d, want);
    let wt = want.and_then(|d| SystemTime::UNIX_EPOCH.checked_add(d));
    chk!(st.as_ref().ok().copied() == wt, "system time {:?}, should be {:?}", st, wt);
    Ok(())
}
pub fn c21() -> Vec<Sub> {
    vec![("duration", 2, rt_d), ("system time", 2, rt_t), ("binary", 3, bin), ("text", 5, text)]
}
