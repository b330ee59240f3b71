//! Nested read limits against an absolute-position model.
use crate::misc;
use crate::sym::{self, *};

/// p0 operations, p1 bytes in the stream, p2 deepest nesting
pub fn limits() {
    let (m, n, depth) = (param(0), param(1) as usize, param(2) as usize);
    let data = bytes(n);
    let mut r = misc::reader(data.clone());
    let mut pos = 0usize;
    // absolute ends, innermost last
    let mut ends: Vec<usize> = vec![];
    for _ in 0..m {
        match choose(5) {
            0 => {
                if ends.len() >= depth {
                    continue;
                }
                let k = sym::u8() as usize;
                assume(k <= n + 1);
                let k = conc(k as u64) as usize;
                r.take(k as u32);
                let mut e = pos + k;
                if let Some(&o) = ends.last() {
                    if o < e {
                        e = o
                    }
                }
                ends.push(e);
                cover(1);
            }
            1 => {
                r.reset_limit();
                ends.pop();
            }
            2 => {
                let want = match ends.last() {
                    Some(&e) => pos < e,
                    None => pos < n,
                };
                check(r.has_more() == want, "has_more within limits");
            }
            3 => {
                let k = choose(4) as usize;
                let got = r.read_len(k as u32);
                let inside = ends.last().map_or(true, |&e| pos + k <= e);
                if !inside {
                    check(got.is_err(), "read beyond a limit");
                    cover(2);
                } else if pos + k > n {
                    check(got.is_err(), "read beyond the end of the stream");
                    return;
                } else {
                    check(got.as_deref().ok() == Some(&data[pos..pos + k]), "bytes read within limits");
                    pos += k;
                    cover(3);
                }
            }
            _ => {
                let got = r.consume();
                match ends.last() {
                    None => check(got.is_err(), "consume without a limit"),
                    Some(&e) => {
                        if e > n {
                            check(got.is_err(), "consume beyond the end of the stream");
                            return;
                        }
                        check(got.as_deref().ok() == Some(&data[pos..e]), "consume takes exactly the rest of the limit");
                        pos = e;
                        cover(4);
                    }
                }
            }
        }
    }
    // leaving all limits continues right after what was read
    while ends.pop().is_some() {
        r.reset_limit();
    }
    if pos < n {
        check(r.read_u8() == Ok(data[pos]), "position after leaving the limits");
    } else {
        check(r.read_u8().is_err(), "position after leaving the limits");
    }
}
