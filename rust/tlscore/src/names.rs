//! DNS names: a grammar restated and generators around its limits.

use proptest::{collection::vec, prelude::*, sample::select};

pub fn hostname() -> impl Strategy<Value = String> + Clone {
    prop_oneof![
        1 => "[a-z][a-z0-9]{0,8}",
        3 => "[a-z0-9]{1,8}(\\.[a-z0-9]{1,6}){0,3}\\.[a-z]{1,5}",
        2 => "[a-zA-Z0-9]([a-zA-Z0-9_-]{0,10}[a-zA-Z0-9])?(\\.[a-zA-Z]([a-z0-9]{0,5}))?\\.[a-z]{2,4}",
    ]
}

/// DNS names as TLS uses them: dot-separated labels of 1-63 letters, digits,
/// hyphens and underscores, not starting or ending with a hyphen, an optional
/// final dot, at most 253 bytes without it, last label not all digits.
pub fn legal_dns(s: &[u8]) -> bool {
    if s.is_empty() || s.len() > 253 {
        return false;
    }
    let body = s.strip_suffix(b".").unwrap_or(s);
    let labels: Vec<&[u8]> = body.split(|c| *c == b'.').collect();
    labels.iter().all(|l| {
        !l.is_empty()
            && l.len() <= 63
            && l.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
            && l[0] != b'-'
            && l[l.len() - 1] != b'-'
    }) && !labels.last().unwrap().iter().all(|c| c.is_ascii_digit())
}

pub fn name_string() -> impl Strategy<Value = String> {
    let label = prop_oneof![
        6 => "[a-zA-Z0-9]{1,6}",
        2 => "[a-z0-9_-]{1,5}",
        1 => "[0-9]{1,3}",
        1 => (60usize..66).prop_map(|n| "a".repeat(n)),
        1 => Just(String::new()),
    ];
    prop_oneof![
        4 => hostname(),
        6 => (vec(label, 1..5), prop::bool::weighted(0.2)).prop_map(|(v, dot)| v.join(".") + if dot { "." } else { "" }),
        2 => (245usize..257, any::<u8>(), prop::bool::weighted(0.4)).prop_map(|(n, k, dot)| {
            // Long names of legal labels, near the limit.
            let mut s = String::new();
            while s.len() < n {
                s.push_str(&"b".repeat(((k as usize % 50) + 10).min(n - s.len())));
                if s.len() + 1 < n { s.push('.'); }
            }
            if dot { s.push('.'); }
            s
        }),
        1 => (hostname(), any::<u16>(), any::<char>()).prop_map(|(mut s, p, c)| { let i = p as usize % (s.len() + 1); s.insert(i, c); s }),
        1 => "\\PC{0,12}",
        1 => select(vec!["", ".", "..", "1.2.3.4", "::1", "[::1]", "a.b.1", "localhost", "*.example.com", "a..b", "-a.b", "a-.b", "a b.c", "xn--bcher-kva.example", "127.0.0.1.", "1", "a.1", "_x._y.z"]).prop_map(String::from),
    ]
}
