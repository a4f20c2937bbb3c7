//! The lines of a byte stream, written from the statement of C01 and C02.
pub const LIMIT: usize = 6000;

/// The specification, written from the property statement: split the whole stream.
/// Returns (text, number of newline separators before it).
pub fn spec_lines(s: &[u8], json: bool) -> Vec<(Vec<u8>, usize)> {
    spec_ended(s, json).into_iter().map(|(t, n, _)| (t, n)).collect()
}

/// The same, with the number of bytes to read before the line is known to be complete (None: the whole stream).
pub fn spec_ended(s: &[u8], json: bool) -> Vec<(Vec<u8>, usize, Option<usize>)> {
    let mut out = Vec::new();
    let (mut start, mut newlines) = (0, 0);
    let (mut escaped, mut in_string) = (false, false);
    for i in 0..s.len() {
        let c = s[i];
        // length of the separator that ends at i
        let sep = if escaped {
            escaped = false;
            match c {
                b'n' => 2,
                b'\n' => 1,
                _ => 0,
            }
        } else if c == b'\\' {
            escaped = true;
            0
        } else if c == b'\n' {
            1
        } else if json {
            if c == b'"' {
                in_string = !in_string;
                0
            } else if !in_string && b",[]{}".contains(&c) {
                1
            } else {
                0
            }
        } else {
            0
        };
        if sep > 0 {
            let end = i + 1;
            // The backslash of a literal \n that directly follows the previous separator's own bytes
            // is always inside the segment: separators never overlap.
            let text = &s[start..end - sep];
            if !text.is_empty() && end - 1 - start <= LIMIT {
                out.push((text.to_vec(), newlines, Some(end)));
            }
            start = end;
            if c == b'\n' {
                newlines += 1;
            }
        }
    }
    let rest = &s[start..];
    if !rest.is_empty() && rest.len() <= LIMIT {
        out.push((rest.to_vec(), newlines, None));
    }
    out
}
