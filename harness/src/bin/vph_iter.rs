//! Executable contract of logreduce_iterator::BytesLines (properties C01, C02, C03).
use vpharness::ctx::*;
use vpharness::readers::{injected, Scheduled};
use vpharness::spec::spec_lines;
use logreduce_iterator::BytesLines;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Case {
    pub data: Data,
    pub sizes: Vec<usize>,
    pub fail_at: Vec<usize>,
    pub json: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Split,
    Numbers,
    Errors,
}

fn first_kind(c: &Case) -> usize {
    c.data.bytes().len() + c.fail_at.first().copied().unwrap_or(0) + c.sizes.len()
}

fn got(c: &Case) -> Result<(Vec<(Vec<u8>, usize)>, usize), String> {
    let data = c.data.bytes();
    let budget = data.len() + c.fail_at.len() + 16;
    // the kind of the errors varies with the case
    let first = first_kind(c);
    let mut reader = Scheduled::new(data, c.sizes.clone(), c.fail_at.clone());
    reader.first = first;
    let mut it = BytesLines::new(reader, c.json);
    let mut out = Vec::new();
    let mut errors = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > budget {
            return Err(format!("the iterator yields more items ({}) than the stream has bytes", steps));
        }
        match it.next() {
            Some(Ok((b, n))) => out.push((b.to_vec(), n)),
            Some(Err(e)) => {
                let want = injected(first + errors);
                if e.to_string() != want.to_string() || e.kind() != want.kind() {
                    return Err(format!("the reader raised {:?}, the iterator gave {:?}", want, e));
                }
                errors += 1
            }
            None => break,
        }
    }
    // The end is stable.
    for _ in 0..2 {
        match it.next() {
            None => {}
            Some(x) => return Err(format!("an item after the end: {:?}", x.map(|(b, n)| (short(&b), n)))),
        }
    }
    Ok((out, errors))
}

pub fn check_aspect(c: &Case, a: Aspect) -> Result<(), String> {
    let (got, errors) = got(c)?;
    let want = spec_lines(&c.data.bytes(), c.json);
    match a {
        Aspect::Split | Aspect::Errors => {
            if a == Aspect::Errors && errors != c.fail_at.len() {
                return Err(format!("{} read errors were raised, {} were reported (kinds {:?})", c.fail_at.len(), errors, (0..c.fail_at.len()).map(|i| injected(first_kind(c) + i).kind()).collect::<Vec<_>>()));
            }
            for i in 0..got.len().max(want.len()) {
                let g = got.get(i).map(|x| short(&x.0));
                let w = want.get(i).map(|x| short(&x.0));
                if got.get(i).map(|x| &x.0) != want.get(i).map(|x| &x.0) {
                    return Err(format!("line #{}: expected {:?}, got {:?}", i, w, g));
                }
            }
            if a == Aspect::Errors {
                for (g, w) in got.iter().zip(want.iter()) {
                    if g.1 != w.1 + 1 {
                        return Err(format!("line {:?} has number {}, expected {}", short(&g.0), g.1, w.1 + 1));
                    }
                }
            }
        }
        Aspect::Numbers => {
            if got.len() == want.len() {
                for (g, w) in got.iter().zip(want.iter()) {
                    if g.1 != w.1 + 1 {
                        return Err(format!(
                            "line {:?} has number {}, expected 1 + {} newlines before it",
                            short(&g.0), g.1, w.1
                        ));
                    }
                }
            } else {
                // compare on the text: every yielded line must carry the number of some
                // source line with that text, in order.
                let mut k = 0;
                for g in &got {
                    while k < want.len() && want[k].0 != g.0 {
                        k += 1
                    }
                    if k == want.len() {
                        return Err(format!("line {:?} is not in the source (in order)", short(&g.0)));
                    }
                    if g.1 != want[k].1 + 1 {
                        return Err(format!("line {:?} has number {}, expected {}", short(&g.0), g.1, want[k].1 + 1));
                    }
                    k += 1;
                }
            }
        }
    }
    Ok(())
}

fn schedules() -> Vec<Vec<usize>> {
    vec![vec![8192], vec![1], vec![2], vec![3, 1], vec![1, 4, 2]]
}

fn fails(a: Aspect, len: usize, rng: &mut Rng) -> Vec<usize> {
    match a {
        Aspect::Errors => {
            let mut v = vec![rng.below(len + 1)];
            while rng.chance(1, 2) {
                v.push(rng.below(len + 1))
            }
            v.sort();
            v
        }
        _ => vec![],
    }
}

fn explore(ctx: &mut Ctx, a: Aspect) {
    // 1. every string over a small alphabet
    let alphabet: &[u8] = b"a\n\\n\",{";
    let max = ctx.n(5, 6);
    for len in 0..=max {
        let total = alphabet.len().pow(len as u32);
        for code in 0..total {
            if ctx.failed() {
                return;
            }
            let mut v = Vec::new();
            let mut x = code;
            for _ in 0..len {
                v.push(alphabet[x % alphabet.len()]);
                x /= alphabet.len();
            }
            for json in [false, true] {
                let scheds = schedules();
                let upto = if len <= 4 { scheds.len() } else { 2 };
                for sizes in scheds.iter().take(upto) {
                    let fs: Vec<Vec<usize>> = if a == Aspect::Errors {
                        if len <= 4 { (0..=len).map(|p| vec![p]).collect() } else { vec![vec![code % (len + 1)]] }
                    } else {
                        vec![vec![]]
                    };
                    for fail_at in fs {
                        let c = Case { data: Data::lit(&v), sizes: sizes.clone(), fail_at, json };
                        ctx.check("small", &c, len < 2, false, |c| check_aspect(c, a));
                    }
                }
            }
        }
    }
    // 2. around the line limit and the chunk size, with every separator and its straddling
    let mut rng = ctx.rng(1);
    let lens = [0usize, 1, 100, 5997, 5998, 5999, 6000, 6001, 6002, 6003, 8189, 8190, 8191, 8192, 8193, 8194, 12000, 14191, 14192, 14193, 16382, 16383, 16384, 16385, 24576, 24577];
    let seps: [&[u8]; 9] = [b"\n", b"\\n", b"\\\n", b"\\\\n", b"\\", b",", b"\"", b"\\\"", b""];
    let sizes_list = [vec![8192], vec![1000], vec![4096, 1], vec![6001], vec![6000], vec![8191, 1], vec![7]];
    for pre in [&b""[..], b"x\n", b"\\n\n\n"] {
        for &l1 in &lens {
            for sep in &seps {
                for (si, sizes) in sizes_list.iter().enumerate() {
                    if ctx.failed() {
                        return;
                    }
                    if si > 0 && !pre.is_empty() && !ctx.thorough {
                        continue;
                    }
                    for json in [false, true] {
                        let l2 = *rng.pick(&lens);
                        let mut d = vec![(pre.to_vec(), 1), (b"y".to_vec(), l1), (sep.to_vec(), 1), (b"z".to_vec(), l2), (rng.pick(&seps).to_vec(), 1), (b"end".to_vec(), rng.below(2)), (b"\n".to_vec(), rng.below(2)), (b"tail".to_vec(), rng.below(2))];
                        d.retain(|x| x.1 > 0 && !x.0.is_empty());
                        let data = Data(d);
                        let n = data.bytes().len();
                        let c = Case { fail_at: fails(a, n, &mut rng), data, sizes: sizes.clone(), json };
                        ctx.check("limit", &c, false, false, |c| check_aspect(c, a));
                    }
                }
            }
        }
    }
    // 3. every offset of a separator around a chunk boundary and the limit
    for base in [5990usize, 8180, 14180, 16370] {
        for off in 0..26 {
            for sep in &seps {
                if ctx.failed() {
                    return;
                }
                let data = Data(vec![(b"q".to_vec(), base + off), (sep.to_vec(), 1), (b"w\n\\n".to_vec(), 2), (b"ok".to_vec(), 1)]);
                let n = data.bytes().len();
                let c = Case { fail_at: fails(a, n, &mut rng), data, sizes: vec![8192], json: off % 2 == 0 };
                ctx.check("boundary", &c, false, false, |c| check_aspect(c, a));
            }
        }
    }
    // 4. long runs (stack depth, counters)
    for (b, n) in [(&b"\n"[..], 200_000usize), (b"\\n", 150_000), (b"a\n", 70_000), (b",", 100_000), (b"z", 1_000_000), (b"\n\\n\\\n", 40_000)] {
        for json in [false, true] {
            let data = Data(vec![(b.to_vec(), n), (b"\nend".to_vec(), 1)]);
            let len = data.bytes().len();
            let c = Case { fail_at: fails(a, len, &mut rng), data, sizes: vec![8192], json };
            ctx.check("long", &c, false, true, |c| check_aspect(c, a));
            let big = vec![b'L'; 7000];
            let data = Data(vec![([&big[..], b], n / 500 + 1).into_pair(), (b"end".to_vec(), 1)]);
            let len = data.bytes().len();
            let c = Case { fail_at: fails(a, len, &mut rng), data, sizes: vec![8192], json };
            ctx.check("long-dropped", &c, false, true, |c| check_aspect(c, a));
        }
    }
    // 5. random streams
    let pieces: [&[u8]; 22] = [b"a", b"word ", b"\n", b"\n\n", b"\\n", b"\\", b"\\\\", b"\\r", b"n", b"\"", b"{", b"}", b"[1,2]", b",", b"\r\n", b"\0", "é".as_bytes(), b"\xff", b"\\\"", b"{\"k\": \"v,\\n\"}", b"\t", b"\\\n"];
    for i in 0..ctx.n(6000, 120_000) {
        if !ctx.go() {
            return;
        }
        let mut d: Vec<(Vec<u8>, usize)> = Vec::new();
        for _ in 0..rng.range(1, 40) {
            if rng.chance(1, 25) {
                let n = rng.range(5900, 9000);
                d.push((vec![*rng.pick(b"ab\\n\"")], n))
            } else {
                let n = rng.range(1, 4);
                d.push((rng.pick(&pieces).to_vec(), n))
            }
        }
        let data = Data(d);
        let n = data.bytes().len();
        let sizes = (0..rng.range(1, 5)).map(|_| *rng.pick(&[1usize, 2, 3, 17, 100, 512, 4096, 8191, 8192])).collect();
        let c = Case { fail_at: fails(a, n, &mut rng), data, sizes, json: i % 2 == 0 };
        ctx.check("random", &c, false, false, |c| check_aspect(c, a));
    }
}

trait IntoPair {
    fn into_pair(self) -> (Vec<u8>, usize);
}
impl IntoPair for ([&[u8]; 2], usize) {
    fn into_pair(self) -> (Vec<u8>, usize) {
        (self.0.concat(), self.1)
    }
}

fn replay(v: &serde_json::Value, a: Aspect) -> Result<(), String> {
    let c: Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check_aspect(&c, a)
}

fn aspect(prop: &str) -> Aspect {
    match prop {
        "C01" => Aspect::Split,
        "C02" => Aspect::Numbers,
        "C03" => Aspect::Errors,
        _ => panic!("unknown property {}", prop),
    }
}

fn main() {
    vpharness::run(|p, ctx| explore(ctx, aspect(p)), |p, _, case, _| replay(case, aspect(p)))
}
