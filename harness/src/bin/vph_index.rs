//! Executable contracts of the index (property C07).
use logreduce_index::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use vpharness::ctx::*;

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Case {
    /// baseline chunks: each a list of lines, each a list of word numbers
    pub chunks: Vec<Vec<Vec<usize>>>,
    pub targets: Vec<Vec<usize>>,
}

const SIZE: usize = 260_000;
fn bucket(w: &str) -> (usize, bool) {
    let h = fxhash::hash32(w);
    (h as usize % SIZE, h >= 2147483648)
}

/// Words with distinct buckets, then pairs of words that share a bucket with opposite signs.
struct Vocab {
    words: Vec<String>,
    opposite: Vec<(String, String)>,
}
const WORDS: usize = 1500;
fn vocab() -> Vocab {
    let mut words: Vec<String> = vec!["".into(), "error".into(), "%ID".into(), "%URL".into(), "é".into(), "ERROR%A".into(), "a/b".into()];
    // the first and the last bucket
    for b in [0, SIZE - 1] {
        words.extend((0..4_000_000usize).map(|i| format!("b{}", i)).find(|w| bucket(w).0 == b));
    }
    let mut taken: BTreeSet<usize> = words.iter().map(|w| bucket(w).0).collect();
    let mut rng = Rng::new(77);
    while words.len() < WORDS {
        let n = rng.range(1, 9);
        let w = rng.word(n);
        // next to a word, those that only differ by case or by what surrounds it
        for w in [w.clone(), w.to_uppercase(), w[..1].to_uppercase() + &w[1..], format!("{}.", w), format!("-{}", w), format!("{}%{}", w, w), format!("{}\u{e9}", w)] {
            if words.len() < WORDS && taken.insert(bucket(&w).0) {
                words.push(w)
            }
        }
    }
    let mut by = std::collections::HashMap::new();
    let mut opposite = Vec::new();
    let mut i = 0;
    while opposite.len() < 8 && i < 400_000 {
        i += 1;
        let w = format!("c{}", i);
        let (b, s) = bucket(&w);
        if let Some((v, t)) = by.insert(b, (w.clone(), s)) {
            if t != s && !taken.contains(&b) {
                opposite.push((v, w))
            }
        }
    }
    Vocab { words, opposite }
}
fn line(v: &Vocab, l: &[usize]) -> String {
    l.iter().map(|&i| word(v, i)).collect::<Vec<_>>().join(" ")
}
/// Numbers above WORDS name the words of the pairs.
fn word(v: &Vocab, i: usize) -> &str {
    if i < WORDS || v.opposite.is_empty() {
        return &v.words[i % WORDS];
    }
    let k = (i - WORDS) % (2 * v.opposite.len());
    let p = &v.opposite[k / 2];
    if k % 2 == 0 { &p.0 } else { &p.1 }
}
/// The cosine of the sets of words. Words of the same pair are one dimension with opposite signs; the first
/// of the line counts, so the case generator never puts both in one line.
fn cosine(v: &Vocab, a: &[usize], b: &[usize]) -> f64 {
    let norm = |l: &[usize]| if l.is_empty() { vec![0] } else { l.iter().map(|&i| if i < WORDS || v.opposite.is_empty() { i % WORDS } else { WORDS + (i - WORDS) % (2 * v.opposite.len()) }).collect::<Vec<_>>() };
    let (a, b): (BTreeSet<usize>, BTreeSet<usize>) = (norm(a).into_iter().collect(), norm(b).into_iter().collect());
    let mut dot = 0.0;
    for &x in &a {
        if b.contains(&x) {
            dot += 1.0
        } else if x >= WORDS && b.contains(&(WORDS + ((x - WORDS) ^ 1))) {
            dot -= 1.0
        }
    }
    dot / ((a.len() * b.len()) as f64).sqrt()
}

fn check(v: &Vocab, c: &Case) -> Result<(), String> {
    let chunks: Vec<Vec<String>> = c.chunks.iter().map(|ch| ch.iter().map(|l| line(v, l)).collect()).collect();
    let targets: Vec<String> = c.targets.iter().map(|l| line(v, l)).collect();
    let mats: Vec<FeaturesMatrix> = chunks.iter().map(|ch| index_mat(ch)).collect();
    for (i, m) in mats.iter().enumerate() {
        if m.rows() != chunks[i].len() {
            return Err(format!("chunk #{} has {} rows for {} lines", i, m.rows(), chunks[i].len()));
        }
    }
    let all: Vec<String> = chunks.iter().flatten().cloned().collect();
    let want: Vec<f64> = c.targets.iter().map(|t| 1.0 - c.chunks.iter().flatten().map(|b| cosine(v, t, b)).fold(0.0, f64::max)).collect();
    let cmp = |what: &str, got: &[f32]| -> Result<(), String> {
        if got.len() != want.len() {
            return Err(format!("{}: {} distances for {} targets", what, got.len(), want.len()));
        }
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if !(*g <= 1.0) {
                return Err(format!("{}: target #{} {:?}: distance {} above one", what, i, targets[i], g));
            }
            if (*g as f64 - w).abs() > 2e-5 {
                return Err(format!("{}: target #{} {:?}: distance {} instead of {:.7}", what, i, targets[i], g, w));
            }
        }
        Ok(())
    };
    cmp("chunks", &search_mat_chunk(&mats, &targets))?;
    // one chunk
    let whole = index_mat(&all);
    cmp("one chunk", &search_mat_chunk(std::slice::from_ref(&whole), &targets))?;
    cmp("matrix", &search_mat(&whole, &targets))?;
    // one line per chunk, reversed
    if all.len() < 60 {
        let rev: Vec<FeaturesMatrix> = all.iter().rev().map(|l| index_mat(std::slice::from_ref(l))).collect();
        cmp("line by line", &search_mat_chunk(&rev, &targets))?;
    }
    // target by target
    if targets.len() < 60 {
        let alone: Vec<f32> = targets.iter().map(|t| search_mat_chunk(&mats, std::slice::from_ref(t))[0]).collect();
        cmp("target by target", &alone)?;
    }
    // saved and loaded
    let loaded: Vec<FeaturesMatrix> = mats.iter().map(|m| load_mat(&save_mat(m))).collect();
    cmp("loaded", &search_mat_chunk(&loaded, &targets))?;
    // the list of features
    let features = index(&mut all.clone().into_iter());
    let got: Vec<f32> = targets.iter().map(|t| search(&features, t)).collect();
    cmp("features", &got)
}

#[derive(Serialize)]
struct MirrorIndex {
    baselines: Vec<FeaturesMatrix>,
}
#[derive(Serialize)]
enum Mirror {
    HashingTrick(MirrorIndex),
}

/// The same chunks behind the index of the model: the distances above the threshold are those reported.
fn check_model(v: &Vocab, c: &Case) -> Result<(), String> {
    let keep = |l: &Vec<usize>| { let s = line(v, l); logreduce_tokenizer::process(&s) == s };
    let chunks: Vec<Vec<Vec<usize>>> = c.chunks.iter().map(|ch| ch.iter().filter(|l| keep(l)).cloned().collect()).collect();
    let mut seen = std::collections::HashSet::new();
    let targets: Vec<Vec<usize>> = c.targets.iter().filter(|l| keep(l) && seen.insert(line(v, l))).cloned().collect();
    let mats = chunks.iter().map(|ch| index_mat(&ch.iter().map(|l| line(v, l)).collect::<Vec<_>>())).collect();
    let saved = bincode::serialize(&Mirror::HashingTrick(MirrorIndex { baselines: mats })).map_err(|e| e.to_string())?;
    let index: logreduce_model::ChunkIndex = match bincode::deserialize(&saved) {
        Ok(i) => i,
        // the saved form changed: nothing to compare
        Err(_) => return Ok(()),
    };
    let text: String = targets.iter().map(|l| line(v, l) + "\n").collect();
    let mut seen = std::collections::HashSet::new();
    let mut got = std::collections::BTreeMap::new();
    for a in logreduce_model::process::ChunkProcessor::new(std::io::Cursor::new(text), &index, false, &mut seen) {
        let a = a.map_err(|e| e.to_string())?;
        got.insert(a.anomaly.line.clone(), a.anomaly.distance);
    }
    for t in &targets {
        let want = 1.0 - chunks.iter().flatten().map(|b| cosine(v, t, b)).fold(0.0, f64::max);
        let l = line(v, t);
        match got.get(&l) {
            Some(d) if (*d as f64 - want).abs() > 2e-5 => return Err(format!("target {:?}: distance {} instead of {:.7}", l, d, want)),
            None if want > 0.3001 => return Err(format!("target {:?}: not above the threshold, the distance is {:.7}", l, want)),
            _ => {}
        }
    }
    Ok(())
}

fn random_lines(rng: &mut Rng, n: usize, words: usize, max: usize, pairs: bool) -> Vec<Vec<usize>> {
    (0..n)
        .map(|_| {
            let mut l: Vec<usize> = (0..rng.below(max + 1)).map(|_| rng.below(words)).collect();
            if pairs && rng.chance(1, 2) {
                l.push(WORDS + rng.below(16))
            }
            l
        })
        .collect()
}

/// Lines with both words of a pair: which one counts is not specified, the rest is.
fn check_pairs(v: &Vocab, c: &Case) -> Result<(), String> {
    let chunks: Vec<Vec<String>> = c.chunks.iter().map(|ch| ch.iter().map(|l| line(v, l)).collect()).collect();
    let targets: Vec<String> = c.targets.iter().map(|l| line(v, l)).collect();
    let mats: Vec<FeaturesMatrix> = chunks.iter().map(|ch| index_mat(ch)).collect();
    let got = search_mat_chunk(&mats, &targets);
    ensure(got.len() == targets.len(), || format!("{} distances for {} targets", got.len(), targets.len()))?;
    for (t, d) in targets.iter().zip(&got) {
        ensure(*d <= 1.0, || format!("target {:?}: distance {} above one", t, d))?;
        if chunks.iter().flatten().any(|b| b == t) {
            ensure(d.abs() < 2e-5, || format!("target {:?} of the baseline: distance {}", t, d))?
        }
        let alone = search_mat_chunk(&mats, std::slice::from_ref(t));
        ensure((alone[0] - d).abs() < 2e-5, || format!("target {:?}: distance {} alone, {} with others", t, alone[0], d))?;
        let rev: Vec<FeaturesMatrix> = chunks.iter().flatten().rev().map(|l| index_mat(std::slice::from_ref(l))).collect();
        let other = search_mat_chunk(&rev, std::slice::from_ref(t));
        ensure((other[0] - d).abs() < 2e-5, || format!("target {:?}: distance {} in another order, {} before", t, other[0], d))?;
    }
    Ok(())
}

fn explore(_: &str, ctx: &mut Ctx) {
    let v = vocab();
    let run = |ctx: &mut Ctx, kind: &str, c: &Case| {
        let n: usize = c.chunks.iter().map(|x| x.len()).sum();
        ctx.check(kind, c, n == 0 || c.targets.is_empty(), n > 400, |c| check(&v, c))
    };
    // every small case over lines of a few words
    let lines: Vec<Vec<usize>> = vec![vec![], vec![7], vec![8], vec![7, 8], vec![8, 7, 7], vec![WORDS, 7], vec![WORDS + 1, 7], vec![WORDS + 1]];
    for a in 0..lines.len() {
        for b in 0..lines.len() {
            for c in 0..lines.len() {
                if !ctx.go() {
                    return;
                }
                let (a, b, t) = (lines[a].clone(), lines[b].clone(), lines[c].clone());
                run(ctx, "small", &Case { chunks: vec![vec![a.clone()], vec![b.clone()]], targets: vec![t.clone()] });
                run(ctx, "small", &Case { chunks: vec![vec![a.clone(), b.clone()], vec![]], targets: vec![t.clone(), a.clone()] });
                run(ctx, "small", &Case { chunks: vec![vec![], vec![a.clone()], vec![a]], targets: vec![b.clone(), t, b] });
            }
        }
    }
    for chunks in [vec![], vec![vec![]], vec![vec![], vec![]], vec![vec![vec![7]]]] {
        for targets in [vec![], vec![vec![7]], vec![vec![], vec![9]]] {
            run(ctx, "empty", &Case { chunks: chunks.clone(), targets: targets.clone() })
        }
    }
    let mut rng = ctx.rng(7);
    // two words of one bucket in a line
    for k in 0..16 {
        let (a, b) = (WORDS + k, WORDS + (k ^ 1));
        for l in [vec![a, b], vec![a, 7, b], vec![a, a, b, b], vec![b, a, 8, 9], vec![a, b, WORDS + (k + 2) % 16, WORDS + ((k + 2) % 16 ^ 1)]] {
            let c = Case { chunks: vec![vec![l.clone(), vec![7]], vec![vec![a], vec![b, 9]]], targets: vec![l.clone(), vec![a], vec![b, a], vec![11, 12]] };
            ctx.check("pairs", &c, false, false, |c| check_pairs(&v, c));
        }
    }
    // many chunks
    for n in [2usize, 5, 9, 17, 33, 63, 64, 65, 100, 129, 257, 400] {
        let chunks: Vec<Vec<Vec<usize>>> = (0..n).map(|i| vec![vec![i + 7, i + 500], vec![i + 8, 600, 601, 602]]).collect();
        let targets = [0usize, 1, n / 2, n - 2, n - 1].iter().map(|i| vec![i + 7, i + 500]).collect();
        run(ctx, "many chunks", &Case { chunks, targets });
    }
    // large chunks and many targets at once
    for n in [511usize, 512, 513, 1024, 1400] {
        let rows: Vec<Vec<usize>> = (0..n).map(|i| vec![i + 7, (i * 7 + 3) % 1400, 5]).collect();
        let targets: Vec<Vec<usize>> = (0..n).rev().map(|i| if i % 3 == 0 { vec![i + 7] } else { rows[i].clone() }).collect();
        run(ctx, "large", &Case { chunks: vec![rows], targets });
    }
    // long lines
    for n in [30usize, 100, 143, 144, 145, 200, 256, 300, 512, 700, 1000, 1400] {
        let l: Vec<usize> = (7..7 + n).collect();
        let half: Vec<usize> = (7 + n / 2..7 + n / 2 + n).map(|i| i % WORDS).collect();
        let mut twice = l.clone();
        twice.extend(l.iter().rev());
        for t in [l.clone(), half.clone(), twice.clone(), vec![8, 9]] {
            run(ctx, "long", &Case { chunks: vec![vec![l.clone(), vec![7]], vec![half.clone()]], targets: vec![t.clone(), vec![7], l.clone()] });
            run(ctx, "long", &Case { chunks: vec![vec![twice.clone()]], targets: vec![vec![10], t] });
        }
    }
    for n in [1400usize, 2047, 2048, 2100, 3000, 4097, 6000, 20_000, 70_000] {
        let mut l = vec![9usize; n];
        l.extend(10..60);
        let short: Vec<usize> = (9..60).collect();
        run(ctx, "long", &Case { chunks: vec![vec![l.clone(), vec![7, 10]]], targets: vec![short.clone(), vec![59], vec![9], l.clone()] });
        run(ctx, "long", &Case { chunks: vec![vec![short.clone()], vec![vec![9]]], targets: vec![vec![10], l] });
    }
    for i in 0..ctx.n(700, 12_000) {
        if !ctx.go() {
            return;
        }
        let (words, max) = *rng.pick(&[(6usize, 4usize), (20, 8), (399, 12), (1499, 60)]);
        let pairs = rng.chance(1, 3);
        let big = i % 100 == 7;
        let chunks: Vec<Vec<Vec<usize>>> = (0..rng.below(6)).map(|_| { let n = if big { rng.range(400, 600) } else { rng.below(9) }; random_lines(&mut rng, n, words, max, pairs) }).collect();
        let n = if big { 520 } else { rng.below(9) };
        let mut targets = random_lines(&mut rng, n, words, max, pairs);
        // targets of the baseline, at any place
        for ch in &chunks {
            if !ch.is_empty() && rng.chance(1, 2) {
                let at = rng.below(targets.len() + 1);
                targets.insert(at, rng.pick(ch).clone())
            }
        }
        let c = Case { chunks, targets };
        run(ctx, "random", &c);
        if i % 4 == 1 && !ctx.failed() {
            ctx.check("model", &c, false, false, |c| check_model(&v, c))
        }
    }
}
fn replay(_: &str, kind: &str, v: &serde_json::Value, _: &std::path::Path) -> Result<(), String> {
    if kind == "model" {
        return check_model(&vocab(), &serde_json::from_value(v.clone()).map_err(|e| e.to_string())?);
    }
    if kind == "pairs" {
        return check_pairs(&vocab(), &serde_json::from_value(v.clone()).map_err(|e| e.to_string())?);
    }
    check(&vocab(), &serde_json::from_value(v.clone()).map_err(|e| e.to_string())?)
}
fn main() {
    vpharness::run(explore, replay)
}
