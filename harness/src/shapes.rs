//! Exhaustive enumeration of nested CityJSON arrays.

use serde_json::Value;

/// A nested array of `depth` levels with the given leaves. `seps[i]` (between
/// leaf i and i+1) is how many levels are closed there: 1 keeps both leaves in
/// the same parent list. For depth 1 there must be one leaf list.
pub fn nest(depth: usize, leaves: &[Value], seps: &[usize]) -> Value {
    assert_eq!(leaves.len(), seps.len() + 1);
    if depth == 1 {
        return Value::Array(leaves.to_vec());
    }
    let mut out = Vec::new();
    let mut start = 0;
    for i in 0..=seps.len() {
        if i == seps.len() || seps[i] == depth {
            out.push(nest(depth - 1, &leaves[start..=i], &seps[start..i]));
            start = i + 1;
        }
    }
    Value::Array(out)
}

/// Calls `f` with every vector of length n over 0..base (odometer order).
pub fn odometer(n: usize, base: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0; n];
    loop {
        f(&v);
        let mut i = 0;
        while i < n {
            v[i] += 1;
            if v[i] < base {
                break;
            }
            v[i] = 0;
            i += 1;
        }
        if i == n {
            return;
        }
    }
}

/// Every non-empty nested shape with `r` leaves and `levels` list levels above
/// the leaves, as separator vectors.
pub fn shapes(r: usize, levels: usize, mut f: impl FnMut(&[usize])) {
    odometer(r - 1, levels, |v| {
        let s: Vec<usize> = v.iter().map(|x| x + 1).collect();
        f(&s)
    });
}

pub fn perms(n: usize, mut f: impl FnMut(&[usize])) {
    fn go(k: usize, v: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if k == v.len() {
            f(v);
            return;
        }
        for i in k..v.len() {
            v.swap(k, i);
            go(k + 1, v, f);
            v.swap(k, i);
        }
    }
    go(0, &mut (0..n).collect(), &mut f);
}

/// Every sub-multiset choice as an index vector with repetition, ordered, of
/// exactly n elements from 0..base, i.e. every word of length n.
pub fn words(n: usize, base: usize) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    odometer(n, base, |w| out.push(w.to_vec()));
    out
}

/// A nested array; leaves are rings of so many vertices.
#[derive(Clone, Debug)]
pub enum Tree {
    Ring(usize),
    List(Vec<Tree>),
}

/// Every tree of exactly `levels` list levels and at most `budget` lists and rings,
/// empty ones included; rings have up to `ring` vertices.
pub fn trees(levels: usize, budget: usize, ring: usize) -> Vec<(Tree, usize)> {
    if budget == 0 {
        return Vec::new();
    }
    if levels == 1 {
        return (0..=ring).map(|n| (Tree::Ring(n), 1)).collect();
    }
    forests(levels - 1, budget - 1, ring)
        .into_iter()
        .map(|(f, c)| (Tree::List(f), c + 1))
        .collect()
}

fn forests(levels: usize, budget: usize, ring: usize) -> Vec<(Vec<Tree>, usize)> {
    let mut out = vec![(Vec::new(), 0)];
    for (first, c) in trees(levels, budget, ring) {
        for (rest, d) in forests(levels, budget - c, ring) {
            let mut v = vec![first.clone()];
            v.extend(rest);
            out.push((v, c + d));
        }
    }
    out
}

impl Tree {
    /// The nested array, with each ring replaced by what `leaf` makes of its size.
    pub fn fill(&self, leaf: &mut impl FnMut(usize) -> Value) -> Value {
        match self {
            Tree::Ring(n) => leaf(*n),
            Tree::List(v) => Value::Array(v.iter().map(|t| t.fill(leaf)).collect()),
        }
    }

    /// The nested array down to `levels` levels above `depth`, with a value for each list there.
    pub fn upper(&self, levels: usize, leaf: &mut impl FnMut() -> Value) -> Value {
        match self {
            _ if levels == 0 => leaf(),
            Tree::Ring(_) => leaf(),
            Tree::List(v) => Value::Array(v.iter().map(|t| t.upper(levels - 1, leaf)).collect()),
        }
    }
}
