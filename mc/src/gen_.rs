//! Small enumeration helpers.

/// All vectors of length `len` over `0..k`, as an index decoding.
pub fn tuple(mut i: usize, k: usize, len: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(i % k);
        i /= k;
    }
    v
}
pub fn ipow(k: usize, n: usize) -> usize {
    k.pow(n as u32)
}
/// All permutations of 0..n in lexicographic order.
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    fn go(rest: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if rest.is_empty() {
            out.push(cur.clone());
            return;
        }
        for i in 0..rest.len() {
            let x = rest.remove(i);
            cur.push(x);
            go(rest, cur, out);
            cur.pop();
            rest.insert(i, x);
        }
    }
    let mut out = vec![];
    go(&mut (0..n).collect(), &mut vec![], &mut out);
    out
}
/// All subsets of 0..n with at most `max` elements, smallest first.
pub fn subsets_upto(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut nl = vec![];
        for s in &layer {
            let from = s.last().map(|x| x + 1).unwrap_or(0);
            for i in from..n {
                let mut t = s.clone();
                t.push(i);
                nl.push(t);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}
