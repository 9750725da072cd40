//! Enumerates list shapes.
use crate::b::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree { Leaf(usize), List(Vec<Tree>) }
/// all trees with exactly `n` nodes (every list and every item counts one), items from `alpha` kinds, nesting at most `depth`
pub fn trees(n: usize, alpha: usize, depth: usize) -> Vec<Tree> {
    let mut o = vec![];
    if n == 0 { return o; }
    if n == 1 { o.extend((0..alpha).map(Tree::Leaf)); }
    if depth > 0 { o.extend(forests(n - 1, alpha, depth - 1).into_iter().map(Tree::List)); }
    o
}
fn forests(n: usize, alpha: usize, depth: usize) -> Vec<Vec<Tree>> {
    if n == 0 { return vec![vec![]]; }
    let mut o = vec![];
    for k in 1..=n {
        let heads = trees(k, alpha, depth);
        let rests = forests(n - k, alpha, depth);
        for h in &heads { for r in &rests { let mut v = vec![h.clone()]; v.extend(r.iter().cloned()); o.push(v); } }
    }
    o
}
pub fn up_to(n: usize, alpha: usize, depth: usize) -> Vec<Tree> { (1..=n).flat_map(|k| trees(k, alpha, depth)).collect() }
pub fn expr(t: &Tree, alpha: &[Expr]) -> Expr { match t { Tree::Leaf(k) => alpha[*k].clone(), Tree::List(v) => ml(v.iter().map(|x| expr(x, alpha)).collect()) } }
