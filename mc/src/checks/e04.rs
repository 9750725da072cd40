//! E04: warp and yielding.
use super::common::*;
use super::nest::{nested, K, K::*};

const ALPHA: [K; 14] = [Eff, Probe, Wait0, Ret, StopBlock, Throw, MapYield, Broadcast, Warp, Repeat, Until, RingExpr, Try, MapBody];
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("warp, nested 1", "every sequence of 3 statements nested 1 deep (bodies of 1) over 14 kinds, with every yield observed, another script running", |ch, cx| nested(ch, cx, &ALPHA, 1, 3, 1, 0)),
        phase("warp, nested 2", "every statement nested 2 deep (bodies of 1-2) over 9 kinds", |ch, cx| nested(ch, cx, &[Probe, Ret, Throw, Warp, Repeat, RingExpr, Try, ForEach, Fn2], 2, 1, 2, 0)),
        phase("warp, chains 3", "every chain of statements nested 3 deep", |ch, cx| nested(ch, cx, &[Probe, Wait0, Ret, StopBlock, StopScript, Throw, MapYield, Broadcast, Ask, Warp, Repeat, Until, ForEach, Forever, RingExpr, Ring, Try, MapBody, Fn2, Launch, If], 3, 1, 1, 0)),
    ];
    if !quick {
        p.push(phase("warp, all nested 2", "every statement nested 2 deep (bodies of 1-2) over 14 kinds", |ch, cx| nested(ch, cx, &ALPHA, 2, 1, 2, 0)));
        p.push(phase("warp, chains 4", "every chain of statements nested 4 deep", |ch, cx| nested(ch, cx, &[Probe, Wait0, Ret, StopBlock, Throw, MapYield, Warp, Repeat, Until, ForEach, RingExpr, Try, TryBoth, MapBody, Fn2, Launch], 4, 1, 1, 0)));
    }
    Check::new("E04", TRACES, p)
}
