//! Generator of nested statement structures over a configurable alphabet.
use super::common::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Eff, Ret, StopBlock, StopScript, Throw, OpErr, CallErr, Push, Tok, Probe, Wait0, TryRead, MapYield, Broadcast, Depth, Undef, Ask, // leaves
    Try, TryBoth, Warp, Repeat, Until, ForEach, Ring, RingExpr, If, MapBody, Fn2, Launch, Forever }
pub fn leafy(k: K) -> bool { (k as usize) < (K::Try as usize) }
pub struct G<'a> { pub ch: &'a mut Chooser, pub id: f64, pub fns: Vec<Vec<Stmt>>, pub alpha: &'a [K], pub max_w: usize }
impl<'a> G<'a> {
    fn id(&mut self) -> Expr { self.id += 1.0; n(self.id) }
    pub fn body(&mut self, d: usize) -> Vec<Stmt> { let w = self.ch.choose(self.max_w) + 1; self.seq(d, w) }
    pub fn seq(&mut self, d: usize, w: usize) -> Vec<Stmt> {
        let mut b = vec![];
        for _ in 0..w { let k = self.stmt(d, &mut b); if matches!(k, K::Ret | K::StopBlock | K::StopScript | K::Throw | K::OpErr | K::CallErr | K::Undef) { break; } }
        b
    }
    fn stmt(&mut self, d: usize, out: &mut Vec<Stmt>) -> K {
        let opts: Vec<K> = self.alpha.iter().copied().filter(|k| d > 0 || leafy(*k)).collect();
        let k = *self.ch.pick(&opts);
        out.push(match k {
            K::Eff => { let i = self.id(); rsys("eff", vec![i]) }
            K::Ret => { let i = self.id(); ret(i) }
            K::StopBlock => stop(StopMode::ThisBlock),
            K::StopScript => stop(StopMode::ThisScript),
            K::Throw => { let i = self.id(); throw(cat(vec![t("thrown "), i])) }
            // fails while other operands wait on the stack
            K::OpErr => { let i = self.id(); rsys("never", vec![i.clone(), ml(vec![i, div(n(1.0), t("bad"))])]) }
            K::CallErr => { let i = self.id(); set("x", add(n(1.0), callf("bad", vec![i]))) }
            K::Push => { let i = self.id(); rsys("push", vec![i]) }
            K::Tok => rsys("eff", vec![sys("tok", vec![]), v("x")]),
            K::Depth => rsys("eff", vec![sys("depth", vec![])]),
            // shows whether the script is atomic here
            K::Probe => repeat(n(1.0), vec![]),
            K::Wait0 => wait0(),
            K::TryRead => rsys("err is", vec![v("err")]),
            K::MapYield => rsys("map", vec![map(ringe(&["a"], &[], neg(v("a"))), ml(vec![n(1.0)]))]),
            K::Broadcast => bcast(t("nobody"), true),
            K::Undef => rsys("never", vec![v("no such variable")]),
            K::Ask => ask(t("?")),
            K::Try => { let b = self.body(d - 1); let i = self.id(); try_(b, "err", vec![rsys("caught", vec![i, v("err")])]) }
            K::TryBoth => { let b = self.seq(0, self.max_w); let i = self.id(); let mut h = vec![rsys("caught", vec![i, v("err")])]; h.extend(self.body(d - 1)); try_(b, "err", h) }
            K::Warp => warp(self.body(d - 1)),
            K::Repeat => repeat(n(2.0), self.body(d - 1)),
            K::Until => { let mut b = vec![chg("u", n(1.0))]; b.extend(self.body(d - 1)); until(ge(v("u"), n(2.0)), b) }
            K::ForEach => foreach("it", ml(vec![n(1.0), n(2.0)]), self.body(d - 1)),
            K::Forever => { let mut b = vec![chg("u", n(1.0)), if_(ge(v("u"), n(3.0)), vec![ret(t("left"))])]; b.extend(self.body(d - 1)); forever(b) }
            K::If => if_(bo(true), self.body(d - 1)),
            K::Ring => run(ring(&[], &[], self.body(d - 1)), vec![]),
            K::RingExpr => { let b = self.body(d - 1); rsys("got", vec![t("<"), call(ring(&[], &[], b), vec![]), t(">")]) }
            K::MapBody => { let b = self.body(d - 1); rsys("mapped", vec![map(ring(&["a"], &[], b), ml(vec![n(1.0), n(2.0)]))]) }
            K::Fn2 => { let b = self.body(d - 1); self.fns.push(b); let f = format!("fn{}", self.fns.len()); rsys("fn", vec![callf(&f, vec![])]) }
            K::Launch => launch(ring(&[], &[], self.body(d - 1)), vec![]),
        });
        k
    }
}
/// top-level statements, then "end" and an unguarded probe of the final handler and warp state
pub fn nested(ch: &mut Chooser, cx: &Ctx, alpha: &[K], depth: usize, width: usize, max_w: usize, tail: usize) -> Leaf {
    diff(nested_role(ch, alpha, depth, width, max_w, tail), Scn { log_yield: true, cap_events: 100, ..Default::default() }, cx)
}
pub fn nested_role(ch: &mut Chooser, alpha: &[K], depth: usize, width: usize, max_w: usize, tail: usize) -> Role {
    let mut g = G { ch, id: 0.0, fns: vec![], alpha, max_w };
    let mut b = g.seq(depth, width);
    let fns = std::mem::take(&mut g.fns);
    b.push(rsys("end", vec![sys("tok", vec![]), v("x"), sys("depth", vec![])]));
    b.push(repeat(n(1.0), vec![]));
    b.push(rsys("end", vec![]));
    // the last statement fails outside of every handler: nothing may catch it
    if tail == 1 { b.push(throw(t("unhandled"))); b.push(rsys("never", vec![])); }
    let mut fs = vec![func("bad", &["k"], vec![rsys("bad", vec![v("k")]), repeat(n(1.0), vec![warp(vec![throw(cat(vec![t("bad "), v("k")]))])])])];
    for (i, f) in fns.into_iter().enumerate() { fs.push(func(&format!("fn{}", i + 1), &[], f)); }
    let other = on_flag(vec![repeat(n(3.0), vec![rsys("other", vec![])])]);
    prog(nums(&["x", "u", "err", "it"]), fs, vec![on_flag(b), other])
}
