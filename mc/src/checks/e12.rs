//! E12: costumes and sounds.
use super::common::*;
use super::sched;
use std::collections::HashSet;

fn img(name: &str, k: &[u8]) -> Value { Value::Image(Rc::new((k.to_vec(), None, name.into()))) }
fn aud(name: &str, k: &[u8]) -> Value { Value::Audio(Rc::new((k.to_vec(), name.into()))) }
fn wear(x: Expr) -> Stmt { s(StmtKind::SetCostume { costume: bx(x) }) }
fn next() -> Stmt { s(StmtKind::NextCostume) }
fn play(x: Expr, blocking: bool) -> Stmt { s(StmtKind::PlaySound { sound: bx(x), blocking }) }
fn costumes() -> Expr { e(ExprKind::CostumeList) }
fn sounds() -> Expr { e(ExprKind::SoundList) }
fn worn() -> Expr { e(ExprKind::Costume) }
fn number() -> Expr { e(ExprKind::CostumeNumber) }
fn probe(id: &str) -> Stmt { rsys(id, vec![worn(), number(), costumes(), costume_name(worn()), this()]) }
fn caught(x: Stmt) -> Stmt { try_(vec![x], "err", vec![rsys("caught", vec![v("err")])]) }

/// The sprite has k costumes a, b, …; the other sprite has two of the same names but other contents.
/// The names of the pictures are those of the costumes (as the parser makes them) or all the same.
fn world(ch: &mut Chooser, k: usize, sp: Vec<Script>, ot: Vec<Script>, one_name: bool) -> Role {
    let mut r = sched::world(vec![], sp, ot);
    let nm = |i: usize| if one_name { "pic".to_string() } else { ["a", "b", "c"][i].to_string() };
    r.entities[1].costumes = (0..k).map(|i| init(["a", "b", "c"][i], img(&nm(i), &[1, i as u8 + 1]))).collect();
    r.entities[2].costumes = (0..2).map(|i| init(["a", "b"][i], img(&nm(i), &[2, i as u8 + 1]))).collect();
    r.entities[1].active_costume = match ch.choose(k + 1) { 0 => None, i => Some(i - 1) };
    r.entities[2].active_costume = Some(1);
    r.entities[1].sounds = vec![init("s", aud("s", &[3, 1])), init("r", aud("r", &[3, 2]))];
    r.entities[2].sounds = vec![init("s", aud("s", &[4, 1]))];
    r.globals.extend(nums(&["theirs", "snd", "kept"]));
    r
}
const OPS: usize = 20;
fn op(i: usize) -> Stmt {
    match i {
        0 => wear(t("a")),
        1 => wear(t("b")),
        2 => wear(t("c")),
        3 => wear(t("")),
        4 => wear(t("A")),
        5 => next(),
        6 => wear(get(costumes(), n(2.0))),
        7 => wear(v("theirs")),
        8 => wear(n(2.0)),
        9 => wear(v("snd")),
        10 => wear(worn()),
        11 => wear(get(ask_of(ent("Other"), ringe(&[], &[], costumes()), vec![]), n(1.0))),
        12 => tell(ent("Other"), ring(&[], &[], vec![next(), probe("other")]), vec![]),
        13 => set("kept", worn()),
        14 => wear(v("kept")),
        16 => wear(t(" ")),
        17 => wear(t("a ")),
        18 => wear(t("pic")),
        15 => tell(clone_of(this()), ring(&[], &[], vec![probe("twin"), next(), probe("twin")]), vec![]),
        _ => tell(ent("Other"), ring(&["x"], &[], vec![wear(v("x")), probe("other")]), vec![worn()]),
    }
}
fn wearing(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let (k, one, alike) = [(3, false, false), (1, false, false), (0, false, false), (3, true, false), (3, false, true)][ch.choose(5)];
    // the other sprite's second picture, taken before anything changes
    let mut b = vec![set("theirs", ask_of(ent("Other"), ringe(&[], &[], worn()), vec![])), set("snd", get(sounds(), n(1.0)))];
    for _ in 0..len { b.push(caught(op(ch.choose(OPS)))); b.push(probe("st")); }
    let o = on_flag(vec![wait0(), wait0(), probe("o")]);
    let mut r = world(ch, k, vec![on_flag(b)], vec![o], one);
    if alike { for e in &mut r.entities { for c in &mut e.costumes { if let Value::Image(x) = &c.init { c.init = Value::Image(Rc::new((vec![7], None, x.2.clone()))); } } } }
    diff(r, Scn { cap_events: 80, ..Default::default() }, cx)
}
/// the lists of costumes and sounds are copies; their items are the media themselves
fn lists(ch: &mut Chooser, cx: &Ctx) -> Leaf {
    let snd = ch.flag();
    let l = || if snd { sounds() } else { costumes() };
    let change: [fn() -> Stmt; 5] = [|| push(v("x"), n(9.0)), || s(StmtKind::ListRemoveAll { list: bx(v("x")) }), || s(StmtKind::ListRemove { list: bx(v("x")), index: bx(n(1.0)) }), || put(v("x"), n(1.0), t("z")), || insert(v("x"), n(1.0), v("theirs"))];
    let c = change[ch.choose(5)]();
    let mut b = vec![set("theirs", ask_of(ent("Other"), ringe(&[], &[], worn()), vec![])), set("x", l()), set("kept", v("x")), c, rsys("lists", vec![v("x"), v("kept"), l(), is(v("x"), l()), is(v("x"), v("kept"))])];
    let k = ch.choose(4);
    let (x, y) = (ch.choose(4), ch.choose(4));
    let pick = |i: usize| match i { 0 => get(l(), n(1.0)), 1 => get(l(), n(2.0)), 2 => get(ask_of(ent("Other"), ringe(&[], &[], l()), vec![]), n(1.0)), _ => v("theirs") };
    b.push(caught(rsys("same", vec![is(pick(x), pick(y)), eq(pick(x), pick(y)), contains(l(), pick(x)), find(l(), pick(y))])));
    b.push(next());
    b.push(caught(rsys("after", vec![l(), is(pick(x), pick(y)), pick(x)])));
    b.push(probe("end"));
    let r = world(ch, k, vec![on_flag(b)], vec![], false);
    diff(r, Scn { cap_events: 80, ..Default::default() }, cx)
}
fn sounding(ch: &mut Chooser, cx: &Ctx, len: usize) -> Leaf {
    let mut b = vec![set("snd", get(ask_of(ent("Other"), ringe(&[], &[], sounds()), vec![]), n(1.0))), set("kept", t("r"))];
    for _ in 0..len {
        let x = [t("s"), t("c"), t("b"), t("r"), t(""), t("S"), t(" "), t("s "), t(" r"), get(sounds(), n(2.0)), v("snd"), n(1.0), worn(), v("kept")];
        let x = ch.of(&x);
        let st = match ch.choose(7) { 5 => tell(ent("Other"), ring(&["x"], &[], vec![caught(rsys("cname", vec![costume_name(v("x"))])), rsys("sname", vec![sound_name(v("x"))])]), vec![x]), 6 => tell(clone_of(this()), ring(&["x"], &[], vec![caught(rsys("cname", vec![costume_name(v("x"))])), play(v("x"), false)]), vec![x]), 0 => play(x, true), 1 => play(x, false), 2 => rsys("name", vec![sound_name(x)]), 3 => rsys("cname", vec![costume_name(x)]), _ => tell(ent("Other"), ring(&["x"], &[], vec![play(v("x"), true)]), vec![x]) };
        b.push(caught(st));
    }
    b.push(probe("end"));
    let one = ch.flag();
    let r = world(ch, 3, vec![on_flag(b)], vec![], one);
    diff(r, Scn { cap_events: 80, ..Default::default() }, cx)
}
/// two scripts of one sprite (or of a sprite and its clone) changing costumes while the host takes its time or fails
fn racing(ch: &mut Chooser, cx: &Ctx, second: usize, calls: usize, late: usize) -> Leaf {
    let o = [0usize, 1, 3, 5, 7, 13, 14];
    let mut mk = |ch: &mut Chooser, id: &str, len: usize| {
        let mut b = vec![];
        for _ in 0..len { b.push(caught(op(ch.of(&o)))); b.push(rsys(id, vec![worn(), number()])); }
        b
    };
    let clone = ch.flag();
    let (a, b) = (mk(ch, "a", 2), mk(ch, "b", second));
    let plan = (0..calls).map(|_| (ch.choose(late) as u8, match ch.choose(3) { 0 => Ans::Default, 1 => Ans::Err("no".into()), _ => Ans::Refuse("refused".into()) })).collect();
    let sp = if clone { vec![on_flag({ let mut a = a; a.insert(0, clone_(this())); a }), on_clone(b)] } else { vec![on_flag(a), on_flag(b)] };
    let mut r = world(ch, 2, sp, vec![on_flag(vec![set("theirs", worn())])], false);
    r.globals.retain({ let mut seen = HashSet::new(); move |g| seen.insert(g.def.name.clone()) });
    diff(r, Scn { plan, cap_events: 90, ..Default::default() }, cx)
}
pub fn check(quick: bool) -> Check {
    let mut p = vec![
        phase("changing costumes", "every sequence of 3 of 20 costume operations on a sprite of 0, 1 or 3 costumes (pictures named as the costumes or all alike, or with equal bytes), every costume worn at first, probed after each", |ch, cx| wearing(ch, cx, 3)),
        phase("lists of media", "5 changes to the reported list of costumes or sounds, 0..3 costumes, identity and equality of 16 pairs of media before and after", lists),
        phase("sounds", "every sequence of 2 of 98 sound and name operations", |ch, cx| sounding(ch, cx, 2)),
        phase("two scripts", "a script of 2 and a script of 1 of 7 costume operations on one sprite or on a sprite and its clone; first 2 host answers late by a poll or not, good, failing or refused", |ch, cx| racing(ch, cx, 1, 2, 2)),
    ];
    if !quick {
        p.push(phase("two longer scripts", "two scripts of 2 operations; first 3 answers late by 0..2 polls, otherwise as above", |ch, cx| racing(ch, cx, 2, 3, 3)));
        p.push(phase("longer costume changes", "every sequence of 4 of 20 costume operations, otherwise as above", |ch, cx| wearing(ch, cx, 4)));
        p.push(phase("more sounds", "every sequence of 3 of 98 sound and name operations", |ch, cx| sounding(ch, cx, 3)));
    }
    Check::new("E12", "a sprite wears exactly the costume it was last told to", p)
}
