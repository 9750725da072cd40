//! Terse builders for programs (abstract syntax trees).
use netsblox_vm::ast::*;
pub use netsblox_vm::ast::{self, BlockInfo, Expr, ExprKind, FnLocation, FnRef, Role, Script, Stmt, StmtKind, Value, VarLocation, VariableDef, VariableDefInit, VariableRef};

thread_local! { static LOCATE: std::cell::Cell<Option<(u8, usize)>> = const { std::cell::Cell::new(None) }; }
/// Gives the blocks built from here on locations of their own: 1 = every block, 2 = commands only, 3 = reporters only, 0 = none.
pub fn locate(mode: u8) { LOCATE.with(|l| l.set(if mode > 0 { Some((mode, 1)) } else { None })); }
fn info(stmt: bool) -> Box<BlockInfo> {
    let mut r = BlockInfo::none();
    LOCATE.with(|l| if let Some((m, i)) = l.get() { if m == 1 || (m == 2) == stmt { l.set(Some((m, i + 1))); r.location = Some(format!("collab_{i}").as_str().into()); } });
    r
}
pub fn e(kind: ExprKind) -> Expr { let info = if let ExprKind::Value(_) = kind { BlockInfo::none() } else { info(false) }; Expr { kind, info } }
pub fn s(kind: StmtKind) -> Stmt { Stmt { kind, info: info(true) } }
pub fn bx(x: Expr) -> Box<Expr> { Box::new(x) }
pub fn at(mut x: Expr, loc: &str) -> Expr { x.info.location = Some(loc.into()); x }
pub fn sat(mut x: Stmt, loc: &str) -> Stmt { x.info.location = Some(loc.into()); x }
pub fn n(x: f64) -> Expr { e(ExprKind::Value(Value::Number(x))) }
pub fn t(x: &str) -> Expr { e(ExprKind::Value(Value::String(x.into()))) }
pub fn bo(x: bool) -> Expr { e(ExprKind::Value(Value::Bool(x))) }
pub fn def(x: &str) -> VariableDef { VariableDef { name: x.into(), trans_name: x.into() } }
pub fn vref(x: &str) -> VariableRef { VariableRef { name: x.into(), trans_name: x.into(), location: VarLocation::Local } }
pub fn v(x: &str) -> Expr { e(ExprKind::Variable { var: vref(x) }) }
pub fn ml(xs: Vec<Expr>) -> Expr { e(ExprKind::MakeList { values: xs }) }
pub fn add(a: Expr, b: Expr) -> Expr { e(ExprKind::Add { values: bx(ml(vec![a, b])) }) }
pub fn mul(a: Expr, b: Expr) -> Expr { e(ExprKind::Mul { values: bx(ml(vec![a, b])) }) }
pub fn cat(xs: Vec<Expr>) -> Expr { e(ExprKind::StrCat { values: bx(ml(xs)) }) }
macro_rules! bin { ($($f:ident $k:ident $a:ident $b:ident;)*) => { $(pub fn $f(a: Expr, b: Expr) -> Expr { e(ExprKind::$k { $a: bx(a), $b: bx(b) }) })* } }
bin! {
    sub Sub left right; div Div left right; md Mod left right; pow Pow base power; log Log base value; atan2 Atan2 y x;
    eq Eq left right; neq Neq left right; lt Less left right; le LessEq left right; gt Greater left right; ge GreaterEq left right;
    is Identical left right; and And left right; or Or left right; rnd Random a b; range Range start stop;
    cons ListCons item list; find ListFind list value; contains ListContains list value; get ListGet list index; letter StrGet string index;
    reshape ListReshape value dims; map Map f list; keep Keep f list; find_first FindFirst f list; combine Combine f list;
}
macro_rules! un { ($($f:ident $k:ident $a:ident;)*) => { $(pub fn $f(a: Expr) -> Expr { e(ExprKind::$k { $a: bx(a) }) })* } }
un! {
    not Not value; neg Neg value; abs Abs value; sqrt Sqrt value; floor Floor value; ceil Ceil value; round Round value;
    sin Sin value; cos Cos value; tan Tan value; asin Asin value; acos Acos value; atan Atan value;
    len ListLen value; rank ListRank value; dims ListDims value; flatten ListFlatten value; columns ListColumns value; rev ListRev value;
    lines ListLines value; csv ListCsv value; json ListJson value; combos ListCombinations sources; is_empty ListIsEmpty value; cdr ListCdr value;
    last ListGetLast list; any ListGetRandom list; copy CopyList list; lcat ListCat lists; str_len StrLen value; uni UnicodeToChar value; code CharToUnicode value;
    letter_last StrGetLast string; letter_any StrGetRandom string; min Min values; max Max values; addl Add values; mull Mul values; catl StrCat values;
    clone_of Clone target; costume_name CostumeName costume; sound_name SoundName sound;
}
pub fn cond(c: Expr, a: Expr, b: Expr) -> Expr { e(ExprKind::Conditional { condition: bx(c), then: bx(a), otherwise: bx(b) }) }
pub fn split(x: Expr, mode: TextSplitMode) -> Expr { e(ExprKind::TextSplit { text: bx(x), mode }) }
pub fn split_by(x: Expr, p: Expr) -> Expr { split(x, TextSplitMode::Custom(bx(p))) }
pub fn ring(params: &[&str], caps: &[&str], stmts: Vec<Stmt>) -> Expr {
    e(ExprKind::Closure { kind: ClosureKind::Command, params: params.iter().map(|x| def(x)).collect(), captures: caps.iter().map(|x| vref(x)).collect(), stmts })
}
pub fn ringe(params: &[&str], caps: &[&str], x: Expr) -> Expr { ring(params, caps, vec![ret(x)]) }
pub fn fref(f: &str) -> FnRef { FnRef { name: f.into(), trans_name: f.into(), location: FnLocation::Global } }
pub fn callf(f: &str, args: Vec<Expr>) -> Expr { e(ExprKind::CallFn { function: fref(f), args, upvars: vec![] }) }
pub fn runf(f: &str, args: Vec<Expr>) -> Stmt { s(StmtKind::CallFn { function: fref(f), args, upvars: vec![] }) }
pub fn call(c: Expr, args: Vec<Expr>) -> Expr { e(ExprKind::CallClosure { new_entity: None, closure: bx(c), args }) }
pub fn run(c: Expr, args: Vec<Expr>) -> Stmt { s(StmtKind::CallClosure { new_entity: None, closure: bx(c), args }) }
pub fn tell(ent: Expr, c: Expr, args: Vec<Expr>) -> Stmt { s(StmtKind::CallClosure { new_entity: Some(bx(ent)), closure: bx(c), args }) }
pub fn ask_of(ent: Expr, c: Expr, args: Vec<Expr>) -> Expr { e(ExprKind::CallClosure { new_entity: Some(bx(ent)), closure: bx(c), args }) }
pub fn launch(c: Expr, args: Vec<Expr>) -> Stmt { s(StmtKind::ForkClosure { closure: bx(c), args }) }
pub fn this() -> Expr { e(ExprKind::This) }
pub fn ent(x: &str) -> Expr { e(ExprKind::Entity { name: x.into(), trans_name: x.into() }) }
pub fn answer() -> Expr { e(ExprKind::Answer) }
pub fn message() -> Expr { e(ExprKind::Message) }
pub fn clock(query: TimeQuery) -> Expr { e(ExprKind::RealTime { query }) }
pub fn timer() -> Expr { e(ExprKind::Timer) }
pub fn rpc_error() -> Expr { e(ExprKind::RpcError) }
pub fn sys_error() -> Expr { e(ExprKind::UnknownBlock { name: "nativeSyscallError".into(), args: vec![] }) }
pub fn sys(name: &str, args: Vec<Expr>) -> Expr { e(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![t(name), ml(args)] }) }
pub fn rsys(name: &str, args: Vec<Expr>) -> Stmt { s(StmtKind::UnknownBlock { name: "nativeRunSyscall".into(), args: vec![t(name), ml(args)] }) }
pub fn blk(name: &str, args: Vec<Expr>) -> Expr { e(ExprKind::UnknownBlock { name: name.into(), args }) }
pub fn rblk(name: &str, args: Vec<Expr>) -> Stmt { s(StmtKind::UnknownBlock { name: name.into(), args }) }
pub fn rpc(name: &str, args: Vec<(&str, Expr)>) -> Expr { e(ExprKind::CallRpc { host: None, service: "Svc".into(), rpc: name.into(), args: args.into_iter().map(|(k, v)| (k.into(), v)).collect() }) }
pub fn rrpc(name: &str, args: Vec<(&str, Expr)>) -> Stmt { s(StmtKind::CallRpc { host: None, service: "Svc".into(), rpc: name.into(), args: args.into_iter().map(|(k, v)| (k.into(), v)).collect() }) }

pub fn set(x: &str, val: Expr) -> Stmt { s(StmtKind::Assign { var: vref(x), value: bx(val) }) }
pub fn chg(x: &str, val: Expr) -> Stmt { s(StmtKind::AddAssign { var: vref(x), value: bx(val) }) }
pub fn decl(xs: &[&str]) -> Stmt { s(StmtKind::DeclareLocals { vars: xs.iter().map(|x| def(x)).collect() }) }
pub fn say(x: Expr) -> Stmt { s(StmtKind::Say { content: bx(x), duration: None }) }
pub fn says(x: &str) -> Stmt { say(t(x)) }
pub fn say_for(x: Expr, d: Expr) -> Stmt { s(StmtKind::Say { content: bx(x), duration: Some(bx(d)) }) }
pub fn think(x: Expr) -> Stmt { s(StmtKind::Think { content: bx(x), duration: None }) }
pub fn warp(b: Vec<Stmt>) -> Stmt { s(StmtKind::Warp { stmts: b }) }
pub fn forever(b: Vec<Stmt>) -> Stmt { s(StmtKind::InfLoop { stmts: b }) }
pub fn repeat(k: Expr, b: Vec<Stmt>) -> Stmt { s(StmtKind::Repeat { times: bx(k), stmts: b }) }
pub fn until(c: Expr, b: Vec<Stmt>) -> Stmt { s(StmtKind::UntilLoop { condition: bx(c), stmts: b }) }
pub fn wait_until(c: Expr) -> Stmt { s(StmtKind::WaitUntil { condition: bx(c) }) }
pub fn for_(x: &str, a: Expr, z: Expr, b: Vec<Stmt>) -> Stmt { s(StmtKind::ForLoop { var: vref(x), start: bx(a), stop: bx(z), stmts: b }) }
pub fn foreach(x: &str, l: Expr, b: Vec<Stmt>) -> Stmt { s(StmtKind::ForeachLoop { var: vref(x), items: bx(l), stmts: b }) }
pub fn if_(c: Expr, b: Vec<Stmt>) -> Stmt { s(StmtKind::If { condition: bx(c), then: b }) }
pub fn ifelse(c: Expr, a: Vec<Stmt>, b: Vec<Stmt>) -> Stmt { s(StmtKind::IfElse { condition: bx(c), then: a, otherwise: b }) }
pub fn try_(b: Vec<Stmt>, x: &str, h: Vec<Stmt>) -> Stmt { s(StmtKind::TryCatch { code: b, var: vref(x), handler: h }) }
pub fn throw(x: Expr) -> Stmt { s(StmtKind::Throw { error: bx(x) }) }
pub fn ret(x: Expr) -> Stmt { s(StmtKind::Return { value: bx(x) }) }
pub fn stop(mode: StopMode) -> Stmt { s(StmtKind::Stop { mode }) }
pub fn wait(x: Expr) -> Stmt { s(StmtKind::Sleep { seconds: bx(x) }) }
pub fn wait0() -> Stmt { wait(n(0.0)) }
pub fn ask(x: Expr) -> Stmt { s(StmtKind::Ask { prompt: bx(x) }) }
pub fn pause() -> Stmt { s(StmtKind::Pause) }
pub fn show(x: &str) -> Stmt { s(StmtKind::ShowVar { var: vref(x) }) }
pub fn hide(x: &str) -> Stmt { s(StmtKind::HideVar { var: vref(x) }) }
pub fn insert(l: Expr, i: Expr, x: Expr) -> Stmt { s(StmtKind::ListInsert { list: bx(l), value: bx(x), index: bx(i) }) }
pub fn push(l: Expr, x: Expr) -> Stmt { s(StmtKind::ListInsertLast { list: bx(l), value: bx(x) }) }
pub fn insert_any(l: Expr, x: Expr) -> Stmt { s(StmtKind::ListInsertRandom { list: bx(l), value: bx(x) }) }
pub fn del(l: Expr, i: Expr) -> Stmt { s(StmtKind::ListRemove { list: bx(l), index: bx(i) }) }
pub fn del_last(l: Expr) -> Stmt { s(StmtKind::ListRemoveLast { list: bx(l) }) }
pub fn del_all(l: Expr) -> Stmt { s(StmtKind::ListRemoveAll { list: bx(l) }) }
pub fn put(l: Expr, i: Expr, x: Expr) -> Stmt { s(StmtKind::ListAssign { list: bx(l), value: bx(x), index: bx(i) }) }
pub fn put_last(l: Expr, x: Expr) -> Stmt { s(StmtKind::ListAssignLast { list: bx(l), value: bx(x) }) }
pub fn put_any(l: Expr, x: Expr) -> Stmt { s(StmtKind::ListAssignRandom { list: bx(l), value: bx(x) }) }
pub fn bcast(m: Expr, wait: bool) -> Stmt { s(StmtKind::SendLocalMessage { target: None, msg_type: bx(m), wait }) }
pub fn bcast_to(m: Expr, to: Expr, wait: bool) -> Stmt { s(StmtKind::SendLocalMessage { target: Some(bx(to)), msg_type: bx(m), wait }) }
pub fn clone_(x: Expr) -> Stmt { s(StmtKind::Clone { target: bx(x) }) }
pub fn delete_clone() -> Stmt { s(StmtKind::DeleteClone) }
pub fn reset_timer() -> Stmt { s(StmtKind::ResetTimer) }
pub fn reply(x: Expr) -> Stmt { s(StmtKind::SendNetworkReply { value: bx(x) }) }
pub fn send(ty: &str, vals: Vec<(&str, Expr)>, to: Expr) -> Stmt { s(StmtKind::SendNetworkMessage { target: bx(to), msg_type: ty.into(), values: vals.into_iter().map(|(k, v)| (k.into(), v)).collect() }) }
pub fn send_wait(ty: &str, vals: Vec<(&str, Expr)>, to: Expr) -> Expr { e(ExprKind::NetworkMessageReply { target: bx(to), msg_type: ty.into(), values: vals.into_iter().map(|(k, v)| (k.into(), v)).collect() }) }

fn hat(kind: HatKind) -> Option<Box<Hat>> { Some(Box::new(Hat { kind, info: BlockInfo::none() })) }
fn sc(kind: HatKind, stmts: Vec<Stmt>) -> Script { Script { hat: hat(kind), stmts } }
pub fn on_flag(b: Vec<Stmt>) -> Script { sc(HatKind::OnFlag, b) }
pub fn on_clone(b: Vec<Stmt>) -> Script { sc(HatKind::OnClone, b) }
pub fn on_key(k: &str, b: Vec<Stmt>) -> Script { sc(HatKind::OnKey { key: k.into() }, b) }
pub fn on_msg(m: &str, b: Vec<Stmt>) -> Script { sc(HatKind::LocalMessage { msg_type: Some(m.into()) }, b) }
pub fn on_any_msg(b: Vec<Stmt>) -> Script { sc(HatKind::LocalMessage { msg_type: None }, b) }
pub fn on_net(m: &str, fields: &[&str], b: Vec<Stmt>) -> Script { sc(HatKind::NetworkMessage { msg_type: m.into(), fields: fields.iter().map(|x| vref(x)).collect() }, b) }
pub fn on_custom(m: &str, fields: &[&str], b: Vec<Stmt>) -> Script { sc(HatKind::Unknown { name: m.into(), fields: fields.iter().map(|x| vref(x)).collect() }, b) }
pub fn no_hat(b: Vec<Stmt>) -> Script { Script { hat: None, stmts: b } }

pub fn func(name: &str, params: &[&str], stmts: Vec<Stmt>) -> Function { funcu(name, params, &[], stmts) }
pub fn funcu(name: &str, params: &[&str], up: &[&str], stmts: Vec<Stmt>) -> Function {
    Function { name: name.into(), trans_name: name.into(), params: params.iter().map(|x| def(x)).collect(), upvars: up.iter().map(|x| vref(x)).collect(), returns: true, stmts }
}
pub fn init(name: &str, val: Value) -> VariableDefInit { VariableDefInit { def: def(name), init: val } }
pub fn entity(name: &str, fields: Vec<VariableDefInit>, funcs: Vec<Function>, scripts: Vec<Script>) -> Entity {
    Entity { name: name.into(), trans_name: name.into(), fields, costumes: vec![], sounds: vec![], funcs, scripts, active_costume: None, visible: true, color: (1, 2, 3, 255), pos: (0.0, 0.0), heading: 90.0, scale: 1.0 }
}
pub fn role(globals: Vec<VariableDefInit>, funcs: Vec<Function>, entities: Vec<Entity>) -> Role {
    Role { name: "role".into(), notes: "".into(), stage_size: (480, 360), globals, funcs, entities }
}
pub fn nums(names: &[&str]) -> Vec<VariableDefInit> { names.iter().map(|x| init(x, Value::Number(0.0))).collect() }
pub fn nlist(xs: &[f64]) -> Value { Value::List(xs.iter().map(|x| Value::Number(*x)).collect(), None) }
/// Just a stage and one sprite with these scripts and functions.
pub fn prog(globals: Vec<VariableDefInit>, funcs: Vec<Function>, scripts: Vec<Script>) -> Role {
    role(globals, funcs, vec![entity("Stage", vec![], vec![], vec![]), entity("Sprite", vec![], vec![], scripts)])
}
