# The planted bugs: seed(id, property, needs, what_it_breaks, [(file, old, new)], demonstration)
seed('clone-shares-captured-field','S05','a sprite field captured by a ring before the sprite is cloned; then the clone (or the parent) assigns it',
 'a clone created after one of its fields was captured shares that field with its parent',
 [('src/runtime.rs','            res.define_or_redefine(k, Shared::Unique(v.get().clone()));','''            let v = match v {
                Shared::Unique(x) => Shared::Unique(x.clone()),
                Shared::Aliased(x) => Shared::Aliased(*x),
            };
            res.define_or_redefine(k, v);''')],
'''
fn main() {
    // the sprite captures its field in a ring, then a clone changes its own copy
    let sp = entity("Sprite", vec![init("f", Value::Number(1.0))], vec![], vec![
        on_flag(vec![set("g", ring(&[], &["f"], vec![ret(v("f"))])), clone_(this()), wait0(), wait0(), say(v("f")), say(call(v("g"), vec![]))]),
        on_clone(vec![set("f", n(2.0)), think(v("f"))]),
    ]);
    let r = role(nums(&["g"]), vec![], vec![entity("Stage", vec![], vec![], vec![]), sp]);
    expect("captured field, then clone", r, Scn::default(), &["say", "think"], &["think 2.0", "say 1.0", "say 1.0"]);
}
''')
seed('unwind-only-with-frames','E03','an error raised in the same frame as its handler while the host holds state for the script',
 'an error caught in the frame that raised it leaves the host state of the script where the error left it',
 [('src/process.rs','''                self.call_stack.drain(*call_stack_size..);
                self.value_stack.drain(*value_stack_size..);''','''                let frames = self.call_stack.drain(*call_stack_size..).count();
                self.value_stack.drain(*value_stack_size..);'''),
  ('src/process.rs','''                self.state.unwind_to(unwind_point);

                let msg''','''                if frames > 0 { self.state.unwind_to(unwind_point); }

                let msg''')],
'''
fn main() {
    // the host keeps one token per "push" for the script; a handler gives them back
    let body = vec![
        rsys("push", vec![n(1.0)]),
        try_(vec![rsys("push", vec![n(2.0)]), throw(t("x"))], "err", vec![]),
        say(sys("tok", vec![])),
    ];
    let plain = vec![rsys("push", vec![n(1.0)]), say(sys("tok", vec![]))];
    let run = |b: Vec<Stmt>| vm::run(&prog(nums(&["err"]), vec![], vec![on_flag(b)]), &Rc::new(Scn::default())).trace.iter().filter_map(|x| x.split_once(" say ").map(|x| x.1.to_string())).collect::<Vec<_>>();
    let (a, b) = (run(body), run(plain));
    println!("{a:?} {b:?}");
    assert!(!b.is_empty() && a == b, "the host state was not restored");
}
''')
seed('handler-warp-of-frame','E04','a try block directly inside a warp block, an error in it, and a loop after the handler inside the same warp block',
 'the warp mode restored for a handler is the one the custom block was called in, not the one of the try block',
 [('src/process.rs','''                    warp_counter: self.warp_counter,
                    call_stack_size: self.call_stack.len(),''','''                    warp_counter: self.call_stack.last().unwrap().warp_counter,
                    call_stack_size: self.call_stack.len(),''')],
'''
fn main() {
    let body = vec![warp(vec![try_(vec![throw(t("x"))], "err", vec![]), repeat(n(2.0), vec![says("a")])]), says("end")];
    let r = vm::run(&prog(nums(&["err"]), vec![], vec![on_flag(body)]), &Rc::new(Scn::default()));
    let got: Vec<String> = r.trace.iter().filter(|x| x.contains(" say ") || *x == "Y" || x.contains("PANIC")).map(|x| x.rsplit(' ').next().unwrap().to_string()).collect();
    println!("{got:?}");
    let said: Vec<usize> = got.iter().enumerate().filter(|x| *x.1 != "Y").map(|x| x.0).collect();
    assert!(got.iter().all(|x| !x.contains("PANIC")) && said.len() == 3, "{:?}", r.trace);
    // no turn is given up between the two iterations other than by the block itself
    let one = vm::run(&prog(nums(&["err"]), vec![], vec![on_flag(vec![warp(vec![repeat(n(2.0), vec![says("a")])]), says("end")])]), &Rc::new(Scn::default()));
    let want: Vec<String> = one.trace.iter().filter(|x| x.contains(" say ") || *x == "Y").map(|x| x.rsplit(' ').next().unwrap().to_string()).collect();
    assert_eq!(got, want, "a loop in warp after a caught error gives up turns");
}
''')
seed('stop-my-others-by-current-sprite','S04','another sprite running a ring on behalf of this sprite (tell), or a script of this sprite telling another one, at the moment of the stop',
 'stop other scripts in sprite goes by the sprite a script currently works for instead of the one it belongs to',
 [('src/project.rs','self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().first().unwrap().entity));','self.state.processes.retain_mut(|k, v| k == proc_key || !Gc::ptr_eq(entity, v.get_call_stack().last().unwrap().entity));')],
'''
fn main() {
    let a = entity("A", vec![], vec![], vec![on_flag(vec![wait0(), stop(ast::StopMode::OtherScriptsInSprite), says("stopped")])]);
    let b = entity("B", vec![], vec![], vec![on_flag(vec![tell(ent("A"), ring(&[], &[], vec![wait0(), wait0(), wait0()]), vec![]), says("told")])]);
    let r = role(vec![], vec![], vec![entity("Stage", vec![], vec![], vec![]), a, b]);
    expect("stop others in sprite", r, Scn::default(), &["say"], &["say \\"stopped\\"", "say \\"told\\""]);
}
''')
seed('same-bytes-same-image','E10','two pictures with the same bytes and name but different rotation centers',
 'pictures with equal content and name are merged when the project is loaded although their centers differ',
 [('src/bytecode.rs','let idx = *image_refs.entry(Rc::as_ptr(x)).or_insert_with(|| {','let idx = *image_refs.entry((x.0.as_slice(), x.2.as_str())).or_insert_with(|| {'),
  ('src/bytecode.rs','image_refs: &mut BTreeMap<*const (Vec<u8>, Option<(f64, f64)>, CompactString), usize>','image_refs: &mut BTreeMap<(&\'a [u8], &\'a str), usize>')],
'''
fn main() {
    let img = |c: Option<(f64, f64)>| init("pic", Value::Image(Rc::new((vec![1, 2, 3], c, "pic".into()))));
    let mut a = entity("A", vec![], vec![], vec![]); a.costumes.push(img(Some((1.0, 2.0))));
    let mut b = entity("B", vec![], vec![], vec![]); b.costumes.push(img(Some((5.0, 6.0))));
    let r = role(vec![], vec![], vec![entity("Stage", vec![], vec![], vec![]), a, b]);
    let (code, i, _) = vm::compile(&r).unwrap();
    let got = std::cell::RefCell::new(vec![]);
    let h = Rc::new(std::cell::RefCell::new(host::Host::new(Rc::new(Scn::default()))));
    sys::set_host(Some(h.clone()));
    let env = vm::EnvArena::new(|mc| vm::Env { proj: netsblox_vm::gc::Gc::new(mc, netsblox_vm::gc::RefLock::new(netsblox_vm::project::Project::from_init(mc, &i, code.clone(), Default::default(), Rc::new(sys::MSys { h: h.clone() })))) });
    env.mutate(|_, env| {
        let proj = env.proj.borrow();
        let g = proj.get_global_context();
        for (k, e) in g.borrow().entities.iter() { for (n, c) in e.borrow().costume_list.iter() { got.borrow_mut().push(format!("{k} {n} {:?}", c.center.map(|c| (c.0.get(), c.1.get())))); } }
    });
    println!("{:?}", got.borrow());
    assert_eq!(*got.borrow(), ["A pic Some((1.0, 2.0))", "B pic Some((5.0, 6.0))"]);
}
''')
seed('watcher-ends-turn','S06','a show/hide variable block in one script while another script is running',
 'showing or hiding a variable sends the script to the end of the rotation in the middle of its turn',
 [('src/project.rs','''                    self.state.process_queue.push_front(proc_key);
                    ProjectStep::Watcher { create, watcher }''','''                    self.state.process_queue.push_back(proc_key);
                    ProjectStep::Watcher { create, watcher }''')],
'''
fn main() {
    let r = prog(nums(&["x"]), vec![], vec![on_flag(vec![set("x", n(1.0)), show("x"), set("x", add(v("x"), n(1.0)))]), on_flag(vec![set("x", n(10.0))])]);
    expect("one turn", r, Scn::default(), &["state"], &["state x=10.0"]);
}
''')
seed('leading-zero-texts','E08','a text literal such as -0 or +7 that parses as a small whole number but is written differently',
 'text literals that spell a whole number in another way than the canonical one are replaced by the canonical one',
 [('src/bytecode.rs','                            if value.to_compact_string() != *str_value { continue }','                            if str_value.len() > 1 && str_value.starts_with(\'0\') { continue }')],
'''
fn main() {
    expect("texts", prog(vec![], vec![], vec![on_flag(["7", "007", "-7", "+7", "-0"].iter().map(|x| says(x)).collect())]), Scn::default(), &["say"], &["say \\"7\\"", "say \\"007\\"", "say \\"-7\\"", "say \\"+7\\"", "say \\"-0\\""]);
}
''')
seed('reused-slot-handle','H01','an entry removed from the last slot for the second time, and the slot used again',
 'a handle to a removed entry becomes valid again for the entry that later takes its slot',
 [('src/slotmap.rs','''        let slot = self.slots.get_mut(key.get_slot())?;
        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };
        if res.is_some() {
            slot.generation += 1;
''','''        let last = self.slots.len() - 1;
        let slot = self.slots.get_mut(key.get_slot())?;
        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };
        if res.is_some() {
            if key.get_slot() < last || slot.generation == 0 { slot.generation += 1; }
''')],
'''
use netsblox_vm::slotmap::*;
netsblox_vm::new_key! { struct K; }
fn main() {
    let mut m: SlotMap<K, u32> = SlotMap::new();
    let mut old = vec![];
    for i in 0..6 {
        let k = m.insert(i);
        for o in &old { assert!(m.get(*o).is_none(), "an old handle reads the new entry {i}"); assert!(*o != k, "a handle was handed out twice"); }
        assert_eq!(m.get(k), Some(&i));
        assert_eq!(m.remove(k), Some(i));
        old.push(k);
    }
    println!("ok");
}
''')
seed('second-capture-own-cell','E02','the same variable captured by two rings, then assigned through one of them',
 'capturing a variable that is already shared gives the second ring a cell of its own',
 [('src/process.rs','caps.define_or_redefine(var, lookup_var!(mut var => var.alias(mc)));','let shared = lookup_var!(mut var => match var { Shared::Unique(_) => var.alias(mc), Shared::Aliased(x) => { let value: Value<C, S> = x.borrow().clone(); value.into() } });\n                    caps.define_or_redefine(var, shared);')],
'''
fn main() {
    let body = vec![decl(&["x"]), set("x", n(1.0)),
        set("get", ring(&[], &["x"], vec![ret(v("x"))])), set("put", ring(&["y"], &["x"], vec![set("x", v("y"))])),
        run(v("put"), vec![n(5.0)]), say(v("x")), say(call(v("get"), vec![]))];
    expect("two rings, one variable", prog(nums(&["get", "put"]), vec![], vec![on_flag(body)]), Scn::default(), &["say"], &["say 5.0", "say 5.0"]);
}
''')
seed('list-twice-is-cyclic','V07','a list that contains the same list twice, sent in a message (or turned into JSON)',
 'a value in which one list occurs twice is refused as cyclic when it leaves the VM',
 [('src/runtime.rs','''                    debug_assert!(cache.contains(&identity));
                    cache.remove(&identity);
                    res
''','''                    res
'''),('src/runtime.rs','''        let res = simplify(self, &mut cache);
        if res.is_ok() { debug_assert_eq!(cache.len(), 0); }''','''        let res = simplify(self, &mut cache);''')],
'''
fn main() {
    let body = vec![set("a", ml(vec![n(1.0)])), set("b", ml(vec![v("a"), v("a")])), send("m", vec![("x", v("b"))], t("other")), says("sent")];
    expect("one list twice in a message", prog(nums(&["a", "b"]), vec![], vec![on_flag(body)]), Scn::default(), &["say", "E", "send"], &["send m {x: [[1.0],[1.0]]} to [\\"other\\"]", "say \\"sent\\""]);
}
''')
seed('message-queue-of-three','S03','a message handler that is still busy while more than three further messages arrive',
 'messages beyond the third that wait for a busy handler are dropped',
 [('src/project.rs','reply_key: reply_key.clone(), local_message: None }, usize::MAX);','reply_key: reply_key.clone(), local_message: None }, 3);')],
'''
fn main() {
    let r = prog(vec![], vec![], vec![on_net("m", &["x"], vec![say(v("x")), wait0(), wait0(), wait0(), wait0(), wait0(), wait0(), wait0(), wait0(), wait0()])]);
    let msgs = (0..6).map(|k| (k, Msg { ty: "m".into(), values: vec![("x".into(), netsblox_vm::runtime::SimpleValue::Number(host::num(k as f64)))], reply: None })).collect();
    expect("six messages", r, Scn { msgs, inputs: vec![], ..Scn::default() }, &["say"], &["say 0.0", "say 1.0", "say 2.0", "say 3.0", "say 4.0", "say 5.0"]);
}
''')
seed('message-names-ignore-case','S01','two message names that differ in case only',
 'a broadcast also starts the scripts waiting for a message whose name differs from it in case only',
 [('src/project.rs','if recv_type.as_deref().map(|x| x == msg_type).unwrap_or(true) {','if recv_type.as_deref().map(|x| x.eq_ignore_ascii_case(&msg_type)).unwrap_or(true) {')],
'''
fn main() {
    let r = prog(vec![], vec![], vec![on_msg("go", vec![says("go")]), on_msg("Go", vec![says("Go")]), on_flag(vec![bcast(t("go"), true), says("end")])]);
    expect("go is not Go", r, Scn::default(), &["say"], &["say \\"go\\"", "say \\"end\\""]);
}
''')
seed('soft-error-sticks','E06','soft errors for services: a failing call followed by a succeeding one, then the last-error block',
 'the last service error is not cleared by a later call that succeeds',
 [('src/process.rs','                        if let Some(last_err) = last_err { *last_err = None }\n                        match (last_ok, stack) {','                        match (last_ok, stack) {')],
'''
fn main() {
    let body = vec![set("x", rpc("fail", vec![])), say(rpc_error()), set("x", rpc("echo", vec![("a", n(4.0))])), say(rpc_error()), say(v("x"))];
    expect("error, then success", prog(nums(&["x"]), vec![], vec![on_flag(body)]), Scn { rpc_soft: true, ..Scn::default() }, &["say"], &["say \\"failed 0\\"", "say -", "say 4.0"]);
}
''')
seed('location-beyond-64k','E09','blocks whose location numbers are more than 65535 apart',
 'errors in such blocks are reported at another block',
 [('src/bytecode.rs','write!(res, "{}", v as isize - 1 + self.base_token).unwrap();','write!(res, "{}", v as u16 as isize - 1 + self.base_token).unwrap();')],
'''
fn main() {
    for loc in ["collab_5", "collab_65539", "collab_65540", "collab_70000_3"] {
        let r = prog(vec![], vec![], vec![on_flag(vec![sat(says("hi"), "collab_7_7"), sat(throw(t("x")), loc), sat(says("no"), "collab_5_9")])]);
        let x = vm::run(&r, &Rc::new(Scn { summaries: true, ..Scn::default() }));
        println!("{:?}", x.trace);
        assert!(x.trace.iter().any(|x| x.contains("summary") && x.contains(&format!("[{loc}("))), "the error is not at {loc}");
    }
}
''')
seed('forward-half-moved','H06','a move that would take the y coordinate, but not the x coordinate, beyond the largest number',
 'a move that fails changes the x coordinate anyway',
 [('src/runtime.rs','self.with_value::<C, S, _>(key, Number::new(x).map_err(Into::into).and_then(|x| Number::new(y).map(|y| (x, y)).map_err(Into::into)), |props, pos| props.pos = pos);','''let (x, y) = (Number::new(x), Number::new(y));
        if let Ok(x) = &x { self.pos.0 = *x; }
        self.with_value::<C, S, _>(key, x.map_err(Into::into).and_then(|_| y.map_err(Into::into)), |props, y| props.pos.1 = y);''')],
'''
use netsblox_vm::runtime::*;
fn main() {
    let mut p = Properties::default();
    p.pos = (host::num(7.0), host::num(f64::MAX));
    p.heading = host::num(1.0);
    p.perform_forward::<sys::MC, sys::MSys>(sys::ReqK { id: 0 }, host::num(f64::MAX));
    let done = sys::DONE.with(|d| d.borrow().clone());
    println!("{done:?} {:?}", p.pos);
    assert!(done.len() == 1 && done[0].is_err());
    assert_eq!((p.pos.0.get(), p.pos.1.get()), (7.0, f64::MAX), "the failed move moved the sprite");
}
''')
seed('queue-drops-oldest','S07','more custom events than the queue holds while the script runs, with room for at least one',
 'an event beyond the queue limit replaces the oldest waiting event instead of being dropped',
 [('src/project.rs','            self.context_queue.pop_back();','            self.context_queue.pop_front();')],
'''
fn main() {
    let r = prog(vec![], vec![], vec![on_custom("ev", &["x"], vec![say(v("x")), wait0()])]);
    let inputs = (0..4).map(|k| (0, In::Custom { name: "ev".into(), args: vec![("x".into(), netsblox_vm::runtime::SimpleValue::Number(host::num(k as f64)))], interrupt: false, max_queue: 2 })).collect();
    expect("queue of two", r, Scn { inputs, ..Scn::default() }, &["say"], &["say 0.0", "say 1.0", "say 2.0"]);
}
''')
seed('cyclic-order-equal','V03','comparing two lists that contain themselves with less-than',
 'an order comparison of self-containing lists answers instead of failing',
 [('src/process.rs','Some(None) => return Err(ErrorCause::CyclicValue),\n            None => { cache.insert(key, None); }','Some(None) => return Ok(Some(Ordering::Equal)),\n            None => { cache.insert(key, None); }')],
'''
fn main() {
    let body = vec![set("a", ml(vec![n(1.0)])), push(v("a"), v("a")), set("b", ml(vec![n(1.0)])), push(v("b"), v("b")), say(lt(v("a"), v("b"))), says("no error")];
    expect("order of two self-containing lists", prog(nums(&["a", "b"]), vec![], vec![on_flag(body)]), Scn::default(), &["say", "E"], &["E p0 CyclicValue"]);
}
''')
seed('fork-in-own-sprite','S10','launch inside a ring that another sprite was told to run',
 'a script launched while working for another sprite runs for the sprite of the launching script',
 [('src/process.rs','return Ok(ProcessStep::Fork { pos: closure_pos, locals, entity: self.call_stack.last().unwrap().entity });','return Ok(ProcessStep::Fork { pos: closure_pos, locals, entity: self.call_stack.first().unwrap().entity });')],
'''
fn main() {
    let a = entity("A", vec![init("f", Value::Number(1.0))], vec![], vec![]);
    let b = entity("B", vec![init("f", Value::Number(2.0))], vec![], vec![on_flag(vec![tell(ent("A"), ring(&[], &[], vec![launch(ring(&[], &[], vec![say(v("f"))]), vec![])]), vec![])])]);
    let r = role(vec![], vec![], vec![entity("Stage", vec![], vec![], vec![]), a, b]);
    expect("launched for A", r, Scn::default(), &["say"], &["say 1.0"]);
}
''')
seed('list-of-255','V02','a list literal (or another block with a variable number of inputs) with 255 or more inputs',
 'blocks with 255 or more inputs lose all but a few of them',
 [('src/bytecode.rs','let raw = match val { VariadicLen::Fixed(x) => x + 1, VariadicLen::Dynamic => 0 };','let raw = match val { VariadicLen::Fixed(x) => *x as u8 as usize + 1, VariadicLen::Dynamic => 0 };')],
'''
fn main() {
    for k in [3, 254, 255, 256, 300, 600] {
        let body = vec![set("l", ml((0..k).map(|k| n(k as f64)).collect())), say(len(v("l")))];
        expect(&format!("{k}"), prog(nums(&["l"]), vec![], vec![on_flag(body)]), Scn::default(), &["say", "PANIC"], &[&format!("say {k}.0")]);
    }
}
''')

seed('recursion-in-warp','E05','unlimited recursion of a custom block inside a warp',
 'calls made inside a warp are not limited',
 [('src/process.rs',"""                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit {
                    return Err(ErrorCause::CallDepthLimit { limit });
                }

                let params""","""                let limit = global_context.settings.max_call_depth;
                if self.call_stack.len() >= limit && self.warp_counter == 0 {
                    return Err(ErrorCause::CallDepthLimit { limit });
                }

                let params""")],
'''
fn main() {
    let f = func("deep", &["n"], vec![chg("m", n(1.0)), if_(lt(v("m"), n(3000.0)), vec![runf("deep", vec![v("m")])])]);
    let body = vec![set("m", n(0.0)), try_(vec![warp(vec![runf("deep", vec![n(0.0)])])], "err", vec![says("limited")]), say(lt(v("m"), n(2000.0)))];
    expect("deep in a warp", prog(nums(&["m"]), vec![f], vec![on_flag(body)]), Scn { cap_quiet: 1_000_000, ..Scn::default() }, &["say"], &["say \\"limited\\"", "say true"]);
}
''')
seed('next-costume-by-name','E12','a sprite wearing a picture of another sprite that has the name of one of its own costumes, and next costume',
 'next costume moves on although the picture worn is none of the sprite\'s own',
 [('src/process.rs','match entity.costume.as_ref().and_then(|x| entity.costume_list.iter().enumerate().find(|c| Rc::ptr_eq(x, &c.1.1))).map(|x| x.0) {','match entity.costume.as_ref().and_then(|x| entity.costume_list.iter().enumerate().find(|c| x.name == c.1.1.name)).map(|x| x.0) {')],
'''
fn main() {
    let img = |k: u8, name: &str| init(name, Value::Image(Rc::new((vec![k], None, name.into()))));
    let mut a = entity("A", vec![], vec![], vec![on_flag(vec![set("p", ask_of(ent("B"), ring(&[], &[], vec![ret(e(ExprKind::Costume))]), vec![])), s(StmtKind::SetCostume { costume: bx(v("p")) }), s(StmtKind::NextCostume), say(is(e(ExprKind::Costume), v("p")))])]);
    let mut b = entity("B", vec![], vec![], vec![]);
    a.costumes = vec![img(1, "x"), img(2, "y")];
    b.costumes = vec![img(3, "x")];
    b.active_costume = Some(0);
    expect("a foreign picture", role(nums(&["p"]), vec![], vec![entity("Stage", vec![], vec![], vec![]), a, b]), Scn::default(), &["say"], &["say true"]);
}
''')
seed('timer-wraps','E07','a timer read more than 2^32 ms after its reset',
 'the timer starts over after about 50 days',
 [('src/process.rs','t.saturating_sub(global_context.timer_start) as f64 / 1000.0','t.saturating_sub(global_context.timer_start) as u32 as f64 / 1000.0')],
'''
fn main() {
    let body = vec![reset_timer(), says("a"), wait0(), wait0(), say(lt(n(5_000_000.0), timer()))];
    expect("fifty-eight days", prog(vec![], vec![], vec![on_flag(body)]), Scn { ticks: vec![5_000_000_500; 3], ..Scn::default() }, &["say"], &["say \\"a\\"", "say true"]);
}
''')
seed('insert-forward','V01','insertion at a list of two or more positions',
 'inserting at several positions at once puts all but the first item at the wrong places',
 [('src/process.rs','for index in index_set.into_iter().rev() {\n                    list.insert(','for index in index_set.into_iter() {\n                    list.insert(')],
'''
fn main() {
    let body = vec![set("l", ml(vec![t("a"), t("b"), t("c")])), insert(v("l"), ml(vec![n(1.0), n(3.0)]), t("x")), say(v("l"))];
    expect("two positions", prog(nums(&["l"]), vec![], vec![on_flag(body)]), Scn::default(), &["say"], &["say #0[\\"x\\", \\"a\\", \\"b\\", \\"x\\", \\"c\\"]"]);
}
''')
seed('length-first-order','V04','an order comparison of two lists of different lengths whose first items differ',
 'a shorter list is always less than a longer one',
 [('src/process.rs','                let (mut a, mut b) = (a.iter(), b.iter());\n                loop {\n                    match (a.next(), b.next()) {\n                        (Some(a), Some(b)) => match cmp_impl','                let (n, m) = (a.len(), b.len());\n                let (mut a, mut b) = (a.iter(), b.iter());\n                if n != m { (a, b) = (a, b); }\n                loop {\n                    if n != m { break Some(n.cmp(&m)) }\n                    match (a.next(), b.next()) {\n                        (Some(a), Some(b)) => match cmp_impl')],
'''
fn main() {
    let body = vec![say(lt(ml(vec![n(2.0)]), ml(vec![n(1.0), n(1.0)]))), say(lt(ml(vec![n(1.0)]), ml(vec![n(1.0), n(1.0)])))];
    expect("lists in order", prog(vec![], vec![], vec![on_flag(body)]), Scn::default(), &["say"], &["say false", "say true"]);
}
''')
seed('random-letter-memo','V08','a random letter of each text of a list that contains one list twice',
 'the second occurrence of the list gets the letters already chosen for the first',
 [('src/process.rs','UnaryOp::StrGetRandom => unary_op_impl(mc, system, x, &mut cache, OpType::Nondeterministic,','UnaryOp::StrGetRandom => unary_op_impl(mc, system, x, &mut cache, OpType::Deterministic,')],
'''
fn main() {
    let body = vec![set("l", ml(vec![t("ab")])), set("r", letter_any(ml(vec![v("l"), v("l"), v("l"), v("l"), v("l"), v("l"), v("l"), v("l")]))), say(is(get(v("r"), n(1.0)), get(v("r"), n(2.0))))];
    expect("chosen apart", prog(nums(&["l", "r"]), vec![], vec![on_flag(body)]), Scn::default(), &["say"], &["say false"]);
}
''')
seed('unicode-first-of-grapheme','V09','the code of a letter that consists of several code points',
 'only the first code point of each letter is reported',
 [('src/process.rs','src.chars().map(|ch| Ok(Number','src.graphemes(true).filter_map(|x| x.chars().next()).map(|ch| Ok(Number')],
'''
fn main() {
    let body = vec![say(code(t("e\\u{301}"))), say(code(t("ab")))];
    expect("all code points", prog(vec![], vec![], vec![on_flag(body)]), Scn::default(), &["say"], &["say #0[101.0, 769.0]", "say #0[97.0, 98.0]"]);
}
''')
seed('barrier-until-dropped','S02','a host that keeps the scripts that ended for a while',
 'broadcast and wait goes on waiting until the host drops the ended receivers',
 [('src/process.rs','            self.pos = usize::MAX;\n            self.barrier = None;\n','            self.pos = usize::MAX;\n')],
'''
fn main() {
    let r = prog(vec![], vec![], vec![on_msg("m", vec![says("got it")]), on_flag(vec![bcast(t("m"), true), says("end")])]);
    expect("the receiver has ended", r, Scn::default(), &["say"], &["say \\"got it\\"", "say \\"end\\""]);
}
''')
seed('weekday-of-utc','E16','a host whose time zone is not UTC, asked for the day of the week near midnight',
 'the day of the week is that of Greenwich while the date is local',
 [('src/process.rs','t.date().weekday().number_from_sunday()','t.to_utc().date().weekday().number_from_sunday()')],
'''
use netsblox_vm::ast::TimeQuery;
fn main() {
    // Friday the 1st of March 2024, 23:30 in Greenwich
    let ms = 1_709_335_800_000;
    for (zone, want) in [(0, ["say 6.0", "say 1.0"]), (60, ["say 7.0", "say 2.0"]), (-24 * 30, ["say 6.0", "say 1.0"])] {
        let body = vec![say(clock(TimeQuery::DayOfWeek)), say(clock(TimeQuery::Date))];
        expect("day of the week", prog(vec![], vec![], vec![on_flag(body)]), Scn { real: Some((zone, 0)), clock0: ms, after: 0, ..Scn::default() }, &["say"], &want);
    }
}
''')
seed('real-time-low','E16','a host that answers coarse clock requests with a remembered time',
 'the date and time reporters ask for the coarse time and may give a time that has passed',
 [('src/process.rs','system.time(Precision::High).to_real_local()','system.time(Precision::Low).to_real_local()')],
'''
use netsblox_vm::ast::TimeQuery;
fn main() {
    let ms = 1_709_335_800_000;
    let body = vec![say(clock(TimeQuery::Minute)), say(clock(TimeQuery::Second))];
    expect("the present time", prog(vec![], vec![], vec![on_flag(body)]), Scn { real: Some((0, 5000)), clock0: ms, after: 0, ..Scn::default() }, &["say"], &["say 30.0", "say 0.0"]);
}
''')
seed('syscall-extra-operand','E17','a system call block with three operands',
 'a malformed system call block is accepted and its third operand dropped',
 [('src/bytecode.rs','                "nativeCallSyscall" => {\n                    let (name, args) = match args.as_slice() {\n                        [name, args] =>','                "nativeCallSyscall" => {\n                    let (name, args) = match args.as_slice() {\n                        [name, args, ..] =>')],
'''
fn main() {
    let bad = vec![say(e(ExprKind::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![t("echo"), ml(vec![n(1.0)]), n(2.0)] }))];
    if vm::compile(&prog(vec![], vec![], vec![on_flag(bad)])).is_ok() { eprintln!("a system call with three operands was accepted"); std::process::exit(1); }
    let good = vec![say(sys("echo", vec![n(1.0)]))];
    expect("a proper system call", prog(vec![], vec![], vec![on_flag(good)]), Scn::default(), &["say"], &["say 1.0"]);
}
''')
seed('scripts-grouped-by-sprite','E18','a host that adds scripts of several sprites in mixed order',
 'scripts are kept grouped by sprite, so they start in another order than they were added in',
 [('src/project.rs','        self.scripts.push(Script {\n            event: Rc::new((event, start_pos)),','        let at = self.scripts.iter().rposition(|x| Gc::ptr_eq(x.entity, entity)).map_or(self.scripts.len(), |x| x + 1);\n        self.scripts.insert(at, Script {\n            event: Rc::new((event, start_pos)),')],
'''
fn main() {
    let f = |x: &str| on_flag(vec![says(x)]);
    let r = role(vec![], vec![], vec![entity("Stage", vec![], vec![], vec![f("a"), f("b")]), entity("Sprite", vec![], vec![], vec![f("c")])]);
    let p = vm::parts(&r).unwrap();
    let order = vec![p[0].clone(), p[2].clone(), p[1].clone()];
    vm::assemble(Some((Rc::new(order), 3)));
    expect("a, c, b", r, Scn::default(), &["say"], &["say \\"a\\"", "say \\"c\\"", "say \\"b\\""]);
}
''')
seed('wall-clock-never-back','N06','a wall clock that is set back while a cached time is held',
 'the cached time of a clock only moves forward, so it stays at a time that was wrong',
 [('src/std_util.rs','            *cache.value.lock().unwrap() = t;','            let mut value = cache.value.lock().unwrap();\n            *value = t.max(*value);')],
'''
use netsblox_vm::real_time::UtcOffset;
use netsblox_vm::runtime::Precision;
use netsblox_vm::std_util::Clock;
use std::sync::atomic::{AtomicI64, Ordering};
static NOW: AtomicI64 = AtomicI64::new(1_709_335_800);
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
/// the demonstration's wall clock
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut Ts) -> i32 { unsafe { (*t).s = NOW.load(Ordering::SeqCst); (*t).n = 0; } 0 }
fn main() {
    let c = Clock::new(UtcOffset::UTC, Some(Precision::Medium));
    let a = c.read(Precision::Low).unix_timestamp();
    NOW.fetch_sub(600, Ordering::SeqCst);
    let b = c.update().unix_timestamp();
    let d = c.read(Precision::Low).unix_timestamp();
    if b != a - 600 || d != b { eprintln!("read {a}, updated to {b}, then read {d}"); std::process::exit(1); }
    println!("set back: ok");
}
''')
