//! H08: colors.
use super::common::*;
use crate::host::num;
use crate::sys::{ReqK, MC, MSys};
use netsblox_vm::runtime::{Color, Properties, Property, Value};

/// the components of a color, computed another way
fn hsv(r: u8, g: u8, b: u8) -> (f64, f64, f64) {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    let (hi, lo) = (r.max(g).max(b), r.min(g).min(b));
    let d = hi - lo;
    let h = if d == 0.0 { 0.0 } else if hi == r { ((g - b) / d * 60.0).rem_euclid(360.0) } else if hi == g { 120.0 + (b - r) / d * 60.0 } else { 240.0 + (r - g) / d * 60.0 };
    (h, if hi == 0.0 { 0.0 } else { d / hi }, hi / 255.0)
}
/// hues may differ by rounding, around the turn
fn close(a: f64, b: f64) -> bool { let d = (a - b).rem_euclid(360.0); d.min(360.0 - d) < 1e-3 }
fn bad(c: Color) -> Option<String> {
    let (h, s, v, a) = c.to_hsva();
    if !((0.0..=360.0).contains(&h) && (0.0..=1.0).contains(&s) && (0.0..=1.0).contains(&v) && (0.0..=1.0).contains(&a)) { return Some(format!("{c:?} has components {:?} out of range", (h, s, v, a))); }
    let (x, y, z) = hsv(c.r, c.g, c.b);
    if !close(h as f64, x) || (s as f64 - y).abs() > 1e-5 || (v as f64 - z).abs() > 1e-5 || (a as f64 - c.a as f64 / 255.0).abs() > 1e-5 { return Some(format!("{c:?} has components {:?}, not {:?}", (h, s, v, a), (x, y, z))); }
    let back = Color::from_hsva(h, s, v, a);
    if back != c { return Some(format!("{c:?} becomes {back:?}")); }
    let mut p = Properties::default();
    let want = u32::from_be_bytes([c.a, c.r, c.g, c.b]) as f64;
    let _ = p.perform_set_property::<MC, MSys>(ReqK { id: 0 }, Property::PenColor, Value::Number(num(want)));
    let _ = crate::sys::taken();
    let _ = p.perform_get_property::<MC, MSys>(ReqK { id: 0 }, Property::PenColor);
    match crate::sys::taken() { Some(Ok(Some(SimpleValue::Number(x)))) if x.get() == want => (), x => return Some(format!("pen color {want} is read back as {x:?}")) }
    let (ph, ps, pv, pt) = (p.pen_color_h.get(), p.pen_color_s.get(), p.pen_color_v.get(), p.pen_color_t.get());
    if !close(ph, x) || !(0.0..=360.0).contains(&ph) || (ps - 100.0 * y).abs() > 1e-3 || (pv - 100.0 * z).abs() > 1e-3 || (pt - 100.0 * (1.0 - c.a as f64 / 255.0)).abs() > 1e-3 { return Some(format!("pen color {c:?} has components {:?}", (ph, ps, pv, pt))); }
    None
}
fn all(ch: &mut Chooser, step: usize) -> Leaf {
    let (r, g) = (ch.choose(256) as u8, ch.choose(256) as u8);
    let mut l = Leaf::ok(vec![], 0);
    for b in 0..=255u8 {
        for a in (0..256).step_by(step).map(|x| ((x + 255) % 256) as u8) {
            l.transitions += 1;
            if let Some(w) = bad(Color { r, g, b, a }) { return Leaf::fail(format!("{r} {g} {b} {a}"), w); }
        }
        l.states.push(h64(&(r, g, b)));
    }
    l
}
fn alphas(ch: &mut Chooser) -> Leaf {
    let vs = [0u8, 1, 2, 127, 128, 200, 254, 255];
    let (r, g, b) = (ch.of(&vs), ch.of(&vs), ch.of(&vs));
    for a in 0..=255u8 { if let Some(w) = bad(Color { r, g, b, a }) { return Leaf::fail(format!("{r} {g} {b} {a}"), w); } }
    Leaf::ok(vec![h64(&(r, g, b))], 256)
}
/// from components: the color of the model, the same for all turns, parts beyond the range as at its end
fn components(ch: &mut Chooser, fine: usize) -> Leaf {
    let h = ch.choose(360 * fine) as f32 / fine as f32;
    let mut l = Leaf::ok(vec![], 0);
    let n = 16;
    for si in 0..=n {
        for vi in 0..=n {
            let (s, v) = (si as f32 / n as f32, vi as f32 / n as f32);
            let c = Color::from_hsva(h, s, v, 0.5);
            let k = |m: f64| { let x = (m + h as f64 / 60.0) % 6.0; v as f64 - v as f64 * s as f64 * x.min(4.0 - x).clamp(0.0, 1.0) };
            for (got, want) in [(c.r, k(5.0)), (c.g, k(3.0)), (c.b, k(1.0))] {
                if (got as f64 - want * 255.0).abs() > 0.5001 { return Leaf::fail(format!("{h} {s} {v}"), format!("hue {h}, saturation {s}, value {v} gives {c:?}; a part should be {}", want * 255.0)); }
            }
            if c.a != 128 { return Leaf::fail(format!("{h} {s} {v}"), format!("half transparent gives alpha {}", c.a)); }
            for k in [-720.0, -360.0, 360.0, 720.0, 3600.0] { let d = Color::from_hsva(h + k, s, v, 0.5); l.transitions += 1; if d != c { return Leaf::fail(format!("{h} {s} {v} {k}"), format!("hue {h} gives {c:?}, and {k} degrees more {d:?} (saturation {s}, value {v})")); } }
            if s == 0.0 && Color::from_hsva(h, -0.5, v, 0.5) != c || s == 1.0 && Color::from_hsva(h, 7.5, v, 0.5) != c || v == 0.0 && Color::from_hsva(h, s, -3.0, 0.5) != c || v == 1.0 && Color::from_hsva(h, s, 1.25, 0.5) != c { return Leaf::fail(format!("{h} {s} {v} range"), format!("components beyond the range differ from the end of the range at {:?}", (h, s, v))); }
        }
    }
    for (a, w) in [(-1.0, 0), (0.0, 0), (1.0, 255), (2.0, 255), (0.2, 51)] { if Color::from_hsva(h, 0.5, 0.5, a).a != w { return Leaf::fail(format!("alpha {a}"), format!("alpha {a} becomes {}", Color::from_hsva(h, 0.5, 0.5, a).a)); } }
    l.states.push(h64(&h.to_bits()));
    l
}
/// hues next to the borders between the six parts, and around zero
fn borders(ch: &mut Chooser) -> Leaf {
    let base = ch.choose(25) as f32 * 60.0 - 720.0;
    let mut h = base;
    let up = ch.flag();
    for _ in 0..ch.choose(5) { h = if up { h.next_up() } else { h.next_down() }; }
    let h = match ch.choose(3) { 0 => h, 1 => if up { h + 1e-6 } else { h - 1e-6 }, _ => h * (1.0 + 1e-7) };
    for (s, v) in [(1.0, 1.0), (0.5, 0.75), (0.0, 0.3)] {
        let c = std::panic::catch_unwind(|| Color::from_hsva(h, s, v, 1.0));
        let Ok(c) = c else { return Leaf::fail(format!("{h:?}"), format!("hue {h:?} fails with a panic")); };
        let k = |m: f64| { let x = (m + (h as f64).rem_euclid(360.0) / 60.0) % 6.0; v as f64 - v as f64 * s as f64 * x.min(4.0 - x).clamp(0.0, 1.0) };
        for (got, want) in [(c.r, k(5.0)), (c.g, k(3.0)), (c.b, k(1.0))] { if (got as f64 - want * 255.0).abs() > 0.502 { return Leaf::fail(format!("{h:?}"), format!("hue {h:?}, saturation {s}, value {v} gives {c:?}; a part should be {}", want * 255.0)); } }
    }
    Leaf::ok(vec![h64(&h.to_bits())], 3)
}
pub fn check(quick: bool) -> Check {
    let q = quick;
    Check::new("H08", "components compared with a second computation; every color converted there and back, also through the pen color property", vec![
        phase("all colors", "every one of the 2^24 colors, opaque (thorough: with 16 alphas)", move |ch, _| all(ch, if q { 256 } else { 16 })),
        phase("alphas", "every alpha with 512 colors", |ch, _| alphas(ch)),
        phase("components", "hues in steps of 1 (thorough 1/8) degree, 17 saturations and values, five other turns, parts beyond the range", move |ch, _| components(ch, if q { 1 } else { 8 })),
        phase("borders", "hues next to multiples of 60 degrees in four turns", |ch, _| borders(ch)),
    ])
}
