//! From (property, seed) to a plan.
use crate::exec::*;
use crate::plan::*;
use mzops::*;
use mzrt::{rng::mix, EnvCfg, Rng, Strategy, ENV0};

// ------------------------------------------------------------------ values
static mut SCENE: f64 = 1.0;
/// how often numbers come from the source of the library
static mut BOLD: u64 = 1;
/// the scale of this run's scene, mostly 1
fn scene() -> f64 {
    unsafe { SCENE }
}
fn draw_scene(r: &mut Rng) {
    let k = if r.chance(1, 10) {
        match r.below(4) {
            0 => known_num(r).map_or(16.0, |x| x.abs()),
            1 => 10f64.powi(r.range(-6, 6) as i32),
            _ => *r.pick(&[8.0, 16.0, 100.0, 256.0, 1000.0, 4096.0, 1e5, 0.125, 1e-2, 1e-3]),
        }
    } else {
        1.0
    };
    unsafe {
        SCENE = k;
        BOLD = if r.chance(1, 12) { 8 } else { 1 };
    }
}
fn bold() -> u64 {
    unsafe { BOLD }
}
/// what the survey found out about each kind of call
pub const NEX: usize = 16;
#[repr(C)]
pub struct Hot {
    /// calls that took a path few take, or touched what no call should need
    pub ex: [[u32; NEX]; 2048],
    pub n: [u8; 2048],
    /// what was touched: statics 1, thread-locals 2, the environment 4, memory kept 8
    pub sig: [u8; 2048],
    pub calls: u64,
}
static mut HOT: *const Hot = std::ptr::null();
static mut SURVEY_SEED: u64 = 0;
pub fn use_hot(h: *const Hot, seed: u64) {
    unsafe {
        HOT = h;
        SURVEY_SEED = seed;
    }
}
fn hot() -> Option<&'static Hot> {
    unsafe { HOT.as_ref() }
}
/// call number k of the survey of an operation
pub fn survey_step(defs: &[OpDef], seed: u64, op: u16, k: u64) -> (Step, Vec<ObjSpec>) {
    let saved = unsafe { (HOT, SCENE, BOLD) };
    let mut r = Rng::new(mix(mix(seed ^ 0x5e7) ^ mix((op as u64) << 32 | k)));
    let r = &mut r;
    unsafe {
        HOT = std::ptr::null();
        draw_scene(r);
        if r.chance(1, 3) {
            BOLD = 8;
        }
    }
    let mut pool = if r.chance(1, 3) { Pool::odd(3, r) } else { Pool::new(3) };
    let s = gen_step(r, &mut pool, defs, op, PART_MAYBE);
    unsafe { (HOT, SCENE, BOLD) = saved };
    (s, pool.objs)
}
/// surveys the operations w, w + n, ... of the table
pub fn survey(sim: &mut Sim, seed: u64, w: usize, n: usize, calls: u32, hot: &mut Hot) {
    let ops: Vec<u16> = Ops::new(&sim.defs).all;
    let out = Survey::new();
    let defs = table();
    for &op in ops.iter().skip(w).step_by(n) {
        sim.survey(calls, &|k| survey_step(&defs, seed, op, k), out);
        let o = op as usize & 2047;
        hot.sig[o] = out.sig;
        let mut v: Vec<u32> = vec![];
        if out.nsig < out.values / 2 {
            v.extend(&out.sigs[..(out.nsig as usize).min(6)]);
        }
        // the rarest edges first
        let rare = (out.next / 20).max(1);
        let mut e: Vec<(u32, u32, bool)> = (0..mzrt::COVN)
            .filter(|&g| out.counts[g] > 0 && out.counts[g] <= rare)
            .flat_map(|g| {
                let (k, value) = if out.first[g] > 0 { (out.first[g] - 1, true) } else { (out.failed[g] - 1, false) };
                [(out.counts[g], k, value), (out.counts[g], out.last[g] - 1, value)]
            })
            .collect();
        e.sort();
        let mut fails = 0;
        for (_, k, value) in e {
            if v.len() < NEX && !v.contains(&k) && (value || fails < 4) {
                fails += !value as u32;
                v.push(k);
            }
        }
        hot.n[o] = v.len() as u8;
        hot.ex[o][..v.len()].copy_from_slice(&v);
    }
}
/// a number the library mentions, or next to one
fn known_count(r: &mut Rng) -> Option<u64> {
    let d = &crate::dict::dict().counts;
    if d.is_empty() {
        None
    } else {
        Some(*r.pick(d))
    }
}
fn known_num(r: &mut Rng) -> Option<f64> {
    let d = &crate::dict::dict().nums;
    if d.is_empty() {
        return None;
    }
    let x = *r.pick(d);
    let x = match r.below(8) {
        0 => x * 2.0,
        1 => x / 2.0,
        2 => x * (1.0 + 1e-9),
        3 => x * 0.99,
        4 => x * 1.01,
        5 => x * 1.5,
        _ => x,
    };
    Some(if r.chance(1, 4) { -x } else { x })
}
fn num(r: &mut Rng) -> f64 {
    if r.chance(bold(), 48) {
        if let Some(x) = known_num(r) {
            return x;
        }
    }
    match r.below(16) {
        0..=4 => r.range(-3, 3) as f64,
        5..=7 => r.range(-6, 6) as f64 / 2.0,
        8..=10 => r.unit() * 2.0 - 1.0,
        11 => (r.unit() - 0.5) * 200.0,
        12 => (r.unit() * 2.0 - 1.0) * 10f64.powi(r.range(-12, 12) as i32),
        13 => *r.pick(&[0.0, -0.0, 1.0, -1.0]),
        14 => *r.pick(&[1e-9, 1e-7, 0.1, 1.0 / 3.0, std::f64::consts::PI, 1e6, -1e6]),
        _ => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, f64::MAX, -f64::MAX, 1e38, 1e-40, 1e300, f64::MIN_POSITIVE]),
    }
}
/// numbers without the extreme ones most of the time
fn tame(r: &mut Rng) -> f64 {
    loop {
        let x = num(r);
        if (x.is_finite() && x.abs() < 1e13 && (x == 0.0 || x.abs() > 1e-13)) || r.chance(1, 30) {
            return x;
        }
    }
}
fn grid(r: &mut Rng) -> f64 {
    if r.chance(bold(), 96) {
        if let Some(x) = known_num(r) {
            return x;
        }
    }
    scene() * match r.below(8) {
        0..=4 => r.range(-4, 4) as f64 / 2.0,
        5 => r.range(-30, 30) as f64 / 10.0,
        6 => r.unit() * 3.0 - 1.5,
        _ => 0.0,
    }
}
fn dir(r: &mut Rng) -> [f64; 3] {
    let mut d = match r.below(6) {
        0 | 1 => {
            let mut d = [0.0; 3];
            d[r.below(3) as usize] = if r.chance(1, 2) { 1.0 } else { -1.0 };
            d
        }
        2 | 3 => [r.range(-1, 1) as f64, r.range(-1, 1) as f64, r.range(-1, 1) as f64],
        4 => [r.unit() - 0.5, r.unit() - 0.5, r.unit() - 0.5],
        _ => [grid(r), grid(r), grid(r)],
    };
    if d == [0.0; 3] {
        d[r.below(3) as usize] = 1.0;
    }
    if r.chance(1, 2) {
        let m = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
        for x in &mut d {
            *x /= m;
        }
    }
    d
}
fn size(r: &mut Rng) -> f64 {
    if r.chance(bold(), 48) {
        if let Some(x) = known_num(r) {
            return x.abs();
        }
    }
    scene() * match r.below(6) {
        0 | 1 => 1.0,
        2 => 0.5,
        3 => r.range(1, 6) as f64 / 2.0,
        4 => 0.05 + r.unit() * 2.0,
        _ => r.range(1, 40) as f64 / 10.0,
    }
}
pub fn fresh(r: &mut Rng, ty: Ty) -> ObjSpec {
    let n = ty_len(ty);
    let mut s = ObjSpec { ty, rm: r.chance(1, 2), v: vec![], vic: None };
    let is_shape = SHAPES.contains(&ty);
    if is_shape || ty == T_AABB {
        for _ in 0..3 {
            s.v.push(grid(r));
        }
    }
    match ty {
        Ty::Point => {}
        Ty::Ray | Ty::Plane => s.v.extend(dir(r)),
        Ty::Line => {
            for _ in 0..3 {
                s.v.push(grid(r));
            }
        }
        Ty::Sphere | Ty::Box => s.v.push(size(r)),
        Ty::Tri => {
            let o = [s.v[0], s.v[1], s.v[2]];
            let k = size(r);
            let (p, q) = match r.below(4) {
                0 => ([k, 0.0, 0.0], [0.0, k, 0.0]),
                1 => ([0.0, k, 0.0], [0.0, 0.0, k]),
                2 => ([k, 0.0, 0.0], [k / 2.0, 0.0, k]),
                _ => ([grid(r) + 0.1, grid(r), grid(r)], [grid(r), grid(r) + 0.2, grid(r) - 0.1]),
            };
            for d in [p, q] {
                for i in 0..3 {
                    s.v.push(o[i] + d[i]);
                }
            }
            s.v.push(size(r));
        }
        Ty::Aabb => {
            for i in 0..3 {
                let x = s.v[i] + if r.chance(1, 8) { 0.0 } else { size(r) };
                s.v.push(x);
            }
            if r.chance(1, 10) {
                let i = r.below(3) as usize;
                s.v[i] = f64::NEG_INFINITY;
                if r.chance(1, 2) {
                    s.v[3 + i] = f64::INFINITY;
                }
            }
        }
        Ty::M3F | Ty::M3D | Ty::M4F | Ty::M4D => {
            let d = if n == 9 { 3 } else { 4 };
            s.v = vec![0.0; n];
            match r.below(10) {
                0 => (0..d).for_each(|i| s.v[i * d + i] = 1.0),
                1 => (0..d).for_each(|i| s.v[i * d + i] = tame(r)),
                2 => {
                    // a rotation and a translation
                    let a = r.range(0, 12) as f64 * 0.25;
                    (0..d).for_each(|i| s.v[i * d + i] = 1.0);
                    let (c, n) = (a.cos(), a.sin());
                    s.v[0] = c;
                    s.v[1] = -n;
                    s.v[d] = n;
                    s.v[d + 1] = c;
                    for i in 0..d - 1 {
                        s.v[i * d + d - 1] = grid(r);
                    }
                }
                3 => {
                    // singular: a repeated row
                    for x in &mut s.v {
                        *x = r.range(-3, 3) as f64;
                    }
                    for i in 0..d {
                        s.v[i] = s.v[d + i];
                    }
                }
                8 => {
                    // nearly singular: a row that is almost another one
                    for x in &mut s.v {
                        *x = grid(r);
                    }
                    let k = *r.pick(&[1e-5, 1e-9, 1e-10, 1e-11, 1e-12, 1e-14]);
                    let (i, j) = (r.below(d as u64) as usize, r.below(d as u64) as usize);
                    for c in 0..d {
                        s.v[i * d + c] = s.v[j * d + c] + k * (r.unit() - 0.5);
                    }
                }
                9 => {
                    // of very small or large numbers
                    let k = 10f64.powi(r.range(-6, 6) as i32);
                    for x in &mut s.v {
                        *x = r.range(-4, 4) as f64 * k;
                    }
                }
                4 | 5 => {
                    for x in &mut s.v {
                        *x = r.range(-4, 4) as f64;
                    }
                }
                _ => {
                    for x in &mut s.v {
                        *x = tame(r);
                    }
                }
            }
        }
        Ty::QF | Ty::QD | Ty::DQF | Ty::DQD => {
            for _ in 0..n {
                s.v.push(tame(r));
            }
            if r.chance(2, 3) {
                for q in 0..n / 4 {
                    let m = s.v[q * 4..q * 4 + 4].iter().map(|x| x * x).sum::<f64>().sqrt();
                    if m.is_finite() && m > 0.0 {
                        for x in &mut s.v[q * 4..q * 4 + 4] {
                            *x /= m;
                        }
                    }
                }
            }
        }
        _ => {
            for _ in 0..n {
                s.v.push(if r.chance(1, 3) { grid(r) } else { tame(r) });
            }
        }
    }
    if is_shape && r.chance(1, 4) {
        s.vic = Some(*r.pick(&[1e-3, 0.1, 0.5, 1e-9, 0.0, -0.25]));
    }
    s
}
/// a value that has much in common with another one
pub fn related(r: &mut Rng, o: &ObjSpec) -> ObjSpec {
    let mut s = o.clone();
    let n = s.v.len() as u64;
    if n == 0 {
        return s;
    }
    match r.below(14) {
        0 => {}
        1 | 2 | 3 => {
            // one number differs
            let i = r.below(n) as usize;
            s.v[i] = match r.below(6) {
                0 => s.v[i] + 1.0,
                1 => s.v[i] * 1.5 + 0.25,
                2 if r.chance(1, 3) => s.v[i] + known_num(r).unwrap_or(0.75),
                2 => s.v[i] + *r.pick(&[1e-7, 1e-7, 1e-9, 1e-10, 1e-12]) * (1.0 + s.v[i].abs()),
                3 => f64::from_bits(s.v[i].to_bits() ^ 1),
                4 => -s.v[i],
                _ => grid(r),
            };
        }
        4 => {
            let (i, j) = (r.below(n) as usize, r.below(n) as usize);
            s.v.swap(i, j);
        }
        5 => {
            let i = r.below(n) as usize;
            s.v[i] = -s.v[i];
        }
        6 => s.v.iter_mut().for_each(|x| *x = -*x),
        7 => s.rm = !s.rm,
        8 => {
            let d = if n == 9 { 3 } else { 4 };
            if n == (d * d) as u64 {
                for i in 0..d {
                    for j in 0..i {
                        s.v.swap(i * d + j, j * d + i);
                    }
                }
            } else {
                s.v.rotate_left(1);
            }
        }
        9 => {
            let k = *r.pick(&[2.0, 2.0, 0.5, -1.0, 1e-6]);
            s.v.iter_mut().for_each(|x| *x *= k)
        }
        10 => {
            // the last number differs
            let i = n as usize - 1;
            s.v[i] = s.v[i] * 0.5 + 0.5;
        }
        11 => {
            if SHAPES.contains(&s.ty) {
                s.vic = Some(*r.pick(&[1e-3, 0.3, 0.75, 1e-12, 0.0]));
            } else {
                let i = r.below(n) as usize;
                s.v[i] = 0.0;
            }
        }
        12 => {
            // shifted
            let d = grid(r);
            for x in s.v.iter_mut().take(3) {
                *x += d;
            }
        }
        _ => return fresh(r, s.ty),
    }
    s
}
/// a point of the object: on it, in it, or near it
fn spot(r: &mut Rng, o: &ObjSpec) -> [f64; 3] {
    let v = &o.v;
    let at = |i: usize| [v[i], v[i + 1], v[i + 2]];
    let add = |a: [f64; 3], b: [f64; 3], t: f64| [a[0] + t * b[0], a[1] + t * b[1], a[2] + t * b[2]];
    let t = *r.pick(&[0.0, 0.25, 0.5, 1.0, 1.0, 1.5, -0.5]);
    match o.ty {
        Ty::Ray => add(at(0), at(3), 2.0 * t),
        Ty::Line => add(at(0), [v[3] - v[0], v[4] - v[1], v[5] - v[2]], t),
        Ty::Plane => {
            // anywhere on it, or off it
            let n = at(3);
            let u = [n[1], -n[0], 0.0];
            let w = if u == [0.0; 3] { [1.0, 0.0, 0.0] } else { u };
            add(add(at(0), w, 2.0 * t), n, *r.pick(&[0.0, 0.0, 0.5, -0.5]))
        }
        Ty::Sphere => {
            let d = dir(r);
            add(at(0), d, t * v[3])
        }
        Ty::Box => {
            let d: Vec<f64> = (0..3).map(|_| *r.pick(&[0.0, 0.5, 1.0, -0.5, -1.0])).collect();
            add(at(0), [d[0], d[1], d[2]], v[3])
        }
        Ty::Tri => {
            let (p, q) = ([v[3] - v[0], v[4] - v[1], v[5] - v[2]], [v[6] - v[0], v[7] - v[1], v[8] - v[2]]);
            let n = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]];
            let m = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt().max(1e-9);
            let (x, y) = *r.pick(&[(0.3, 0.3), (0.3, 0.3), (0.25, 0.5), (0.5, 0.0), (0.0, 0.0), (1.0, 0.0), (0.8, 0.8), (-0.3, 0.5)]);
            add(add(add(at(0), p, x), q, y), n, v[9] / m * *r.pick(&[0.5, 0.5, 0.25, 0.0, 1.0, -0.3, 1.3]))
        }
        _ => at(0),
    }
}
/// the direction an object has: of a ray, of a line, of the normal of a plane
fn heading(o: &ObjSpec) -> Option<[f64; 3]> {
    let v = &o.v;
    let d = match o.ty {
        Ty::Ray | Ty::Plane => [v[3], v[4], v[5]],
        Ty::Line => [v[3] - v[0], v[4] - v[1], v[5] - v[2]],
        _ => return None,
    };
    if d.iter().all(|x| x.is_finite()) && d != [0.0; 3] {
        Some(d)
    } else {
        None
    }
}
/// turns s to be parallel or perpendicular to o, and puts it at the spot, or leaves it where it is
fn align(r: &mut Rng, o: &ObjSpec, s: &mut ObjSpec, p: [f64; 3]) -> bool {
    let n = match (heading(o), heading(s)) {
        (Some(n), Some(_)) => n,
        _ => return false,
    };
    let across = (o.ty == Ty::Plane) != (s.ty == Ty::Plane);
    let d = if across != r.chance(1, 6) {
        *r.pick(&[[n[1], -n[0], 0.0], [0.0, n[2], -n[1]], [-n[2], 0.0, n[0]]])
    } else {
        n
    };
    let m = d.iter().map(|x| x * x).sum::<f64>().sqrt() * *r.pick(&[1.0, -1.0]);
    if m == 0.0 {
        return false;
    }
    let d = [d[0] / m, d[1] / m, d[2] / m];
    if r.chance(2, 3) {
        s.v[..3].copy_from_slice(&p);
    }
    for i in 0..3 {
        s.v[3 + i] = if s.ty == Ty::Line { s.v[i] + d[i] * 2.0 } else { d[i] };
    }
    true
}
/// a shape of a kind, placed with respect to another
fn placed(r: &mut Rng, o: &ObjSpec, ty: Ty) -> ObjSpec {
    let mut s = fresh(r, ty);
    let p = spot(r, o);
    let q = if r.chance(1, 4) { p } else { spot(r, &s) };
    if r.chance(1, 4) && align(r, o, &mut s, p) {
        return s;
    }
    let d = match ty {
        // a ray towards the spot
        Ty::Ray if r.chance(1, 2) => {
            let m = ((0..3).map(|i| (p[i] - s.v[i]) * (p[i] - s.v[i])).sum::<f64>()).sqrt();
            if m > 0.0 {
                for i in 0..3 {
                    s.v[3 + i] = (p[i] - s.v[i]) / m;
                }
            }
            [0.0; 3]
        }
        // one end of a line at the spot, the other where it was or at another spot
        Ty::Line if r.chance(3, 4) => {
            let e = if r.chance(1, 2) { 3 } else { 0 };
            s.v[e..e + 3].copy_from_slice(&p);
            if r.chance(1, 3) {
                let p = spot(r, o);
                s.v[3 - e..6 - e].copy_from_slice(&p);
            }
            [0.0; 3]
        }
        _ => [p[0] - q[0], p[1] - q[1], p[2] - q[2]],
    };
    let n = match ty {
        Ty::Line => 6,
        Ty::Tri => 9,
        _ => 3,
    };
    for i in 0..n {
        s.v[i] += d[i % 3];
    }
    s
}
/// the same numbers as another type, where they fit
fn recast(r: &mut Rng, o: &ObjSpec, ty: Ty) -> Option<ObjSpec> {
    let n = ty_len(ty);
    if n == 0 || o.v.len() < n || ty == T_AABB || ty == T_TRI {
        return None;
    }
    let mut s = ObjSpec { ty, rm: o.rm, v: o.v[..n].to_vec(), vic: None };
    if (ty == T_SPHERE || ty == T_BOX) && !(s.v[3] > 0.0) {
        s.v[3] = size(r);
    }
    Some(s)
}
pub struct Pool {
    pub objs: Vec<ObjSpec>,
    pub cap: usize,
    /// numbers of an unusual magnitude
    pub tiny: u64,
}
impl Pool {
    pub fn new(cap: usize) -> Pool {
        Pool { objs: vec![], cap, tiny: 0 }
    }
    pub fn odd(cap: usize, r: &mut Rng) -> Pool {
        Pool { objs: vec![], cap, tiny: if r.chance(1, 10) { 1 + r.below(4) } else { 0 } }
    }
    fn scaled(&self, mut o: ObjSpec) -> ObjSpec {
        if self.tiny != 0 && !SHAPES.contains(&o.ty) && o.ty != T_AABB {
            let n = self.tiny as usize - 1;
            let k = if ty_name(o.ty).contains("f32") { [1e-40, 1e-20, 1e-38, 1e19][n] } else { [1e-310, 1e-156, 1e-308, 1e154][n] };
            o.v.iter_mut().for_each(|x| *x *= k);
        }
        o
    }
    pub fn get(&mut self, r: &mut Rng, ty: Ty) -> u16 {
        if ty == Ty::None {
            if self.objs.is_empty() {
                self.objs.push(ObjSpec { ty: T_POINT, rm: false, v: vec![0.0; 3], vic: None });
            }
            return 0;
        }
        let have: Vec<usize> = (0..self.objs.len()).filter(|&i| self.objs[i].ty == ty).collect();
        if !have.is_empty() && (have.len() >= self.cap || r.chance(1, 2)) {
            return *r.pick(&have) as u16;
        }
        let o = if !have.is_empty() && r.chance(3, 4) {
            let i = *r.pick(&have);
            let o = self.objs[i].clone();
            related(r, &o)
        } else if !self.objs.is_empty() && r.chance(1, 3) {
            let i = r.below(self.objs.len() as u64) as usize;
            let o = self.objs[i].clone();
            recast(r, &o, ty).unwrap_or_else(|| fresh(r, ty))
        } else {
            let o = fresh(r, ty);
            self.scaled(o)
        };
        self.objs.push(o);
        self.objs.len() as u16 - 1
    }
    /// another object of the type of object i, not i itself unless there is no room
    pub fn sibling(&mut self, r: &mut Rng, i: u16) -> u16 {
        let o = self.objs[i as usize].clone();
        let s = if SHAPES.contains(&o.ty) && r.chance(1, 6) {
            // the same, somewhere else
            let mut s = o.clone();
            let d = [grid(r), grid(r), grid(r)];
            let n = match o.ty {
                Ty::Line => 6,
                Ty::Tri => 9,
                _ => 3,
            };
            for k in 0..n {
                s.v[k] += d[k % 3];
            }
            s
        } else {
            related(r, &o)
        };
        self.objs.push(s);
        self.objs.len() as u16 - 1
    }
}

// ------------------------------------------------------------------ choices
pub struct Ops {
    pub alg: Vec<u16>,
    pub geo: Vec<u16>,
    pub all: Vec<u16>,
    pub part: Vec<u16>,
    pub gjk: u16,
    pub union: Vec<u16>,
    pub by_ty: Vec<Vec<u16>>,
    /// writes to public fields
    pub writes: Vec<u16>,
}
impl Ops {
    pub fn new(defs: &[OpDef]) -> Ops {
        let writes = |d: &OpDef| d.name.ends_with(".write");
        let pick = |f: &dyn Fn(&OpDef) -> bool| -> Vec<u16> {
            defs.iter().enumerate().filter(|(_, d)| d.grp != Grp::Canary && !writes(d) && f(d)).map(|(i, _)| i as u16).collect()
        };
        Ops {
            writes: (0..defs.len() as u16).filter(|&i| writes(&defs[i as usize])).collect(),
            alg: pick(&|d| d.grp == Grp::Alg),
            geo: pick(&|d| d.grp == Grp::Geo),
            all: pick(&|_| true),
            part: pick(&|d| d.part != 0),
            gjk: op_index(defs, "gjk(Sphere,Sphere)").unwrap(),
            union: pick(&|d| d.part & 4 != 0),
            by_ty: TYPES.iter().map(|t| pick(&|d| d.ta == t.0)).collect(),
        }
    }
}
pub const PART_NO: u8 = 0;
pub const PART_YES: u8 = 1;
pub const PART_MAYBE: u8 = 2;
const LISTY: [Ty; 6] = [T_AABB, T_SPHERE, T_POINT, T_BOX, T_RAY, T_TRI];

pub fn gen_step(r: &mut Rng, pool: &mut Pool, defs: &[OpDef], op: u16, part: u8) -> Step {
    let d = &defs[op as usize];
    let mut s = STEP0.clone();
    s.op = op;
    s.a = pool.get(r, d.ta);
    s.b = if d.tb == d.ta && r.chance(1, 8) { s.a } else { pool.get(r, d.tb) };
    if d.tb == Ty::None {
        s.b = s.a;
    }
    if SHAPES.contains(&d.ta) && SHAPES.contains(&d.tb) && r.chance(1, 4) {
        let o = pool.objs[s.a as usize].clone();
        pool.objs.push(placed(r, &o, d.tb));
        s.b = pool.objs.len() as u16 - 1;
    }
    s.s = match r.below(8) {
        0 | 1 | 2 => *r.pick(&[0.0, 0.25, 0.5, 1.0, 2.0, -1.0, 3.0]),
        3 => *r.pick(&[1e-6, 1e-3, 1e-9, 90.0, 180.0, 45.0, 360.0]),
        4 | 5 => grid(r),
        _ => tame(r),
    };
    s.i = r.below(16) as u32;
    let mut list = vec![];
    if let Some(h) = hot() {
        let o = op as usize & 2047;
        let n = h.n[o] as u64;
        if n > 0 && r.chance(1, if h.sig[o] != 0 { 2 } else if part == PART_YES { 3 } else { 6 }) {
            // like a call of the survey
            let k = h.ex[o][r.below(n) as usize];
            let (e, objs) = survey_step(defs, unsafe { SURVEY_SEED }, op, k as u64);
            let mut at = |r: &mut Rng, i: u16| {
                let o = objs[i as usize].clone();
                let o = if r.chance(1, 4) { related(r, &o) } else { o };
                pool.objs.push(o);
                pool.objs.len() as u16 - 1
            };
            s.a = at(r, e.a);
            s.b = if e.a == e.b { s.a } else { at(r, e.b) };
            if r.chance(3, 4) {
                s.s = e.s;
                s.i = e.i;
            }
            if r.chance(3, 4) {
                list = e.list.iter().map(|&i| if i == e.a { s.a } else { at(r, i) }).collect();
            }
        }
    }
    let yes = part == PART_YES || (part == PART_MAYBE && r.chance(1, 4));
    if yes && d.part != 0 {
        if d.part & 4 != 0 {
            let n = match r.below(40) {
                0 => 5 + r.below(60),
                2 | 3 => 5 + r.below(20),
                4 => known_count(r).unwrap_or(6).min(300),
                1 => 1 + r.below(*r.clone().pick(&[20, 80, 300])),
                _ => 1 + r.below(4),
            };
            let n = if list.is_empty() { n } else { 0 };
            s.list = list;
            for k in 0..n {
                let ty = if k == 0 && ty_len(d.tb) > 0 { d.tb } else { *r.pick(&LISTY) };
                let x = pool.get(r, ty);
                s.list.push(x);
            }
            s.part = if part == PART_MAYBE && r.chance(1, 3) { 8 } else { 0 };
        } else {
            s.part = if d.part & 2 != 0 { *r.pick(&[1, 3, 3]) } else { 1 };
        }
        if r.chance(1, 8) {
            s.warp = match r.below(4) {
                0 => *r.pick(&[-1.0, 0.0, 2.0, 0.5, 1e3, 1e-3]),
                1 => known_num(r).unwrap_or(3.0),
                2 => 10f64.powf(r.unit() * 16.0 - 8.0),
                _ => 1.0 + r.unit() * 100.0,
            };
        }
    }
    s
}
/// up to three kinds of call that belong together
fn kinds(r: &mut Rng, ops: &Ops, defs: &[OpDef], pool: &[u16], primary: u16) -> Vec<u16> {
    let mut v = vec![primary];
    let n = r.below(3);
    for _ in 0..n {
        let k = if r.chance(2, 3) {
            let d = &defs[primary as usize];
            let t = if r.chance(1, 3) && d.tb != Ty::None { d.tb } else { d.ta };
            let i = TYPES.iter().position(|x| x.0 == t).unwrap_or(0);
            let c: Vec<u16> = ops.by_ty[i].iter().copied().filter(|o| pool.contains(o)).collect();
            if c.is_empty() {
                *r.pick(pool)
            } else {
                *r.pick(&c)
            }
        } else {
            *r.pick(pool)
        };
        v.push(k);
    }
    v
}
/// the operation a run is about: each in turn, but those more often that touch what no call should need
/// a call from a callback that is given the very participant that makes it
fn same_participant(r: &mut Rng, defs: &[OpDef], outer: &Step, s: &mut Step) {
    if r.chance(1, 2) {
        return;
    }
    let (d, o) = (&defs[s.op as usize], &defs[outer.op as usize]);
    if s.part & 1 != 0 && outer.part & 1 != 0 && d.tb == o.tb && s.part & 2 <= outer.part & 2 {
        s.b = outer.b;
        if s.part & 2 != 0 {
            s.a = outer.a;
        }
    } else if !s.list.is_empty() && !outer.list.is_empty() {
        s.list = outer.list.clone();
    } else {
        return;
    }
    s.vers = outer.vers.clone();
    s.warp = outer.warp;
    s.part |= 4;
}
fn lead(r: &mut Rng, set: &[u16], index: u64) -> u16 {
    if let Some(h) = hot() {
        let v: Vec<u16> = set.iter().copied().filter(|&o| h.sig[o as usize & 2047] != 0).collect();
        if !v.is_empty() && r.chance(1, 2) {
            return *r.pick(&v);
        }
    }
    set[(index % set.len() as u64) as usize]
}
/// whether the survey found that calls of this kind touch what no call should need
fn touched(op: u16) -> bool {
    hot().map_or(false, |h| h.sig[op as usize & 2047] != 0)
}
/// one slow thread, and how rarely it is chosen
fn slow(r: &mut Rng, ntasks: usize) -> u32 {
    1 << r.below(ntasks.clamp(1, 24) as u64) | *r.pick(&[2, 4, 12, 24]) << 24
}
pub fn strategy(r: &mut Rng, pts: u64, ntasks: usize) -> Strategy {
    let ps = *r.pick(&[65536 / 2, 65536 / 4, 65536 / 16, 65536 / 4]);
    let pts = pts.max(16);
    match r.below(8) {
        0 => Strategy::Serial { p_op: 96 },
        1 | 2 | 3 => {
            let d = 1 + r.below(5);
            let mut c: Vec<u64> = (0..d).map(|_| 1 + r.below(pts + pts / 8)).collect();
            c.sort();
            Strategy::Pct { changes: c, p_static: if r.chance(1, 2) { 0 } else { ps } }
        }
        _ => {
            // a number of switches between a few and a few hundred
            let want = [2u64, 5, 12, 30, 80, 200][r.below(6) as usize] * (ntasks as u64 / 2).max(1);
            let pe = (want * 65536 / pts).clamp(1, 32768) as u32;
            Strategy::Rand { p_static: ps, p_heap: pe.max(if r.chance(1, 3) { 6000 } else { 1 }), p_edge: pe, p_op: 64, slow: if r.chance(1, 3) { slow(r, ntasks) } else { 0 } }
        }
    }
}
pub fn env(r: &mut Rng) -> EnvCfg {
    EnvCfg {
        on: true,
        clock_base: match r.below(6) {
            0 => 0,
            1 => 1_000_000_000,
            2 => r.next() >> 4,
            3 => 946_684_800_000_000_000,
            4 => 4_102_444_800_000_000_000,
            _ => 1_600_000_000_000_000_000 + r.below(400 * 86400) * 1_000_000_000,
        },
        clock_mode: r.below(4) as u32,
        entropy: r.next(),
        entropy_mode: r.chance(1, 6) as u32,
        env_mode: r.below(2) as u32,
        io_mode: r.below(6) as u32,
        file_mode: r.below(3) as u32,
        heap_off: (r.below(1 << 18) * 64) as u32,
    }
}
/// where to do something in a call with n callbacks: anywhere, and now and then just outside
fn at(r: &mut Rng, n: u32) -> u32 {
    let x = r.chance(1, 12) as u64;
    r.below(n.max(1) as u64 + x) as u32
}
/// the last calls of a thread that ends can be made by one of its destructors
fn last_calls(r: &mut Rng, p: &Plan, v: &mut [Step]) {
    if p.kind == Kind::Waves && r.chance(1, 3) {
        let n = 1 + r.below(3);
        v.iter_mut().rev().take(n as usize).for_each(|s| s.part |= 16);
    }
}
pub struct Gen {
    pub ops: Ops,
    /// very long histories; and whether as long as can be
    pub deep: Option<bool>,
}
impl Gen {
    pub fn plan(&self, sim: &mut Sim, prop: &str, verif_seed: u64, index: u64) -> Plan {
        let mut h = mix(verif_seed ^ 0x6d7a);
        for b in prop.bytes() {
            h = mix(h ^ b as u64);
        }
        let seed = mix(h ^ index);
        let mut r = Rng::new(seed);
        let r = &mut r;
        draw_scene(r);
        let mut p = match prop {
            "C01" => self.conc(sim, r, prop, seed, &self.ops.alg, index),
            "C02" => self.conc(sim, r, prop, seed, &self.ops.geo, index),
            "C03" => self.lineage(sim, r, seed, index),
            "C04" => self.stall(sim, r, seed, index),
            "C05" => self.nest(sim, r, seed, index),
            "C06" => self.abandon(sim, r, seed, index),
            "C07" => self.oom(sim, r, seed, index),
            "C08" => self.leak(sim, r, seed, index),
            "C09" => self.net(r, seed),
            "C10" => self.envs(sim, r, seed, index),
            "C11" => self.moving(sim, r, seed, index),
            "C12" => self.jitter(r, seed),
            "C13" => self.history(sim, r, seed, index),
            _ => panic!("unknown property"),
        };
        p.number();
        p
    }
    fn pts(&self, sim: &mut Sim, p: &Plan) -> u64 {
        let mut v = vec![];
        p.each_step(|_, s| v.push(s.clone()));
        v.iter().map(|s| sim.solo(s, &p.objs).out.pts + 1).sum()
    }
    fn finish(&self, sim: &mut Sim, r: &mut Rng, p: &mut Plan, pool: Pool) {
        p.objs = pool.objs;
        let n = p.tasks.len();
        let pts = self.pts(sim, p);
        if n > 1 {
            p.strat = strategy(r, pts, n);
        }
        let mut own = false;
        let objs = &p.objs;
        p.tasks.iter().flatten().for_each(|s| own |= sim.solo(s, objs).threads);
        if own {
            // the library has threads of its own: they are what matters
            p.strat = match r.below(4) {
                0 => strategy(r, pts, n + 1),
                1 => Strategy::Pct { changes: (0..1 + r.below(3)).map(|_| 1 + r.below(pts + 2)).collect::<std::collections::BTreeSet<_>>().into_iter().collect(), p_static: 0 },
                k => Strategy::Rand { p_static: 16384, p_heap: if k == 2 { 20000 } else { 4000 }, p_edge: if k == 2 { 2000 } else { 8000 }, p_op: 64, slow: 0 },
            };
        }
        p.sched_seed = r.next();
    }
    fn conc(&self, sim: &mut Sim, r: &mut Rng, prop: &str, seed: u64, set: &[u16], index: u64) -> Plan {
        let mut p = Plan::new(prop, seed, Kind::Calls);
        if prop == "C02" && index % 24 == 7 {
            // large unions, by one thread or more
            let mut pool = Pool::new(6 + r.below(20) as usize);
            for _ in 0..1 + r.below(3) {
                let op = *r.pick(&self.ops.union);
                let mut s = gen_step(r, &mut pool, &sim.defs, op, PART_NO);
                let n = 5 + r.below(*r.clone().pick(&[8, 20, 60]));
                s.list = (0..n).map(|_| { let t = *r.pick(&LISTY); pool.get(r, t) }).collect();
                p.tasks.push(vec![s]);
            }
            self.finish(sim, r, &mut p, pool);
            return p;
        }
        let primary = lead(r, set, index);
        let ks = kinds(r, &self.ops, &sim.defs, set, primary);
        let mut pool = Pool::new(1 + r.below(4) as usize);
        let nt = if r.chance(1, 10) { 4 + r.below(6) } else { 2 + r.below(3) };
        let long = prop != "C04" && r.chance(1, if touched(primary) { 3 } else { 60 });
        let same = r.chance(1, 2) || long;
        let crowd = !long && prop != "C04" && r.chance(1, if touched(primary) { 6 } else { 80 });
        let nt = if long { 3 + r.below(3) } else if crowd { 10 + r.below(40) } else { nt };
        for t in 0..nt {
            let n = if long { 3 + r.below(8) } else if nt > 4 { 1 + r.below(2) } else { 1 + r.below(4) };
            let mut v = vec![];
            for j in 0..n {
                let k = if same || (j == 0 && t < 2) { primary } else { *r.pick(&ks) };
                let mut s = gen_step(r, &mut pool, &sim.defs, k, PART_MAYBE);
                if (s.part != 0 || !s.list.is_empty()) && r.chance(1, 2) {
                    for _ in 0..1 + r.below(3) {
                        s.trig.push(Trig { at: r.below(10) as u32, act: Act::Yield });
                    }
                }
                v.push(s);
            }
            if long && touched(primary) && r.chance(1, 2) {
                // the same few calls over and over
                let n = 16 + r.below(64) as usize;
                v = v.iter().cycle().take(n).cloned().collect();
            }
            p.tasks.push(v);
        }
        p.private = r.chance(1, 4);
        self.finish(sim, r, &mut p, pool);
        if long && touched(primary) && r.chance(1, 2) {
            // switches where the threads meet, and nearly nowhere else
            p.strat = Strategy::Rand {
                p_static: 65536 / *r.pick(&[2, 4, 8, 16, 32]),
                p_heap: 1,
                p_edge: 1,
                p_op: 64,
                slow: if r.chance(2, 3) { slow(r, p.tasks.len()) } else { 0 },
            };
        }
        p
    }
    fn stall(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let set = &self.ops.all;
        if index % 16 == 5 {
            return self.crowd(sim, r, seed);
        }
        let mut p = self.conc(sim, r, "C04", seed, set, index);
        let nt = p.tasks.len();
        // in some runs the others go on for long
        if index / set.len() as u64 % 8 == 3 {
            let t = r.below(nt as u64) as usize;
            let n = *r.pick(&[12, 24, 40, 72]);
            let v = p.tasks[t].clone();
            let cost: u64 = v.iter().map(|s| sim.solo(s, &p.objs).out.steps).sum::<u64>() / v.len().max(1) as u64;
            if cost * n < 400_000 {
                p.tasks[t] = v.iter().cycle().take(n as usize).cloned().collect();
            }
        }
        let nv = 1 + r.below((nt - 1) as u64).min(r.below(3)) as usize;
        let mut victims: Vec<usize> = (0..nt).collect();
        for i in 0..nt {
            let j = r.below(nt as u64) as usize;
            victims.swap(i, j);
        }
        for &t in &victims[..nv] {
            let steps = p.tasks[t].clone();
            let mut pts = 0;
            for s in &steps {
                pts += sim.solo(s, &p.objs).out.pts + 1;
            }
            p.stalls.push((t as u8, 1 + r.below(pts + 2)));
            // or suspended inside a participant's callback
            let objs = p.objs.clone();
            for s in p.tasks[t].iter_mut() {
                let c = sim.solo(s, &objs).out.cbs;
                if c > 0 && r.chance(1, 2) {
                    s.trig.push(Trig { at: at(r, c), act: Act::Stall });
                }
            }
        }
        p
    }
    /// nearly everybody is suspended in the middle of the same kind of call
    fn crowd(&self, sim: &mut Sim, r: &mut Rng, seed: u64) -> Plan {
        let mut p = Plan::new("C04", seed, Kind::Calls);
        let primary = match r.below(4) {
            0 => self.ops.gjk,
            1 => *r.pick(&self.ops.all),
            _ => *r.pick(&self.ops.part),
        };
        let mut pool = Pool::new(1 + r.below(4) as usize);
        let nt = *r.pick(&[5, 6, 9, 12, 18]);
        for _ in 0..nt {
            p.tasks.push(vec![gen_step(r, &mut pool, &sim.defs, primary, PART_YES)]);
        }
        let free = 1 + r.below(2) as usize;
        for t in free..nt {
            let s = &mut p.tasks[t][0];
            let b = sim.solo(s, &pool.objs);
            let (c, n) = (b.out.cbs, b.out.pts);
            if c > 0 && r.chance(3, 4) {
                s.trig.push(Trig { at: r.below(c as u64) as u32, act: Act::Stall });
            } else {
                p.stalls.push((t as u8, 1 + r.below(n + 2)));
            }
        }
        let t = r.below(nt as u64) as usize;
        p.tasks.swap(0, t);
        p.stalls.iter_mut().for_each(|s| if s.0 as usize == t { s.0 = 0 });
        self.finish(sim, r, &mut p, pool);
        p
    }
    fn nested(&self, sim: &mut Sim, r: &mut Rng, pool: &mut Pool, outer: &Step, depth: u32, left: &mut i32) -> Vec<Step> {
        let n = 1 + r.below(2);
        let mut v = vec![];
        for _ in 0..n {
            *left -= 1;
            if *left < 0 {
                break;
            }
            let mut s = match r.below(8) {
                0 | 1 => outer.clone(),
                2 | 3 => gen_step(r, pool, &sim.defs, outer.op, PART_YES),
                4 => {
                    let op = *r.pick(&self.ops.part);
                    gen_step(r, pool, &sim.defs, op, PART_YES)
                }
                5 => {
                    let set = &self.ops.geo;
                    { let o = *r.pick(set); gen_step(r, pool, &sim.defs, o, PART_NO) }
                }
                _ => {
                    let set = &self.ops.all;
                    { let o = *r.pick(set); gen_step(r, pool, &sim.defs, o, PART_NO) }
                }
            };
            s.trig.clear();
            same_participant(r, &sim.defs, outer, &mut s);
            if depth > 0 {
                let c = sim.solo(&s, &pool.objs).out.cbs;
                if c > 0 && r.chance(1, 2) {
                    let inner = self.nested(sim, r, pool, &s, depth - 1, left);
                    s.trig.push(Trig { at: at(r, c), act: Act::Nest(inner) });
                }
            }
            v.push(s);
        }
        v
    }
    /// a call within a call within a call, far down
    fn chain(&self, sim: &mut Sim, r: &mut Rng, pool: &mut Pool, outer: &mut Step, depth: u32, ops: &[u16], place: Option<u32>) {
        let c = sim.solo(outer, &pool.objs).out.cbs;
        if c == 0 || depth == 0 {
            return;
        }
        // (new calls need references of their own: few of them far down)
        let mut s = if r.chance(1, 2) || (depth > 100 && !r.chance(1, 20)) {
            let mut s = outer.clone();
            s.trig.clear();
            s
        } else {
            let op = *r.pick(ops);
            gen_step(r, pool, &sim.defs, op, PART_YES)
        };
        same_participant(r, &sim.defs, outer, &mut s);
        self.chain(sim, r, pool, &mut s, depth - 1, ops, place);
        let at = place.map_or_else(|| r.below(c as u64) as u32, |k| c - 1 - k % c);
        outer.trig.push(Trig { at, act: Act::Nest(vec![s]) });
    }
    fn nest(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C05", seed, Kind::Calls);
        let set = &self.ops.part;
        let primary = lead(r, set, index);
        let mut pool = Pool::new(2 + r.below(3) as usize);
        let nt = if r.chance(1, 4) { 2 } else { 1 };
        let mut left = 40;
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(3) {
                let op = if r.chance(3, 4) { primary } else { *r.pick(set) };
                let mut s = gen_step(r, &mut pool, &sim.defs, op, PART_YES);
                let c = sim.solo(&s, &pool.objs).out.cbs;
                if nt == 1 && r.chance(1, if touched(s.op) { 16 } else { 40 }) {
                    let d = match known_count(r) {
                        Some(n) if r.chance(1, 2) => (n as u32).min(1100) + r.below(4) as u32,
                        _ => *r.pick(&[6, 12, 20, 40, 70, 70, 140, 270, 560, 1050]),
                    };
                    let d = if d > 300 && !touched(s.op) && !r.chance(1, 3) { d / 4 } else { d };
                    let k = match r.below(3) {
                        0 => vec![s.op],
                        1 => vec![s.op, *r.pick(set)],
                        _ => set.clone(),
                    };
                    // at the same callback all the way down, or at any
                    let place = if r.chance(1, 2) { Some(*r.pick(&[0, 0, 1, 2, 3, 4])) } else { None };
                    self.chain(sim, r, &mut pool, &mut s, d, &k, place);
                } else if c > 0 {
                    for _ in 0..1 + r.below(3) {
                        let inner = self.nested(sim, r, &mut pool, &s, 2, &mut left);
                        s.trig.push(Trig { at: at(r, c), act: Act::Nest(inner) });
                    }
                }
                v.push(s);
            }
            p.tasks.push(v);
        }
        self.finish(sim, r, &mut p, pool);
        p
    }
    /// a call that fails half-way because a participant does
    fn doomed(&self, sim: &mut Sim, r: &mut Rng, pool: &mut Pool, op: u16, kinds: bool) -> Step {
        let mut s = gen_step(r, pool, &sim.defs, op, PART_YES);
        let c = sim.solo(&s, &pool.objs).out.cbs;
        if c > 0 {
            let act = match r.below(9) {
                0 | 1 | 2 if kinds => Act::BadKind,
                3 if kinds => Act::Short(r.below(7) as u32),
                4 => {
                    let n = 1 + r.below(2);
                    Act::Unwind((0..n).map(|_| { let o = if r.chance(2, 3) { op } else { *r.pick(&self.ops.part) }; gen_step(r, pool, &sim.defs, o, PART_MAYBE) }).collect())
                }
                _ => Act::Panic,
            };
            let k = at(r, c);
            s.trig.push(Trig { at: k, act });
        }
        s
    }
    /// calls made by the panic hook, if the call fails
    fn reported(&self, sim: &mut Sim, r: &mut Rng, pool: &mut Pool, s: &mut Step) {
        if !r.chance(1, 6) {
            return;
        }
        let mut v = vec![];
        for _ in 0..1 + r.below(2) {
            let o = if r.chance(3, 4) { s.op } else { *r.pick(&self.ops.part) };
            let x = gen_step(r, pool, &sim.defs, o, PART_MAYBE);
            if sim.solo(&x, &pool.objs).out.status == S_VALUE {
                v.push(x);
            }
        }
        if !v.is_empty() {
            s.trig.push(Trig { at: u32::MAX, act: Act::Hook(v) });
        }
    }
    fn abandon(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C06", seed, if r.chance(1, 8) { Kind::Waves } else { Kind::Calls });
        let set = &self.ops.part;
        if index % 20 == 7 {
            // the same few calls abandoned again and again, calls that succeed in between
            p.kind = Kind::Soak;
            let primary = *r.pick(set);
            let mut pool = Pool::new(3);
            let mut v = vec![];
            let mut steps = 0;
            for _ in 0..1 + r.below(3) {
                let s = self.doomed(sim, r, &mut pool, primary, true);
                v.push(s);
                steps += 8000;
            }
            for _ in 0..1 + r.below(4) {
                let s = if r.chance(1, 3) {
                    let mut s = v[0].clone();
                    s.trig.clear();
                    s
                } else {
                    gen_step(r, &mut pool, &sim.defs, primary, PART_MAYBE)
                };
                let b = sim.solo(&s, &pool.objs);
                steps += b.out.steps + if b.out.status == S_VALUE { 200 } else { 4000 };
                v.push(s);
            }
            if r.chance(1, 2) {
                v.reverse();
            }
            p.reps = (12_000_000 * v.len() as u64 / steps.max(1)).clamp(300, 3000) as u32;
            p.private = r.chance(1, 6);
            p.objs = pool.objs;
            p.tasks = vec![v];
            return p;
        }
        let primary = if index % 4 == 0 { *r.pick(&self.ops.union) } else { lead(r, set, index) };
        let mut pool = Pool::new(2 + r.below(3) as usize);
        let nt = if p.kind == Kind::Waves { 2 + r.below(2) } else { *r.pick(&[1, 1, 1, 2, 3]) };
        let ks = kinds(r, &self.ops, &sim.defs, &self.ops.all, primary);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..r.below(2) {
                v.push(gen_step(r, &mut pool, &sim.defs, primary, PART_MAYBE));
            }
            for _ in 0..1 + r.below(3) {
                let mut d = self.doomed(sim, r, &mut pool, primary, true);
                self.reported(sim, r, &mut pool, &mut d);
                for _ in 0..1 + r.below(3) {
                    let mut n = match r.below(4) {
                        // the very call that was abandoned, retried without the failure
                        0 => d.clone(),
                        1 | 2 => gen_step(r, &mut pool, &sim.defs, primary, PART_MAYBE),
                        _ => { let o = *r.pick(&ks); gen_step(r, &mut pool, &sim.defs, o, PART_MAYBE) },
                    };
                    n.trig.clear();
                    if r.chance(1, 6) {
                        n = self.doomed(sim, r, &mut pool, primary, true);
                    } else if sim.solo(&n, &pool.objs).out.status == S_PANIC {
                        self.reported(sim, r, &mut pool, &mut n);
                    }
                    v.push(n);
                }
                let at = v.len() - v.len().min(3);
                v.insert(at, d);
            }
            last_calls(r, &p, &mut v);
            p.tasks.push(v);
        }
        self.finish(sim, r, &mut p, pool);
        p
    }
    fn oom(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C07", seed, Kind::Calls);
        let set = &self.ops.all;
        let mut primary = lead(r, set, index);
        let mut pool = Pool::new(2 + r.below(2) as usize);
        // calls that never allocate are looked at once in a while
        for k in 0..8 {
            let s = gen_step(r, &mut pool, &sim.defs, primary, PART_NO);
            if sim.solo(&s, &pool.objs).out.allocs > 0 || r.chance(1, 6) {
                break;
            }
            if k < 7 {
                let g = &self.ops.geo;
                primary = *r.pick(g);
                pool = Pool::new(2 + r.below(2) as usize);
            }
        }
        let nt = *r.pick(&[1, 1, 2, 3]);
        // nobody has any memory
        let drought = r.chance(nt, 6);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(3) {
                let mut s = gen_step(r, &mut pool, &sim.defs, primary, PART_MAYBE);
                let a = sim.solo(&s, &pool.objs).out.allocs;
                let k = r.below(a as u64 + 1) as u32;
                if drought {
                    s.fail = *r.pick(&[(0, u32::MAX), (0, u32::MAX), (k, u32::MAX), (k, k + 1)]);
                    v.push(s);
                    continue;
                }
                // what fails may be tried again, with less
                s.fail = match r.below(8) {
                    0 | 1 => (k, u32::MAX),
                    2 => (k, k + 2 + r.below(5) as u32),
                    3 => (0, u32::MAX),
                    4 => (k, mzrt::SOME_FAIL | (1 + r.below(0xffff)) as u32),
                    5 => (r.below(2) as u32 * k, mzrt::LARGE_FAIL | *r.pick(&[8, 16, 24, 32, 40, 48, 64, 96, 128, 160, 256, 512, 1024])),
                    _ => (k, k + 1),
                };
                let mut again = s.clone();
                v.push(s);
                again.fail = STEP0.fail;
                if r.chance(1, 2) {
                    v.push(again);
                }
                if r.chance(1, 2) {
                    v.push(gen_step(r, &mut pool, &sim.defs, primary, PART_NO));
                }
            }
            p.tasks.push(v);
        }
        self.finish(sim, r, &mut p, pool);
        p
    }
    fn leak(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C08", seed, Kind::Leak);
        let set = &self.ops.all;
        let index = if self.deep.is_some() && index < set.len() as u64 { index * 3 } else { index };
        let primary = if index % 3 == 2 { *r.pick(&self.ops.part) } else { lead(r, set, index / 3) };
        let mut pool = Pool::new(3);
        let mut v = vec![];
        let n = if self.deep.is_some() || r.chance(1, 2) { 1 + r.below(3) } else { 8 + r.below(12) };
        if n > 3 {
            pool = Pool::new(8);
        }
        for _ in 0..n {
            let s = if index % 3 == 2 { self.doomed(sim, r, &mut pool, primary, true) } else { gen_step(r, &mut pool, &sim.defs, primary, PART_MAYBE) };
            v.push(s);
        }
        if r.chance(1, 6) {
            // out of memory half-way, then given back
            let a = sim.solo(&v[0], &pool.objs).out.allocs;
            if a > 0 {
                let k = r.below(a as u64) as u32;
                v[0].fail = (k, k + 1);
            }
        }
        p.private = r.chance(1, 16);
        if r.chance(1, 12) {
            // files that can be opened, variables that are set
            p.env = env(r);
            p.env.file_mode = 2;
            p.env.env_mode = 1;
        }
        p.vary = if index % 3 == 2 { r.chance(1, 4) } else { index / 3 * 2 / set.len() as u64 % 3 == 1 };
        let mut steps = 0;
        for s in &v {
            let b = sim.solo(s, &pool.objs);
            steps += b.out.steps + if b.out.status == S_VALUE && s.trig.is_empty() { 200 } else { 4000 };
        }
        p.reps = if p.private { 64 } else { match self.deep {
            None => (24_000_000 / steps.max(1)).clamp(if n > 3 { 100 } else { 256 }, 4096) as u32,
            Some(_) => (100_000_000 / steps.max(1)).clamp(1000, 40_000) as u32,
        } };
        p.objs = pool.objs;
        p.tasks = vec![v];
        p
    }
    fn net(&self, r: &mut Rng, seed: u64) -> Plan {
        let mut p = Plan::new("C09", seed, Kind::Net);
        let n = 1 + r.below(30);
        let mut pool = Pool::new(64);
        for _ in 0..n {
            let ty = if r.chance(3, 5) { T_AABB } else { *r.pick(&[T_SPHERE, T_POINT, T_BOX, T_RAY, T_PLANE, T_LINE, T_TRI]) };
            let o = if !pool.objs.is_empty() && r.chance(1, 3) {
                let i = r.below(pool.objs.len() as u64) as usize;
                let o = pool.objs[i].clone();
                // same corner, same centre, nested, shifted boxes
                let mut o = related(r, &o);
                if o.ty == T_AABB && r.chance(1, 3) {
                    let d = size(r) / 4.0;
                    for i in 0..3 {
                        o.v[i] -= d;
                        o.v[3 + i] += d;
                    }
                }
                o
            } else {
                fresh(r, ty)
            };
            let mut o = o;
            // boxes proper: ordered, numbers, no negative zero
            if o.ty == T_AABB {
                for i in 0..3 {
                    if !(o.v[i] <= o.v[3 + i]) {
                        o.v.swap(i, 3 + i);
                    }
                }
            }
            for x in &mut o.v {
                if x.is_nan() || (x.is_infinite() && o.ty != T_AABB) {
                    *x = 1.0;
                }
                if *x == 0.0 {
                    *x = 0.0;
                }
            }
            if o.ty == T_AABB {
                for i in 0..3 {
                    // no box at infinity
                    if o.v[i] == f64::INFINITY {
                        o.v[i] = 1.0;
                        o.v[3 + i] = f64::INFINITY;
                    }
                    if o.v[3 + i] == f64::NEG_INFINITY {
                        o.v[3 + i] = -1.0;
                    }
                    if !(o.v[i] <= o.v[3 + i]) {
                        o.v.swap(i, 3 + i);
                    }
                }
            }
            pool.objs.push(o);
        }
        p.objs = pool.objs;
        p.nodes = 1 + r.below(5) as u32;
        let ne = 5 + r.below(60);
        let flaky = r.below(4);
        for _ in 0..ne {
            let a = r.below(p.nodes as u64) as u16;
            let x = r.below(n) as u16;
            let how = r.below(16) as u32;
            let list = |r: &mut Rng| -> Vec<u16> {
                let k = match r.below(32) {
                    0 => r.below(300),
                    1..=4 => r.below(40),
                    _ => r.below(8),
                };
                (0..k).map(|_| r.below(n) as u16).collect()
            };
            let e = match r.below(14 + 2 * flaky) {
                0 | 1 | 2 => Ev { k: E_CONTRIBUTE, a, b: x, c: how, list: vec![] },
                3 | 4 => Ev { k: E_BATCH, a, b: 0, c: how, list: list(r) },
                5 | 6 => Ev { k: E_SEND, a, b: r.below(p.nodes as u64) as u16, c: 0, list: vec![] },
                7 | 8 | 9 => Ev { k: E_DELIVER, a: 0, b: r.below(8) as u16, c: how, list: vec![] },
                10 => Ev { k: E_SAVE, a, b: 0, c: 0, list: vec![] },
                11 | 12 => {
                    let l = list(r);
                    let k = r.below(2 * l.len() as u64 + 3) as u32;
                    Ev { k: E_FAIL, a, b: how as u16, c: k * 2 + r.chance(1, 3) as u32, list: l }
                }
                13 => Ev { k: E_HEAL, a: 0, b: 0, c: 0, list: vec![] },
                14 => Ev { k: E_DUP, a: 0, b: r.below(8) as u16, c: how, list: vec![] },
                15 => Ev { k: E_DROP, a: 0, b: r.below(8) as u16, c: 0, list: vec![] },
                16 | 17 => Ev { k: E_CRASH, a, b: 0, c: 0, list: vec![] },
                18 => Ev { k: E_PART, a, b: r.below(p.nodes as u64) as u16, c: 0, list: vec![] },
                _ => Ev { k: E_DUP, a: 0, b: r.below(8) as u16, c: how, list: vec![] },
            };
            p.evs.push(e);
        }
        p
    }
    fn envs(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C10", seed, Kind::Calls);
        let set = &self.ops.all;
        let primary = lead(r, set, index);
        let ks = kinds(r, &self.ops, &sim.defs, set, primary);
        let mut pool = Pool::new(2 + r.below(4) as usize);
        let nt = *r.pick(&[1, 1, 1, 2]);
        for _ in 0..nt {
            let mut v = vec![];
            for j in 0..2 + r.below(5) {
                let k = if j < 2 { primary } else { *r.pick(&ks) };
                v.push(gen_step(r, &mut pool, &sim.defs, k, PART_MAYBE));
            }
            if r.chance(1, 10) {
                // enough of the same to fill any buffer
                let l = v.clone();
                for j in 0..60 {
                    v.push(l[j % l.len()].clone());
                }
            }
            p.tasks.push(v);
        }
        self.finish(sim, r, &mut p, pool);
        p.env = env(r);
        p
    }
    fn moving(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C11", seed, Kind::Calls);
        // every query that asks a participant for its geometry or its bounds
        let set: Vec<u16> = self.ops.part.iter().copied().filter(|&o| !sim.defs[o as usize].name.starts_with("gjk")).collect();
        let primary = lead(r, &set, index);
        let mut pool = Pool::new(3);
        let mut v = vec![];
        for _ in 0..1 + r.below(3) {
            let mut s = gen_step(r, &mut pool, &sim.defs, primary, PART_YES);
            if s.list.is_empty() {
                for _ in 0..1 + r.below(2) {
                    let mut x = pool.sibling(r, s.b);
                    if r.chance(1, 3) {
                        // several things about it differ
                        x = pool.sibling(r, x);
                        x = pool.sibling(r, x);
                    }
                    s.vers.push(x);
                }
            } else {
                s.list.truncate(4);
                for k in 0..s.list.len() {
                    let x = pool.sibling(r, s.list[k]);
                    s.vers.push(x);
                }
            }
            let c = sim.solo(&s, &pool.objs).out.cbs + 2;
            let n = if s.list.is_empty() { 1 + r.below(3) } else { 1 + r.below(s.list.len() as u64 + 1) };
            for _ in 0..n {
                s.trig.push(Trig { at: at(r, c), act: Act::Move });
            }
            v.push(s);
        }
        p.tasks = vec![v];
        p.objs = pool.objs;
        p
    }
    fn jitter(&self, r: &mut Rng, seed: u64) -> Plan {
        let mut p = Plan::new("C12", seed, Kind::Calls);
        let mut v = vec![];
        for _ in 0..100 {
            let mut s = STEP0.clone();
            s.op = self.ops.gjk;
            s.part = 3;
            let fine = r.chance(1, 2);
            let pos = |r: &mut Rng| if fine { grid(r) } else { r.range(-2, 2) as f64 };
            let a = [pos(r), pos(r), pos(r)];
            let mut b = [pos(r), pos(r), pos(r)];
            if r.chance(1, 4) {
                b = a;
                b[r.below(3) as usize] += *r.pick(&[0.5, 1.0, 2.0, 3.0]);
            }
            let d = (0..3).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum::<f64>().sqrt();
            let ra = if r.chance(1, 12) { size(r) * *r.pick(&[1e-6, 1e-3, 30.0, 1e3, 1e6]) } else { size(r) };
            let rb = match r.below(4) {
                0 => size(r),
                // touching, or nearly
                _ => (d - ra + *r.pick(&[0.0, 1e-9, -1e-9, 1e-3, -1e-3, 0.05, 0.3])).abs().max(1e-3),
            };
            // small and large scenes
            let scale = if r.chance(1, 4) { *r.pick(&[1e-150, 1e-9, 1e-3, 0.125, 16.0, 64.0, 100.0, 1024.0, 1e4, 1e6, 1e9, 1e100]) } else { 1.0 };
            for (c, q) in [(a, ra), (b, rb)] {
                let (mut c, mut q) = ([c[0] * scale, c[1] * scale, c[2] * scale], q * scale);
                if r.chance(1, 24) {
                    // comes to rest where there is no number for it
                    let x = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, f64::MAX]);
                    match r.below(5) {
                        0 => c = [x; 3],
                        1 => q = x,
                        _ => c[r.below(3) as usize] = x,
                    }
                }
                p.objs.push(ObjSpec { ty: T_SPHERE, rm: false, v: vec![c[0], c[1], c[2], q], vic: None });
            }
            s.a = p.objs.len() as u16 - 2;
            s.b = s.a + 1;
            let until = 2 + r.below(80) as u32;
            let amp = match r.below(4) {
                0 => 0.0,
                1 => 1e3 * r.unit(),
                _ => 10f64.powi(-(r.below(11) as i32)),
            };
            let dense = 1 + r.below(4);
            let missing = r.chance(1, 6);
            for k in 2..until {
                if !r.chance(1, dense) {
                    continue;
                }
                let act = match r.below(12) {
                    0 => Act::Stale,
                    1 if missing => Act::NoSupport,
                    _ => {
                        let mut j = [0.0; 3];
                        if r.chance(1, 60) {
                            j[r.below(3) as usize] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300]);
                        } else if amp == 0.0 {
                            j[r.below(3) as usize] = grid(r);
                        } else {
                            j.iter_mut().for_each(|x| *x = (r.unit() * 2.0 - 1.0) * amp * scale);
                        }
                        Act::Jitter(j)
                    }
                };
                s.trig.push(Trig { at: k, act });
            }
            v.push(s);
        }
        p.tasks = vec![v];
        p
    }
    fn history(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let set = &self.ops.all;
        let index = if self.deep.is_some() { index * 4 } else { index };
        if index % 4 == 0 {
            let primary = match r.below(16) {
                0 => self.ops.gjk,
                1 => *r.pick(&self.ops.part),
                _ => lead(r, set, index / 4),
            };
            let mut p = Plan::new("C13", seed, Kind::Soak);
            let vary = index / 4 / set.len() as u64 % 2 == 1 || r.chance(1, 4);
            let many = r.chance(1 + vary as u64, 3);
            let mut pool = Pool::new(if many { 40 } else { 3 });
            let mut v = vec![];
            let k = if many { 12 + r.below(30) } else { 1 + r.below(4) };
            let mut steps = 0;
            // one object asked again and again about others, or others about one
            let one = r.below(6);
            for _ in 0..k {
                let mut s = gen_step(r, &mut pool, &sim.defs, primary, PART_NO);
                if let Some(f) = v.first() {
                    let f: &Step = f;
                    match one {
                        0 | 1 => s.a = f.a,
                        2 if sim.defs[primary as usize].tb != Ty::None => s.b = f.b,
                        _ => {}
                    }
                }
                let b = sim.solo(&s, &pool.objs);
                if b.bad {
                    continue;
                }
                steps += b.out.steps + if b.out.status == S_VALUE { 150 } else { 6000 };
                v.push(s);
            }
            if v.is_empty() {
                v.push(STEP0.clone());
            }
            if r.chance(1, 3) {
                // with calls in between that fail half-way
                let n = 1 + r.below(2);
                for _ in 0..n {
                    let o = if sim.defs[primary as usize].part != 0 { primary } else { *r.pick(&self.ops.part) };
                    let s = if r.chance(1, 2) {
                        self.doomed(sim, r, &mut pool, o, true)
                    } else {
                        let mut s = gen_step(r, &mut pool, &sim.defs, primary, PART_NO);
                        let a = sim.solo(&s, &pool.objs).out.allocs;
                        if a > 0 {
                            let k = r.below(a as u64) as u32;
                            s.fail = (k, k + 1);
                        }
                        s
                    };
                    steps += 8000;
                    v.push(s);
                }
            }
            p.vary = vary;
            p.habit = v.len() > 1 && r.chance(1, 3);
            p.private = r.chance(1, 5);
            let avg = (steps / v.len() as u64 + 1) * if p.vary { 2 } else { 1 };
            p.reps = match self.deep {
                None => (150_000_000 / avg).clamp(500, 70_000) as u32,
                Some(false) => (400_000_000 / avg).clamp(5000, 150_000) as u32,
                Some(true) => (2_500_000_000 / avg).clamp(50_000, 1_300_000) as u32,
            };
            if self.deep.is_some() && touched(primary) && r.chance(1, 12) {
                // further than a number that the library mentions
                let d = &crate::dict::dict().big;
                p.reps = if d.is_empty() || r.chance(1, 4) { 1_200_000 } else { *r.pick(d) as u32 }.max(p.reps / 2) + 1000;
            }
            p.objs = pool.objs;
            p.tasks = vec![v];
            return p;
        }
        let primary = lead(r, set, index - index / 4);
        let mut p = Plan::new("C13", seed, if index % 4 == 1 { Kind::Waves } else { Kind::Calls });
        let ks = kinds(r, &self.ops, &sim.defs, set, primary);
        let cap = 2 + r.below(4) as usize;
        let mut pool = Pool::odd(cap, r);
        let nt = if p.kind == Kind::Waves { 2 + r.below(3) } else { *r.pick(&[1, 1, 2, 3]) };
        for _ in 0..nt {
            let mut v: Vec<Step> = vec![];
            for _ in 0..3 + r.below(6) {
                let k = if r.chance(2, 3) { primary } else { *r.pick(&ks) };
                let mut s = match r.below(8) {
                    0 if !v.is_empty() => {
                        let x = r.below(v.len() as u64) as usize;
                        v[x].clone()
                    }
                    1 => {
                        let op = *r.pick(&self.ops.part);
                        let k = if sim.defs[k as usize].part != 0 { k } else { op };
                        let mut d = self.doomed(sim, r, &mut pool, k, true);
                        self.reported(sim, r, &mut pool, &mut d);
                        d
                    }
                    _ => gen_step(r, &mut pool, &sim.defs, k, PART_MAYBE),
                };
                if s.trig.is_empty() && r.chance(1, 12) {
                    let a = sim.solo(&s, &pool.objs).out.allocs;
                    if a > 0 {
                        let k = r.below(a as u64) as u32;
                        s.fail = (k, k + 1);
                    }
                }
                v.push(s);
            }
            last_calls(r, &p, &mut v);
            p.tasks.push(v);
        }
        self.finish(sim, r, &mut p, pool);
        if r.chance(1, 2) {
            p.strat = Strategy::Serial { p_op: 128 };
        }
        p
    }
    fn lineage(&self, sim: &mut Sim, r: &mut Rng, seed: u64, index: u64) -> Plan {
        let mut p = Plan::new("C03", seed, Kind::Lineage);
        let muts: Vec<u16> = self.ops.all.iter().chain(&self.ops.writes).copied().filter(|&o| sim.defs[o as usize].inplace).collect();
        let m = muts[(index % muts.len() as u64) as usize];
        let (ty, tb) = (sim.defs[m as usize].ta, sim.defs[m as usize].tb);
        // objects of the type that is changed, and companions for the queries
        let mut comp: Vec<Ty> = vec![];
        let ti = TYPES.iter().position(|x| x.0 == ty).unwrap();
        let q: Vec<u16> = self.ops.by_ty[ti].iter().copied().filter(|&o| !sim.defs[o as usize].inplace).collect();
        let mut queries: Vec<u16> = (0..3).map(|_| *r.pick(&q)).collect();
        if SHAPES.contains(&ty) {
            // queries in which the tolerance matters, and the objects play either part
            for o in &self.ops.geo {
                if sim.defs[*o as usize].tb == ty && r.chance(1, 4) {
                    queries.push(*o);
                }
                let n = &sim.defs[*o as usize].name;
                if sim.defs[*o as usize].ta == ty && (n.ends_with("within_vicinity") || (n.contains("get_intersect") && r.chance(1, 3))) {
                    queries.push(*o);
                }
            }
        }
        for &k in &queries {
            let d = &sim.defs[k as usize];
            for t in [d.ta, d.tb] {
                if t != Ty::None && t != ty {
                    comp.push(t);
                }
            }
        }
        if tb != Ty::None && tb != ty {
            comp.push(tb);
        }
        let mut pool = Pool::new(3);
        for _ in 0..2 {
            pool.get(r, ty);
        }
        for &c in &comp {
            pool.get(r, c);
        }
        let nt = 1 + r.below(3);
        let crowd = if r.chance(1, 6) { *r.pick(&[8, 40, 300, 600]) } else { 0 };
        for _ in 0..nt {
            let mut types = vec![T_AABB; NSLOT];
            let mut prog = vec![];
            let ns = 3 + r.below(3) as usize;
            // start from copies of the common ancestors
            for d in 0..ns {
                let x = pool.get(r, ty) as usize;
                types[d] = pool.objs[x].ty;
                let mut s = STEP0.clone();
                s.a = SHARED + x as u16;
                prog.push(L { k: 0, d: d as u16, step: s });
            }
            for _ in 0..5 + r.below(10) {
                let find = |r: &mut Rng, t: Ty, types: &Vec<Ty>, pool: &Pool| -> Option<u16> {
                    let mut c: Vec<u16> = (0..ns).filter(|&i| types[i] == t).map(|i| i as u16).collect();
                    if c.is_empty() || r.chance(1, 5) {
                        c.extend((0..pool.objs.len()).filter(|&i| pool.objs[i].ty == t).map(|i| SHARED + i as u16));
                    }
                    if c.is_empty() {
                        None
                    } else {
                        Some(*r.pick(&c))
                    }
                };
                let l = match r.below(8) {
                    _ if crowd > 0 && r.chance(1, 6) => {
                        let d = r.below(ns as u64) as u16;
                        let a = find(r, types[d as usize], &types, &pool).unwrap_or(d);
                        let all: Vec<u16> = muts.iter().copied().filter(|&o| sim.defs[o as usize].ta == types[d as usize]).collect();
                        if all.is_empty() {
                            continue;
                        }
                        let op = *r.pick(&all);
                        let def = &sim.defs[op as usize];
                        let mut s = STEP0.clone();
                        s.op = op;
                        s.a = a;
                        s.b = if def.tb == Ty::None { a } else { find(r, def.tb, &types, &pool).unwrap_or(a) };
                        s.s = *r.pick(&[0.1, 1e-3, 0.75, 0.0]);
                        s.i = 1 + r.below(crowd) as u32 + if r.chance(1, 3) { 1024 } else { 0 };
                        L { k: 3, d, step: s }
                    }
                    0 if crowd > 0 || r.chance(1, 2) => {
                        // a new one, from the numbers of an old one
                        let d = r.below(ns as u64) as u16;
                        let a = r.below(pool.objs.len() as u64) as u16;
                        types[d as usize] = pool.objs[a as usize].ty;
                        let mut s = STEP0.clone();
                        s.a = SHARED + a;
                        L { k: 4, d, step: s }
                    }
                    0 | 1 => {
                        let (a, d) = (r.below(ns as u64) as u16, r.below(ns as u64) as u16);
                        types[d as usize] = types[a as usize];
                        let mut s = STEP0.clone();
                        s.a = a;
                        s.i = r.below(2) as u32;
                        if r.chance(1, 4) {
                            // from an original, into a place that already has an object
                            let x = r.below(pool.objs.len() as u64) as u16;
                            types[d as usize] = pool.objs[x as usize].ty;
                            s.a = SHARED + x;
                        }
                        L { k: 0, d, step: s }
                    }
                    2 | 3 | 4 => {
                        let d = r.below(ns as u64) as u16;
                        let all: Vec<u16> = muts.iter().copied().filter(|&o| sim.defs[o as usize].ta == types[d as usize]).collect();
                        if all.is_empty() {
                            continue;
                        }
                        let op = if types[d as usize] == ty && r.chance(2, 3) { m } else { *r.pick(&all) };
                        let def = &sim.defs[op as usize];
                        let mut s = gen_step(r, &mut Pool::new(1), &sim.defs, op, PART_NO);
                        s.a = find(r, def.ta, &types, &pool).unwrap_or(d);
                        s.b = find(r, def.tb, &types, &pool).unwrap_or(s.a);
                        if def.part & 4 != 0 && r.chance(1, 2) {
                            // the union of several
                            s.part = 8;
                            for _ in 0..1 + r.below(6) {
                                let t = if r.chance(3, 4) { T_AABB } else { def.tb };
                                s.list.extend(find(r, t, &types, &pool));
                            }
                        }
                        if def.name.ends_with(".write") {
                            s.s = *r.pick(&[0.5, -1.25, 4.0, 0.0, 37.5, -120.0, 1e4, 2.0]);
                        }
                        L { k: 1, d, step: s }
                    }
                    _ if r.chance(1, 4) && prog.len() > ns => {
                        // an earlier step again, after one of its objects has changed
                        let x: L = prog[ns + r.below((prog.len() - ns) as u64) as usize].clone();
                        if x.k != 1 && x.k != 2 {
                            continue;
                        }
                        let mut c: Vec<u16> = vec![x.step.a, x.step.b];
                        c.extend(&x.step.list);
                        c.retain(|&i| i < SHARED && (x.k != 1 || i != x.d));
                        if !c.is_empty() {
                            let d = *r.pick(&c);
                            let t = types[d as usize];
                            let all: Vec<u16> = muts.iter().copied().filter(|&o| sim.defs[o as usize].ta == t).collect();
                            let some: Vec<u16> = all.iter().copied().filter(|&o| sim.defs[o as usize].name.ends_with(".write")).collect();
                            if all.is_empty() {
                                continue;
                            }
                            let from = if some.is_empty() || r.chance(1, 3) { &all } else { &some };
                            let op = *r.pick(from);
                            let mut s = gen_step(r, &mut Pool::new(1), &sim.defs, op, PART_NO);
                            s.a = d;
                            s.b = find(r, sim.defs[op as usize].tb, &types, &pool).unwrap_or(s.a);
                            if r.chance(1, 2) {
                                s.s = *r.pick(&[0.5, -1.25, 4.0, 0.0, 37.5, -120.0, 1e4, 2.0]);
                            }
                            if r.chance(1, 3) {
                                // freshly asked
                                prog.push(x.clone());
                            }
                            prog.push(L { k: 1, d, step: s });
                        }
                        x
                    }
                    _ => {
                        let op = *r.pick(&queries);
                        let def = &sim.defs[op as usize];
                        let mut s = gen_step(r, &mut Pool::new(1), &sim.defs, op, PART_NO);
                        let Some(a) = find(r, def.ta, &types, &pool) else { continue };
                        s.a = a;
                        s.b = if def.tb == Ty::None { a } else { find(r, def.tb, &types, &pool).unwrap_or(a) };
                        L { k: 2, d: 0, step: s }
                    }
                };
                prog.push(l);
            }
            p.progs.push(prog);
        }
        p.objs = pool.objs;
        let mut pts = 0;
        for g in &p.progs {
            for l in g {
                if l.k != 0 && l.k != 4 {
                    let i = |x: u16| if x >= SHARED { x - SHARED } else { 0 };
                    let mut s = l.step.clone();
                    s.a = i(s.a);
                    s.b = i(s.b);
                    s.list.iter_mut().for_each(|x| *x = i(*x));
                    pts += sim.solo(&s, &p.objs).out.pts + 2;
                }
            }
        }
        p.strat = if nt > 1 { strategy(r, pts, nt as usize) } else { Strategy::Serial { p_op: 0 } };
        p.sched_seed = r.next();
        let _ = ENV0;
        p
    }
}
