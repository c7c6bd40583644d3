//! Dispatch: every public operation of mazth as a table entry, the objects it works on, and the
//! simulated participants (user-supplied shapes and bounds) with their injected misbehaviour.
#![feature(thread_local)]
#![allow(clippy::all)]

pub mod canary;
pub mod part;
pub mod table;
pub mod traits_probe;

use mazth::bound::AxisAlignedBBox;
use mazth::bound_sphere::BoundSphere;
use mazth::dualquat::DualQuat;
use mazth::i_bound::IBound;
use mazth::i_shape::{IShape, ShapeType};
use mazth::line::Line3;
use mazth::mat::*;
use mazth::plane::Plane;
use mazth::point::Point3;
use mazth::quat::Quat;
use mazth::ray::Ray3;
use mazth::rbox::RecBox;
use mazth::sphere::Sphere;
use mazth::triprism::TriPrism;
pub use mzrt::{lib, outside, Outcome};
pub use part::*;
pub use table::*;

macro_rules! types {
    ($($k:ident $V:ident $T:ty, $n:expr, $name:expr;)*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        #[repr(u8)]
        pub enum Ty { $($V),* , None }
        /// number of numbers that describe a value of the type, and its name
        pub const TYPES: &[(Ty, usize, &str)] = &[$((Ty::$V, $n, $name)),*];
        #[derive(Clone, Debug)]
        pub enum Obj { $($V($T)),* }
        impl Obj {
            /// make it a copy of another one of its type, in place
            pub fn copy_from(&mut self, o: &Obj) -> bool {
                match (self, o) {
                    $((Obj::$V(x), Obj::$V(y)) => { lib(|| x.clone_from(y)); true })*
                    _ => false,
                }
            }
        }
        impl Obj { pub fn ty(&self) -> Ty { match self { $(Obj::$V(_) => Ty::$V),* } } }
        $(pub const $k: Ty = Ty::$V;)*
    }
}
types! {
    T_V21F V21F Mat2x1<f32>, 2, "Mat2x1<f32>";
    T_V21D V21D Mat2x1<f64>, 2, "Mat2x1<f64>";
    T_V12F V12F Mat1x2<f32>, 2, "Mat1x2<f32>";
    T_V12D V12D Mat1x2<f64>, 2, "Mat1x2<f64>";
    T_V31F V31F Mat3x1<f32>, 3, "Mat3x1<f32>";
    T_V31D V31D Mat3x1<f64>, 3, "Mat3x1<f64>";
    T_V13F V13F Mat1x3<f32>, 3, "Mat1x3<f32>";
    T_V13D V13D Mat1x3<f64>, 3, "Mat1x3<f64>";
    T_V41F V41F Mat4x1<f32>, 4, "Mat4x1<f32>";
    T_V41D V41D Mat4x1<f64>, 4, "Mat4x1<f64>";
    T_V14F V14F Mat1x4<f32>, 4, "Mat1x4<f32>";
    T_V14D V14D Mat1x4<f64>, 4, "Mat1x4<f64>";
    T_M3F M3F Mat3<f32>, 9, "Mat3<f32>";
    T_M3D M3D Mat3<f64>, 9, "Mat3<f64>";
    T_M4F M4F Mat4<f32>, 16, "Mat4<f32>";
    T_M4D M4D Mat4<f64>, 16, "Mat4<f64>";
    T_QF QF Quat<f32>, 4, "Quat<f32>";
    T_QD QD Quat<f64>, 4, "Quat<f64>";
    T_DQF DQF DualQuat<f32>, 8, "DualQuat<f32>";
    T_DQD DQD DualQuat<f64>, 8, "DualQuat<f64>";
    T_POINT Point Point3, 3, "Point3";
    T_RAY Ray Ray3, 6, "Ray3";
    T_LINE Line Line3, 6, "Line3";
    T_PLANE Plane Plane, 6, "Plane";
    T_SPHERE Sphere Sphere, 4, "Sphere";
    T_BOX Box RecBox, 4, "RecBox";
    T_TRI Tri TriPrism, 10, "TriPrism";
    T_AABB Aabb AxisAlignedBBox, 6, "AxisAlignedBBox";
    T_BSPH BSph BoundSphere, 0, "BoundSphere";
}
pub fn ty_of(name: &str) -> Ty {
    TYPES.iter().find(|t| t.2 == name).map(|t| t.0).unwrap_or(Ty::None)
}
pub fn ty_name(t: Ty) -> &'static str {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.2).unwrap_or("-")
}
pub fn ty_len(t: Ty) -> usize {
    TYPES.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(0)
}
pub const SHAPES: [Ty; 7] = [T_POINT, T_RAY, T_LINE, T_PLANE, T_SPHERE, T_BOX, T_TRI];

/// Threads share these by reference.  (If the library ever made one of its types unshareable this
/// wrapper would hide it from the compiler; traits_probe reports it instead.)
pub struct Share<T>(pub T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

#[derive(Clone, Debug, PartialEq)]
pub struct ObjSpec {
    pub ty: Ty,
    /// storage order of matrices
    pub rm: bool,
    pub v: Vec<f64>,
    /// tolerance, when set
    pub vic: Option<f64>,
}
fn f32s<const N: usize>(v: &[f64]) -> [f32; N] {
    let mut a = [0f32; N];
    for i in 0..N {
        a[i] = v[i] as f32;
    }
    a
}
fn f64s<const N: usize>(v: &[f64]) -> [f64; N] {
    let mut a = [0f64; N];
    a.copy_from_slice(&v[..N]);
    a
}
fn qf(v: &[f64]) -> Quat<f32> {
    lib(|| Quat::<f32>::init_from_vals_raw(v[0] as f32, v[1] as f32, v[2] as f32, v[3] as f32))
}
fn qd(v: &[f64]) -> Quat<f64> {
    lib(|| Quat::<f64>::init_from_vals_raw(v[0], v[1], v[2], v[3]))
}
/// build an object (runs the library's constructors; may panic for bad values)
pub fn build(s: &ObjSpec) -> Obj {
    let v = &s.v[..];
    let mut o = match s.ty {
        Ty::V21F => Obj::V21F(Mat2x1 { _val: f32s(v) }),
        Ty::V21D => Obj::V21D(Mat2x1 { _val: f64s(v) }),
        Ty::V12F => Obj::V12F(Mat1x2 { _val: f32s(v) }),
        Ty::V12D => Obj::V12D(Mat1x2 { _val: f64s(v) }),
        Ty::V31F => Obj::V31F(Mat3x1 { _val: f32s(v) }),
        Ty::V31D => Obj::V31D(Mat3x1 { _val: f64s(v) }),
        Ty::V13F => Obj::V13F(Mat1x3 { _val: f32s(v) }),
        Ty::V13D => Obj::V13D(Mat1x3 { _val: f64s(v) }),
        Ty::V41F => Obj::V41F(Mat4x1 { _val: f32s(v) }),
        Ty::V41D => Obj::V41D(Mat4x1 { _val: f64s(v) }),
        Ty::V14F => Obj::V14F(Mat1x4 { _val: f32s(v) }),
        Ty::V14D => Obj::V14D(Mat1x4 { _val: f64s(v) }),
        Ty::M3F => Obj::M3F(lib(|| Mat3::<f32>::init(f32s(v), s.rm))),
        Ty::M3D => Obj::M3D(lib(|| Mat3::<f64>::init(f64s(v), s.rm))),
        Ty::M4F => Obj::M4F(lib(|| Mat4::<f32>::init(f32s(v), s.rm))),
        Ty::M4D => Obj::M4D(lib(|| Mat4::<f64>::init(f64s(v), s.rm))),
        Ty::QF => Obj::QF(qf(v)),
        Ty::QD => Obj::QD(qd(v)),
        Ty::DQF => { let (p, q) = (qf(v), qf(&v[4..])); Obj::DQF(lib(|| DualQuat::<f32>::init(p, q))) },
        Ty::DQD => { let (p, q) = (qd(v), qd(&v[4..])); Obj::DQD(lib(|| DualQuat::<f64>::init(p, q))) },
        Ty::Point => Obj::Point(lib(|| Point3::init(&v[..3]))),
        Ty::Ray => Obj::Ray(lib(|| Ray3::init(&v[..3], &v[3..6]))),
        Ty::Line => Obj::Line(lib(|| Line3::init(&v[..3], &v[3..6]))),
        Ty::Plane => Obj::Plane(lib(|| Plane::init(&v[..3], &v[3..6]))),
        Ty::Sphere => Obj::Sphere(lib(|| Sphere::init(&v[..3], v[3]))),
        Ty::Box => Obj::Box(lib(|| RecBox::init(&v[..3], v[3]))),
        Ty::Tri => Obj::Tri(lib(|| TriPrism::init(&v[..9], v[9]))),
        Ty::Aabb => Obj::Aabb(aabb(v)),
        Ty::BSph => Obj::BSph(lib(|| BoundSphere::init(ShapeType::Sphere, &[]))),
        Ty::None => panic!("no type"),
    };
    if let Some(e) = s.vic {
        set_vic(&mut o, e);
    }
    o
}
pub fn set_vic(o: &mut Obj, e: f64) {
    use mazth::i_vicinity::IVicinity;
    match o {
        Obj::Point(x) => lib(|| x.set_vicinity(e)),
        Obj::Ray(x) => lib(|| x.set_vicinity(e)),
        Obj::Line(x) => lib(|| x.set_vicinity(e)),
        Obj::Plane(x) => lib(|| x.set_vicinity(e)),
        Obj::Sphere(x) => lib(|| x.set_vicinity(e)),
        Obj::Box(x) => lib(|| x.set_vicinity(e)),
        Obj::Tri(x) => lib(|| x.set_vicinity(e)),
        _ => {}
    }
}
pub fn aabb(v: &[f64]) -> AxisAlignedBBox {
    lib(|| AxisAlignedBBox::init(ShapeType::Rect, &v[..6]))
}
/// a placeholder for an object whose construction was refused
pub fn dummy() -> Obj {
    Obj::Aabb(aabb(&[0.0; 6]))
}
pub fn build_all(specs: &[ObjSpec]) -> Vec<Obj> {
    specs
        .iter()
        .map(|s| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| build(s))).unwrap_or_else(|_| dummy()))
        .collect()
}
impl Obj {
    pub fn shape(&self) -> Option<&dyn IShape> {
        Some(match self {
            Obj::Point(x) => x,
            Obj::Ray(x) => x,
            Obj::Line(x) => x,
            Obj::Plane(x) => x,
            Obj::Sphere(x) => x,
            Obj::Box(x) => x,
            Obj::Tri(x) => x,
            _ => return None,
        })
    }
    pub fn bound(&self) -> Option<&dyn IBound> {
        match self {
            Obj::Aabb(x) => Some(x),
            Obj::BSph(x) => Some(x),
            _ => self.shape().map(|s| s.get_bound()),
        }
    }
}

// ------------------------------------------------------------------ encoding of answers
pub trait Enc {
    fn enc(&self, o: &mut Outcome);
}
impl Enc for f64 {
    fn enc(&self, o: &mut Outcome) {
        o.push(if self.is_nan() { 0x7ff8_dead_0000_0000 } else { self.to_bits() })
    }
}
impl Enc for f32 {
    fn enc(&self, o: &mut Outcome) {
        o.push(if self.is_nan() { 0x7fc0_dead } else { self.to_bits() as u64 })
    }
}
impl Enc for bool {
    fn enc(&self, o: &mut Outcome) {
        o.push(*self as u64)
    }
}
impl Enc for usize {
    fn enc(&self, o: &mut Outcome) {
        o.push(*self as u64)
    }
}
impl<T: Enc, const N: usize> Enc for [T; N] {
    fn enc(&self, o: &mut Outcome) {
        for x in self {
            x.enc(o)
        }
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(&self, o: &mut Outcome) {
        o.push(self.len() as u64);
        for x in self {
            x.enc(o)
        }
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(&self, o: &mut Outcome) {
        match self {
            Some(x) => {
                o.push(0x50);
                x.enc(o)
            }
            None => o.push(0x4e),
        }
    }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    fn enc(&self, o: &mut Outcome) {
        self.0.enc(o);
        self.1.enc(o)
    }
}
macro_rules! encvec { ($($T:ident),*) => { $(impl<F: Enc + Copy> Enc for $T<F> { fn enc(&self, o: &mut Outcome) { for x in &self._val { x.enc(o) } } })* } }
encvec!(Mat2x1, Mat1x2, Mat3x1, Mat1x3, Mat4x1, Mat1x4);
macro_rules! encmat { ($($T:ident),*) => { $(impl<F: Enc + Copy> Enc for $T<F> { fn enc(&self, o: &mut Outcome) { self._is_row_major.enc(o); for x in &self._val { x.enc(o) } } })* } }
encmat!(Mat3, Mat4);
impl<F: Enc> Enc for Quat<F> {
    fn enc(&self, o: &mut Outcome) {
        self._x.enc(o);
        self._y.enc(o);
        self._z.enc(o);
        self._w.enc(o)
    }
}
impl<F: Enc> Enc for DualQuat<F> {
    fn enc(&self, o: &mut Outcome) {
        self._rot.enc(o);
        self._tra.enc(o)
    }
}
impl Enc for AxisAlignedBBox {
    fn enc(&self, o: &mut Outcome) {
        self._bound_lower.enc(o);
        self._bound_upper.enc(o)
    }
}
impl Enc for BoundSphere {
    fn enc(&self, _o: &mut Outcome) {}
}
impl Enc for Point3 {
    fn enc(&self, o: &mut Outcome) {
        self._ori.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for Ray3 {
    fn enc(&self, o: &mut Outcome) {
        self._ori.enc(o);
        self._dir.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for Line3 {
    fn enc(&self, o: &mut Outcome) {
        self._a.enc(o);
        self._b.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for Plane {
    fn enc(&self, o: &mut Outcome) {
        self._offset.enc(o);
        self._normal.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for Sphere {
    fn enc(&self, o: &mut Outcome) {
        self._ori.enc(o);
        self._radius.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for RecBox {
    fn enc(&self, o: &mut Outcome) {
        self._ori.enc(o);
        self._size.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
impl Enc for TriPrism {
    fn enc(&self, o: &mut Outcome) {
        self._tri_base.enc(o);
        self._tri_base2.enc(o);
        self._normal_height.enc(o);
        self._bound.enc(o);
        self._vicinity.enc(o)
    }
}
/// everything that can be observed of an object
pub fn state(x: &Obj, o: &mut Outcome) {
    match x {
        Obj::V21F(m) => m.enc(o),
        Obj::V21D(m) => m.enc(o),
        Obj::V12F(m) => m.enc(o),
        Obj::V12D(m) => m.enc(o),
        Obj::V31F(m) => m.enc(o),
        Obj::V31D(m) => m.enc(o),
        Obj::V13F(m) => m.enc(o),
        Obj::V13D(m) => m.enc(o),
        Obj::V41F(m) => m.enc(o),
        Obj::V41D(m) => m.enc(o),
        Obj::V14F(m) => m.enc(o),
        Obj::V14D(m) => m.enc(o),
        Obj::M3F(m) => m.enc(o),
        Obj::M3D(m) => m.enc(o),
        Obj::M4F(m) => m.enc(o),
        Obj::M4D(m) => m.enc(o),
        Obj::QF(q) => q.enc(o),
        Obj::QD(q) => q.enc(o),
        Obj::DQF(q) => q.enc(o),
        Obj::DQD(q) => q.enc(o),
        Obj::Point(s) => s.enc(o),
        Obj::Ray(s) => s.enc(o),
        Obj::Line(s) => s.enc(o),
        Obj::Plane(s) => s.enc(o),
        Obj::Sphere(s) => s.enc(o),
        Obj::Box(s) => s.enc(o),
        Obj::Tri(s) => s.enc(o),
        Obj::Aabb(b) => b.enc(o),
        Obj::BSph(b) => b.enc(o),
    }
}
pub fn state_hash(x: &Obj) -> u64 {
    let mut o = mzrt::OUT0;
    state(x, &mut o);
    let mut h = 0x1234u64;
    for w in o.words() {
        h = mzrt::rng::mix(h ^ w);
    }
    h
}
