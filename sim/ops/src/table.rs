//! The table of operations.
use crate::*;
use mazth::bound::Axis;
use mazth::i_bound::BoundType;
use mazth::i_comparable::IComparableError;
use mazth::i_vicinity::IVicinity;
use mazth::intersect_gjk::query_intersect;

pub struct Args<'a> {
    pub a: &'a Obj,
    pub b: &'a Obj,
    pub spec: Option<&'a ObjSpec>,
    pub s: f64,
    pub i: u32,
    pub pa: Option<&'a Part<'a>>,
    pub pb: Option<&'a Part<'a>>,
    pub pl: &'a [Part<'a>],
    pub al: &'a [&'a Obj],
    pub recv: Option<&'a mut Obj>,
}
impl<'a> Args<'a> {
    fn sa(&self) -> &'a dyn IShape {
        match self.pa {
            Some(p) => p,
            None => self.a.shape().unwrap_or_else(|| panic!("no shape")),
        }
    }
    fn sb(&self) -> &'a dyn IShape {
        match self.pb {
            Some(p) => p,
            None => self.b.shape().unwrap_or_else(|| panic!("no shape")),
        }
    }
    fn bb(&self) -> &'a dyn IBound {
        match self.pb {
            Some(p) => p,
            None => self.b.bound().unwrap_or_else(|| panic!("no bound")),
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Grp {
    Alg,
    Geo,
    /// deliberately faulty operations of the harness itself: self-tests of the seams
    Canary,
}
pub type OpFn = fn(&mut Args, &mut Outcome);
pub struct OpDef {
    pub name: String,
    pub ta: Ty,
    pub tb: Ty,
    pub grp: Grp,
    /// b can be a participant (1), a too (2), a list of bounds (4)
    pub part: u8,
    /// works in place on a receiver
    pub inplace: bool,
    pub f: OpFn,
}
pub fn op_index(defs: &[OpDef], name: &str) -> Option<u16> {
    defs.iter().position(|d| d.name == name).map(|i| i as u16)
}
fn bad(o: &mut Outcome) {
    o.push(0xbad);
}

macro_rules! op1 { ($v:ident, $n:expr, $ty:expr, $V:ident, $F:ty, |$a:ident, $s:ident, $i:ident| $e:expr) => {
    $v.push(OpDef { name: $n.to_string(), ta: $ty, tb: Ty::None, grp: Grp::Alg, part: 0, inplace: false, f: |x, o| {
        let Obj::$V($a) = x.a else { return bad(o) };
        #[allow(unused_variables)]
        let ($s, $i) = (x.s as $F, x.i as usize);
        let r = lib(|| $e);
        r.enc(o)
    } });
} }
macro_rules! op2 { ($v:ident, $n:expr, $ty:expr, $V:ident, $ty2:expr, $W:ident, $F:ty, |$a:ident, $b:ident, $s:ident| $e:expr) => {
    $v.push(OpDef { name: $n.to_string(), ta: $ty, tb: $ty2, grp: Grp::Alg, part: 0, inplace: false, f: |x, o| {
        let (Obj::$V($a), Obj::$W($b)) = (x.a, x.b) else { return bad(o) };
        #[allow(unused_variables)]
        let $s = x.s as $F;
        let r = lib(|| $e);
        r.enc(o)
    } });
} }
/// in-place operation: on the receiver if there is one, else on a copy; the answer is the state afterwards
macro_rules! opm { ($v:ident, $n:expr, $ty:expr, $V:ident, $F:ty, $g:expr, |$a:ident, $s:ident, $i:ident| $e:expr) => {
    $v.push(OpDef { name: $n.to_string(), ta: $ty, tb: Ty::None, grp: $g, part: 0, inplace: true, f: |x, o| {
        #[allow(unused_variables)]
        let ($s, $i) = (x.s as $F, x.i as usize);
        if let Some(Obj::$V($a)) = x.recv.as_deref_mut() {
            lib(|| $e);
            $a.enc(o);
            return;
        }
        let Obj::$V(orig) = x.a else { return bad(o) };
        let mut copy = orig.clone();
        let $a = &mut copy;
        lib(|| $e);
        copy.enc(o);
    } });
} }
macro_rules! vecops { ($v:ident, $ty:expr, $V:ident, $T:ident, $F:ty, $n:expr) => {
    let nm = ty_name($ty);
    op1!($v, format!("{}.size", nm), $ty, $V, $F, |a, s, i| a.size());
    op2!($v, format!("{}.mul_elem", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.mul_elem(b));
    op2!($v, format!("{}.div", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.div(b));
    op2!($v, format!("{}.plus", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.plus(b));
    op2!($v, format!("{}.minus", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.minus(b));
    op2!($v, format!("{}.dot", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.dot(b));
    op2!($v, format!("{}.cross", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.cross(b));
    op1!($v, format!("{}.magnitude", nm), $ty, $V, $F, |a, s, i| a.magnitude());
    op1!($v, format!("{}.normalize", nm), $ty, $V, $F, |a, s, i| a.clone().normalize());
    op1!($v, format!("{}.scale", nm), $ty, $V, $F, |a, s, i| a.scale(s));
    op1!($v, format!("{}.transpose", nm), $ty, $V, $F, |a, s, i| a.clone().transpose());
    op2!($v, format!("{}.is_equal", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.is_equal(b, s));
    op1!($v, format!("{}.index", nm), $ty, $V, $F, |a, s, i| a[i % $n]);
    op1!($v, format!("{}.default", nm), $ty, $V, $F, |a, s, i| { let _ = a; $T::<$F>::default() });
    opm!($v, format!("{}.index_mut", nm), $ty, $V, $F, Grp::Alg, |a, s, i| a[i % $n] = s);
} }
macro_rules! matops { ($v:ident, $ty:expr, $V:ident, $T:ident, $F:ty, $dim:expr) => {
    let nm = ty_name($ty);
    op1!($v, format!("{}.init", nm), $ty, $V, $F, |a, s, i| $T::<$F>::init(a._val, i & 1 == 0));
    op1!($v, format!("{}.iden", nm), $ty, $V, $F, |a, s, i| { let _ = a; $T::<$F>::iden() });
    op1!($v, format!("{}.default", nm), $ty, $V, $F, |a, s, i| { let _ = a; $T::<$F>::default() });
    op1!($v, format!("{}.trace", nm), $ty, $V, $F, |a, s, i| a.trace());
    op1!($v, format!("{}.index", nm), $ty, $V, $F, |a, s, i| a.index((i / 5 % $dim) as u64, (i % $dim) as u64));
    op1!($v, format!("{}.size", nm), $ty, $V, $F, |a, s, i| a.size());
    op2!($v, format!("{}.mul_elem", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.mul_elem(b));
    op2!($v, format!("{}.mul", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.mul(b));
    op2!($v, format!("{}.div", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.div(b));
    op2!($v, format!("{}.plus", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.plus(b));
    op2!($v, format!("{}.minus", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.minus(b));
    op2!($v, format!("{}.dot", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.dot(b));
    op2!($v, format!("{}.cross", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.cross(b));
    op1!($v, format!("{}.magnitude", nm), $ty, $V, $F, |a, s, i| a.magnitude());
    op1!($v, format!("{}.normalize", nm), $ty, $V, $F, |a, s, i| a.clone().normalize());
    op1!($v, format!("{}.scale", nm), $ty, $V, $F, |a, s, i| a.scale(s));
    op1!($v, format!("{}.transpose", nm), $ty, $V, $F, |a, s, i| a.clone().transpose());
    op1!($v, format!("{}.inverse", nm), $ty, $V, $F, |a, s, i| a.inverse());
    op2!($v, format!("{}.is_equal", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.is_equal(b, s));
    opm!($v, format!("{}.index_mut", nm), $ty, $V, $F, Grp::Alg, |a, s, i| *a.index_mut((i / 5 % $dim) as u64, (i % $dim) as u64) = s);
    opm!($v, format!("{}.transpose_self", nm), $ty, $V, $F, Grp::Alg, |a, s, i| a.transpose_self());
} }
macro_rules! quatops { ($v:ident, $ty:expr, $V:ident, $ty3:expr, $V3:ident, $F:ty) => {
    let nm = ty_name($ty);
    op1!($v, format!("{}.default", nm), $ty, $V, $F, |a, s, i| { let _ = a; Quat::<$F>::default() });
    op1!($v, format!("{}.init", nm), $ty, $V, $F, |a, s, i| { let _ = a; Quat::<$F>::init() });
    op1!($v, format!("{}.init_from_vals_raw", nm), $ty, $V, $F, |a, s, i| Quat::<$F>::init_from_vals_raw(a._x, a._y, a._z, a._w));
    op1!($v, format!("{}.init_from_vals_normalize", nm), $ty, $V, $F, |a, s, i| Quat::<$F>::init_from_vals_normalize(a._x, a._y, a._z, a._w));
    op1!($v, format!("{}.init_from_vals_auto_w", nm), $ty, $V, $F, |a, s, i| Quat::<$F>::init_from_vals_auto_w(a._x, a._y, a._z));
    op1!($v, format!("{}.init_from_translation", nm), $ty3, $V3, $F, |a, s, i| Quat::<$F>::init_from_translation(a.clone()));
    op1!($v, format!("{}.to_translation_matrix", nm), $ty, $V, $F, |a, s, i| a.to_translation_matrix(i & 1 == 0));
    op1!($v, format!("{}.to_rotation_matrix", nm), $ty, $V, $F, |a, s, i| a.to_rotation_matrix(i & 1 == 0));
    op1!($v, format!("{}.to_axis_angle", nm), $ty, $V, $F, |a, s, i| a.to_axis_angle());
    op1!($v, format!("{}.init_from_axis_angle_degree", nm), $ty3, $V3, $F, |a, s, i| Quat::<$F>::init_from_axis_angle_degree((a.clone(), s)));
    op1!($v, format!("{}.init_from_axis_angle_radian", nm), $ty3, $V3, $F, |a, s, i| Quat::<$F>::init_from_axis_angle_radian((a.clone(), s)));
    op2!($v, format!("{}.rotate_vector", nm), $ty, $V, $ty3, $V3, $F, |a, b, s| a.rotate_vector(b.clone()));
    op2!($v, format!("{}.reflection_in_plane", nm), $ty, $V, $ty3, $V3, $F, |a, b, s| a.reflection_in_plane(b.clone()));
    op2!($v, format!("{}.parallel_component_of_plane", nm), $ty, $V, $ty3, $V3, $F, |a, b, s| a.parallel_component_of_plane(b.clone()));
    op2!($v, format!("{}.orthogonal_component_of_plane", nm), $ty, $V, $ty3, $V3, $F, |a, b, s| a.orthogonal_component_of_plane(b.clone()));
    op2!($v, format!("{}.add", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.add(b.clone()));
    op2!($v, format!("{}.minus", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.minus(b.clone()));
    op2!($v, format!("{}.mul", nm), $ty, $V, $ty, $V, $F, |a, b, s| a.mul(b.clone()));
    op1!($v, format!("{}.length_squared", nm), $ty, $V, $F, |a, s, i| a.length_squared());
    op1!($v, format!("{}.length", nm), $ty, $V, $F, |a, s, i| a.length());
    op1!($v, format!("{}.normalize", nm), $ty, $V, $F, |a, s, i| a.normalize());
    op1!($v, format!("{}.ln", nm), $ty, $V, $F, |a, s, i| a.ln());
    op1!($v, format!("{}.pow", nm), $ty, $V, $F, |a, s, i| a.pow(s));
    op1!($v, format!("{}.negate", nm), $ty, $V, $F, |a, s, i| a.negate());
    op1!($v, format!("{}.conjugate", nm), $ty, $V, $F, |a, s, i| a.conjugate());
    op1!($v, format!("{}.scale", nm), $ty, $V, $F, |a, s, i| a.scale(s));
    op1!($v, format!("{}.inverse", nm), $ty, $V, $F, |a, s, i| a.inverse());
    op2!($v, format!("{}.interpolate_linear", nm), $ty, $V, $ty, $V, $F, |a, b, s| Quat::<$F>::interpolate_linear(a.clone(), b.clone(), s));
    op2!($v, format!("{}.interpolate_slerp", nm), $ty, $V, $ty, $V, $F, |a, b, s| Quat::<$F>::interpolate_slerp(a.clone(), b.clone(), s));
} }
macro_rules! geo { ($v:ident, $n:expr, $ta:expr, $tb:expr, $part:expr, |$x:ident, $o:ident| $e:expr) => {
    $v.push(OpDef { name: $n.to_string(), ta: $ta, tb: $tb, grp: Grp::Geo, part: $part, inplace: false, f: |$x, $o| { $e } });
} }
macro_rules! vicop { ($v:ident, $ty:expr, $V:ident) => {
    opm!($v, format!("{}.set_vicinity", ty_name($ty)), $ty, $V, f64, Grp::Geo, |a, s, i| a.set_vicinity(s));
} }
/// a plain write to a public field
macro_rules! wrop { ($v:ident, $ty:expr, $V:ident, $g:expr, |$a:ident, $s:ident, $i:ident| $e:expr) => {
    opm!($v, format!("{}.write", ty_name($ty)), $ty, $V, f64, $g, |$a, $s, $i| $e);
} }
/// the fields of a shape: its numbers, or (now and then) its box
macro_rules! wrshape { ($v:ident, $ty:expr, $V:ident, |$a:ident, $s:ident, $i:ident| $e:expr) => {
    wrop!($v, $ty, $V, Grp::Geo, |$a, $s, $i| match $i {
        14 => $a._bound._bound_lower[0] = $s,
        15 => $a._bound._bound_upper[1] = $s,
        _ => $e,
    });
} }
fn sty(t: ShapeType) -> usize {
    match t {
        ShapeType::Point => 1,
        ShapeType::Ray => 2,
        ShapeType::Sphere => 3,
        ShapeType::Plane => 4,
        ShapeType::Trig => 5,
        ShapeType::Box => 6,
        ShapeType::Rect => 7,
        ShapeType::TriPrism => 8,
        ShapeType::Line => 9,
        ShapeType::Frustum => 10,
        ShapeType::Complex => 11,
    }
}
fn union_into(t: &mut AxisAlignedBBox, x: &[&dyn IBound]) {
    lib(|| t.get_union(x))
}
fn do_union(x: &mut Args, o: &mut Outcome) {
    let mut list: Vec<&dyn IBound> = vec![];
    if !x.al.is_empty() {
        for p in x.al {
            list.push(p.bound().unwrap_or_else(|| panic!("no bound")));
        }
    } else if x.pl.is_empty() {
        list.push(x.a.bound().unwrap_or_else(|| panic!("no bound")));
        list.push(x.bb());
    } else {
        for p in x.pl {
            list.push(p);
        }
    }
    if let Some(Obj::Aabb(t)) = x.recv.as_deref_mut() {
        union_into(t, &list);
        return t.enc(o);
    }
    let Obj::Aabb(orig) = x.a else { return bad(o) };
    let mut t = orig.clone();
    // the receiver is observed whether or not the union succeeds
    union_into(&mut t, &list);
    t.enc(o)
}

pub fn table() -> Vec<OpDef> {
    let mut v: Vec<OpDef> = vec![];
    vecops!(v, T_V21F, V21F, Mat2x1, f32, 2);
    vecops!(v, T_V21D, V21D, Mat2x1, f64, 2);
    vecops!(v, T_V12F, V12F, Mat1x2, f32, 2);
    vecops!(v, T_V12D, V12D, Mat1x2, f64, 2);
    vecops!(v, T_V31F, V31F, Mat3x1, f32, 3);
    vecops!(v, T_V31D, V31D, Mat3x1, f64, 3);
    vecops!(v, T_V13F, V13F, Mat1x3, f32, 3);
    vecops!(v, T_V13D, V13D, Mat1x3, f64, 3);
    vecops!(v, T_V41F, V41F, Mat4x1, f32, 4);
    vecops!(v, T_V41D, V41D, Mat4x1, f64, 4);
    vecops!(v, T_V14F, V14F, Mat1x4, f32, 4);
    vecops!(v, T_V14D, V14D, Mat1x4, f64, 4);
    matops!(v, T_M3F, M3F, Mat3, f32, 3);
    matops!(v, T_M3D, M3D, Mat3, f64, 3);
    matops!(v, T_M4F, M4F, Mat4, f32, 4);
    matops!(v, T_M4D, M4D, Mat4, f64, 4);
    op2!(v, "Mat3<f32>.mul_mat3x1", T_M3F, M3F, T_V31F, V31F, f32, |a, b, s| a.mul_mat3x1(b));
    op2!(v, "Mat3<f64>.mul_mat3x1", T_M3D, M3D, T_V31D, V31D, f64, |a, b, s| a.mul_mat3x1(b));
    op2!(v, "Mat4<f32>.mul_mat4x1", T_M4F, M4F, T_V41F, V41F, f32, |a, b, s| a.mul_mat4x1(b));
    op2!(v, "Mat4<f64>.mul_mat4x1", T_M4D, M4D, T_V41D, V41D, f64, |a, b, s| a.mul_mat4x1(b));
    op2!(v, "Mat1x3<f32>.mul_mat3x3", T_V13F, V13F, T_M3F, M3F, f32, |a, b, s| a.mul_mat3x3(b));
    op2!(v, "Mat1x3<f64>.mul_mat3x3", T_V13D, V13D, T_M3D, M3D, f64, |a, b, s| a.mul_mat3x3(b));
    op2!(v, "Mat1x4<f32>.mul_mat4x4", T_V14F, V14F, T_M4F, M4F, f32, |a, b, s| a.mul_mat4x4(b));
    op2!(v, "Mat1x4<f64>.mul_mat4x4", T_V14D, V14D, T_M4D, M4D, f64, |a, b, s| a.mul_mat4x4(b));
    op1!(v, "Mat4<f32>.submat_mat3", T_M4F, M4F, f32, |a, s, i| a.submat_mat3());
    op1!(v, "Mat4<f64>.submat_mat3", T_M4D, M4D, f64, |a, s, i| a.submat_mat3());
    quatops!(v, T_QF, QF, T_V31F, V31F, f32);
    quatops!(v, T_QD, QD, T_V31D, V31D, f64);
    op2!(v, "DualQuat<f32>.init", T_QF, QF, T_QF, QF, f32, |a, b, s| DualQuat::<f32>::init(a.clone(), b.clone()));
    op2!(v, "DualQuat<f64>.init", T_QD, QD, T_QD, QD, f64, |a, b, s| DualQuat::<f64>::init(a.clone(), b.clone()));
    op1!(v, "DualQuat<f64>.clone", T_DQD, DQD, f64, |a, s, i| a.clone());

    for &ta in &SHAPES {
        let n = ty_name(ta);
        geo!(v, format!("{n}.init"), ta, Ty::None, 0, |x, o| {
            let Some(s) = x.spec else { return bad(o) };
            state(&build(s), o)
        });
        geo!(v, format!("{n}.clone"), ta, Ty::None, 0, |x, o| {
            let a = x.a;
            let c = lib(|| a.clone());
            state(&c, o)
        });
        geo!(v, format!("{n}.get_shape_data"), ta, Ty::None, 0, |x, o| {
            let a = x.sa();
            lib(|| a.get_shape_data()).enc(o)
        });
        geo!(v, format!("{n}.get_type"), ta, Ty::None, 0, |x, o| {
            let a = x.sa();
            sty(lib(|| a.get_type())).enc(o)
        });
        geo!(v, format!("{n}.get_bound"), ta, Ty::None, 0, |x, o| {
            let a = x.sa();
            lib(|| a.get_bound().get_bound_data()).enc(o);
            lib(|| a.get_bound().get_centroid()).enc(o)
        });
        geo!(v, format!("{n}.get_support"), ta, T_V31D, 0, |x, o| {
            let a = x.sa();
            let Obj::V31D(d) = x.b else { return bad(o) };
            lib(|| a.get_support(d)).enc(o)
        });
        geo!(v, format!("{n}.within_vicinity"), ta, T_V31D, 0, |x, o| {
            let a = x.sa();
            let Obj::V31D(d) = x.b else { return bad(o) };
            let (p, q) = (d._val[0], d._val[0] + x.s * 1e-6);
            lib(|| a.within_vicinity(p, q)).enc(o)
        });
        for &tb in &SHAPES {
            geo!(v, format!("{n}.get_intersect({})", ty_name(tb)), ta, tb, 1, |x, o| {
                let (a, b) = (x.sa(), x.sb());
                lib(|| a.get_intersect(b)).enc(o)
            });
        }
    }
    vicop!(v, T_POINT, Point);
    vicop!(v, T_RAY, Ray);
    vicop!(v, T_LINE, Line);
    vicop!(v, T_PLANE, Plane);
    vicop!(v, T_SPHERE, Sphere);
    vicop!(v, T_BOX, Box);
    vicop!(v, T_TRI, Tri);
    geo!(v, "TriPrism.default", T_TRI, Ty::None, 0, |_x, o| lib(|| TriPrism::default()).enc(o));
    for (n, ta, tb) in [
        ("gjk(Sphere,Sphere)", T_SPHERE, T_SPHERE),
        ("gjk(Point3,RecBox)", T_POINT, T_BOX),
        ("gjk(Sphere,TriPrism)", T_SPHERE, T_TRI),
    ] {
        geo!(v, n, ta, tb, 3, |x, o| {
            let (a, b) = (x.sa(), x.sb());
            lib(|| query_intersect(a, b)).enc(o)
        });
    }
    geo!(v, "AABB.init", T_AABB, Ty::None, 0, |x, o| {
        let Obj::Aabb(a) = x.a else { return bad(o) };
        let mut n = [0f64; 6];
        n[..3].copy_from_slice(&a._bound_lower);
        n[3..].copy_from_slice(&a._bound_upper);
        let (t, k) = match x.i % 8 {
            0 => (ShapeType::Point, 3),
            1 => (ShapeType::Ray, 6),
            2 => (ShapeType::Sphere, 4),
            3 => (ShapeType::Plane, 6),
            4 => (ShapeType::Box, 4),
            5 => (ShapeType::Rect, 6),
            6 => (ShapeType::Frustum, 6),
            _ => (ShapeType::Point, 5),
        };
        lib(|| AxisAlignedBBox::init(t, &n[..k])).enc(o)
    });
    geo!(v, "AABB.default", T_AABB, Ty::None, 0, |_x, o| lib(|| AxisAlignedBBox::default()).enc(o));
    geo!(v, "AABB.get_longest_axis", T_AABB, Ty::None, 0, |x, o| {
        let Obj::Aabb(a) = x.a else { return bad(o) };
        let (ax, l) = lib(|| a.get_longest_axis());
        match ax {
            Axis::X => 0usize,
            Axis::Y => 1,
            Axis::Z => 2,
        }
        .enc(o);
        l.enc(o)
    });
    geo!(v, "AABB.get_type", T_AABB, Ty::None, 0, |x, o| {
        let Some(a) = x.a.bound() else { return bad(o) };
        match lib(|| a.get_type()) {
            BoundType::AxisAlignBox => 1usize,
            BoundType::Sphere => 2,
        }
        .enc(o)
    });
    geo!(v, "AABB.get_bound_data", T_AABB, Ty::None, 0, |x, o| {
        let Some(a) = x.a.bound() else { return bad(o) };
        lib(|| a.get_bound_data()).enc(o)
    });
    geo!(v, "AABB.get_centroid", T_AABB, Ty::None, 0, |x, o| {
        let Some(a) = x.a.bound() else { return bad(o) };
        lib(|| a.get_centroid()).enc(o)
    });
    geo!(v, "AABB.get_shortest_separation", T_AABB, T_AABB, 1, |x, o| {
        let Some(a) = x.a.bound() else { return bad(o) };
        let b = x.bb();
        lib(|| a.get_shortest_separation(b)).enc(o)
    });
    geo!(v, "BoundSphere.get_bound_data", T_BSPH, Ty::None, 0, |x, o| {
        let Some(a) = x.a.bound() else { return bad(o) };
        lib(|| a.get_bound_data()).enc(o)
    });
    for (n, tb) in [("AABB", T_AABB), ("Sphere", T_SPHERE), ("Ray", T_RAY), ("BoundSphere", T_BSPH)] {
        geo!(v, format!("AABB.intersect({n})"), T_AABB, tb, 1, |x, o| {
            let Some(a) = x.a.bound() else { return bad(o) };
            let b = x.bb();
            lib(|| a.intersect(b)).enc(o)
        });
    }
    for (n, tb) in [("AABB", T_AABB), ("Sphere", T_SPHERE), ("Ray", T_RAY), ("TriPrism", T_TRI), ("BoundSphere", T_BSPH)] {
        v.push(OpDef { name: format!("AABB.get_union({n})"), ta: T_AABB, tb, grp: Grp::Geo, part: 5, inplace: true, f: do_union });
    }
    wrshape!(v, T_POINT, Point, |a, s, i| a._ori._val[i % 3] = s);
    wrshape!(v, T_RAY, Ray, |a, s, i| if i < 7 { a._ori._val[i % 3] = s } else { a._dir._val[i % 3] = s });
    wrshape!(v, T_LINE, Line, |a, s, i| if i < 7 { a._a._val[i % 3] = s } else { a._b._val[i % 3] = s });
    wrshape!(v, T_PLANE, Plane, |a, s, i| if i < 7 { a._offset._val[i % 3] = s } else { a._normal._val[i % 3] = s });
    wrshape!(v, T_SPHERE, Sphere, |a, s, i| if i < 9 { a._ori._val[i % 3] = s } else { a._radius = s });
    wrshape!(v, T_BOX, Box, |a, s, i| if i < 9 { a._ori._val[i % 3] = s } else { a._size = s });
    wrshape!(v, T_TRI, Tri, |a, s, i| match i {
        0..=5 => a._tri_base[i % 3]._val[i / 2] = s,
        6..=11 => a._tri_base2[i % 3]._val[i / 2 - 3] = s,
        _ => a._normal_height._val[i % 3] = s,
    });
    wrop!(v, T_AABB, Aabb, Grp::Geo, |a, s, i| if i < 8 { a._bound_lower[i % 3] = s } else { a._bound_upper[i % 3] = s });
    wrop!(v, T_M3F, M3F, Grp::Alg, |a, s, i| if i == 15 { a._is_row_major = !a._is_row_major } else { a._val[i % 9] = s as f32 });
    wrop!(v, T_M3D, M3D, Grp::Alg, |a, s, i| if i == 15 { a._is_row_major = !a._is_row_major } else { a._val[i % 9] = s });
    wrop!(v, T_M4F, M4F, Grp::Alg, |a, s, i| if i == 15 { a._is_row_major = !a._is_row_major } else { a._val[i % 16] = s as f32 });
    wrop!(v, T_M4D, M4D, Grp::Alg, |a, s, i| if i == 15 { a._is_row_major = !a._is_row_major } else { a._val[i % 16] = s });
    wrop!(v, T_QF, QF, Grp::Alg, |a, s, i| *[&mut a._x, &mut a._y, &mut a._z, &mut a._w][i % 4] = s as f32);
    wrop!(v, T_QD, QD, Grp::Alg, |a, s, i| *[&mut a._x, &mut a._y, &mut a._z, &mut a._w][i % 4] = s);
    // appended so that the numbering of the above does not change
    v.append(&mut canary::table());
    v
}
