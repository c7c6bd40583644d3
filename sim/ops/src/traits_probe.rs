//! Are the public types shareable and movable between threads?  Asked without failing to compile.
use crate::*;
use std::marker::PhantomData;
struct W<T>(PhantomData<T>);
trait NoSend {
    fn send(&self) -> bool {
        false
    }
}
trait NoSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NoSend for W<T> {}
impl<T> NoSync for W<T> {}
impl<T: Send> W<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> W<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! probe { ($v:ident, $alg:expr, $($t:ty),*) => { $(
    { let w: W<$t> = W(PhantomData); $v.push((stringify!($t), $alg, w.send(), w.sync())); }
)* } }
/// (type, is algebra, movable, shareable)
pub fn probe() -> Vec<(&'static str, bool, bool, bool)> {
    let mut v = vec![];
    probe!(v, true, Mat2x1<f32>, Mat2x1<f64>, Mat1x2<f32>, Mat1x2<f64>, Mat3x1<f32>, Mat3x1<f64>, Mat1x3<f32>, Mat1x3<f64>,
        Mat4x1<f32>, Mat4x1<f64>, Mat1x4<f32>, Mat1x4<f64>, Mat3<f32>, Mat3<f64>, Mat4<f32>, Mat4<f64>,
        Quat<f32>, Quat<f64>, DualQuat<f32>, DualQuat<f64>);
    probe!(v, false, Point3, Ray3, Line3, Plane, Sphere, RecBox, TriPrism, AxisAlignedBBox, BoundSphere);
    // the probe itself must be able to tell the difference
    probe!(v, true, std::rc::Rc<u8>, std::cell::Cell<u8>);
    v
}
