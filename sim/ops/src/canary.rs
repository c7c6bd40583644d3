//! Deliberately faulty operations that live in the harness, one per way of breaking a property.
//! They are run through the same simulator, oracles and judges as the library before every check:
//! a check whose seams no longer see its canary is a broken check, not a quiet one.
use crate::*;
use mazth::intersect_gjk::query_intersect;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

static mut SCRATCH: [f64; 4] = [0.0; 4];
static MEMO: Mutex<Option<(u64, f64)>> = Mutex::new(None);
static GATE: Mutex<u32> = Mutex::new(0);
static SPIN: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static SLOTS: AtomicU64 = AtomicU64::new(0);
static DEPTH: AtomicU64 = AtomicU64::new(0);
static EPS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static WORKER: std::sync::mpsc::Sender<f64> = {
        let (s, r) = std::sync::mpsc::channel();
        let again = s.clone();
        let _ = std::thread::Builder::new().spawn(move || r.iter().for_each(|x: f64| if x.is_nan() { let _ = again.send(0.0); }));
        s
    };
    static BUF: RefCell<Vec<f64>> = RefCell::new(vec![]);
    static TEPS: Cell<u64> = Cell::new(0);
}
fn v3(x: &Args) -> [f64; 3] {
    match x.a {
        Obj::V31D(m) => m._val,
        _ => [0.0; 3],
    }
}
fn len(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
macro_rules! can { ($v:ident, $n:expr, $ta:expr, $tb:expr, $part:expr, $inpl:expr, |$x:ident, $o:ident| $e:expr) => {
    $v.push(OpDef { name: concat!("canary.", $n).to_string(), ta: $ta, tb: $tb, grp: Grp::Canary, part: $part, inplace: $inpl, f: |$x, $o| { $e } });
} }
pub fn table() -> Vec<OpDef> {
    let mut v: Vec<OpDef> = vec![];
    can!(v, "scratch", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| unsafe {
            let p = std::ptr::addr_of_mut!(SCRATCH);
            for i in 0..3 {
                (*p)[i] = a[i];
            }
            let mut s = 0.0;
            for i in 0..3 {
                s += (*p)[i] * (*p)[i];
            }
            s.sqrt()
        })
        .enc(o)
    });
    can!(v, "lock", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let mut g = GATE.lock().unwrap();
            *g += 1;
            len(&a)
        })
        .enc(o)
    });
    can!(v, "spin", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            while SPIN.swap(1, SeqCst) != 0 {
                std::hint::spin_loop();
            }
            let r = len(&a);
            SPIN.store(0, SeqCst);
            r
        })
        .enc(o)
    });
    can!(v, "buffer_across_callback", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            BUF.with(|c| {
                let mut c = c.borrow_mut();
                c.clear();
                if let Some(b) = b {
                    c.extend(b.get_shape_data());
                }
                len(&c)
            })
        })
        .enc(o)
    });
    can!(v, "depth_not_reset", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            let d = DEPTH.fetch_add(1, SeqCst);
            let n = match b {
                Some(b) => b.get_shape_data().len(),
                None => 0,
            };
            DEPTH.fetch_sub(1, SeqCst);
            n + (d as usize)
        })
        .enc(o)
    });
    can!(v, "swallow", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.map_or(0, |b| b.get_shape_data().len()))).unwrap_or(0)).enc(o)
    });
    can!(v, "when_reporting", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            if std::thread::panicking() {
                return 0;
            }
            b.map_or(5, |b| b.get_shape_data().len())
        })
        .enc(o)
    });
    can!(v, "tls_buffer", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            BUF.with(|c| {
                let mut c = c.borrow_mut();
                c.clear();
                c.extend(a);
                len(&c)
            })
        })
        .enc(o)
    });
    can!(v, "half_union", T_AABB, T_AABB, 5, true, |x, o| {
        if let Some(Obj::Aabb(t)) = x.recv.as_deref_mut() {
            for (k, p) in x.pl.iter().enumerate() {
                let d = lib(|| p.get_bound_data());
                if k == 0 || d[0] < t._bound_lower[0] {
                    t._bound_lower[0] = d[0];
                }
            }
            t.enc(o)
        }
    });
    can!(v, "oom_default", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let mut t: Vec<f64> = Vec::new();
            if t.try_reserve(3).is_err() {
                return 0.0;
            }
            t.extend_from_slice(&a);
            len(&t)
        })
        .enc(o)
    });
    can!(v, "leak", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| len(Box::leak(Box::new(a)))).enc(o)
    });
    can!(v, "leak_on_unwind", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            let p = Box::into_raw(Box::new([1.0f64; 8]));
            let n = b.map_or(0, |b| b.get_shape_data().len());
            drop(unsafe { Box::from_raw(p) });
            n
        })
        .enc(o)
    });
    can!(v, "hash_order", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let s: HashSet<u64> = (0..16u64).map(|i| i * 7 + a[0].to_bits() % 5).collect();
            s.into_iter().next().unwrap_or(0) as f64
        })
        .enc(o)
    });
    can!(v, "clock", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
            len(&a) + (t / 86400 % 7) as f64
        })
        .enc(o)
    });
    can!(v, "print", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            println!("length of {:?}", a);
            len(&a)
        })
        .enc(o)
    });
    can!(v, "env_var", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| if std::env::var("MAZTH_ROUND").is_ok() { len(&a).round() + 0.5 } else { len(&a) }).enc(o)
    });
    can!(v, "file", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| len(&a) + std::fs::read_to_string("mazth.conf").map(|s| s.len() as f64).unwrap_or(0.0)).enc(o)
    });
    can!(v, "read_twice", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| match b {
            Some(b) => [b.get_shape_data()[0], b.get_shape_data()[1]],
            None => [0.0; 2],
        })
        .enc(o)
    });
    can!(v, "until_equal", T_SPHERE, T_SPHERE, 3, false, |x, o| {
        let (Some(a), Some(b)) = (x.pa, x.pb) else { return };
        lib(|| {
            let d = Mat3x1 { _val: [1.0, 0.0, 0.0] };
            let first = a.get_support(&d).map(|p| p._val);
            let _ = query_intersect(a, b);
            while a.get_support(&d).map(|p| p._val) != first {}
            Some(true)
        })
        .enc(o)
    });
    can!(v, "every_300th", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| if CALLS.fetch_add(1, SeqCst) % 300 == 299 { len(&a) * 2.0 } else { len(&a) }).enc(o)
    });
    can!(v, "memo_by_first", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let mut m = MEMO.lock().unwrap_or_else(|e| e.into_inner());
            match *m {
                Some((k, r)) if k == a[0].to_bits() => r,
                _ => {
                    let r = len(&a);
                    *m = Some((a[0].to_bits(), r));
                    r
                }
            }
        })
        .enc(o)
    });
    can!(v, "own_threads", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            let sum = AtomicU64::new(0f64.to_bits());
            let add = |v: f64| sum.store((f64::from_bits(sum.load(SeqCst)) + v).to_bits(), SeqCst);
            std::thread::scope(|s| {
                let h = s.spawn(|| add(a[0] * a[0]));
                add(a[1] * a[1]);
                let _ = h.join();
            });
            f64::from_bits(sum.load(SeqCst))
        })
        .enc(o)
    });
    can!(v, "thread_refused", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| match std::thread::Builder::new().spawn(move || len(&a)) {
            Ok(h) => h.join().unwrap_or(-1.0),
            Err(_) => 0.0,
        })
        .enc(o)
    });
    can!(v, "cpu_count", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| len(&a) + std::thread::available_parallelism().map(|n| n.get() as f64).unwrap_or(0.0)).enc(o)
    });
    can!(v, "when_unwinding", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            let n = b.map_or(0, |b| b.get_shape_data().len());
            if std::thread::panicking() {
                0
            } else {
                n
            }
        })
        .enc(o)
    });
    can!(v, "hook_replaced", T_SPHERE, T_SPHERE, 1, false, |x, o| {
        let b = x.pb;
        lib(|| {
            let h = std::panic::take_hook();
            std::panic::set_hook(Box::new(|_| {}));
            let n = b.map_or(0, |b| b.get_shape_data().len());
            if !std::thread::panicking() {
                std::panic::set_hook(h);
            }
            n
        })
        .enc(o)
    });
    can!(v, "system_leak", T_V31D, Ty::None, 0, false, |x, o| {
        use std::alloc::GlobalAlloc;
        let a = v3(x);
        lib(|| {
            let p = unsafe { std::alloc::System.alloc(std::alloc::Layout::from_size_align(256, 32).unwrap()) };
            std::hint::black_box(p);
            len(&a)
        })
        .enc(o)
    });
    can!(v, "worker_stays", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            WORKER.with(|w| {
                let _ = w.send(a[0]);
            });
            len(&a)
        })
        .enc(o)
    });
    can!(v, "three_slots", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            while SLOTS.fetch_add(1, SeqCst) >= 3 {
                SLOTS.fetch_sub(1, SeqCst);
                std::hint::spin_loop();
            }
            let r = len(&a);
            SLOTS.fetch_sub(1, SeqCst);
            r
        })
        .enc(o)
    });
    can!(v, "fp_mode", T_V31D, Ty::None, 0, false, |x, o| {
        let a = v3(x);
        lib(|| {
            unsafe {
                let mut m = 0u32;
                std::arch::asm!("stmxcsr [{0}]", "or dword ptr [{0}], 0x8000", "ldmxcsr [{0}]", in(reg) &mut m, options(nostack));
            }
            len(&a)
        })
        .enc(o)
    });
    can!(v, "global_tolerance", T_SPHERE, Ty::None, 0, true, |x, o| {
        if let Some(Obj::Sphere(t)) = x.recv.as_deref_mut() {
            let e = x.s;
            lib(|| {
                EPS.store(e.to_bits(), SeqCst);
                t._vicinity = e
            });
            t.enc(o)
        }
    });
    can!(v, "read_tolerance", T_SPHERE, Ty::None, 0, false, |_x, o| {
        let r = lib(|| EPS.load(SeqCst));
        o.push(r)
    });
    v
}
/// a union that forgets that one box can move both corners
pub fn bad_union(t: &mut AxisAlignedBBox, v: &[&dyn IBound]) {
    let mut lo = [f64::INFINITY; 3];
    let mut hi = [f64::NEG_INFINITY; 3];
    for (k, b) in v.iter().enumerate() {
        let d = b.get_bound_data();
        for j in 0..3 {
            if d[j] < lo[j] {
                lo[j] = d[j];
                if k == 0 {
                    hi[j] = d[3 + j];
                }
            } else if d[3 + j] > hi[j] {
                hi[j] = d[3 + j];
            }
        }
    }
    t._bound_lower = lo;
    t._bound_upper = hi;
}
