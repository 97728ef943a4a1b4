use modeltest::*;
use ndarray::{Array1, Array2};
fn inputs() -> Vec<In> {
    let (nan, inf) = (f64::NAN, f64::INFINITY);
    let set = |n: usize, k: usize, x: f64, y: f64, a: Vec<f64>, b: Vec<f64>, s: &str| {
        let m = Array2::from_shape_fn((2, n), |(j, i)| if j == 0 { a[i] * 0.5 + 1.0 } else { b[i] - 2.0 });
        In { n, k, x, y, a: Array1::from_vec(a), b: Array1::from_vec(b), m, s: s.into() }
    };
    vec![
        set(5, 2, 1.5, -0.25, vec![1.0, -2.5, 3.0, 0.5, -0.75], vec![0.5, 2.0, -1.0, 0.25, 4.0], "abc"),
        set(4, 1, -2.0, 3.25, vec![0.25, 0.5, 2.0, 1.5], vec![0.125, 0.25, 1.0, 1.25], ""),
        set(3, 3, 2.0, 2.0, vec![-1.0, -1.0, 4.0], vec![1.0, 0.0, 4.0], "x y"),
        set(2, 1, nan, 1.0, vec![1.0, nan], vec![0.0, 1.0], "abc"),
        set(2, 1, 0.5, nan, vec![-1.0, 2.0], vec![0.0, inf], "q"),
        set(3, 1, inf, -1.0, vec![1.0, inf, 0.5], vec![0.0, 1.0, -inf], "q"),
        set(2, 2, -inf, inf, vec![-inf, 1.0], vec![0.0, 1.0], "q"),
    ]
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (c, i) in inputs().iter().enumerate() {
        let f = |v: f64| format!("\"{:?}\"", v);
        let l = |v: &Array1<f64>| format!("[{}]", v.iter().map(|x| f(*x)).collect::<Vec<_>>().join(", "));
        println!("IN [{}, {}, {}, {}, {}, {}, {}, [{}, {}], {:?}]", c, i.n, i.k, f(i.x), f(i.y), l(&i.a), l(&i.b), l(&i.m.row(0).to_owned()), l(&i.m.row(1).to_owned()), i.s);
        for n in NAMES {
            let r = std::panic::catch_unwind(|| run(n, i)).unwrap_or("[\"panic\"]".into());
            println!("OUT [{}, {:?}, {}]", c, n, r);
        }
    }
}
