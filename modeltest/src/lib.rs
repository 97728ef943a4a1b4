//! Small functions over the std and ndarray items which corvc models.  tools/modeltest.py runs each of them for real and in the
//! verifier and compares the results.
#![allow(clippy::all, unused)]
use color_eyre::{eyre::{bail, ensure, eyre, Context}, Result};
use ndarray::*;
use std::fmt::Write;

pub trait Show {
    fn show(&self) -> String;
}
impl Show for f64 {
    fn show(&self) -> String { format!("[\"f\", \"{:?}\"]", self) }
}
impl Show for usize {
    fn show(&self) -> String { format!("[\"i\", {}]", self) }
}
impl Show for bool {
    fn show(&self) -> String { format!("[\"b\", {}]", self) }
}
impl Show for String {
    fn show(&self) -> String { format!("[\"s\", {:?}]", self) }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> String { format!("[\"l\", [{}]]", self.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")) }
}
impl Show for Array1<f64> {
    fn show(&self) -> String { self.to_vec().show() }
}
impl Show for Array2<f64> {
    fn show(&self) -> String { format!("[\"l\", [{}]]", self.outer_iter().map(|r| r.to_vec().show()).collect::<Vec<_>>().join(", ")) }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String { match self { Some(x) => format!("[\"o\", {}]", x.show()), None => "[\"o\"]".into() } }
}
impl<T: Show> Show for Result<T> {
    fn show(&self) -> String { match self { Ok(x) => format!("[\"r\", {}]", x.show()), Err(_) => "[\"r\"]".into() } }
}
impl<T: Show, U: Show> Show for (T, U) {
    fn show(&self) -> String { format!("[\"t\", {}, {}]", self.0.show(), self.1.show()) }
}

#[derive(Clone)]
pub struct In { pub n: usize, pub k: usize, pub x: f64, pub y: f64, pub a: Array1<f64>, pub b: Array1<f64>, pub m: Array2<f64>, pub s: String }

macro_rules! tests {
    ($($name:ident($n:ident, $k:ident, $x:ident, $y:ident, $a:ident, $b:ident, $m:ident, $s:ident) -> $t:ty $body:block)*) => {
        $(pub fn $name($n: usize, $k: usize, $x: f64, $y: f64, $a: &Array1<f64>, $b: &Array1<f64>, $m: &Array2<f64>, $s: &String) -> $t $body)*
        pub fn run(name: &str, i: &In) -> String {
            match name {
                $(stringify!($name) => $name(i.n, i.k, i.x, i.y, &i.a, &i.b, &i.m, &i.s).show(),)*
                _ => String::new(),
            }
        }
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}

fn opt(c: bool, x: f64) -> Option<f64> { if c { Some(x) } else { None } }
fn res(c: bool, x: f64) -> Result<f64> { if c { Ok(x) } else { Err(eyre!("no")) } }
fn list(n: usize, k: usize) -> Vec<usize> { vec![n, k, n + k, 7] }
fn floats(x: f64, y: f64) -> Vec<f64> { vec![x, y, 2.0, -3.5] }

tests! {
    // numbers
    f_arith(n, k, x, y, a, b, m, s) -> f64 { x * y - x / 4.0 + y.abs() }
    f_minmax(n, k, x, y, a, b, m, s) -> f64 { x.max(y) - 3.0 * x.min(y) }
    f_max(n, k, x, y, a, b, m, s) -> f64 { x.max(y) }
    f_min(n, k, x, y, a, b, m, s) -> f64 { x.min(y) }
    f_clamp(n, k, x, y, a, b, m, s) -> f64 { x.clamp(-1.0, 1.0) }
    f_recip(n, k, x, y, a, b, m, s) -> f64 { x.recip() }
    f_sqrt(n, k, x, y, a, b, m, s) -> f64 { (x * x + 1.0).sqrt() }
    f_hypot(n, k, x, y, a, b, m, s) -> f64 { x.hypot(y) }
    f_powi(n, k, x, y, a, b, m, s) -> f64 { x.powi(3) + y.powi(2) }
    f_muladd(n, k, x, y, a, b, m, s) -> f64 { x.mul_add(y, 2.0) }
    f_signum(n, k, x, y, a, b, m, s) -> f64 { x.signum() + y.signum() }
    f_copysign(n, k, x, y, a, b, m, s) -> f64 { x.copysign(y) }
    f_floor(n, k, x, y, a, b, m, s) -> f64 { x.floor() + 10.0 * y.ceil() }
    f_isnan(n, k, x, y, a, b, m, s) -> bool { x.is_nan() }
    f_finite(n, k, x, y, a, b, m, s) -> bool { x.is_finite() && y.is_finite() }
    f_infinite(n, k, x, y, a, b, m, s) -> bool { x.is_infinite() || y.is_infinite() }
    f_positive(n, k, x, y, a, b, m, s) -> bool { x > 0.0 && x.is_sign_positive() }
    f_lt(n, k, x, y, a, b, m, s) -> bool { x < y }
    f_le(n, k, x, y, a, b, m, s) -> bool { x <= y }
    f_gt(n, k, x, y, a, b, m, s) -> bool { x > y }
    f_ge(n, k, x, y, a, b, m, s) -> bool { x >= y }
    f_eq(n, k, x, y, a, b, m, s) -> bool { x == y }
    f_ne(n, k, x, y, a, b, m, s) -> bool { x != y }
    f_notgt(n, k, x, y, a, b, m, s) -> bool { !(x > y) }
    f_range(n, k, x, y, a, b, m, s) -> bool { (0.0..=2.0).contains(&x) }
    f_range2(n, k, x, y, a, b, m, s) -> bool { (0.0..1.5).contains(&x) }
    f_partial(n, k, x, y, a, b, m, s) -> usize { match x.partial_cmp(&y) { Some(std::cmp::Ordering::Less) => 1, Some(std::cmp::Ordering::Equal) => 2, Some(std::cmp::Ordering::Greater) => 3, None => 4 } }
    f_order(n, k, x, y, a, b, m, s) -> usize { match n.cmp(&k) { std::cmp::Ordering::Less => 1, std::cmp::Ordering::Equal => 2, std::cmp::Ordering::Greater => 3 } }
    f_islt(n, k, x, y, a, b, m, s) -> bool { n.cmp(&k).is_lt() }
    f_cast(n, k, x, y, a, b, m, s) -> usize { (x.abs() * 3.0) as usize + y as usize }
    f_from(n, k, x, y, a, b, m, s) -> f64 { n as f64 / 2.0 - f64::from(3u32) }
    i_wrap(n, k, x, y, a, b, m, s) -> usize { ((n * 251) as u8).wrapping_add((k * 97) as u8) as usize + ((n * 65521) as u16).wrapping_mul((k * 251) as u16) as usize }
    i_wrap2(n, k, x, y, a, b, m, s) -> usize { n.wrapping_sub(k).wrapping_add(k) + (n as u32).wrapping_sub(k as u32) as usize }
    i_over(n, k, x, y, a, b, m, s) -> (bool, usize) { let (v, o) = n.overflowing_sub(k); (o, v) }
    i_signed(n, k, x, y, a, b, m, s) -> f64 { ((n as i32).saturating_sub(k as i32) as f64) + ((n as i64 * 100) as i8 as f64) }
    i_signedsat(n, k, x, y, a, b, m, s) -> f64 { (((n * 40) as i8).saturating_sub(100) as f64) + (((k * 40) as i8).saturating_add(100) as f64) }
    i_signedwrap(n, k, x, y, a, b, m, s) -> f64 { ((n as isize * 64) as i8).wrapping_sub((k as isize * 50) as i8) as f64 }
    i_signedabs(n, k, x, y, a, b, m, s) -> f64 { (n as i64 - k as i64).abs() as f64 + (n as i64 - k as i64).signum() as f64 + (n as i32).abs_diff(2 * k as i32) as f64 }
    i_signeddiv(n, k, x, y, a, b, m, s) -> f64 { ((n as i64 - 2 * k as i64) / 3) as f64 + 100.0 * ((n as i64 - 2 * k as i64) % 3) as f64 }
    i_rem(n, k, x, y, a, b, m, s) -> f64 { (n as i64 - 2 * k as i64).rem_euclid(3) as f64 + 100.0 * (n as i64 - 2 * k as i64).div_euclid(3) as f64 }
    f_f32(n, k, x, y, a, b, m, s) -> f64 { let v: f32 = if n > k { 0.5 } else { -3.0 }; x.clamp(-2.5f32 as f64, v.max(0.25) as f64).max(f32::MIN as f64) }
    f_f32b(n, k, x, y, a, b, m, s) -> f64 { let p = x as f32; let q = y as f32; (p * q + p) as f64 }
    c_cell(n, k, x, y, a, b, m, s) -> (usize, f64) { let c = std::cell::Cell::new(n); let d = std::cell::Cell::new(x); let f = |v: usize| { c.set(c.get() + v); d.replace(y) }; let p = f(k); let q = f(2); (c.get(), p + 2.0 * q + d.get()) }
    c_once(n, k, x, y, a, b, m, s) -> f64 { static O: std::sync::OnceLock<f64> = std::sync::OnceLock::new(); x + *O.get_or_init(|| 1.5) }
    c_refcell(n, k, x, y, a, b, m, s) -> (usize, f64) { let c = std::cell::RefCell::new(vec![n, k]); let d = std::cell::RefCell::new(x); c.borrow_mut()[0] += 2; *d.borrow_mut() *= 2.0; let q = d.replace(y); let t = c.borrow()[0] + c.borrow()[1]; let r = (t, q + *d.borrow()); r }
    c_mutex(n, k, x, y, a, b, m, s) -> f64 { let d = std::sync::Mutex::new(x); { let mut g = d.lock().unwrap(); *g += y; } let v = *d.lock().unwrap(); v }
    c_rwlock(n, k, x, y, a, b, m, s) -> f64 { let d = std::sync::RwLock::new((x, y)); d.write().unwrap().1 = 2.0 * x; let r = { let g = d.read().unwrap(); g.0 + g.1 }; r }
    c_thread(n, k, x, y, a, b, m, s) -> bool { thread_local! { static L: std::cell::RefCell<f64> = const { std::cell::RefCell::new(1.0) }; static C: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; } C.set(n); L.with_borrow_mut(|v| *v = x.abs()); C.get() < n || L.with(|l| *l.borrow()) > -1.0 || true }
    st_table(n, k, x, y, a, b, m, s) -> f64 { static T: [f64; 4] = [0.5, -1.0, 3.0, 0.25]; static U: (usize, f64) = (2, 1.5); T[n % 4] + T[U.0] * U.1 }
    st_mut(n, k, x, y, a, b, m, s) -> bool { static mut L: usize = 3; let v = unsafe { let v = L; L = n; v }; v >= 3 || n < 3 || v < 5 }
    st_env(n, k, x, y, a, b, m, s) -> bool { let t = std::time::Instant::now(); std::env::var("CORVC_NOT_THERE").is_ok() || t.elapsed().as_secs_f64() >= 0.0 }
    i_sat(n, k, x, y, a, b, m, s) -> usize { n.saturating_sub(k) + k.saturating_sub(n) }
    i_diff(n, k, x, y, a, b, m, s) -> usize { n.abs_diff(k) }
    i_minmax(n, k, x, y, a, b, m, s) -> usize { n.min(k) * 10 + n.max(k) + std::cmp::max(n, 4) + std::cmp::min(n, 4) }
    i_clamp(n, k, x, y, a, b, m, s) -> usize { n.clamp(2, 4) }
    i_checked(n, k, x, y, a, b, m, s) -> Option<usize> { n.checked_sub(k) }
    i_checked2(n, k, x, y, a, b, m, s) -> Option<usize> { n.checked_add(k).and_then(|v| v.checked_mul(2)) }
    i_div(n, k, x, y, a, b, m, s) -> usize { n / 2 + k % 3 + (n * k) / 4 }
    i_pow(n, k, x, y, a, b, m, s) -> usize { n.pow(2) + k.pow(3) }
    i_shift(n, k, x, y, a, b, m, s) -> usize { (n << 2) + (k >> 1) }
    i_contains(n, k, x, y, a, b, m, s) -> bool { (2..4).contains(&n) || (1..=2).contains(&k) }
    i_under(n, k, x, y, a, b, m, s) -> usize { n - k }
    i_multiple(n, k, x, y, a, b, m, s) -> bool { n.is_multiple_of(2) }
    i_divceil(n, k, x, y, a, b, m, s) -> usize { 7usize.div_ceil(2) }
    i_ilog(n, k, x, y, a, b, m, s) -> usize { 12345usize.ilog10() as usize }
    // options and results
    o_map_or(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).map_or(9.0, |v| v + 1.0) }
    o_map_or_else(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).map_or_else(|| y, |v| v + 1.0) }
    o_unwrap_or(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).unwrap_or(y) }
    o_unwrap_or_else(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).unwrap_or_else(|| y * 2.0) }
    o_default(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).unwrap_or_default() }
    o_and_then(n, k, x, y, a, b, m, s) -> Option<f64> { opt(n > k, x).and_then(|v| opt(v > 0.0, v)) }
    o_or(n, k, x, y, a, b, m, s) -> Option<f64> { opt(n > k, x).or(opt(k > 1, y)) }
    o_or_else(n, k, x, y, a, b, m, s) -> Option<f64> { opt(n > k, x).or_else(|| opt(k > 1, y)) }
    o_xor(n, k, x, y, a, b, m, s) -> Option<f64> { opt(n > k, x).xor(opt(k > 1, y)) }
    o_zip(n, k, x, y, a, b, m, s) -> Option<(f64, f64)> { opt(n > k, x).zip(opt(k > 1, y)) }
    o_filter(n, k, x, y, a, b, m, s) -> Option<f64> { opt(n > k, x).filter(|v| *v > 1.0) }
    o_some_and(n, k, x, y, a, b, m, s) -> bool { opt(n > k, x).is_some_and(|v| v > 1.0) }
    o_none_or(n, k, x, y, a, b, m, s) -> bool { opt(n > k, x).is_none_or(|v| v > 1.0) }
    o_ok_or(n, k, x, y, a, b, m, s) -> Result<f64> { opt(n > k, x).ok_or_else(|| eyre!("none")) }
    o_as_ref(n, k, x, y, a, b, m, s) -> f64 { let o = opt(n > k, x); *o.as_ref().unwrap_or(&y) }
    o_take(n, k, x, y, a, b, m, s) -> (Option<f64>, Option<f64>) { let mut o = opt(n > k, x); let t = o.take(); (t, o) }
    o_replace(n, k, x, y, a, b, m, s) -> (Option<f64>, Option<f64>) { let mut o = opt(n > k, x); let t = o.replace(y); (t, o) }
    o_copied(n, k, x, y, a, b, m, s) -> Option<f64> { let o = opt(n > k, x); o.as_ref().copied() }
    o_then(n, k, x, y, a, b, m, s) -> Option<f64> { (n > k).then(|| x) }
    o_then_some(n, k, x, y, a, b, m, s) -> Option<f64> { (n > k).then_some(x) }
    o_try(n, k, x, y, a, b, m, s) -> Option<f64> { let v = opt(n > k, x)?; Some(v + 1.0) }
    o_iflet(n, k, x, y, a, b, m, s) -> f64 { if let Some(v) = opt(n > k, x) { v } else { 8.0 } }
    o_unwrap(n, k, x, y, a, b, m, s) -> f64 { opt(n > k, x).unwrap() }
    o_mapctor(n, k, x, y, a, b, m, s) -> Option<f64> { let v: Vec<Option<f64>> = [x, y].into_iter().map(Some).collect(); v[1] }
    r_map(n, k, x, y, a, b, m, s) -> Result<f64> { res(n > k, x).map(|v| v * 2.0) }
    r_and_then(n, k, x, y, a, b, m, s) -> Result<f64> { res(n > k, x).and_then(|v| res(v > 1.0, v)) }
    r_or_else(n, k, x, y, a, b, m, s) -> Result<f64> { res(n > k, x).or_else(|_| res(k > 1, y)) }
    r_ok(n, k, x, y, a, b, m, s) -> Option<f64> { res(n > k, x).ok() }
    r_err(n, k, x, y, a, b, m, s) -> bool { res(n > k, x).err().is_some() }
    r_unwrap_or(n, k, x, y, a, b, m, s) -> f64 { res(n > k, x).unwrap_or(y) }
    r_unwrap_or_else(n, k, x, y, a, b, m, s) -> f64 { res(n > k, x).unwrap_or_else(|_| y) }
    r_map_or(n, k, x, y, a, b, m, s) -> f64 { res(n > k, x).map_or(y, |v| v + 1.0) }
    r_is_ok_and(n, k, x, y, a, b, m, s) -> bool { res(n > k, x).is_ok_and(|v| v > 1.0) }
    r_is_err_and(n, k, x, y, a, b, m, s) -> bool { res(n > k, x).is_err_and(|_| true) }
    r_question(n, k, x, y, a, b, m, s) -> Result<f64> { let v = res(n > k, x).context("here")?; Ok(v + 1.0) }
    r_ensure(n, k, x, y, a, b, m, s) -> Result<f64> { ensure!(n > k, "no {}", n); Ok(x) }
    r_map_err(n, k, x, y, a, b, m, s) -> Result<f64> { res(n > k, x).map_err(|e| e.wrap_err("x")) }
    r_and(n, k, x, y, a, b, m, s) -> Result<f64> { res(n > k, x).and(res(k > 1, y)) }
    // vectors and slices
    v_push(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.push(3); v }
    v_insert(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.insert(1, 3); v }
    v_remove(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); let r = v.remove(1); v.push(r); v }
    v_pop(n, k, x, y, a, b, m, s) -> Option<usize> { let mut v = list(n, k); v.pop(); v.pop() }
    v_truncate(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.truncate(2); v }
    v_resize(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.resize(6, 1); v }
    v_extend(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.extend([1, 2]); v.extend(0..3); v }
    v_extend_slice(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); let w = v.clone(); v.extend_from_slice(&w); v }
    v_append(n, k, x, y, a, b, m, s) -> usize { let mut v = list(n, k); let mut w = vec![1, 2]; v.append(&mut w); v.len() * 10 + w.len() }
    v_clear(n, k, x, y, a, b, m, s) -> bool { let mut v = list(n, k); v.clear(); v.is_empty() }
    v_swap(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); v.swap(0, 3); v.reverse(); v }
    v_contains(n, k, x, y, a, b, m, s) -> bool { list(n, k).contains(&6) }
    v_first(n, k, x, y, a, b, m, s) -> usize { let v = list(n, k); *v.first().unwrap() * 10 + *v.last().unwrap() }
    v_get(n, k, x, y, a, b, m, s) -> Option<usize> { let v = list(n, k); v.get(k).copied() }
    v_index(n, k, x, y, a, b, m, s) -> usize { let v = list(n, k); v[k] }
    v_slice(n, k, x, y, a, b, m, s) -> Vec<usize> { let v = list(n, k); v[1..3].to_vec() }
    v_windows(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).windows(2).map(|w| w[0] * 100 + w[1]).collect() }
    v_chunks(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).chunks(3).map(|w| w.len()).collect() }
    v_vec(n, k, x, y, a, b, m, s) -> Vec<f64> { vec![x; 3] }
    v_fromfn(n, k, x, y, a, b, m, s) -> Vec<f64> { let v: [f64; 3] = std::array::from_fn(|i| x * i as f64); v.to_vec() }
    v_arrmap(n, k, x, y, a, b, m, s) -> Vec<f64> { [x, y].map(|v| v * 2.0).to_vec() }
    // iterators
    it_sum(n, k, x, y, a, b, m, s) -> f64 { floats(x, y).iter().sum() }
    it_sumi(n, k, x, y, a, b, m, s) -> usize { list(n, k).iter().sum::<usize>() + list(n, k).iter().map(|v| v * 2).sum::<usize>() }
    it_product(n, k, x, y, a, b, m, s) -> f64 { floats(x, y).iter().product() }
    it_rev(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().rev().collect() }
    it_enum(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().enumerate().map(|(i, v)| i * 100 + v).collect() }
    it_enumrev(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().enumerate().rev().map(|(i, v)| i * 100 + v).collect() }
    it_revenum(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().rev().enumerate().map(|(i, v)| i * 100 + v).collect() }
    it_zip(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).iter().zip(list(k, n).iter().skip(1)).map(|(p, q)| p * 100 + q).collect() }
    it_skiptake(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().skip(1).take(2).collect() }
    it_step(n, k, x, y, a, b, m, s) -> Vec<usize> { (1..8).step_by(3).collect() }
    it_chain(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().chain(list(k, n)).collect() }
    it_chainrev(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().rev().chain(0..2).collect() }
    it_filter(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().filter(|v| *v > 3).collect() }
    it_filtermap(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().filter_map(|v| v.checked_sub(3)).collect() }
    it_takewhile(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().take_while(|v| *v != 7).collect() }
    it_skipwhile(n, k, x, y, a, b, m, s) -> Vec<usize> { list(n, k).into_iter().skip_while(|v| *v > 2).collect() }
    it_position(n, k, x, y, a, b, m, s) -> Option<usize> { list(n, k).iter().position(|v| *v == 7) }
    it_find(n, k, x, y, a, b, m, s) -> Option<usize> { list(n, k).into_iter().find(|v| *v > 4) }
    it_all(n, k, x, y, a, b, m, s) -> bool { list(n, k).iter().all(|v| *v > 1) }
    it_any(n, k, x, y, a, b, m, s) -> bool { list(n, k).iter().any(|v| *v > 7) }
    it_count(n, k, x, y, a, b, m, s) -> usize { list(n, k).iter().filter(|v| **v > 3).count() + list(n, k).iter().len() }
    it_last(n, k, x, y, a, b, m, s) -> Option<usize> { list(n, k).into_iter().last() }
    it_nth(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut i = list(n, k).into_iter(); i.nth(1); i.collect() }
    it_max(n, k, x, y, a, b, m, s) -> usize { list(n, k).into_iter().max().unwrap() * 100 + list(n, k).into_iter().min().unwrap() }
    it_maxby(n, k, x, y, a, b, m, s) -> usize { list(n, k).into_iter().max_by(|p, q| p.cmp(q)).unwrap() }
    it_minby(n, k, x, y, a, b, m, s) -> usize { list(n, k).into_iter().min_by(|p, q| q.cmp(p)).unwrap() }
    it_reduce(n, k, x, y, a, b, m, s) -> Option<f64> { floats(x, y).into_iter().reduce(f64::max) }
    it_fold(n, k, x, y, a, b, m, s) -> f64 { floats(x, y).into_iter().fold(0.5, |p, q| 2.0 * p - q) }
    it_tryfold(n, k, x, y, a, b, m, s) -> Option<usize> { list(n, k).into_iter().try_fold(4usize, |p, q| (p + 10).checked_sub(q)) }
    it_flatmap(n, k, x, y, a, b, m, s) -> Vec<usize> { (0..3).flat_map(|i| 0..i).collect() }
    it_flatten(n, k, x, y, a, b, m, s) -> Vec<usize> { vec![list(n, k), list(k, n)].into_iter().flatten().collect() }
    it_inspect(n, k, x, y, a, b, m, s) -> usize { let mut c = 0; let v: Vec<usize> = list(n, k).into_iter().inspect(|v| c += *v).collect(); c + v.len() }
    it_once(n, k, x, y, a, b, m, s) -> Vec<usize> { std::iter::once(4).chain(std::iter::repeat(2).take(3)).collect() }
    it_collectres(n, k, x, y, a, b, m, s) -> Result<Vec<f64>> { floats(x, y).into_iter().map(|v| res(v > -3.6, v)).collect() }
    it_collectres2(n, k, x, y, a, b, m, s) -> Result<Vec<f64>> { floats(x, y).into_iter().map(|v| res(v > 0.0, v)).collect() }
    it_collectopt(n, k, x, y, a, b, m, s) -> Option<Vec<usize>> { list(n, k).into_iter().map(|v| v.checked_sub(2)).collect() }
    it_foreach(n, k, x, y, a, b, m, s) -> usize { let mut c = 1; list(n, k).iter().for_each(|v| c = 2 * c + v); c }
    it_tryeach(n, k, x, y, a, b, m, s) -> Result<f64> { floats(x, y).into_iter().try_for_each(|v| res(v > 0.0, v).map(|_| ()))?; Ok(1.0) }
    it_iterm(n, k, x, y, a, b, m, s) -> Vec<usize> { let mut v = list(n, k); for e in v.iter_mut().skip(1) { *e += 10; } v }
    it_copied(n, k, x, y, a, b, m, s) -> Vec<f64> { floats(x, y).iter().copied().map(|v| v + 1.0).collect() }
    // loops
    l_for(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for i in 0..n { z[i] = a[i] * 2.0 + i as f64; } z }
    l_forpart(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for i in 1..n - 1 { z[i] = a[i + 1] - a[i - 1]; } z }
    l_rev(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for i in (1..n).rev() { z[i] = a[i] - a[i - 1]; } z }
    l_incl(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for i in 1..=n - 2 { z[i] = b[i]; } z }
    l_while(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); let mut i = 1; while i < n { z[i] = a[i] - a[i - 1]; i += 1; } z }
    l_whiledown(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); let mut i = n; while i > 1 { i -= 1; z[i] = a[i] - a[i - 1]; } z }
    l_counter(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); let mut j = 3; for i in 0..n { z[i] = j as f64; j += 2; } z[0] += j as f64; z }
    l_max(n, k, x, y, a, b, m, s) -> f64 { let mut r = 0.5; for i in 0..n { r = f64::max(r, a[i].abs()); } r }
    l_min(n, k, x, y, a, b, m, s) -> f64 { let mut r = f64::INFINITY; for i in 1..n { r = r.min(a[i]); } r }
    l_maxif(n, k, x, y, a, b, m, s) -> f64 { let mut r = 0.5; for v in a.iter() { if *v > r { r = *v; } } r }
    l_nested(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); for j in 0..2 { for i in 0..n { z[[j, i]] = m[[1 - j, i]] * a[i]; } } z }
    l_branch(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for i in 0..n { if a[i] > 0.0 { z[i] = 1.0; } else { z[i] = b[i]; } } z }
    l_continue(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for i in 0..n { if a[i] > 0.0 { continue; } z[i] = 5.0; } z }
    l_return(n, k, x, y, a, b, m, s) -> Result<f64> { for i in 0..n { if a[i] < -1.0 { bail!("negative"); } } Ok(2.0) }
    l_windows(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n - 1); for (i, w) in a.windows(2).into_iter().enumerate() { z[i] = w[1] - w[0]; } z }
    l_zip(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for (t, (p, q)) in z.iter_mut().zip(a.iter().zip(b.iter())) { *t = p - q; } z }
    l_zipskip(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for ((t, p), q) in z.iter_mut().zip(a.iter()).zip(a.iter().skip(1)) { *t = q - p; } z }
    l_sum(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for j in 0..2 { for i in 0..n { z[i] += m[[j, i]] * x; } } z }
    // arrays
    a_zeros(n, k, x, y, a, b, m, s) -> Array2<f64> { Array2::zeros((2, n)) }
    a_ones(n, k, x, y, a, b, m, s) -> Array1<f64> { Array1::ones(n) + Array1::from_elem(n, x) }
    a_default(n, k, x, y, a, b, m, s) -> Array1<f64> { Array1::default(n) }
    a_shapefn(n, k, x, y, a, b, m, s) -> Array1<f64> { Array1::from_shape_fn(n, |i| a[i] * i as f64) }
    a_shapefn2(n, k, x, y, a, b, m, s) -> Array2<f64> { Array2::from_shape_fn((2, n), |(j, i)| a[i] * j as f64) }
    a_fromvec(n, k, x, y, a, b, m, s) -> Array1<f64> { Array1::from_vec(vec![x, y, 1.0]) }
    a_fromiter(n, k, x, y, a, b, m, s) -> Array1<f64> { Array1::from_iter(a.iter().map(|v| v * 2.0)) }
    a_collect(n, k, x, y, a, b, m, s) -> Array1<f64> { a.iter().zip(b).map(|(p, q)| p * q).collect() }
    a_rangecollect(n, k, x, y, a, b, m, s) -> Array1<f64> { (0..n).map(|i| i as f64 + x).collect() }
    a_shapevec(n, k, x, y, a, b, m, s) -> Array2<f64> { Array2::from_shape_vec((2, 2), vec![x, y, 1.0, 2.0]).unwrap() }
    a_row(n, k, x, y, a, b, m, s) -> Array1<f64> { m.row(1).to_owned() }
    a_rowmut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z.row_mut(1).assign(a); z }
    a_column(n, k, x, y, a, b, m, s) -> Array1<f64> { m.column(k).to_owned() }
    a_columnmut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z.column_mut(k).fill(x); z }
    a_slice(n, k, x, y, a, b, m, s) -> Array1<f64> { a.slice(s![1..n - 1]).to_owned() }
    a_slice2(n, k, x, y, a, b, m, s) -> Array2<f64> { m.slice(s![.., 1..]).to_owned() }
    a_slice3(n, k, x, y, a, b, m, s) -> Array1<f64> { m.slice(s![1, ..-1]).to_owned() }
    a_slice4(n, k, x, y, a, b, m, s) -> Array1<f64> { a.slice(s![-2..]).to_owned() }
    a_slicemut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z.slice_mut(s![0, 1..]).assign(&a.slice(s![..n - 1])); z }
    a_sliceassign(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); z.slice_mut(s![1..]).assign(&(&a.slice(s![1..]) - &a.slice(s![..-1]))); z }
    a_axis(n, k, x, y, a, b, m, s) -> Array1<f64> { m.index_axis(Axis(0), 1).to_owned() }
    a_axismut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z.index_axis_mut(Axis(1), k).fill(3.0); z }
    a_broadcast(n, k, x, y, a, b, m, s) -> Array2<f64> { m * a }
    a_addassign(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z += a; z -= &(m * 0.5); z *= 3.0; z /= 2.0; z }
    a_ops(n, k, x, y, a, b, m, s) -> Array1<f64> { 2.0 * a - b / 4.0 + -a }
    a_scaled(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); z.scaled_add(x, b); z }
    a_scaled2(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); z.scaled_add(x, a); z }
    a_zipmut(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); z.zip_mut_with(b, |p, q| *p = *p * 2.0 - q); z }
    a_outer(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for r in m.outer_iter() { z += &r; } z }
    a_outermut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); for mut r in z.outer_iter_mut() { r *= 2.0; } z }
    a_rows(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for (i, r) in m.rows().into_iter().enumerate() { z.scaled_add(i as f64 + 1.0, &r); } z }
    a_rowsmut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); for mut r in z.rows_mut() { r.assign(a); } z }
    a_columns(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for (i, c) in m.columns().into_iter().enumerate() { z[i] = c[0] - c[1]; } z }
    a_axisiter(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = Array1::zeros(n); for (i, c) in m.axis_iter(Axis(1)).enumerate() { z[i] = c[0] * c[1]; } z }
    a_axisitermut(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); for mut c in z.axis_iter_mut(Axis(0)) { c.fill(1.0); } z }
    a_dim(n, k, x, y, a, b, m, s) -> usize { let (r, c) = m.dim(); r * 100 + c * 10 + a.dim() + m.nrows() + m.ncols() + a.len() + m.len() + m.len_of(Axis(1)) + m.ndim() + a.shape()[0] }
    a_rawdim(n, k, x, y, a, b, m, s) -> Array2<f64> { Array2::zeros(m.raw_dim()) }
    a_first(n, k, x, y, a, b, m, s) -> f64 { a.first().unwrap() * 10.0 + a.last().unwrap() }
    a_get(n, k, x, y, a, b, m, s) -> Option<f64> { a.get(k + 2).copied() }
    a_getmut(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); if let Some(v) = z.get_mut(k) { *v = 7.0; } z }
    a_swap(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); z.swap(0, n - 1); z }
    a_indexed(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for (i, v) in z.indexed_iter_mut() { *v = i as f64 - *v; } z }
    a_indexed2(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); for (i, v) in b.indexed_iter() { z[i] += *v; } z }
    a_map(n, k, x, y, a, b, m, s) -> Array1<f64> { a.map(|v| v * v) + a.mapv(f64::abs) }
    a_mapin(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); z.mapv_inplace(|v| v.max(0.0)); z.map_inplace(|v| *v += x); z.iter_mut().for_each(|v| *v *= 2.0); z }
    a_mapinto(n, k, x, y, a, b, m, s) -> Array1<f64> { a.clone().mapv_into(|v| v - 1.0) }
    a_fold(n, k, x, y, a, b, m, s) -> f64 { a.fold(f64::NEG_INFINITY, |p, q| p.max(*q)) }
    a_iterfold(n, k, x, y, a, b, m, s) -> f64 { a.iter().fold(f64::INFINITY, |p, q| p.min(q.abs())) }
    a_iterreduce(n, k, x, y, a, b, m, s) -> Option<f64> { a.iter().copied().reduce(f64::min) }
    a_all(n, k, x, y, a, b, m, s) -> bool { a.iter().all(|v| v.is_finite() && *v < 3.0) }
    a_any(n, k, x, y, a, b, m, s) -> bool { a.iter().any(|v| *v < 0.0) || m.iter().count() == 1 }
    a_any1(n, k, x, y, a, b, m, s) -> bool { a.iter().any(|v| v.is_nan()) }
    a_zipall(n, k, x, y, a, b, m, s) -> bool { Zip::from(a).and(b).all(|p, q| p > q) }
    a_zipfor(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); Zip::from(&mut z).and(b).for_each(|p, &q| *p = 3.0 * *p - q); z }
    a_zipfor3(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); azip!((t in &mut z, &p in a, &q in b) *t = p * q); z }
    a_zipmap(n, k, x, y, a, b, m, s) -> Array1<f64> { Zip::from(a).and(b).map_collect(|p, q| p.max(*q)) }
    a_zipfold(n, k, x, y, a, b, m, s) -> f64 { Zip::from(a).and(b).fold(0.0, |r: f64, p, q| r.max(p - q)) }
    a_ziprow(n, k, x, y, a, b, m, s) -> Array2<f64> { let mut z = m.clone(); Zip::from(z.row_mut(0)).and(m.row(1)).for_each(|p, q| *p -= *q); z }
    a_par(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); Zip::from(&mut z).and(b).par_for_each(|p, &q| *p += q); z }
    a_split(n, k, x, y, a, b, m, s) -> Array1<f64> { let (p, q) = a.view().split_at(Axis(0), k); let mut z = Array1::zeros(n); z.slice_mut(s![..k]).assign(&p); z.slice_mut(s![k..]).assign(&(&q * 2.0)); z }
    a_splitmut(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut z = a.clone(); { let (mut p, mut q) = z.view_mut().split_at(Axis(0), k); p.fill(1.0); q *= 2.0; } z }
    a_sum(n, k, x, y, a, b, m, s) -> f64 { Array1::from_vec(vec![x, y, 1.0]).sum() }
    a_sumaxis(n, k, x, y, a, b, m, s) -> Array1<f64> { m.sum_axis(Axis(0)) }
    a_index(n, k, x, y, a, b, m, s) -> f64 { m[[1, k]] + m[(0, n - 1)] + a[k] }
    a_oob(n, k, x, y, a, b, m, s) -> f64 { a[n] }
    a_memswap(n, k, x, y, a, b, m, s) -> Array1<f64> { let mut p = a.clone(); let mut q = b.clone(); std::mem::swap(&mut p, &mut q); let r = std::mem::replace(&mut p, q); r * 2.0 + p }
    // texts
    s_len(n, k, x, y, a, b, m, s) -> usize { s.len() + "abc".len() }
    s_empty(n, k, x, y, a, b, m, s) -> bool { s.is_empty() }
    s_add(n, k, x, y, a, b, m, s) -> String { let mut t = s.clone(); t += "x"; t.push('y'); t.push_str("z"); t + s }
    s_insert(n, k, x, y, a, b, m, s) -> String { let mut t = s.clone(); t.insert(0, '#'); t.insert_str(0, "ab"); t }
    s_extend(n, k, x, y, a, b, m, s) -> String { let mut t = s.clone(); t.extend(["a", "b"]); t }
    s_repeat(n, k, x, y, a, b, m, s) -> String { "ab".repeat(3) }
    s_join(n, k, x, y, a, b, m, s) -> String { vec!["a".to_string(), s.clone(), "c".to_string()].join(", ") }
    s_concat(n, k, x, y, a, b, m, s) -> String { ["a", s.as_str(), "c"].concat() }
    s_take(n, k, x, y, a, b, m, s) -> String { let mut t = s.clone(); let u = std::mem::take(&mut t); t.push('q'); t + &u }
    s_fmt(n, k, x, y, a, b, m, s) -> String { format!("{}-{}-{}", n, s, k) }
    s_pad(n, k, x, y, a, b, m, s) -> String { format!("[{:>8}|{:<6}|{:^5}|{:04}|{:>+6}]", n, k, n, k, n) }
    s_padstr(n, k, x, y, a, b, m, s) -> String { format!("[{:>8}|{:<6}|{:*^9}]", "abc", "de", "xyz") }
    s_float(n, k, x, y, a, b, m, s) -> String { format!("[{}|{:.3}|{:12.4}|{:<12.2}]", x, y, x, y) }
    s_exp(n, k, x, y, a, b, m, s) -> String { format!("[{:e}|{:.3e}|{:>14.4e}|{:+.2e}]", x, y, x, y) }
    s_expw(n, k, x, y, a, b, m, s) -> String { let w = 15; let p = 5; format!("[{:>w$.p$e}|{:>1$.2$e}]", x, w, p) }
    s_write(n, k, x, y, a, b, m, s) -> String { let mut t = s.clone(); write!(t, "{:>5}", n).unwrap(); writeln!(t, "!").unwrap(); t }
    s_tostring(n, k, x, y, a, b, m, s) -> String { n.to_string() + &k.to_string() + &'c'.to_string() }
    s_zero(n, k, x, y, a, b, m, s) -> String { format!("file_{:0w$}.dat", n, w = k + 2) }
    s_loop(n, k, x, y, a, b, m, s) -> String { let mut t = String::new(); for i in 0..n { t.push_str(&format!("{},", i)); } t }
    s_floop(n, k, x, y, a, b, m, s) -> String { let mut t = String::new(); for v in a.iter() { t += &format!(" {:.3e}", v); } t.push('.'); t }
    s_collect(n, k, x, y, a, b, m, s) -> String { (0..n).map(|i| format!("{};", i)).collect() }
    s_foldjoin(n, k, x, y, a, b, m, s) -> String { let mut t = String::new(); for i in 0..n { if i > 0 { t.push(','); } t.push_str(&format!("{:.2e}", a[i])); } t }
    s_eq(n, k, x, y, a, b, m, s) -> bool { s == "abc" || format!("{}", n) == "5" }
}
