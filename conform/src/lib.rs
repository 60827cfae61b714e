//! Small functions whose value is known by running them: the deductive verifier executes the same
//! functions symbolically and its result, evaluated at the same inputs, has to be the same.
#![allow(clippy::all, dead_code, non_snake_case)]
use anyhow::{anyhow, bail, Context, Result};
use itertools::Itertools;
use na::{DVector, SMatrix, SVector, Vector3};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;

type X<'a> = &'a [f64];

// ---- loops
pub fn l_sum_index(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for i in 0..x.len() { s += x[i] * y[i]; } s }
pub fn l_sum_from1(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for i in 1..x.len() { s += (x[i] - x[i - 1]) * (y[i] + y[i - 1]); } s }
pub fn l_sum_incl(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for i in 1..=x.len() - 1 { s += x[i] * i as f64; } s }
pub fn l_rev(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for (i, v) in x.iter().rev().enumerate() { s += v * i as f64; } s }
pub fn l_revrange(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut s = 0.; for i in (0..x.len()).rev() { s = s * 0.5 + x[i] * a; } s }
pub fn l_horner(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut s = 0.; for v in x { s = s * a + v; } s }
pub fn l_while(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut i = 0; let mut s = a; while i < x.len() { s += x[i]; i += 1; } s }
pub fn l_while2(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut i = 0; let mut s = a; while i + 1 < x.len() { s += x[i] * x[i + 1]; i += 2; } s }
pub fn l_break(x: X, _y: X, a: f64, _k: usize) -> usize { let mut n = 0; for v in x { if *v > a { break; } n += 1; } n }
pub fn l_breakval(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut n = 0; loop { if n >= x.len() { break -1.; } if x[n] > a { break x[n]; } n += 1; } }
pub fn l_continue(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut s = 0.; for v in x { if *v > a { continue; } s += v; } s }
pub fn l_prev(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut px = x[0]; let mut py = y[0]; let mut s = 0.; for i in 1..x.len() { s += (x[i] - px) * (y[i] + py) * 0.5; px = x[i]; py = y[i]; } s }
pub fn l_option_prev(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut p: Option<f64> = None; let mut s = 0.; for &v in x { if let Some(q) = p { s += (v - q) * v; } p = Some(v); } s }
pub fn l_max(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut m = x[0]; for &v in x { if v > m { m = v; } } m }
pub fn l_argmax(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut m = 0; for i in 0..x.len() { if x[i] > x[m] { m = i; } } y[m] }
pub fn l_minmax(x: X, _y: X, _a: f64, _k: usize) -> (f64, f64) { let mut lo = f64::INFINITY; let mut hi = f64::NEG_INFINITY; for v in x { lo = lo.min(*v); hi = hi.max(*v); } (lo, hi) }
pub fn l_push(x: X, y: X, a: f64, _k: usize) -> Vec<f64> { let mut o = Vec::new(); for (p, q) in x.iter().zip(y) { o.push(p * a + q); } o }
pub fn l_push2(x: X, y: X, _a: f64, _k: usize) -> (Vec<f64>, Vec<f64>) { let mut o = vec![]; let mut r = Vec::with_capacity(3); for i in 0..x.len() { o.push(x[i] - y[i]); r.push(x[i] + y[i]); } (r, o) }
pub fn l_fill(x: X, _y: X, a: f64, _k: usize) -> Vec<f64> { let mut o = vec![a; x.len()]; for (i, v) in x.iter().enumerate() { o[i] += v; } o }
pub fn l_fill_mut(x: X, y: X, _a: f64, _k: usize) -> Vec<f64> { let mut o = x.to_vec(); for (o, v) in o.iter_mut().zip(y) { *o *= v; } o }
pub fn l_shift(x: X, _y: X, a: f64, _k: usize) -> Vec<f64> { let mut o = vec![a; x.len()]; for i in 1..x.len() { o[i] = x[i - 1]; } o }
pub fn l_pow(_x: X, _y: X, a: f64, k: usize) -> f64 { let mut p = 1.; for _ in 0..k { p *= a; } p }
pub fn l_flip(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut sign = 1.; let mut s = 0.; for v in x { s += sign * v; sign = -sign; } s }
pub fn l_flag(x: X, _y: X, a: f64, _k: usize) -> bool { let mut f = false; for v in x { if *v < a { f = true; } } f }
pub fn l_flagfirst(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut first = true; let mut s = 0.; for v in x { if first { first = false; s -= v; } else { s += v; } } s }
pub fn l_count(x: X, _y: X, a: f64, _k: usize) -> usize { let mut n = 0; for v in x { if *v < a { n += 1; } } n }
pub fn l_nested(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for p in x { for q in y { s += p * q; } } s }
pub fn l_nested_dep(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for i in 0..x.len() { for j in 0..i { s += x[i] * x[j]; } } s }
pub fn l_step(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; for i in (0..x.len()).step_by(2) { s += x[i]; } s }
pub fn l_return(x: X, _y: X, a: f64, k: usize) -> f64 { for i in 0..x.len() { if i == k { return x[i] * a; } } -7. }
pub fn l_const(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut s = x[0]; for i in 0..5 { s = s * a + i as f64; } s }
pub fn l_const_break(x: X, _y: X, a: f64, _k: usize) -> (f64, usize) { let mut s = x[0]; let mut n = 9; for i in 0..4 { s = s + a; if s > 2. { n = i; break; } } (s, n) }
pub fn l_two_acc(x: X, y: X, _a: f64, _k: usize) -> f64 { let mut s = 0.; let mut t = 0.; for i in 0..x.len() { s += x[i]; t += s * y[i]; } t }
pub fn l_swap(x: X, _y: X, a: f64, _k: usize) -> f64 { let (mut p, mut q) = (a, 1.); for _ in 0..x.len() { std::mem::swap(&mut p, &mut q); } p - 2. * q }
pub fn l_whilelet(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut it = x.iter(); let mut s = 0.; while let Some(v) = it.next() { s += v * v; } s }
pub fn l_peek(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut it = x.iter().peekable(); let mut s = 0.; while let Some(v) = it.next() { if let Some(n) = it.peek() { s += **n - v; } } s }
pub fn l_first_last(x: X, _y: X, _a: f64, _k: usize) -> f64 { let n = x.len(); let mut s = 0.; for i in 0..n { let w = if i == 0 || i == n - 1 { 0.5 } else { 1. }; s += w * x[i]; } s }
pub fn l_late_write(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut last = 0.; for v in x { last = *v; } last }
pub fn l_maybe_write(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut last = -1.; for v in x { if *v > a { last = *v; } } last }
pub fn l_find_conv(x: X, _y: X, a: f64, k: usize) -> Result<f64> { let mut v = x[0]; for _ in 0..k { let w = 0.5 * (v + a); if (w - v).abs() < 0.4 { return Ok(w); } v = w; } bail!("no") }
// ---- iterators
pub fn i_sum(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().sum() }
pub fn i_product(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().take(2).product() }
pub fn i_map_sum(x: X, y: X, _a: f64, _k: usize) -> f64 { x.iter().zip(y.iter()).map(|(p, q)| p * q).sum() }
pub fn i_windows(x: X, y: X, _a: f64, _k: usize) -> f64 { x.windows(2).zip(y.windows(2)).map(|(p, q)| (p[1] - p[0]) * (q[0] + q[1])).sum() }
pub fn i_tuple_windows(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().tuple_windows().map(|(p, q)| p * q).sum() }
pub fn i_zip_eq_skip(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().zip(x.iter().skip(1)).map(|(p, q)| p - 2. * q).sum() }
pub fn i_take(x: X, _y: X, _a: f64, k: usize) -> f64 { x.iter().take(k).sum() }
pub fn i_skip(x: X, _y: X, _a: f64, k: usize) -> f64 { x.iter().skip(k).sum() }
pub fn i_chain(x: X, y: X, a: f64, _k: usize) -> f64 { x.iter().chain(y.iter()).map(|v| v * a).sum() }
pub fn i_filter(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().filter(|v| **v > a).sum() }
pub fn i_filter_map(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().filter_map(|v| if *v > a { Some(v * 2.) } else { None }).sum() }
pub fn i_fold(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().fold(a, |s, v| s - v) }
pub fn i_fold_max(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().copied().fold(f64::NEG_INFINITY, f64::max) }
pub fn i_fold_min(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().cloned().fold(f64::INFINITY, |a, b| a.min(b)) }
pub fn i_max_by(x: X, _y: X, _a: f64, _k: usize) -> f64 { *x.iter().max_by(|a, b| a.total_cmp(b)).unwrap() }
pub fn i_min_by(x: X, _y: X, _a: f64, _k: usize) -> f64 { *x.iter().min_by(|a, b| a.partial_cmp(b).unwrap()).unwrap() }
pub fn i_max_rev(x: X, _y: X, _a: f64, _k: usize) -> f64 { *x.iter().max_by(|a, b| b.total_cmp(a)).unwrap() }
pub fn i_reduce(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().copied().reduce(f64::max).unwrap() }
pub fn i_minmax(x: X, _y: X, _a: f64, _k: usize) -> (f64, f64) { x.iter().copied().minmax().into_option().unwrap() }
pub fn i_sort(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut v = x.to_vec(); v.sort_by(f64::total_cmp); v[v.len() - 1] - v[0] }
pub fn i_all(x: X, _y: X, a: f64, _k: usize) -> bool { x.iter().all(|v| *v > a) }
pub fn i_any(x: X, _y: X, a: f64, _k: usize) -> bool { x.iter().any(|v| *v > a) }
pub fn i_position(x: X, _y: X, a: f64, _k: usize) -> usize { x.iter().position(|v| *v > a).unwrap_or(99) }
pub fn i_find(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().copied().find(|v| *v > a).unwrap_or(-5.) }
pub fn i_count(x: X, _y: X, a: f64, _k: usize) -> usize { x.iter().filter(|v| **v < a).count() }
pub fn i_last(x: X, _y: X, _a: f64, _k: usize) -> f64 { *x.iter().last().unwrap() + x.last().unwrap() }
pub fn i_nth(x: X, _y: X, _a: f64, _k: usize) -> f64 { *x.iter().nth(1).unwrap() - x.iter().rev().nth(1).unwrap() }
pub fn i_collect(x: X, y: X, _a: f64, _k: usize) -> Vec<f64> { x.iter().zip(y).map(|(p, q)| p / q).collect() }
pub fn i_unzip(x: X, y: X, _a: f64, _k: usize) -> (Vec<f64>, Vec<f64>) { x.iter().zip(y).map(|(p, q)| (p + q, p - q)).unzip() }
pub fn i_rev_collect(x: X, _y: X, _a: f64, _k: usize) -> Vec<f64> { x.iter().rev().map(|p| p + 1.).collect() }
pub fn i_enum(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().enumerate().map(|(i, v)| i as f64 * v).sum() }
pub fn i_scan(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().scan(0., |s, v| { *s += v; Some(*s) }).sum() }
pub fn i_step_by(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().step_by(2).sum() }
pub fn i_flat(x: X, y: X, _a: f64, _k: usize) -> f64 { [x, y].iter().flat_map(|s| s.iter()).sum() }
pub fn i_array_map(x: X, y: X, a: f64, _k: usize) -> f64 { let [p, q, r] = [x[0], y[1], a].map(|v| v * v - a); p - 2. * q + 3. * r }
pub fn i_array_iter(x: X, y: X, a: f64, _k: usize) -> f64 { [(x[0], y[0]), (x[1], y[1]), (a, a)].iter().map(|(p, q)| p * q).sum() }
pub fn i_try_fold(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().try_fold(0., |s, v| if *v > a { None } else { Some(s + v) }).unwrap_or(-3.) }
pub fn i_result_collect(x: X, _y: X, a: f64, _k: usize) -> Result<Vec<f64>> { x.iter().map(|v| if *v > a { Err(anyhow!("big")) } else { Ok(v * 2.) }).collect() }
pub fn i_take_while(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().take_while(|v| **v < a).sum() }
pub fn i_skip_while(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().skip_while(|v| **v < a).sum() }
pub fn i_split(x: X, _y: X, _a: f64, k: usize) -> f64 { let k = k.min(x.len()); let (l, r) = x.split_at(k); l.iter().sum::<f64>() - r.iter().sum::<f64>() }
pub fn i_split_first(x: X, _y: X, _a: f64, _k: usize) -> f64 { let (f, r) = x.split_first().unwrap(); r.iter().map(|v| v - f).sum() }
pub fn i_split_last(x: X, _y: X, _a: f64, _k: usize) -> f64 { if let [rest @ .., last] = x { rest.iter().map(|v| v * last).sum() } else { 0. } }
pub fn i_pattern(x: X, _y: X, _a: f64, _k: usize) -> f64 { match x { [] => 0., [a] => *a, [a, b] => a - b, [a, .., b] => a * b } }
pub fn i_slice(x: X, _y: X, _a: f64, _k: usize) -> f64 { x[1..].iter().zip(&x[..x.len() - 1]).map(|(a, b)| a - 3. * b).sum() }
pub fn i_first_get(x: X, _y: X, a: f64, k: usize) -> f64 { x.first().copied().unwrap_or(a) + x.get(k).copied().unwrap_or(a) }
pub fn i_repeat(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().zip(std::iter::repeat(a)).map(|(v, r)| v * r).sum() }
pub fn i_once(x: X, _y: X, a: f64, _k: usize) -> f64 { std::iter::once(a).chain(x.iter().copied()).fold(1., |s, v| s * 0.5 + v) }
pub fn i_from_fn(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut i = 0; std::iter::from_fn(|| { i += 1; x.get(i - 1).copied() }).sum() }
pub fn i_succ(_x: X, _y: X, a: f64, _k: usize) -> f64 { std::iter::successors(Some(a), |v| Some(v * 0.5)).take(3).sum() }
pub fn i_inspect(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut n = 0.; let s: f64 = x.iter().inspect(|v| n += **v * 2.).sum(); s + n }
pub fn i_for_each(x: X, _y: X, _a: f64, _k: usize) -> f64 { let mut n = 0.; x.iter().for_each(|v| n -= v); n }
pub fn i_map_while(x: X, _y: X, a: f64, _k: usize) -> f64 { x.iter().map_while(|v| (*v < a).then(|| v + 1.)).sum() }
pub fn i_chunks(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.chunks(2).map(|c| c[0]).sum() }
pub fn i_max_by_key(x: X, y: X, _a: f64, _k: usize) -> f64 { let i = (0..x.len()).max_by(|i, j| x[*i].total_cmp(&x[*j])).unwrap(); y[i] }
pub fn i_partition(x: X, _y: X, a: f64, _k: usize) -> f64 { let (p, q): (Vec<f64>, Vec<f64>) = x.iter().partition(|v| **v > a); p.iter().sum::<f64>() * 2. + q.iter().sum::<f64>() }
pub fn i_vec_ops(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut v = x.to_vec(); v.push(a); v.insert(0, 2. * a); let l = v.pop().unwrap(); v.iter().enumerate().map(|(i, t)| t * (i as f64 + 1.)).sum::<f64>() + l }
pub fn i_dedup_windows3(x: X, _y: X, _a: f64, _k: usize) -> f64 { x.iter().tuple_windows().map(|(a, b, c)| a - 2. * b + c).sum() }
pub fn i_extend(x: X, y: X, _a: f64, _k: usize) -> Vec<f64> { let mut v = x.to_vec(); v.extend(y.iter().map(|t| t * 2.)); v.extend_from_slice(&x[..1]); v }
// ---- options, results, enums
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum D { P, N, U }
impl D { fn of(v: f64) -> D { match v.partial_cmp(&0.) { Some(Ordering::Less) => D::N, Some(Ordering::Equal) => D::U, Some(Ordering::Greater) => D::P, None => D::U } } fn pick(self, p: f64, n: f64) -> f64 { match self { D::P => p, D::N => n, D::U => 0.5 * (p + n) } } }
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum E { A(f64), B { u: f64, v: f64 }, C }
#[derive(Clone, Copy)]
#[repr(i8)]
pub enum F { M = -2, Z = 0, Q = 7 }
pub fn e_dir(x: X, y: X, a: f64, _k: usize) -> f64 { D::of(a - x[0]).pick(x[1], y[1]) }
pub fn e_ord(x: X, _y: X, a: f64, _k: usize) -> f64 { match x[0].total_cmp(&a) { Ordering::Less => -1., Ordering::Equal => 0., Ordering::Greater => 1. } }
pub fn e_ordas(x: X, _y: X, a: f64, _k: usize) -> f64 { x[0].partial_cmp(&a).unwrap() as i32 as f64 }
pub fn e_ord_is(x: X, _y: X, a: f64, _k: usize) -> bool { x[0].total_cmp(&a).is_ge() }
pub fn e_ord_rev(x: X, _y: X, a: f64, _k: usize) -> bool { x[0].total_cmp(&a).reverse() == Ordering::Less }
pub fn e_ord_then(x: X, y: X, a: f64, k: usize) -> bool { (k > 2).cmp(&true).then(x[0].total_cmp(&a)).then_with(|| y[0].total_cmp(&a)) == Ordering::Less }
pub fn e_disc(_x: X, _y: X, _a: f64, k: usize) -> f64 { let f = if k < 2 { F::M } else if k < 4 { F::Z } else { F::Q }; match f { F::M => 1., F::Z => 2., F::Q => f as i8 as f64 } }
pub fn e_disc2(_x: X, _y: X, _a: f64, k: usize) -> f64 { let f = if k < 2 { F::M } else { F::Q }; f as i8 as f64 }
fn mk(x: X, k: usize) -> E { if k == 0 { E::A(x[0]) } else if k == 1 { E::B { u: x[1], v: x[0] } } else { E::C } }
pub fn e_match(x: X, _y: X, a: f64, k: usize) -> f64 { match mk(x, k) { E::A(v) if v > a => v, E::A(_) => a, E::B { u, .. } => u * 2., E::C => -1. } }
pub fn e_eq(x: X, y: X, _a: f64, k: usize) -> bool { mk(x, k) == mk(y, 1) || mk(x, k) == E::C }
pub fn e_matches(x: X, _y: X, _a: f64, k: usize) -> bool { matches!(mk(x, k), E::B { u, v } if u > v) }
pub fn e_opt_map(x: X, _y: X, a: f64, k: usize) -> f64 { x.get(k).map(|v| v + a).filter(|v| *v > 0.).or(Some(4.)).unwrap() }
pub fn e_opt_and(x: X, _y: X, a: f64, k: usize) -> f64 { x.get(k).and_then(|v| if *v > a { Some(*v) } else { None }).map_or(-2., |v| v * 3.) }
pub fn e_opt_q(x: X, _y: X, _a: f64, k: usize) -> f64 { fn g(x: X, k: usize) -> Option<f64> { let p = x.get(k)?; let q = x.get(k + 1)?; Some(p - q) } g(x, k).unwrap_or_default() }
pub fn e_opt_zip(x: X, y: X, _a: f64, k: usize) -> f64 { x.get(k).zip(y.first()).map(|(p, q)| p * q).unwrap_or(8.) }
pub fn e_opt_take(x: X, _y: X, a: f64, k: usize) -> f64 { let mut o = x.get(k).copied(); let t = o.take(); let r = o.get_or_insert(a); *r += 1.; t.unwrap_or(0.) + o.unwrap() }
pub fn e_opt_replace(x: X, _y: X, a: f64, k: usize) -> f64 { let mut o = if k > 1 { Some(x[0]) } else { None }; let old = o.replace(a); old.unwrap_or(10.) + o.unwrap() }
pub fn e_res_q(x: X, _y: X, a: f64, _k: usize) -> f64 { fn g(v: f64, a: f64) -> Result<f64> { if v > a { bail!("no"); } Ok(v) } fn h(x: X, a: f64) -> Result<f64> { let p = g(x[0], a)?; let q = g(x[1], a).context("second")?; Ok(p + q) } match h(x, a) { Ok(v) => v, Err(_) => -9. } }
pub fn e_res_map(x: X, _y: X, a: f64, _k: usize) -> f64 { let r: std::result::Result<f64, f64> = if x[0] > a { Ok(x[0]) } else { Err(a) }; r.map(|v| v * 2.).map_err(|e| e - 1.).unwrap_or_else(|e| e * 5.) }
pub fn e_res_or(x: X, _y: X, a: f64, _k: usize) -> f64 { let r: std::result::Result<f64, f64> = if x[0] > a { Ok(x[0]) } else { Err(a) }; r.or_else(|e| if e > 0. { Ok(e) } else { Err(1.) }).unwrap_or(77.) }
pub fn e_ok(x: X, _y: X, a: f64, k: usize) -> f64 { let r: std::result::Result<f64, ()> = x.get(k).copied().ok_or(()); r.ok().map_or_else(|| a, |v| v) }
pub fn e_iflet(x: X, _y: X, a: f64, k: usize) -> f64 { if let Some(v) = x.get(k) { *v } else if k > 4 { a } else { -a } }
pub fn e_letelse(x: X, _y: X, a: f64, k: usize) -> f64 { let Some(v) = x.get(k) else { return a; }; v * 2. }
pub fn e_then(x: X, _y: X, a: f64, _k: usize) -> f64 { (x[0] > a).then(|| x[0]).unwrap_or(a) + (x[1] > a).then_some(1.).unwrap_or_default() }
pub fn e_xor(x: X, _y: X, a: f64, k: usize) -> f64 { let b = (x[0] > a) ^ (k > 2); let c = (x[1] > a) & (k > 1) | b; (b as u8 + 2 * c as u8) as f64 }
pub fn e_shadow(x: X, _y: X, a: f64, _k: usize) -> f64 { let a = { let a = a + 1.; a * x[0] }; let b = if a > 0. { let a = 3.; a } else { a }; a - b }
pub fn e_tuple_match(x: X, _y: X, a: f64, k: usize) -> f64 { match (x[0] > a, k) { (true, 0 | 1) => 1., (true, 2..=3) => 2., (false, n) if n > 2 => 3., _ => 4. } }
// ---- memory
#[derive(Clone, Copy, Default, PartialEq)]
pub struct S { a: f64, b: f64, n: usize }
pub fn m_update(x: X, _y: X, a: f64, k: usize) -> f64 { let s = S { a, b: x[0], n: k }; let t = S { b: 2., ..s }; let mut u = t; u.a += s.b; u.a * t.b + u.n as f64 }
pub fn m_ref(x: X, _y: X, a: f64, k: usize) -> f64 { let (mut p, mut q) = (x[0], x[1]); { let r = if k > 1 { &mut p } else { &mut q }; *r += a; } p - q * 2. }
pub fn m_swap(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut s = S { a, b: x[0], n: 0 }; std::mem::swap(&mut s.a, &mut s.b); let o = std::mem::replace(&mut s.a, 5.); let t = std::mem::take(&mut s.b); o - t + s.a + s.b }
pub fn m_cell(x: X, _y: X, a: f64, _k: usize) -> f64 { let c = Cell::new(a); let f = |v: f64| { c.set(c.get() + v); c.get() * 0.5 }; f(x[0]) + f(x[1]) * 2. + c.get() }
pub fn m_refcell(x: X, _y: X, a: f64, _k: usize) -> f64 { let c = RefCell::new(S { a, ..S::default() }); { let mut g = c.borrow_mut(); g.b = x[0]; } let cur = *c.borrow(); let old = c.replace(S { a: x[1], ..cur }); let now = c.into_inner(); old.a + 2. * now.a + 3. * now.b }
pub fn m_closure_mut(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut n = a; let mut f = |v: f64| { n = n * 0.5 + v; n }; let p = f(x[0]); let q = f(x[1]); p - q + n }
pub fn m_closure_move(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut n = a; let f = { let m = n; move |v: f64| m + v }; n += 1.; f(x[0]) * n }
pub fn m_boxdyn(x: X, _y: X, a: f64, k: usize) -> f64 { let f: Box<dyn Fn(f64) -> f64> = if k > 1 { Box::new(move |v| v + a) } else { Box::new(move |v| v * a) }; f(x[0]) }
pub fn m_dyn(x: X, _y: X, a: f64, k: usize) -> f64 { trait T { fn g(&self, v: f64) -> f64; fn h(&self) -> f64 { 3. } } struct A(f64); struct B; impl T for A { fn g(&self, v: f64) -> f64 { self.0 * v } } impl T for B { fn g(&self, v: f64) -> f64 { v } fn h(&self) -> f64 { 4. } } let t: &dyn T = if k > 1 { &A(a) } else { &B }; t.g(x[0]) + t.h() }
pub fn m_array(x: X, _y: X, a: f64, k: usize) -> f64 { let mut v = [0.; 4]; v[k % 4] = a; v[1] += x[0]; v[0] - v[1] + 2. * v[2] - 3. * v[3] }
pub fn m_array2(x: X, _y: X, a: f64, k: usize) -> f64 { let mut m = [[0.; 3]; 2]; m[k % 2][k % 3] = a; m[0][1] -= x[0]; m[0][0] + 2. * m[0][1] + 3. * m[0][2] + 4. * m[1][0] + 5. * m[1][1] + 6. * m[1][2] }
pub fn m_fnptr(x: X, _y: X, a: f64, k: usize) -> f64 { let f: fn(f64) -> f64 = if k > 1 { f64::sqrt } else { f64::abs }; f(x[0].abs() + a.abs()) }
pub fn m_nested_mut(x: X, _y: X, a: f64, _k: usize) -> f64 { fn add(s: &mut S, v: f64) -> &mut S { s.a += v; s } let mut s = S { a, ..Default::default() }; add(add(&mut s, x[0]), x[1]).b = 7.; s.a + s.b }
pub fn m_vecstruct(x: X, y: X, _a: f64, _k: usize) -> f64 { let v: Vec<S> = x.iter().zip(y).enumerate().map(|(n, (a, b))| S { a: *a, b: *b, n }).collect(); v.iter().map(|s| s.a * s.n as f64 - s.b).sum::<f64>() + v[1].b }
pub fn m_from(x: X, _y: X, a: f64, _k: usize) -> f64 { impl From<(f64, f64)> for S { fn from((a, b): (f64, f64)) -> S { S { a, b, n: 1 } } } let s: S = (x[0], a).into(); s.a - s.b }
pub fn m_ops(x: X, _y: X, a: f64, _k: usize) -> f64 { impl std::ops::Sub for S { type Output = S; fn sub(self, o: S) -> S { S { a: self.a - o.a, b: self.b - o.b, n: self.n } } } impl std::ops::AddAssign<f64> for S { fn add_assign(&mut self, v: f64) { self.a += v; } } let mut s = S { a, b: 1., n: 0 } - S { a: x[0], b: x[1], n: 1 }; s += 2.; s.a * s.b }
// ---- numbers
pub fn n_basic(x: X, _y: X, a: f64, _k: usize) -> f64 { (x[0] + a) * (x[1] - a) / (1. + a * a) - -x[0] }
pub fn n_minmax(x: X, _y: X, a: f64, _k: usize) -> f64 { x[0].min(a) * 2. + x[1].max(a) * 3. + x[0].clamp(-1., 1.) }
pub fn n_abs(x: X, _y: X, a: f64, _k: usize) -> f64 { (x[0] - a).abs() + x[1].signum() * 2. + a.copysign(x[0]) }
pub fn n_pow(x: X, _y: X, a: f64, _k: usize) -> f64 { x[0].powi(3) + a.powi(-2) + (1. + x[1] * x[1]).powf(0.5) + (2. + a * a).powf(2.) }
pub fn n_sqrt(x: X, _y: X, a: f64, _k: usize) -> f64 { (x[0] * x[0] + a * a).sqrt() + x[0].hypot(a) }
pub fn n_exp(x: X, _y: X, a: f64, _k: usize) -> f64 { (0.3 * x[0]).exp() + (1. + a * a).ln() + (0.1 * a).exp_m1() + (0.1 * a * a).ln_1p() }
pub fn n_trig(x: X, _y: X, a: f64, _k: usize) -> f64 { let (s, c) = x[0].sin_cos(); s * 2. - c * a + x[1].sin() + a.cos() + x[0].tan() }
pub fn n_rad(x: X, _y: X, a: f64, _k: usize) -> f64 { x[0].to_radians() + a.to_degrees() + std::f64::consts::PI * x[1] + std::f64::consts::TAU }
pub fn n_muladd(x: X, _y: X, a: f64, _k: usize) -> f64 { x[0].mul_add(a, x[1]) + (a + 5.).recip() }
pub fn n_cast(x: X, _y: X, _a: f64, k: usize) -> f64 { f64::from(k as u32) * 0.5 + k as f64 + (k as i32 - 3) as f64 + x.len() as f64 + f64::from(k as u8) }
pub fn n_int(x: X, _y: X, _a: f64, k: usize) -> usize { let n = x.len(); n / 2 + n % 2 * 10 + k.min(3) + n.max(4) + k.saturating_sub(2) * 100 + usize::from(k > 2) + k.pow(2) + n.abs_diff(k) }
pub fn n_checked(x: X, _y: X, _a: f64, k: usize) -> usize { x.len().checked_sub(k).map_or(50, |v| v + 1) + k.wrapping_add(1) }
pub fn n_cmp(x: X, _y: X, a: f64, _k: usize) -> usize { (x[0] < a) as usize + 2 * (x[0] <= a) as usize + 4 * (x[0] > a) as usize + 8 * (x[0] >= a) as usize + 16 * (x[0] == a) as usize + 32 * (x[0] != a) as usize }
pub fn n_range(x: X, _y: X, a: f64, k: usize) -> bool { (0.0..1.5).contains(&x[0]) || (a..=3.).contains(&x[1]) && (1..4).contains(&k) }
pub fn n_assign(x: X, _y: X, a: f64, _k: usize) -> f64 { let mut v = x[0]; v += a; v *= 2.; v -= x[1]; v /= 4.; v = -v; v }
pub fn n_neg_zero(x: X, _y: X, _a: f64, _k: usize) -> f64 { if x[0].is_sign_negative() { -1. } else { 1. } }
pub fn n_hyper(x: X, _y: X, a: f64, _k: usize) -> f64 { (0.2 * x[0]).sinh() + (0.3 * a).cosh() - (0.5 * a).tanh() }
pub fn n_sumarr(x: X, y: X, a: f64, _k: usize) -> f64 { [x[0], y[0], a].iter().sum::<f64>() * [x[1], 2.].iter().product::<f64>() }
// ---- nalgebra
pub fn v_dvec(x: X, y: X, a: f64, _k: usize) -> Vec<f64> { let (p, q) = (DVector::from_row_slice(x), DVector::from_vec(y.to_vec())); let r = 0.5 * (&p + &q) - a * p.component_mul(&q) + (&p - &q) / 2.; r.iter().copied().collect() }
pub fn v_dvec2(x: X, y: X, a: f64, _k: usize) -> f64 { let (p, q) = (DVector::from_row_slice(x), DVector::from_row_slice(y)); p.dot(&q) + p.sum() * a + q.map(|v| v * v).sum() + p.zip_map(&q, |s, t| s - 2. * t).sum() + p.add_scalar(a).sum() + p.scale(a).sum() + q.unscale(4.).sum() }
pub fn v_dvec3(x: X, y: X, a: f64, _k: usize) -> f64 { let p = DVector::from_iterator(x.len(), x.iter().copied()); let q = DVector::from_fn(y.len(), |i, _| y[i] * i as f64); let e = DVector::from_element(x.len(), a); (p - e).component_div(&q.add_scalar(9.)).sum() + DVector::<f64>::zeros(x.len()).len() as f64 }
pub fn v_dvec4(x: X, y: X, _a: f64, _k: usize) -> f64 { let (p, q) = (DVector::from_row_slice(x), DVector::from_row_slice(y)); let n = p.nrows(); let d = p.rows(1, n - 1) - p.rows(0, n - 1); let s = q.rows(1, n - 1) + q.rows(0, n - 1); d.dot(&s) }
pub fn v_dvec5(x: X, y: X, a: f64, _k: usize) -> f64 { let mut p = DVector::from_row_slice(x); p += DVector::from_row_slice(y); p *= a; p[0] -= 1.; p.iter_mut().for_each(|v| *v += 0.5); (-&p).sum() + p[1] + p.max() * 0. }
pub fn v_dvec6(x: X, y: X, _a: f64, _k: usize) -> (f64, f64) { let p = DVector::from_row_slice(x); let q = DVector::from_row_slice(y); ((&p + &q).max(), (p - q).min()) }
pub fn v_mat(x: X, y: X, a: f64, _k: usize) -> f64 { let mut m = SMatrix::<f64, 2, 3>::zeros(); m[(0, 1)] = x[0]; m[(1, 2)] = a; m[(0, 0)] -= y[0]; let v = SVector::<f64, 3>::new(1., 2., x[1]); let r = m * v; r[0] - 2. * r[1] + m.transpose()[(2, 1)] + m.row(0).sum() + m.column(2).sum() }
pub fn v_v3(x: X, y: X, a: f64, _k: usize) -> f64 { let mut v = Vector3::new(x[0], y[0], a); v[1] = x[1]; v.z += 1.; let w = v * 2. - Vector3::new(1., 1., 1.); w.x + 2. * w.y + 3. * w[2] }
pub fn v_matnew(x: X, y: X, a: f64, _k: usize) -> f64 { let m = na::Matrix2::new(x[0], x[1], y[0], a); m[(0, 1)] * 10. + m[(1, 0)] + m[1] * 100. + na::Matrix2::<f64>::identity()[(1, 1)] + (m * na::Vector2::new(1., 2.))[1] }
