//! Commitments under a key whose points are known to be in arithmetic
//! progression, without summing them up term by term. Off for part of the runs.
use crate::mirror::{Bn, Gk, Side};
use std::any::type_name;
use std::sync::Mutex;
use zkstd::circuit::prelude::CircuitDriver;
use zkstd::common::{BNAffine, IntGroup};

type A<S> = <<S as Side>::D as CircuitDriver>::Affine;

/// The points p, p + q, p + 2q, ...
struct Known<P> {
    g: Vec<P>,
    q: P,
}
static BN: Mutex<Vec<Known<A<Bn>>>> = Mutex::new(vec![]);
static GK: Mutex<Vec<Known<A<Gk>>>> = Mutex::new(vec![]);

pub fn learn_bn(g: Vec<A<Bn>>, q: A<Bn>) {
    learn(&BN, g, q)
}
pub fn learn_gk(g: Vec<A<Gk>>, q: A<Gk>) {
    learn(&GK, g, q)
}
fn learn<P: PartialEq>(known: &Mutex<Vec<Known<P>>>, g: Vec<P>, q: P) {
    let mut k = known.lock().unwrap();
    if !k.iter().any(|k| k.g.first() == g.first() && k.g.len() == g.len()) {
        k.push(Known { g, q })
    }
}

unsafe fn with<P: BNAffine>(known: &Mutex<Vec<Known<P>>>, g: *const (), n: usize, m: *const (), len: usize, out: *mut ()) -> bool {
    let g = std::slice::from_raw_parts(g as *const P, n);
    let m = std::slice::from_raw_parts(m as *const P::Scalar, len);
    let known = known.lock().unwrap();
    let Some(k) = known.iter().find(|k| k.g.len() == n && k.g[..] == *g) else { return false };
    // sum of v_i (p + i q): the second sum is that of all tails
    let (mut tail, mut weighted) = (P::Scalar::zero(), P::Scalar::zero());
    for i in (1..len.min(n)).rev() {
        tail = tail + m[i];
        weighted = weighted + tail;
    }
    if len > 0 && n > 0 {
        tail = tail + m[0];
    }
    *(out as *mut P) = P::from(g[0] * tail + k.q * weighted);
    true
}
unsafe fn commit(of: &'static str, g: *const (), n: usize, m: *const (), len: usize, out: *mut ()) -> bool {
    if of == type_name::<A<Bn>>() {
        with(&BN, g, n, m, len, out)
    } else if of == type_name::<A<Gk>>() {
        with(&GK, g, n, m, len, out)
    } else {
        false
    }
}

pub fn set(on: bool) {
    unsafe { zknova::sim::COMMIT = if on { Some(commit) } else { None } }
}
