//! A dishonest prover at work on one constraint system: it overwrites values
//! in memory and repairs what it broke, where it can.
use crate::mirror::{Rd, Side};
use model::{Fe, Modulus};
use parity_scale_codec::{Decode, Encode};
use simcore::Rng;
use zkstd::circuit::CircuitDriver;
use zkstd::r1cs::R1cs;

pub type Scalar<S> = <<S as Side>::D as CircuitDriver>::Scalar;

pub fn real<S: Side>(v: Fe<S::M>) -> Scalar<S> {
    let b: Vec<u8> = v.mont_repr().iter().flat_map(|l| l.to_le_bytes()).collect();
    Scalar::<S>::decode(&mut &b[..]).expect("HARNESS scalar")
}
pub fn model<S: Side>(v: &Scalar<S>) -> Fe<S::M> {
    Rd(&v.encode()).fe()
}

/// A linear combination: (is public, index, coefficient).
pub type Row<M> = Vec<(bool, usize, Fe<M>)>;
pub fn row_of<M: Modulus, V: Encode>(v: &V) -> Row<M> {
    let b = v.encode();
    let mut r = Rd(&b);
    let o = rd_row(&mut r);
    r.done();
    o
}
fn rd_row<M: Modulus>(r: &mut Rd) -> Row<M> {
    (0..r.compact())
        .map(|_| {
            let t = r.take(1)[0];
            (t == 0, r.compact() as usize, r.fe())
        })
        .collect()
}

pub struct Forge<S: Side> {
    pub l: usize,
    pub m: usize,
    abc: [Vec<Vec<(u32, Fe<S::M>)>>; 3],
    /// public values first, then witnesses
    pub z: Vec<Fe<S::M>>,
    by_wire: Vec<Vec<u32>>,
    /// the last wire of each constraint, in the order in which they are made
    top: Vec<usize>,
    /// wires that are bits, or a constant times a bit: (bit, constant)
    bitish: Vec<Option<(u32, Fe<S::M>)>>,
    log2: std::collections::HashMap<[u64; 4], u32>,
}

impl<S: Side> Forge<S> {
    pub fn of(cs: &R1cs<S::D>) -> Self {
        let (x, w) = (cs.x(), cs.w());
        let l = x.len();
        let z: Vec<_> = x.iter().chain(w.iter()).map(|v| model::<S>(v)).collect();
        let (a, b, c) = cs.matrices();
        let mat = |m: Vec<u8>| -> Vec<Vec<(u32, Fe<S::M>)>> {
            let mut r = Rd(&m);
            let n = r.compact();
            let v = (0..n).map(|_| rd_row::<S::M>(&mut r).into_iter().map(|(inst, i, c)| (if inst { i } else { l + i } as u32, c)).collect()).collect();
            r.done();
            v
        };
        let abc = [mat(a.encode()), mat(b.encode()), mat(c.encode())];
        assert!(abc.iter().all(|m| m.len() as u64 == cs.m()), "HARNESS: rows and constraint count differ");
        let mut by_wire = vec![vec![]; z.len()];
        for m in &abc {
            for (i, r) in m.iter().enumerate() {
                for (v, _) in r {
                    let e: &mut Vec<u32> = &mut by_wire[*v as usize];
                    if e.last() != Some(&(i as u32)) {
                        e.push(i as u32);
                    }
                }
            }
        }
        let mut f = Forge { l, m: cs.m() as usize, abc, z, by_wire, top: vec![], bitish: vec![], log2: Default::default() };
        f.top = (0..f.m).map(|i| (0..3).flat_map(|k| f.abc[k][i].iter().map(|(v, _)| f.when(*v as usize))).max().unwrap_or(0)).collect();
        f.bitish = vec![None; f.z.len()];
        for i in 0..f.m {
            let w: Vec<u32> = (0..3).flat_map(|k| f.abc[k][i].iter().map(|(v, _)| *v)).filter(|v| *v != 0).collect();
            if !w.is_empty() && w.iter().all(|v| *v == w[0]) && w[0] as usize >= l && f.linear(i).is_none() {
                f.bitish[w[0] as usize] = Some((w[0], Fe::one()));
            }
        }
        for i in 0..f.m {
            let Some(lin) = f.linear(i) else { continue };
            if let [(u, cu), (v, cv)] = lin[..] {
                let (u, cu, v, cv) = if u < v { (u, cu, v, cv) } else { (v, cv, u, cu) };
                if u as usize >= l && f.bitish[u as usize].map_or(false, |b| b.0 == u) && f.bitish[v as usize].is_none() && !cv.is_zero() {
                    f.bitish[v as usize] = Some((u, -cu * if cv == Fe::one() || cv == -Fe::<S::M>::one() { cv } else { cv.inv() }));
                }
            }
        }
        let mut t = Fe::<S::M>::one();
        for k in 0..250 {
            f.log2.insert(t.int(), k);
            t = t + t;
        }
        f
    }
    /// When a wire is made: public ones come last.
    fn when(&self, v: usize) -> usize {
        if v >= self.l {
            v
        } else if v == 0 {
            0
        } else {
            self.z.len() + v
        }
    }
    /// The constraint as a linear combination that is zero, if it is linear.
    fn linear(&self, i: usize) -> Option<Vec<(u32, Fe<S::M>)>> {
        let konst = |k: usize| -> Option<Fe<S::M>> { self.abc[k][i].iter().all(|(v, _)| *v == 0).then(|| self.abc[k][i].iter().fold(Fe::zero(), |a, (_, c)| a + *c)) };
        let (k, o) = match (konst(0), konst(1)) {
            (Some(k), _) => (k, 1),
            (_, Some(k)) => (k, 0),
            _ => return None,
        };
        let mut m = std::collections::BTreeMap::<u32, Fe<S::M>>::new();
        for (v, c) in &self.abc[o][i] {
            let e = m.entry(*v).or_insert(Fe::zero());
            *e = *e + *c * k;
        }
        for (v, c) in &self.abc[2][i] {
            let e = m.entry(*v).or_insert(Fe::zero());
            *e = *e - *c;
        }
        Some(m.into_iter().filter(|(_, c)| !c.is_zero()).collect())
    }
    /// Recomposes the bits of a broken linear constraint.
    fn decompose(&self, i: usize, held: &dyn Fn(usize) -> bool) -> Option<Vec<(usize, Fe<S::M>)>> {
        let lin = self.linear(i)?;
        if lin.len() < 8 {
            return None;
        }
        let (mut rest, mut bits) = (Fe::<S::M>::zero(), vec![]);
        for (v, c) in &lin {
            match self.bitish[*v as usize] {
                Some((b, f)) if !held(b as usize) && !held(*v as usize) => bits.push((b, *v, f, *c * f)),
                _ => rest = rest + *c * self.z[*v as usize],
            }
        }
        if bits.len() < 8 {
            return None;
        }
        for neg in [false, true] {
            let e = |c: Fe<S::M>| self.log2.get(&if neg { (-c).int() } else { c.int() }).copied();
            // coefficients above 2^249 wrap for some moduli: take the exponent from the position
            let mut by: Vec<(u32, usize)> = vec![];
            for (k, b) in bits.iter().enumerate() {
                if let Some(x) = e(b.3) {
                    by.push((x, k));
                }
            }
            if by.len() < 8 {
                continue;
            }
            let t = (if neg { rest } else { -rest }).int();
            let mut out = vec![];
            let mut got = [0u64; 4];
            for (x, k) in &by {
                let bit = t[*x as usize / 64] >> (x % 64) & 1;
                got[*x as usize / 64] |= bit << (x % 64);
                let (b, v, f, _) = bits[*k];
                let one = if bit == 1 { Fe::one() } else { Fe::zero() };
                out.push((b as usize, one));
                if v != b {
                    out.push((v as usize, one * f));
                }
            }
            // the bits above
            let mut left = Fe::<S::M>::from_int(t) - Fe::from_int(got);
            let two = Fe::<S::M>::one() + Fe::one();
            let mut up = Fe::<S::M>::two_pow(250);
            for j in 250..256u32 {
                let c = if neg { -up } else { up };
                if let Some((b, v, f, _)) = bits.iter().find(|b| b.3 == c && e(b.3).is_none()) {
                    let bit = j < 256 && t[3] >> (j - 192) & 1 == 1;
                    let one = if bit { Fe::one() } else { Fe::zero() };
                    if bit {
                        left = left - up;
                    }
                    out.push((*b as usize, one));
                    if v != b {
                        out.push((*v as usize, one * *f));
                    }
                }
                up = up * two;
            }
            if left.is_zero() {
                return Some(out);
            }
        }
        None
    }
    /// Recomputes what follows from changes to `held`, in the order in which
    /// wires are made; public values may change.
    pub fn resolve(&mut self, held: &[usize], r: &mut Rng, mut budget: u64) -> bool {
        let mut sets = std::collections::HashMap::<usize, u32>::new();
        // how often something else is changed than what comes last
        let odd = *r.pick(&[0, 0, 1, 16, 128]);
        let mut queue = std::collections::BTreeSet::<(usize, u32)>::new();
        for h in held {
            sets.insert(*h, 9);
            queue.extend(self.by_wire[*h].iter().map(|i| (self.top[*i as usize], *i)));
        }
        while let Some(e) = queue.iter().next().copied() {
            queue.remove(&e);
            let i = e.1 as usize;
            let (a, b, c) = (self.row(0, i), self.row(1, i), self.row(2, i));
            if a * b == c {
                continue;
            }
            if budget == 0 {
                return false;
            }
            budget -= 1;
            let mut new = vec![];
            if !r.chance(odd, 1024) {
                if let Some(v) = self.decompose(i, &|v| sets.get(&v).map_or(false, |n| *n > 2)) {
                    new = v;
                }
            }
            if new.is_empty() {
                let coef = |k: usize, v: usize| self.abc[k][i].iter().fold(Fe::zero(), |s, (w, c)| if *w as usize == v { s + *c } else { s });
                let mut cand: Vec<usize> = (0..3).flat_map(|k| self.abc[k][i].iter().map(|(v, _)| *v as usize)).filter(|v| *v > 0 && sets.get(v).map_or(true, |n| *n < 3)).collect();
                cand.sort_by_key(|v| self.when(*v));
                cand.dedup();
                while !cand.is_empty() {
                    let at = if !r.chance(odd, 1024) { cand.len() - 1 } else { r.below(cand.len() as u64) as usize };
                    let v = cand.remove(at);
                    if sets.contains_key(&v) && !cand.is_empty() && r.chance(3, 4) {
                        cand.insert(0, v);
                        if cand.iter().all(|v| sets.contains_key(v)) {
                            break;
                        }
                        continue;
                    }
                    let (a1, b1, c1) = (coef(0, v), coef(1, v), coef(2, v));
                    if !a1.is_zero() && !b1.is_zero() {
                        let ok = [Fe::zero(), Fe::one()].into_iter().find(|t| {
                            let d = *t - self.z[v];
                            (a + a1 * d) * (b + b1 * d) == c + c1 * d
                        });
                        if let Some(t) = ok {
                            new.push((v, t));
                            break;
                        }
                        continue;
                    }
                    let den = a1 * b + b1 * a - c1;
                    if den.is_zero() {
                        continue;
                    }
                    let n = c - a * b;
                    new.push((v, self.z[v] + n * if den == Fe::one() || den == -Fe::<S::M>::one() { den } else { den.inv() }));
                    break;
                }
            }
            if new.is_empty() {
                return false;
            }
            for (v, t) in new {
                *sets.entry(v).or_default() += 1;
                if self.z[v] != t {
                    self.z[v] = t;
                    queue.extend(self.by_wire[v].iter().map(|i| (self.top[*i as usize], *i)));
                }
            }
        }
        true
    }
    /// The structure without the assigned values.
    pub fn same_shape(&self, o: &Self) -> bool {
        self.l == o.l && self.z.len() == o.z.len() && self.abc == o.abc
    }
    fn row(&self, k: usize, i: usize) -> Fe<S::M> {
        self.abc[k][i].iter().fold(Fe::zero(), |a, (v, c)| a + *c * self.z[*v as usize])
    }
    pub fn holds(&self, i: usize) -> bool {
        self.row(0, i) * self.row(1, i) == self.row(2, i)
    }
    pub fn sat(&self) -> bool {
        (0..self.m).all(|i| self.holds(i))
    }
    pub fn val(&self, r: &Row<S::M>) -> Fe<S::M> {
        r.iter().fold(Fe::zero(), |a, (inst, i, c)| a + *c * self.z[if *inst { *i } else { self.l + i }])
    }
    /// Repairs the constraints broken by changes to `held`, changing no public
    /// value, none of `held` and no witness below `lo`.
    pub fn repair(&mut self, held: &[usize], lo: usize, r: &mut Rng, mut budget: u64) -> bool {
        let mut sets = std::collections::BTreeMap::<usize, u32>::new();
        let mut queue: Vec<u32> = vec![];
        for h in held {
            sets.insert(*h, 9);
            queue.extend(&self.by_wire[*h]);
        }
        while let Some(i) = queue.pop() {
            let i = i as usize;
            let (a, b, c) = (self.row(0, i), self.row(1, i), self.row(2, i));
            if a * b == c {
                continue;
            }
            if budget == 0 {
                return false;
            }
            budget -= 1;
            let coef = |k: usize, v: usize| self.abc[k][i].iter().fold(Fe::zero(), |s, (w, c)| if *w as usize == v { s + *c } else { s });
            let mut cand: Vec<usize> = (0..3).flat_map(|k| self.abc[k][i].iter().map(|(v, _)| *v as usize)).filter(|v| *v >= self.l + lo && sets.get(v).map_or(true, |n| *n < 2)).collect();
            cand.sort();
            cand.dedup();
            let mut new = None;
            while !cand.is_empty() {
                let at = if r.chance(2, 3) { cand.len() - 1 } else { r.below(cand.len() as u64) as usize };
                let v = cand.remove(at);
                let (a1, b1, c1) = (coef(0, v), coef(1, v), coef(2, v));
                if !a1.is_zero() && !b1.is_zero() {
                    // a quadratic; try the values a bit could have
                    for t in [Fe::zero(), Fe::one()] {
                        let d = t - self.z[v];
                        if (a + a1 * d) * (b + b1 * d) == c + c1 * d {
                            new = Some((v, t));
                        }
                    }
                    if new.is_some() {
                        break;
                    }
                    continue;
                }
                // (a + a1 d)(b + b1 d) = c + c1 d with a1 b1 = 0
                let den = a1 * b + b1 * a - c1;
                if den.is_zero() {
                    continue;
                }
                let n = c - a * b;
                new = Some((v, self.z[v] + n * if den == Fe::one() { den } else if den == -Fe::<S::M>::one() { den } else { den.inv() }));
                break;
            }
            let Some((v, t)) = new else { return false };
            *sets.entry(v).or_default() += 1;
            self.z[v] = t;
            queue.extend(&self.by_wire[v]);
        }
        true
    }
    /// The witnesses that no constraint ties to wires made before them, bits
    /// and others: what the prover is trusted least with.
    pub fn hints(&self) -> (Vec<usize>, Vec<usize>) {
        let (mut tied, mut bit) = (vec![false; self.z.len()], vec![false; self.z.len()]);
        for i in 0..self.m {
            let wires = || (0..3).flat_map(|k| self.abc[k][i].iter().map(|(v, _)| *v as usize)).filter(|v| *v >= self.l);
            if let Some(top) = wires().max() {
                // a constraint on one wire only says it is a bit
                let own = wires().all(|v| v == top);
                tied[top] |= !own;
                bit[top] |= own;
            }
        }
        (self.l..self.z.len()).filter(|i| !tied[*i]).map(|i| i - self.l).partition(|i| bit[*i + self.l])
    }
    /// Forgets what the forger did since the values were `z`.
    pub fn reset(&mut self, z: &[Fe<S::M>]) {
        self.z.copy_from_slice(z)
    }
    /// Puts the forged witness into the real system.
    pub fn store(&self, cs: &mut R1cs<S::D>) {
        for (i, v) in self.z[self.l..].iter().enumerate() {
            cs.sim_set_witness(i, real::<S>(*v));
        }
    }
}
