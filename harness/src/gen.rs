//! Case generators: all short sequences over an alphabet, then seeded random longer ones.
use crate::Case;
use std::sync::Arc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}
pub type Iter = Box<dyn Iterator<Item = Case> + Send>;

/// all sequences of length <= k over the alphabet
pub fn exhaustive(al: &'static [&'static str], k: usize) -> Iter {
    let n = al.len();
    Box::new((0..=k).flat_map(move |len| {
        let total = n.pow(len as u32);
        (0..total).map(move |mut i| {
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(al[i % n]);
                i /= n;
            }
            Case::s(s)
        })
    }))
}
/// `count` random sequences with lengths in lo..hi
pub fn random(al: &'static [&'static str], lo: usize, hi: usize, count: usize, seed: u64) -> Iter {
    Box::new((0..count).map(move |i| {
        let mut r = Rng::new(seed.wrapping_mul(1000003).wrapping_add(i as u64));
        let len = lo + r.below(hi - lo);
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(r.pick(al));
        }
        Case::s(s)
    }))
}
/// random cases made by a function of (rng, index)
pub fn from_fn(count: usize, seed: u64, f: impl Fn(&mut Rng, usize) -> Case + Send + Sync + 'static) -> Iter {
    let f = Arc::new(f);
    Box::new((0..count).map(move |i| {
        let mut r = Rng::new(seed.wrapping_mul(7777777).wrapping_add(i as u64));
        f(&mut r, i)
    }))
}
pub fn chain(v: Vec<Iter>) -> Iter {
    Box::new(v.into_iter().flatten())
}
pub fn list(v: Vec<Case>) -> Iter {
    Box::new(v.into_iter())
}
