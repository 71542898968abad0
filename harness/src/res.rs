//! Resources handed to samplers, with instrumentation.
use std::cell::Cell;

use llm_samplers::prelude::*;
use rand::{rngs::StdRng, RngCore, SeedableRng};

/// The crate's own resources with a seeded generator and/or a history.
pub fn simple(seed: Option<u64>, hist: Option<Vec<u32>>) -> SimpleSamplerResources {
    SimpleSamplerResources::new(
        seed.map(|s| Box::new(StdRng::seed_from_u64(s)) as Box<dyn RngCore + Send + Sync>),
        hist,
    )
}

/// A generator that emits the given values only, again and again.
#[derive(Debug, Clone)]
pub struct Fixed(pub Vec<u64>, pub usize);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        self.0[self.1 % self.0.len()]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// A caller-provided resource that counts what is asked of it.
#[derive(Debug)]
pub struct Counting {
    pub rng: Option<StdRng>,
    pub hist: Option<Vec<u32>>,
    pub rng_calls: usize,
    pub hist_mut_calls: usize,
    pub hist_calls: Cell<usize>,
}

impl Counting {
    pub fn new(seed: Option<u64>, hist: Option<Vec<u32>>) -> Self {
        Self {
            rng: seed.map(StdRng::seed_from_u64),
            hist,
            rng_calls: 0,
            hist_mut_calls: 0,
            hist_calls: Cell::new(0),
        }
    }
}

impl HasSamplerResources for Counting {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        self.rng_calls += 1;
        match self.rng.as_mut() {
            Some(r) => {
                fun(r);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("rng".into())),
        }
    }
    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        self.hist_calls.set(self.hist_calls.get() + 1);
        match self.hist.as_ref() {
            Some(h) => {
                fun(h);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<TID>)) -> Result<(), SamplerError> {
        self.hist_mut_calls += 1;
        match self.hist.as_mut() {
            Some(h) => {
                fun(h);
                Ok(())
            }
            None => Err(SamplerError::MissingResource("last_tokens".into())),
        }
    }
}

/// The next values of the generator, as an observable fingerprint of its state.
pub fn rng_fingerprint(res: &mut dyn HasSamplerResources) -> Option<u64> {
    let mut v = None;
    let _ = res.with_rng_mut(&mut |r| v = Some(r.next_u64()));
    v
}

pub fn history(res: &dyn HasSamplerResources) -> Option<Vec<u32>> {
    let mut v = None;
    let _ = res.with_last_tokens(&mut |t| v = Some(t.clone()));
    v
}
