//! Caller-written samplers for the checks: they fail, record, or report tokens.
use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;
use proptest::{collection::vec, prelude::*, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

/// How a caller-written sampler fails.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fail {
    Interrupted(Vec<u32>),
    Internal(String),
    Missing(String),
    Logits(usize),
    /// The error of an unusable weight list.
    Weights,
}

impl Fail {
    pub fn error(&self) -> SamplerError {
        match self {
            Fail::Interrupted(v) => SamplerError::Interrupted(Interruption::NewTokensGvien(v.clone())),
            Fail::Internal(s) => SamplerError::InternalError(s.clone()),
            Fail::Missing(s) => SamplerError::MissingResource(s.clone()),
            Fail::Logits(i) => SamplerError::LogitsError(LogitsError::InvalidLogit(*i)),
            Fail::Weights => SamplerError::RandWeightedError(rand::distributions::WeightedError::AllWeightsZero),
        }
    }
}

pub fn fail() -> BoxedStrategy<Fail> {
    prop_oneof![
        4 => vec(any::<u32>(), 0..5).prop_map(Fail::Interrupted),
        1 => "[a-z ]{0,6}".prop_map(Fail::Internal),
        1 => "[a-z ]{0,6}".prop_map(Fail::Missing),
        1 => any::<usize>().prop_map(Fail::Logits),
        1 => Just(Fail::Weights),
    ]
    .boxed()
}

/// Observable text of an error.
pub fn err_text(e: &SamplerError) -> String {
    format!("{e:?}")
}

/// Works (rotating and shortening nothing but one logit) until call number
/// `at`, then edits the list, pushes to the history and fails.
#[derive(Debug, Clone)]
pub struct Failing {
    pub at: usize,
    pub calls: usize,
    pub fail: Fail,
    pub token: Option<u32>,
}

impl Sampler for Failing {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.calls += 1;
        if let Some(l) = logits.first_mut() {
            l.logit -= 0.125;
            logits.set_sorted(false);
            logits.set_softmax(false);
        }
        let _ = res.with_last_tokens_mut(&mut |t| t.push(3));
        if self.calls > self.at {
            self.token = None;
            return Err(self.fail.error());
        }
        self.token = logits.last().map(|l| l.token_id);
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.token
    }
}

/// What reached a recording sampler.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Prepend,
    Sample,
    SampleToken,
}

pub type Log = Arc<Mutex<Vec<(usize, Ev)>>>;

/// Records every call, marks its passing in the list, the history and the
/// generator, and answers `sample_token` differently from
/// `sample` + `sampled_token_id` (which a wrapper must not mix up).
#[derive(Debug, Clone)]
pub struct Recorder {
    pub id: usize,
    pub log: Log,
    /// Calls (of any sampling kind) that fail.
    pub fail_at: Option<(usize, Fail)>,
    pub calls: usize,
    pub last: Option<u32>,
    /// Options of its own.
    pub knob: u64,
    pub level: f32,
}

impl Recorder {
    pub fn new(id: usize, log: &Log, fail_at: Option<(usize, Fail)>) -> Self {
        Self { id, log: log.clone(), fail_at, calls: 0, last: None, knob: 0, level: 0.0 }
    }
    fn note(&self, e: Ev) {
        self.log.lock().unwrap().push((self.id, e));
    }
    fn work(&mut self, res: &mut dyn HasSamplerResources, logits: &mut Logits, salt: u32) -> Result<(), SamplerError> {
        self.calls += 1;
        if let Some((n, f)) = &self.fail_at {
            if self.calls == *n {
                self.last = None;
                return Err(f.error());
            }
        }
        logits.push(Logit { token_id: 1000 * self.id as u32 + self.calls as u32, logit: -(self.calls as f32) - salt as f32, prob: 0.0 });
        logits.set_sorted(false);
        logits.set_softmax(false);
        let _ = res.with_last_tokens_mut(&mut |t| t.push(self.id as u32 * 10 + salt));
        self.last = Some(1_000_000 * (salt + 1) + 1000 * self.id as u32 + self.calls as u32);
        Ok(())
    }
}

impl Sampler for Recorder {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.note(Ev::Prepend);
        let _ = res.with_last_tokens_mut(&mut |t| t.push(self.id as u32 * 10 + 7));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.note(Ev::Sample);
        self.work(res, logits, 0)?;
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<u32> {
        self.last
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, logits: &mut Logits) -> Result<Option<u32>, SamplerError> {
        self.note(Ev::SampleToken);
        self.work(res, logits, 1)?;
        // Not what sampled_token_id says.
        Ok(self.last.map(|t| t + 500_000))
    }
}

impl llm_samplers::configure::HasSamplerMetadata<usize, f32> for Recorder {
    fn sampler_metadata(&self) -> llm_samplers::configure::SamplerMetadata {
        use llm_samplers::configure::*;
        SamplerMetadata {
            name: "recorder",
            description: None,
            options: vec![],
        }
    }
}
impl llm_samplers::configure::ConfigurableSampler<usize, f32> for Recorder {}

/// An iterator that only knows bounds of its length.
pub struct Hint<I>(pub I, pub usize, pub usize);

impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 = self.1.saturating_sub(1);
        self.2 = self.2.saturating_sub(1);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, Some(self.2))
    }
}
