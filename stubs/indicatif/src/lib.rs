//! VERIF stub of indicatif: progress bars do nothing; `MultiProgress::join`
//! is the synchronisation with the jobs that own the bars.
use std::borrow::Cow;

#[derive(Clone, Debug)]
pub struct ProgressStyle {}
impl ProgressStyle {
    pub fn default_bar() -> Self {
        ProgressStyle {}
    }
    pub fn default_spinner() -> Self {
        ProgressStyle {}
    }
    pub fn template(self, _s: &str) -> Self {
        self
    }
    pub fn progress_chars(self, _s: &str) -> Self {
        self
    }
}

#[derive(Clone, Debug)]
pub struct ProgressBar {}
impl ProgressBar {
    pub fn new(_len: u64) -> Self {
        ProgressBar {}
    }
    pub fn hidden() -> Self {
        ProgressBar {}
    }
    pub fn set_style(&self, _s: ProgressStyle) {}
    pub fn inc(&self, _d: u64) {}
    pub fn set_position(&self, _p: u64) {}
    pub fn set_length(&self, _p: u64) {}
    pub fn set_message(&self, _m: impl Into<Cow<'static, str>>) {}
    pub fn set_prefix(&self, _m: impl Into<Cow<'static, str>>) {}
    pub fn finish(&self) {}
    pub fn finish_with_message(&self, _m: impl Into<Cow<'static, str>>) {}
    pub fn finish_and_clear(&self) {}
    pub fn reset_eta(&self) {}
    pub fn reset(&self) {}
    pub fn tick(&self) {}
}

#[derive(Debug)]
pub struct MultiProgress {}
impl MultiProgress {
    pub fn new() -> Self {
        MultiProgress {}
    }
    pub fn add(&self, pb: ProgressBar) -> ProgressBar {
        pb
    }
    pub fn join(&self) -> std::io::Result<()> {
        verif_rt::run_jobs();
        Ok(())
    }
    pub fn join_and_clear(&self) -> std::io::Result<()> {
        verif_rt::run_jobs();
        Ok(())
    }
}
