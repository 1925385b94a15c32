//! VERIF stub of glob: the matching files of the (virtual) directory, in
//! alphabetical order (glob's documented order).
use std::path::PathBuf;

#[derive(Debug)]
pub struct PatternError {
    pub pos: usize,
    pub msg: &'static str,
}
#[derive(Debug)]
pub struct GlobError {}
impl std::fmt::Display for GlobError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("GlobError")
    }
}

pub struct Paths {
    i: usize,
    names: Vec<String>,
}

pub type GlobResult = Result<PathBuf, GlobError>;

pub fn glob(pattern: &str) -> Result<Paths, PatternError> {
    let n = verif_rt::verif_glob_count(pattern.as_ptr(), pattern.len());
    let mut names = Vec::new();
    for i in 0..n {
        let mut buf: Vec<u8> = vec![0; 64];
        let k = verif_rt::verif_glob_name(i, buf.as_mut_ptr());
        buf.truncate(k);
        names.push(unsafe { String::from_utf8_unchecked(buf) });
    }
    Ok(Paths { i: 0, names })
}

impl Iterator for Paths {
    type Item = GlobResult;
    fn next(&mut self) -> Option<GlobResult> {
        if self.i < self.names.len() {
            self.i += 1;
            Some(Ok(PathBuf::from(self.names[self.i - 1].clone())))
        } else {
            None
        }
    }
}
