// Copyright 2018 Developers of the Rand project.
//
// Licensed under the Apache License, Version 2.0 <LICENSE-APACHE or
// https://www.apache.org/licenses/LICENSE-2.0> or the MIT license
// <LICENSE-MIT or https://opensource.org/licenses/MIT>, at your
// option. This file may not be copied, modified, or distributed
// except according to those terms.

//! Thread-local random number generator

// VERIF: environment stub.  The operating-system seeded generator is replaced
// by a source of arbitrary values (`verif_rt`): unconstrained symbols when the
// code is executed symbolically, a recorded tape when a model is replayed.
use crate::{CryptoRng, Error, RngCore};

#[derive(Clone, Debug)]
pub struct ThreadRng {
    _not_send: core::marker::PhantomData<*const ()>,
}

pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: core::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        verif_rt::bits() as u32
    }
    fn next_u64(&mut self) -> u64 {
        verif_rt::bits()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest.iter_mut() {
            *b = verif_rt::bits() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
