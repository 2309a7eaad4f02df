// Verification stand-in: every output of the thread generator is an arbitrary value.
use {RngCore, CryptoRng, Error};

#[derive(Clone, Debug)]
pub struct ThreadRng {
    _p: ::std::marker::PhantomData<*mut u8>,
}

pub fn thread_rng() -> ThreadRng {
    ThreadRng { _p: ::std::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        ::vp_fill(&mut b);
        u32::from_le(unsafe { ::std::mem::transmute(b) })
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        ::vp_fill(&mut b);
        u64::from_le(unsafe { ::std::mem::transmute(b) })
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        ::vp_fill(dest);
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
