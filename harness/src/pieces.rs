//! A stream that works in pieces, pauses or fails.
use crate::vp;

/// takes or gives at most `step` bytes at a time, fails when `room` is used up
/// (with an error, or by taking or giving nothing), and is never interrupted, or
/// every second time it is called
pub struct Pieces {
    pub buf: Vec<u8>,
    pub at: usize,
    pub step: usize,
    room: usize,
    pub quiet: bool,
    interrupt: usize,
}

impl Pieces {
    pub fn any(buf: Vec<u8>, room: usize) -> Self {
        Pieces { buf, at: 0, step: vp::range(1, 5), room, quiet: vp::pick(2) == 1, interrupt: vp::pick(3) }
    }
    fn go(&mut self, n: usize) -> std::io::Result<usize> {
        // 0: never; else the number of this call, counted from 1 or 2
        if self.interrupt > 0 {
            self.interrupt += 1;
            if self.interrupt % 2 == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let k = n.min(self.step).min(self.room);
        if k == 0 && n > 0 && !self.quiet {
            return Err(std::io::ErrorKind::TimedOut.into());
        }
        self.room -= k;
        Ok(k)
    }
}
impl std::io::Write for Pieces {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = self.go(b.len())?;
        self.buf.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = (self.buf.len() - self.at).min(b.len());
        let k = self.go(left)?;
        b[..k].copy_from_slice(&self.buf[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
