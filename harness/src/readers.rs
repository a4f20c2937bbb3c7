//! Readers that deliver given bytes with a chosen schedule of chunk sizes and failures.
use std::io::Read;

use std::io::ErrorKind::*;
pub const KINDS: [std::io::ErrorKind; 9] = [Other, UnexpectedEof, Interrupted, WouldBlock, TimedOut, InvalidData, ConnectionReset, BrokenPipe, PermissionDenied];
/// The kth error of a reader; the kind depends on where it happens.
pub fn injected(k: usize) -> std::io::Error {
    std::io::Error::new(KINDS[k % KINDS.len()], format!("injected {}", k))
}

pub struct Scheduled {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    /// Fail before delivering the byte at this offset (sorted, each fails once).
    fail_at: Vec<usize>,
    fk: usize,
    k: usize,
    /// Scribble over the buffer past the data (a reader may do so).
    pub scribble: bool,
    /// The first kind of error.
    pub first: usize,
}
impl Scheduled {
    pub fn new(data: Vec<u8>, sizes: Vec<usize>, mut fail_at: Vec<usize>) -> Scheduled {
        fail_at.sort();
        Scheduled { data, pos: 0, sizes, fail_at, fk: 0, k: 0, scribble: true, first: 0 }
    }
}
impl Read for Scheduled {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut limit = self.data.len();
        if self.fk < self.fail_at.len() {
            let at = self.fail_at[self.fk].min(self.data.len());
            if self.pos >= at {
                self.fk += 1;
                if self.scribble {
                    for b in buf.iter_mut() {
                        *b = b'!'
                    }
                }
                return Err(injected(self.first + self.fk - 1));
            }
            limit = at;
        }
        let want = self.sizes[self.k % self.sizes.len()].max(1);
        self.k += 1;
        let n = want.min(buf.len()).min(limit - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        if self.scribble {
            for b in buf[n..].iter_mut() {
                *b = b'?'
            }
        }
        self.pos += n;
        Ok(n)
    }
}
