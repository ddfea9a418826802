//! Stand-in for flate2 where a check's contents are symbolic (compressing unknown bytes would explore every
//! Huffman tree): a stream is a two byte header, the content, and four bytes of sum; the content is stored.
//! Checks about compressed data itself use the real flate2.
#![allow(warnings)]
use std::io::{self, Read};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Compression(u32);
impl Compression {
  pub const fn new(level: u32) -> Self { Self(level) }
  pub const fn none() -> Self { Self(0) }
  pub const fn fast() -> Self { Self(1) }
  pub const fn best() -> Self { Self(9) }
  pub const fn level(&self) -> u32 { self.0 }
}
impl Default for Compression {
  fn default() -> Self { Self(6) }
}

const HEAD: [u8; 2] = [0x78, 0x01];

fn sum(b: &[u8]) -> [u8; 4] {
  let mut s = [0x5a, 0xc3, 0x17, b.len() as u8];
  for (i, x) in b.iter().enumerate() {
    s[i % 3] = s[i % 3].rotate_left(1) ^ x;
  }
  s
}

fn pack(b: &[u8]) -> Vec<u8> { [&HEAD[..], b, &sum(b)].concat() }

fn unpack(b: &[u8]) -> Option<Vec<u8>> {
  let n = b.len().checked_sub(6)?;
  let c = &b[2 .. 2 + n];
  (b[.. 2] == HEAD && b[2 + n ..] == sum(c)).then(|| c.to_vec())
}

fn corrupt() -> io::Error { io::Error::new(io::ErrorKind::InvalidInput, "corrupt deflate stream") }

pub mod read {
  use super::*;

  pub struct ZlibEncoder<R> {
    from: Option<R>,
    out: Vec<u8>,
    at: usize,
  }
  impl<R: Read> ZlibEncoder<R> {
    pub fn new(r: R, _: Compression) -> Self { Self { from: Some(r), out: Vec::new(), at: 0 } }
  }
  impl<R: Read> Read for ZlibEncoder<R> {
    fn read(&mut self, to: &mut [u8]) -> io::Result<usize> {
      if let Some(mut r) = self.from.take() {
        let mut v = Vec::new();
        r.read_to_end(&mut v)?;
        self.out = pack(&v);
      }
      let n = to.len().min(self.out.len() - self.at);
      to[.. n].copy_from_slice(&self.out[self.at .. self.at + n]);
      self.at += n;
      Ok(n)
    }
  }

  pub struct ZlibDecoder<R> {
    from: Option<R>,
    out: Vec<u8>,
    at: usize,
  }
  impl<R: Read> ZlibDecoder<R> {
    pub fn new(r: R) -> Self { Self { from: Some(r), out: Vec::new(), at: 0 } }
  }
  impl<R: Read> Read for ZlibDecoder<R> {
    fn read(&mut self, to: &mut [u8]) -> io::Result<usize> {
      if let Some(mut r) = self.from.take() {
        let mut v = Vec::new();
        r.read_to_end(&mut v)?;
        self.out = unpack(&v).ok_or_else(corrupt)?;
      }
      let n = to.len().min(self.out.len() - self.at);
      to[.. n].copy_from_slice(&self.out[self.at .. self.at + n]);
      self.at += n;
      Ok(n)
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FlushDecompress {
  None,
  Sync,
  Finish,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
  Ok,
  BufError,
  StreamEnd,
}

#[derive(Clone, Debug)]
pub struct DecompressError(());
impl std::fmt::Display for DecompressError {
  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deflate decompression error") }
}
impl std::error::Error for DecompressError {}
impl From<DecompressError> for io::Error {
  fn from(_: DecompressError) -> Self { corrupt() }
}

/// Decompresses what is given at once.
#[derive(Debug)]
pub struct Decompress {
  total_in: u64,
  total_out: u64,
  left: Vec<u8>,
}
impl Decompress {
  pub fn new(_zlib_header: bool) -> Self { Self { total_in: 0, total_out: 0, left: Vec::new() } }
  pub fn total_in(&self) -> u64 { self.total_in }
  pub fn total_out(&self) -> u64 { self.total_out }
  pub fn decompress_vec(&mut self, input: &[u8], out: &mut Vec<u8>, _: FlushDecompress) -> Result<Status, DecompressError> {
    if self.total_in == 0 {
      if input.len() < 6 {
        self.total_in = input.len() as u64;
        return Ok(Status::BufError);
      }
      self.left = unpack(input).ok_or(DecompressError(()))?;
      self.total_in = input.len() as u64;
    }
    let n = self.left.len().min(out.capacity() - out.len());
    out.extend_from_slice(&self.left[.. n]);
    self.left.drain(.. n);
    self.total_out += n as u64;
    Ok(if self.left.is_empty() { Status::StreamEnd } else { Status::Ok })
  }
}

/// Streams that are written: header, blocks of (1, length, content, sum), and 0 at the end.
pub mod write {
  use super::*;
  use std::io::Write;

  fn block_sum(number: u8, b: &[u8]) -> [u8; 4] {
    let mut s = sum(b);
    s[3] ^= number;
    s
  }

  pub struct ZlibEncoder<W: Write> {
    to: Option<W>,
    pending: Vec<u8>,
    blocks: u8,
  }
  impl<W: Write> ZlibEncoder<W> {
    pub fn new(w: W, _: Compression) -> Self { Self { to: Some(w), pending: Vec::new(), blocks: 0 } }
    pub fn get_ref(&self) -> &W { self.to.as_ref().unwrap() }
    pub fn get_mut(&mut self) -> &mut W { self.to.as_mut().unwrap() }
    fn block(&mut self) -> io::Result<()> {
      let mut v = Vec::new();
      if self.blocks == 0 {
        v.extend_from_slice(&HEAD);
      }
      v.push(1);
      v.extend_from_slice(&(self.pending.len() as u16).to_le_bytes());
      v.extend_from_slice(&self.pending);
      v.extend_from_slice(&block_sum(self.blocks, &self.pending));
      self.pending.clear();
      self.blocks = self.blocks.wrapping_add(1).max(1);
      self.get_mut().write_all(&v)
    }
    pub fn try_finish(&mut self) -> io::Result<()> {
      self.block()?;
      self.get_mut().write_all(&[0])
    }
    pub fn reset(&mut self, w: W) -> io::Result<W> {
      self.try_finish()?;
      self.blocks = 0;
      Ok(self.to.replace(w).unwrap())
    }
    pub fn finish(mut self) -> io::Result<W> {
      self.try_finish()?;
      Ok(self.to.take().unwrap())
    }
  }
  impl<W: Write> Write for ZlibEncoder<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
      self.pending.extend_from_slice(b);
      Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
      self.block()?;
      self.get_mut().flush()
    }
  }

  pub struct ZlibDecoder<W: Write> {
    to: Option<W>,
    left: Vec<u8>,
    started: bool,
    blocks: u8,
    ended: bool,
    failed: bool,
  }
  impl<W: Write> ZlibDecoder<W> {
    pub fn new(w: W) -> Self {
      Self { to: Some(w), left: Vec::new(), started: false, blocks: 0, ended: false, failed: false }
    }
    pub fn get_ref(&self) -> &W { self.to.as_ref().unwrap() }
    pub fn get_mut(&mut self) -> &mut W { self.to.as_mut().unwrap() }
    pub fn try_finish(&mut self) -> io::Result<()> { if self.failed { Err(corrupt()) } else { Ok(()) } }
    pub fn reset(&mut self, w: W) -> io::Result<W> {
      self.try_finish()?;
      let old = self.to.take().unwrap();
      *self = Self::new(w);
      Ok(old)
    }
    pub fn finish(mut self) -> io::Result<W> {
      self.try_finish()?;
      Ok(self.to.take().unwrap())
    }
    fn fail(&mut self) -> io::Result<usize> {
      self.failed = true;
      Err(corrupt())
    }
  }
  impl<W: Write> Write for ZlibDecoder<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
      if self.failed {
        return Err(corrupt());
      }
      if self.ended {
        return Ok(0);
      }
      self.left.extend_from_slice(b);
      let mut used = 0;
      loop {
        let l = &self.left[used ..];
        if !self.started {
          if l.len() < 2 {
            break;
          }
          if l[.. 2] != HEAD {
            return self.fail();
          }
          self.started = true;
          used += 2;
          continue;
        }
        if l.is_empty() {
          break;
        }
        if l[0] == 0 {
          self.ended = true;
          let extra = l.len() - 1;
          self.left.clear();
          return Ok(b.len() - extra);
        }
        if l[0] != 1 {
          return self.fail();
        }
        if l.len() < 3 {
          break;
        }
        let n = usize::from(l[1]) + usize::from(l[2]) * 256;
        if l.len() < 7 + n {
          break;
        }
        let content = l[3 .. 3 + n].to_vec();
        if l[3 + n .. 7 + n] != block_sum(self.blocks, &content) {
          return self.fail();
        }
        self.blocks = self.blocks.wrapping_add(1).max(1);
        used += 7 + n;
        self.get_mut().write_all(&content)?;
      }
      self.left.drain(.. used);
      Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { self.try_finish()?; self.get_mut().flush() }
  }
}
