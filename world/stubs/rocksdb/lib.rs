//! Type-level stand-in for the rocksdb crate: signatures only, never run.
#![allow(unused)]
use std::path::Path;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn into_string(self) -> String {
        self.message
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        loop {}
    }
}
impl std::error::Error for Error {}
#[derive(Clone)]
pub struct Options(());
impl Default for Options {
    fn default() -> Self {
        loop {}
    }
}
impl Options {
    pub fn create_if_missing(&mut self, b: bool) {}
    pub fn set_max_open_files(&mut self, n: i32) {}
    pub fn set_compression_type(&mut self, t: DBCompressionType) {}
    pub fn increase_parallelism(&mut self, n: i32) {}
    pub fn set_keep_log_file_num(&mut self, n: usize) {}
}
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Lz4,
    Zstd,
}
pub struct DBVector(Vec<u8>);
impl std::ops::Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Default)]
pub struct WriteBatch(());
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, key: K, value: V) {}
    pub fn delete<K: AsRef<[u8]>>(&mut self, key: K) {}
    pub fn clear(&mut self) {}
    pub fn len(&self) -> usize {
        0
    }
    pub fn is_empty(&self) -> bool {
        true
    }
}
#[derive(Default)]
pub struct WriteOptions(());
impl WriteOptions {
    pub fn set_sync(&mut self, s: bool) {}
    pub fn disable_wal(&mut self, s: bool) {}
}
#[derive(Default)]
pub struct ReadOptions(());
pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}
pub struct DBIterator<'a>(&'a DB);
impl<'a> Iterator for DBIterator<'a> {
    type Item = Result<(Box<[u8]>, Box<[u8]>), Error>;
    fn next(&mut self) -> Option<Self::Item> {
        loop {}
    }
}
pub struct DB(());
impl DB {
    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        loop {}
    }
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        loop {}
    }
    pub fn open_for_read_only<P: AsRef<Path>>(
        opts: &Options,
        path: P,
        e: bool,
    ) -> Result<DB, Error> {
        loop {}
    }
    pub fn destroy<P: AsRef<Path>>(opts: &Options, path: P) -> Result<(), Error> {
        loop {}
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<Vec<u8>>, Error> {
        loop {}
    }
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        loop {}
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        key: K,
        value: V,
        o: &WriteOptions,
    ) -> Result<(), Error> {
        loop {}
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        loop {}
    }
    pub fn merge<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        loop {}
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        loop {}
    }
    pub fn write_opt(&self, batch: WriteBatch, o: &WriteOptions) -> Result<(), Error> {
        loop {}
    }
    pub fn write_without_wal(&self, batch: WriteBatch) -> Result<(), Error> {
        loop {}
    }
    pub fn flush(&self) -> Result<(), Error> {
        loop {}
    }
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator<'_> {
        loop {}
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator<'_> {
        loop {}
    }
}
