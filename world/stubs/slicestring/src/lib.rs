use std::ops::RangeBounds;
pub trait Slice { fn slice(&self, range: impl RangeBounds<usize>) -> String; fn try_slice(&self, range: impl RangeBounds<usize>) -> Option<String>; }
impl Slice for String {
    fn slice(&self, r: impl RangeBounds<usize>) -> String { self.chars().enumerate().filter(|(i, _)| r.contains(i)).map(|x| x.1).collect() }
    fn try_slice(&self, r: impl RangeBounds<usize>) -> Option<String> { Some(self.slice(r)) }
}
