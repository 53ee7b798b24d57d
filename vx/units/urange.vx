// utils.rs: its own Range.
%use prelude.vx
%file utils.rs
%alias Range URange
%alias StdRange Range
%item struct Range -PartialEq -Eq
%impl From<StdRange<T>> for Range<T>
%header impl URange<usize>
%fn from
%sigsub StdRange<T> =>> StdRange<usize>
    ensures r.start == range.start, r.end == range.end,
%impl From<Range<T>> for StdRange<T>
%header impl URange<usize>
%fn from
%rename into_std
%sigsub Range<T> =>> Range<usize>
%sigsub Self =>> StdRange<usize>
    ensures r.start == range.start, r.end == range.end,
%impl Add<T> for Range<T>
%header impl URange<usize>
%fn add
%sigsub T =>> usize
%sigsub Self::Output =>> Self
    requires self.start + value <= usize::MAX, self.end + value <= usize::MAX,
    ensures r.start == self.start + value, r.end == self.end + value,
%impl Sub<T> for Range<T>
%header impl URange<usize>
%fn sub
%sigsub T =>> usize
%sigsub Self::Output =>> Self
    requires value <= self.start, value <= self.end,
    ensures r.start == self.start - value, r.end == self.end - value,
%impl Range<T>
%header impl URange<usize>
%fn len
%sigsub T where T: Sub<T, Output = T> + Copy, =>> usize
    requires self.start <= self.end,
    ensures r == self.end - self.start,
%impl RangeExt<T> for StdRange<T>
%header impl URange<usize>
%fn contains_range
%sigsub Range<T> =>> Range<usize>
    ensures r == (self.start <= other.start && self.end >= other.end),
