// replica.rs: the two clocks.
%use types.vx
%file replica.rs
%item struct LamportClock
%item struct RunClock
%impl LamportClock
%fn highest
    ensures r == (if self.0 > 0 { self.0 - 1 } else { 0 }),
%fn merge
    requires remote_ts < u64::MAX,
    ensures final(self).0 == (if remote_ts >= old(self).0 { remote_ts + 1 } else { old(self).0 as int }),
%fn new
    ensures r.0 == 0,
%fn next
    requires old(self).0 < u64::MAX,
    ensures r == old(self).0, final(self).0 == old(self).0 + 1,
%impl RunClock
%fn last
    ensures r == (if self.0 > 0 { self.0 - 1 } else { 0 }),
%fn new
    ensures r.0 == 0,
%fn next
    requires old(self).0 < u64::MAX,
    ensures r == old(self).0, final(self).0 == old(self).0 + 1,
