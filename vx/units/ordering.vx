// core::cmp::Ordering
%raw
use core::cmp::Ordering;
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b),
;
pub open spec fn rev(a: Ordering) -> Ordering {
    match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal }
}
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering)
    ensures r == rev(a),
;
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a }),
;
