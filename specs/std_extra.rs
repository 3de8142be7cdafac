// Contracts (assumed) of further std functions; a block enters a unit only if the function's text matches its regular expression.
//@when \bmem\s*::\s*replace\b
pub assume_specification<T> [core::mem::replace::<T>] (dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest);
//@when \.\s*swap\s*\(
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s).len(), b < old(s).len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//@when \.\s*reverse\s*\(
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
//@when \bunsigned_abs\s*\(
pub assume_specification [isize::unsigned_abs] (x: isize) -> (r: usize)
    ensures r as int == if x < 0 { -(x as int) } else { x as int };
//@when \.\s*abs_diff\s*\(
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize)
    ensures r as int == if x < y { y - x } else { x - y };
//@when \bmax\s*\(
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
//@when \bmem\s*::\s*take\b
pub assume_specification<T: Default> [core::mem::take::<T>] (dest: &mut T) -> (r: T)
    ensures r == *old(dest), call_ensures(T::default, (), *final(dest));
//@when \.\s*abs\s*\(
pub assume_specification [isize::abs] (x: isize) -> (r: isize)
    requires x > isize::MIN,
    ensures r as int == if x < 0 { -(x as int) } else { x as int };
//@when \.\s*is_some_and\s*\(
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (x: Option<T>, f: F) -> (r: bool)
    requires x matches Some(v) ==> call_requires(f, (v,)),
    ensures match x { Some(v) => call_ensures(f, (v,), r), None => !r };
//@when \.\s*is_none_or\s*\(
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (x: Option<T>, f: F) -> (r: bool)
    requires x matches Some(v) ==> call_requires(f, (v,)),
    ensures match x { Some(v) => call_ensures(f, (v,), r), None => r };
//@when \.\s*map_or\s*\(
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (x: Option<T>, d: U, f: F) -> (r: U)
    requires x matches Some(v) ==> call_requires(f, (v,)),
    ensures match x { Some(v) => call_ensures(f, (v,), r), None => r == d };
//@when \.\s*copied\s*\(
pub assume_specification<T: Copy> [Option::<&T>::copied] (x: Option<&T>) -> (r: Option<T>)
    ensures r == match x { Some(v) => Some(*v), None => None };
//@when \.\s*then_some\s*\(
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>)
    ensures r == if b { Some(t) } else { None };
//@when \.\s*div_ceil\s*\(
pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize)
    requires y > 0,
    ensures r as int == (x as int + y as int - 1) / (y as int);
