Standard-library functions without a contract in vstd. A block is added to a unit only when the code uses the function.
//@idiom copied
pub assume_specification<T: Copy> [Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
//@idiom or
pub assume_specification<T> [Option::<T>::or](o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(x), None => b });
//@idiom is_lt
pub assume_specification [Ordering::is_lt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
//@idiom is_le
pub assume_specification [Ordering::is_le](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
//@idiom is_gt
pub assume_specification [Ordering::is_gt](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
//@idiom is_ge
pub assume_specification [Ordering::is_ge](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
//@idiom is_eq
pub assume_specification [Ordering::is_eq](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
//@idiom is_ne
pub assume_specification [Ordering::is_ne](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
//@idiom then
pub assume_specification [Ordering::then](o: Ordering, p: Ordering) -> (r: Ordering) ensures r == if o == Ordering::Equal { p } else { o };
//@idiom abs_diff
pub assume_specification [usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == if a < b { (b - a) as usize } else { (a - b) as usize };
//@idiom then_some
pub assume_specification<T> [bool::then_some](b: bool, x: T) -> (r: Option<T>) ensures r == if b { Some(x) } else { None::<T> };
//@idiom swap
pub assume_specification<T> [<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
//@idiom fill
pub assume_specification<T: Clone> [<[T]>::fill](s: &mut [T], x: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| #![trigger final(s)@[i]] 0 <= i < final(s)@.len() ==> cloned(x, final(s)@[i]);
//@idiom replace
pub assume_specification<T> [std::mem::replace](a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a);
//@idiom front
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures r == if v@.len() > 0 { Some(&v@[0]) } else { None };
//@idiom VecDeque is_empty
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty](v: &VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);
