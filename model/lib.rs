//! Models of the std iterator adaptors, consumers and Option/Result combinators.
//! Compiled by the same MIR dumper and interpreted like the code under analysis; never executed.
#![allow(unused, clippy::all)]

pub struct Map<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { Some(x) => Some((self.f)(x)), None => None }
    }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> {
        match self.it.next_back() { Some(x) => Some((self.f)(x)), None => None }
    }
}
pub fn map<B, I: Iterator, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> { Map { it, f } }

pub struct Filter<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() {
                Some(x) => if (self.f)(&x) { return Some(x) },
                None => return None,
            }
        }
    }
}
impl<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, F> {
    fn next_back(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next_back() {
                Some(x) => if (self.f)(&x) { return Some(x) },
                None => return None,
            }
        }
    }
}
pub fn filter<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }

pub struct FilterMap<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop {
            match self.it.next() {
                Some(x) => if let Some(y) = (self.f)(x) { return Some(y) },
                None => return None,
            }
        }
    }
}
pub fn filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }

pub struct MapWhile<I, F> { it: I, f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { Some(x) => (self.f)(x), None => None }
    }
}
pub fn map_while<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }

pub struct Inspect<I, F> { it: I, f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { Some(x) => { (self.f)(&x); Some(x) }, None => None }
    }
}
pub fn inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }

pub struct Chain<A, B> { a: Option<A>, b: Option<B> }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            match a.next() {
                Some(x) => return Some(x),
                None => self.a = None,
            }
        }
        match &mut self.b { Some(b) => b.next(), None => None }
    }
}
pub fn chain<A: Iterator, U: IntoIterator<Item = A::Item>>(a: A, b: U) -> Chain<A, U::IntoIter> {
    Chain { a: Some(a), b: Some(b.into_iter()) }
}

pub struct FlatMap<I, F, U> { it: I, f: F, cur: Option<U> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, F, U::IntoIter> {
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() {
                    Some(x) => return Some(x),
                    None => self.cur = None,
                }
            }
            match self.it.next() {
                Some(x) => self.cur = Some((self.f)(x).into_iter()),
                None => return None,
            }
        }
    }
}
pub fn flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(it: I, f: F) -> FlatMap<I, F, U::IntoIter> {
    FlatMap { it, f, cur: None }
}

pub struct Flatten<I, U> { it: I, cur: Option<U> }
impl<I: Iterator> Iterator for Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator {
    type Item = <I::Item as IntoIterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(c) = &mut self.cur {
                match c.next() {
                    Some(x) => return Some(x),
                    None => self.cur = None,
                }
            }
            match self.it.next() {
                Some(x) => self.cur = Some(x.into_iter()),
                None => return None,
            }
        }
    }
}
pub fn flatten<I: Iterator>(it: I) -> Flatten<I, <I::Item as IntoIterator>::IntoIter> where I::Item: IntoIterator {
    Flatten { it, cur: None }
}

pub struct Skip<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.n > 0 {
            self.n -= 1;
            if self.it.next().is_none() { return None }
        }
        self.it.next()
    }
}
pub fn skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { it, n } }

pub struct Take<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n == 0 { return None }
        self.n -= 1;
        self.it.next()
    }
}
pub fn take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { it, n } }

pub struct SkipWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() {
                Some(x) => {
                    if self.done { return Some(x) }
                    if !(self.f)(&x) { self.done = true; return Some(x) }
                }
                None => return None,
            }
        }
    }
}
pub fn skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, done: false } }

pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None }
        match self.it.next() {
            Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None },
            None => None,
        }
    }
}
pub fn take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }

pub struct Enumerate<I> { it: I, n: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() {
            Some(x) => { let n = self.n; self.n = n + 1; Some((n, x)) }
            None => None,
        }
    }
}
pub fn enumerate<I: Iterator>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }

pub struct Zip<A, B> { a: A, b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None },
            None => None,
        }
    }
}
pub fn zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> { Zip { a, b: b.into_iter() } }

pub struct Rev<I> { it: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
}
pub fn rev<I: DoubleEndedIterator>(it: I) -> Rev<I> { Rev { it } }

pub struct Cloned<I> { it: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() { Some(x) => Some(x.clone()), None => None }
    }
}
impl<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> {
    fn next_back(&mut self) -> Option<T> {
        match self.it.next_back() { Some(x) => Some(x.clone()), None => None }
    }
}
pub fn cloned<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(it: I) -> Cloned<I> { Cloned { it } }
pub fn copied<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(it: I) -> Cloned<I> { Cloned { it } }

pub struct Fuse<I> { it: Option<I> }
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let r = match &mut self.it { Some(i) => i.next(), None => return None };
        if r.is_none() { self.it = None }
        r
    }
}
pub fn fuse<I: Iterator>(it: I) -> Fuse<I> { Fuse { it: Some(it) } }

pub struct Peekable<I: Iterator> { it: I, peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match std::mem::replace(&mut self.peeked, None) { Some(v) => v, None => self.it.next() }
    }
}
impl<I: Iterator> Peekable<I> {
    pub fn peek(&mut self) -> Option<&I::Item> {
        if self.peeked.is_none() { let n = self.it.next(); self.peeked = Some(n); }
        match &self.peeked { Some(Some(x)) => Some(x), _ => None }
    }
    pub fn peek_mut(&mut self) -> Option<&mut I::Item> {
        if self.peeked.is_none() { let n = self.it.next(); self.peeked = Some(n); }
        match &mut self.peeked { Some(Some(x)) => Some(x), _ => None }
    }
    pub fn next_if<F: FnOnce(&I::Item) -> bool>(&mut self, f: F) -> Option<I::Item> {
        match self.next() {
            Some(x) => if f(&x) { Some(x) } else { self.peeked = Some(Some(x)); None },
            None => { self.peeked = Some(None); None }
        }
    }
}
pub fn peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, peeked: None } }

pub struct Scan<I, S, F> { it: I, s: S, f: F }
impl<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None }
    }
}
pub fn scan<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f } }

pub struct Once<T> { v: Option<T> }
impl<T> Iterator for Once<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { std::mem::replace(&mut self.v, None) }
}
impl<T> DoubleEndedIterator for Once<T> {
    fn next_back(&mut self) -> Option<T> { std::mem::replace(&mut self.v, None) }
}
pub fn once<T>(v: T) -> Once<T> { Once { v: Some(v) } }
pub fn option_into_iter<T>(v: Option<T>) -> Once<T> { Once { v } }
pub fn option_iter<T>(v: &Option<T>) -> Once<&T> { Once { v: match v { Some(x) => Some(x), None => None } } }
pub fn option_iter_mut<T>(v: &mut Option<T>) -> Once<&mut T> { Once { v: match v { Some(x) => Some(x), None => None } } }
pub fn result_into_iter<T, E>(v: Result<T, E>) -> Once<T> { Once { v: match v { Ok(x) => Some(x), Err(_) => None } } }
pub fn empty<T>() -> Once<T> { Once { v: None } }

pub struct Repeat<T> { v: T }
impl<T: Clone> Iterator for Repeat<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { Some(self.v.clone()) }
}
pub fn repeat<T: Clone>(v: T) -> Repeat<T> { Repeat { v } }

pub struct FromFn<F> { f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> { (self.f)() }
}
pub fn from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }

pub struct CharIndices<I> { it: I }

pub struct RangeIter { a: usize, b: usize }
impl Iterator for RangeIter {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.a < self.b { let n = self.a; self.a = n + 1; Some(n) } else { None }
    }
}
impl DoubleEndedIterator for RangeIter {
    fn next_back(&mut self) -> Option<usize> {
        if self.a < self.b { self.b -= 1; Some(self.b) } else { None }
    }
}
pub fn range_iter(a: usize, b: usize) -> RangeIter { RangeIter { a, b } }

// ---- consumers ------------------------------------------------------------------------------
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x) }
    acc
}
pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { acc = f(acc, x) }
    Some(acc)
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1 }
    n
}
pub fn sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(x) = it.next() { n += x }
    n
}
pub fn sum_ref<'a, I: Iterator<Item = &'a usize>>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(x) = it.next() { n += *x }
    n
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) { Ok(_) => {}, Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(x) { return Some(n) } n += 1; }
    None
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x) }
    r
}
pub fn nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 {
        n -= 1;
        if it.next().is_none() { return None }
    }
    it.next()
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x) }
    v
}
pub fn extend_vec<I: IntoIterator>(v: &mut Vec<I::Item>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { v.push(x) }
}
pub trait PushPiece { fn push_piece(self, s: &mut String); }
fn intrinsic_push_piece<T>(_s: &mut String, _x: T) {}
pub fn collect_string<I: Iterator>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() { intrinsic_push_piece(&mut v, x) }
    v
}
pub fn extend_string<I: IntoIterator>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { intrinsic_push_piece(v, x) }
}
pub fn join_vec<T>(v: &[T], sep: &str) -> String {
    let mut out = String::new();
    let mut first = true;
    for x in v.iter() {
        if first { first = false } else { out.push_str(sep) }
        intrinsic_push_piece(&mut out, x)
    }
    out
}
pub fn concat_vec<T>(v: &[T]) -> String {
    let mut out = String::new();
    for x in v.iter() { intrinsic_push_piece(&mut out, x) }
    out
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(y) => v.push(y), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> {
    while let Some(x) = it.next() {
        match x { Ok(_) => {}, Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Some(y) => v.push(y), None => return None }
    }
    Some(v)
}
pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() { if f(&x) { a.push(x) } else { b.push(x) } }
    (a, b)
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    let mut it = old.into_iter();
    while let Some(x) = it.next() { if f(&x) { v.push(x) } }
}

// ---- Option / Result --------------------------------------------------------------------------
pub mod opt {
    pub fn map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
    pub fn and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
    pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
    pub fn map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
    pub fn unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
    pub fn unwrap_or_else<T, D: FnOnce() -> T>(o: Option<T>, d: D) -> T { match o { Some(x) => x, None => d() } }
    pub fn is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
    pub fn is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
    pub fn filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
    pub fn ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
    pub fn ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
    pub fn or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
    pub fn or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
    pub fn and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
    pub fn is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
    pub fn is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
    pub fn as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
    pub fn as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
    pub fn cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
    pub fn copied<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
    pub fn take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
    pub fn replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
    pub fn zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
    pub fn flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
    pub fn unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("unwrap on None") } }
    pub fn expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!("expect on None") } }
    pub fn insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => loop {} } }
    pub fn get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
        if let None = o { *o = Some(f()) }
        match o { Some(x) => x, None => loop {} }
    }
}
pub mod res {
    pub fn map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
    pub fn map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
    pub fn inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> { match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } } }
    pub fn and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
    pub fn and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
    pub fn or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
    pub fn unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
    pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
    pub fn map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
    pub fn map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
    pub fn is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
    pub fn is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
    pub fn is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
    pub fn is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(e) => f(e) } }
    pub fn ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
    pub fn err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
    pub fn as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
    pub fn unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("unwrap on Err") } }
    pub fn expect<T, E>(o: Result<T, E>, _m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!("expect on Err") } }
    pub fn unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!("unwrap_err on Ok"), Err(e) => e } }
    pub fn iter_then<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
}
pub mod boolm {
    pub fn then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
    pub fn then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
}
