//! Reference semantics of the standard combinators that the analyses look through.
//! Never executed: its MIR replaces calls of the standard functions named in lib/models.py.
#![allow(clippy::all, unused)]
use std::convert::Infallible;
use std::ops::ControlFlow;

// ---- Option ------------------------------------------------------------
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn option_and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> { match o { Some(_) => b, None => None } }
pub fn option_or<T>(o: Option<T>, b: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => b } }
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn option_filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> { match o { Some(x) => if p(&x) { Some(x) } else { None }, None => None } }
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn option_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn option_unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn option_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn option_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn option_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn option_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => panic!() } }
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if let None = *o { *o = Some(f()); } match o { Some(x) => x, None => panic!() } }
pub fn option_cloned<T>(o: Option<T>) -> Option<T> { o }
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> { match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<Infallible>, T> { match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) } }
pub fn option_from_residual<T>(r: Option<Infallible>) -> Option<T> { None }
pub fn option_from_output<T>(x: T) -> Option<T> { Some(x) }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }

// ---- Result ------------------------------------------------------------
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn result_map_err<T, E, O, F: FnOnce(E) -> O>(r: Result<T, E>, f: F) -> Result<T, O> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(x) => f(x), Err(_) => d } }
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U { match r { Ok(x) => f(x), Err(e) => d(e) } }
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn result_and<T, E, U>(r: Result<T, E>, b: Result<U, E>) -> Result<U, E> { match r { Ok(_) => b, Err(e) => Err(e) } }
pub fn result_or<T, E, F>(r: Result<T, E>, b: Result<T, F>) -> Result<T, F> { match r { Ok(x) => Ok(x), Err(_) => b } }
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(r: Result<T, E>, f: F) -> Result<T, G> { match r { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn result_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn result_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn result_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn result_expect<T, E>(r: Result<T, E>, m: &str) -> T { match r { Ok(x) => x, Err(_) => panic!() } }
pub fn result_unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Ok(_) => panic!(), Err(e) => e } }
pub fn result_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }
pub fn result_unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => T::default() } }
pub fn result_is_ok<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => true, Err(_) => false } }
pub fn result_is_err<T, E>(r: &Result<T, E>) -> bool { match r { Ok(_) => false, Err(_) => true } }
pub fn result_as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn result_as_mut<T, E>(r: &mut Result<T, E>) -> Result<&mut T, &mut E> { match r { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn result_transpose<T, E>(r: Result<Option<T>, E>) -> Option<Result<T, E>> { match r { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) } }
pub fn result_cloned<T, E>(r: Result<T, E>) -> Result<T, E> { r }
pub fn result_branch<T, E>(r: Result<T, E>) -> ControlFlow<Result<Infallible, E>, T> { match r { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) } }
pub fn result_from_residual<T, E, F: From<E>>(r: Result<Infallible, E>) -> Result<T, F> { match r { Err(e) => Err(F::from(e)), Ok(_) => panic!() } }
pub fn result_from_output<T, E>(x: T) -> Result<T, E> { Ok(x) }
pub fn control_branch<B, C>(r: ControlFlow<B, C>) -> ControlFlow<ControlFlow<B, Infallible>, C> { match r { ControlFlow::Continue(x) => ControlFlow::Continue(x), ControlFlow::Break(b) => ControlFlow::Break(ControlFlow::Break(b)) } }
pub fn control_from_residual<B, C>(r: ControlFlow<B, Infallible>) -> ControlFlow<B, C> { match r { ControlFlow::Break(b) => ControlFlow::Break(b), ControlFlow::Continue(_) => panic!() } }

// ---- iterators ---------------------------------------------------------
pub struct Map<I, F> { pub it: I, pub f: F }
pub fn map_new<I, F>(it: I, f: F) -> Map<I, F> { Map { it, f } }
pub fn map_next<B, I: Iterator, F: FnMut(I::Item) -> B>(m: &mut Map<I, F>) -> Option<B> { match m.it.next() { Some(x) => Some((m.f)(x)), None => None } }

pub struct Filter<I, F> { pub it: I, pub f: F }
pub fn filter_new<I, F>(it: I, f: F) -> Filter<I, F> { Filter { it, f } }
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut Filter<I, F>) -> Option<I::Item> {
    loop { match m.it.next() { Some(x) => if (m.f)(&x) { return Some(x); }, None => return None } }
}

pub struct FilterMap<I, F> { pub it: I, pub f: F }
pub fn filter_map_new<I, F>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
pub fn filter_map_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(m: &mut FilterMap<I, F>) -> Option<B> {
    loop { match m.it.next() { Some(x) => if let Some(y) = (m.f)(x) { return Some(y); }, None => return None } }
}

pub struct TakeWhile<I, F> { pub it: I, pub f: F }
pub fn take_while_new<I, F>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f } }
pub fn take_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut TakeWhile<I, F>) -> Option<I::Item> {
    match m.it.next() { Some(x) => if (m.f)(&x) { Some(x) } else { None }, None => None }
}

pub struct Inspect<I, F> { pub it: I, pub f: F }
pub fn inspect_new<I, F>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(m: &mut Inspect<I, F>) -> Option<I::Item> {
    match m.it.next() { Some(x) => { (m.f)(&x); Some(x) }, None => None }
}

pub struct Enumerate<I> { pub it: I, pub n: usize }
pub fn enumerate_new<I>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
pub fn enumerate_next<I: Iterator>(m: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match m.it.next() { Some(x) => { let n = m.n; m.n = n + 1; Some((n, x)) }, None => None }
}

pub struct Zip<A, B> { pub a: A, pub b: B }
pub fn zip_new<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn zip_next<A: Iterator, B: Iterator>(m: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    match m.a.next() { Some(x) => match m.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
}

pub struct Chain<A, B> { pub a: A, pub b: B }
pub fn chain_new<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a, b: b.into_iter() } }
pub fn chain_next<T, A: Iterator<Item = T>, B: Iterator<Item = T>>(m: &mut Chain<A, B>) -> Option<T> {
    match m.a.next() { Some(x) => Some(x), None => m.b.next() }
}

pub struct FlatMap<I, F, U> { pub it: I, pub f: F, pub cur: Option<U> }
pub fn flat_map_new<I, F, U>(it: I, f: F) -> FlatMap<I, F, U> { FlatMap { it, f, cur: None } }
pub fn flat_map_next<B, U: IntoIterator<Item = B>, I: Iterator, F: FnMut(I::Item) -> U>(m: &mut FlatMap<I, F, U::IntoIter>) -> Option<B> {
    loop {
        if let Some(c) = &mut m.cur { if let Some(y) = c.next() { return Some(y); } }
        match m.it.next() { Some(x) => { m.cur = Some((m.f)(x).into_iter()); }, None => return None }
    }
}
pub struct Flatten<I, U> { pub it: I, pub cur: Option<U> }
pub fn flatten_new<I, U>(it: I) -> Flatten<I, U> { Flatten { it, cur: None } }
pub fn flatten_next<B, U: IntoIterator<Item = B>, I: Iterator<Item = U>>(m: &mut Flatten<I, U::IntoIter>) -> Option<B> {
    loop {
        if let Some(c) = &mut m.cur { if let Some(y) = c.next() { return Some(y); } }
        match m.it.next() { Some(x) => { m.cur = Some(x.into_iter()); }, None => return None }
    }
}
pub struct OptIter<T> { pub o: Option<T> }
pub fn option_into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { o } }
pub fn opt_iter_next<T>(m: &mut OptIter<T>) -> Option<T> { std::mem::replace(&mut m.o, None) }
pub fn result_into_iter<T, E>(o: Result<T, E>) -> OptIter<T> { match o { Ok(x) => OptIter { o: Some(x) }, Err(_) => OptIter { o: None } } }

pub struct Peekable<I: Iterator> { pub it: I, pub peeked: Option<Option<I::Item>> }
pub fn peekable_new<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, peeked: None } }
pub fn peekable_next<I: Iterator>(m: &mut Peekable<I>) -> Option<I::Item> {
    match std::mem::replace(&mut m.peeked, None) { Some(x) => x, None => m.it.next() }
}
pub fn peekable_peek<I: Iterator>(m: &mut Peekable<I>) -> Option<&I::Item> {
    if let None = m.peeked { let x = m.it.next(); m.peeked = Some(x); }
    match &m.peeked { Some(Some(x)) => Some(x), _ => None }
}

pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { loop { match it.next() { Some(x) => f(x), None => return } } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut a = init; loop { match it.next() { Some(x) => { a = f(a, x); }, None => return a } } }
pub fn try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> { loop { match it.next() { Some(x) => match f(x) { Ok(_) => {}, Err(e) => return Err(e) }, None => return Ok(()) } } }
pub fn try_for_each_option<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> { loop { match it.next() { Some(x) => match f(x) { Some(_) => {}, None => return None }, None => return Some(()) } } }
pub fn try_fold_result<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> { let mut a = init; loop { match it.next() { Some(x) => match f(a, x) { Ok(y) => { a = y; }, Err(e) => return Err(e) }, None => return Ok(a) } } }
pub fn try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> { let mut a = init; loop { match it.next() { Some(x) => match f(a, x) { Some(y) => { a = y; }, None => return None }, None => return Some(a) } } }
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if f(x) { return true; }, None => return false } } }
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { loop { match it.next() { Some(x) => if !f(x) { return false; }, None => return true } } }
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> { loop { match it.next() { Some(x) => if f(&x) { return Some(x); }, None => return None } } }
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { loop { match it.next() { Some(x) => if let Some(y) = f(x) { return Some(y); }, None => return None } } }
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> { let mut n = 0; loop { match it.next() { Some(x) => { if f(x) { return Some(n); } n = n + 1; }, None => return None } } }

// containers are opaque: adding an element is an operation the analyses know
pub fn collect_vec<T, I: Iterator<Item = T>>(mut it: I) -> Vec<T> { let mut v = Vec::new(); loop { match it.next() { Some(x) => v.push(x), None => return v } } }
pub fn collect_map<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> { let mut v = std::collections::HashMap::new(); loop { match it.next() { Some((k, x)) => { v.insert(k, x); }, None => return v } } }
pub fn collect_btree<K: Ord, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::BTreeMap<K, V> { let mut v = std::collections::BTreeMap::new(); loop { match it.next() { Some((k, x)) => { v.insert(k, x); }, None => return v } } }
pub fn collect_set<K: std::hash::Hash + Eq, I: Iterator<Item = K>>(mut it: I) -> std::collections::HashSet<K> { let mut v = std::collections::HashSet::new(); loop { match it.next() { Some(k) => { v.insert(k); }, None => return v } } }
pub fn collect_bset<K: Ord, I: Iterator<Item = K>>(mut it: I) -> std::collections::BTreeSet<K> { let mut v = std::collections::BTreeSet::new(); loop { match it.next() { Some(k) => { v.insert(k); }, None => return v } } }
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> { let mut v = Vec::new(); loop { match it.next() { Some(Ok(x)) => v.push(x), Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn collect_result_map<K: std::hash::Hash + Eq, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut it: I) -> Result<std::collections::HashMap<K, V>, E> { let mut v = std::collections::HashMap::new(); loop { match it.next() { Some(Ok((k, x))) => { v.insert(k, x); }, Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn collect_result_btree<K: Ord, V, E, I: Iterator<Item = Result<(K, V), E>>>(mut it: I) -> Result<std::collections::BTreeMap<K, V>, E> { let mut v = std::collections::BTreeMap::new(); loop { match it.next() { Some(Ok((k, x))) => { v.insert(k, x); }, Some(Err(e)) => return Err(e), None => return Ok(v) } } }
pub fn collect_result_unit<E, I: Iterator<Item = Result<(), E>>>(mut it: I) -> Result<(), E> { loop { match it.next() { Some(Ok(_)) => {}, Some(Err(e)) => return Err(e), None => return Ok(()) } } }
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> { let mut v = Vec::new(); loop { match it.next() { Some(Some(x)) => v.push(x), Some(None) => return None, None => return Some(v) } } }
pub fn extend_vec<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some(x) => v.push(x), None => return } } }
pub fn extend_map<K: std::hash::Hash + Eq, V, I: IntoIterator<Item = (K, V)>>(v: &mut std::collections::HashMap<K, V>, it: I) { let mut it = it.into_iter(); loop { match it.next() { Some((k, x)) => { v.insert(k, x); }, None => return } } }

// ---- misc ---------------------------------------------------------------
pub fn mem_replace<T>(d: &mut T, v: T) -> T { unsafe { let r = std::ptr::read(d); std::ptr::write(d, v); r } }
