//! Plain loops that stand in for the standard library's iterator consumers: the dumper resolves
//! calls of those to these functions, so that an explicit loop and a consumer are read alike.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};

pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
    while let Some(x) = it.next() {
        if p(x) {
            return true;
        }
    }
    false
}
pub fn iter_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> bool {
    while let Some(x) = it.next() {
        if !p(x) {
            return false;
        }
    }
    true
}
pub fn iter_find_map<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(it: &mut I, mut p: P) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = p(x) {
            return Some(y);
        }
    }
    None
}
pub fn iter_fold<I: Iterator, B, P: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut p: P) -> B {
    let mut a = init;
    while let Some(x) = it.next() {
        a = p(a, x);
    }
    a
}
pub fn iter_for_each<I: Iterator, P: FnMut(I::Item)>(mut it: I, mut p: P) {
    while let Some(x) = it.next() {
        p(x);
    }
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: IntoIterator<Item = (K, V)>>(i: I) -> HashMap<K, V, S> {
    let mut m = HashMap::default();
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
    m
}
pub fn map_extend<K: Eq + Hash, V, S: BuildHasher, A, I: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, i: I) {
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
}
pub fn set_from_iter<T: Eq + Hash, S: BuildHasher + Default, I: IntoIterator<Item = T>>(i: I) -> HashSet<T, S> {
    let mut m = HashSet::default();
    let mut it = i.into_iter();
    while let Some(k) = it.next() {
        m.insert(k);
    }
    m
}
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(i: I) -> Result<V, E> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        match x {
            Ok(a) => v.push(a),
            Err(e) => return Err(e),
        }
    }
    Ok(v.into_iter().collect())
}
pub fn option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(i: I) -> Option<V> {
    let mut v = Vec::new();
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        match x {
            Some(a) => v.push(a),
            None => return None,
        }
    }
    Some(v.into_iter().collect())
}
pub fn string_from_chars<I: IntoIterator<Item = char>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    while let Some(c) = it.next() {
        s.push(c);
    }
    s
}
pub fn string_from_strs<'a, I: IntoIterator<Item = &'a str>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    while let Some(c) = it.next() {
        s.push_str(c);
    }
    s
}
pub fn string_from_strings<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut s = String::new();
    let mut it = i.into_iter();
    while let Some(c) = it.next() {
        s.push_str(&c);
    }
    s
}
pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(x) = it.next() {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(mut x) = it.next() {
        if f(&mut x) {
            v.push(x);
        }
    }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(mut x) = it.next() {
        let same = match v.last_mut() {
            Some(l) => f(&mut x, l),
            None => false,
        };
        if !same {
            v.push(x);
        }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(mut x) = it.next() {
        let same = match v.last_mut() {
            Some(l) => f(&mut x) == f(l),
            None => false,
        };
        if !same {
            v.push(x);
        }
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut it = std::mem::take(v).into_iter();
    while let Some(x) = it.next() {
        let same = match v.last() {
            Some(l) => x == *l,
            None => false,
        };
        if !same {
            v.push(x);
        }
    }
}
pub fn iter_partition<I: Iterator, B: Default + Extend<I::Item>, P: FnMut(&I::Item) -> bool>(mut it: I, mut p: P) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() {
        if p(&x) {
            a.push(x);
        } else {
            b.push(x);
        }
    }
    (a, b)
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: std::ops::Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut a = init;
    while let Some(x) = it.next() {
        a = f(a, x)?;
    }
    R::from_output(a)
}
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: std::ops::Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if p(x) {
            return Some(i);
        }
    }
    None
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut it = s.iter();
    while let Some(y) = it.next() {
        if y == x {
            return true;
        }
    }
    false
}
