//! Stand-in for lru 0.7: same semantics, linear storage (most recent at the back).
use std::borrow::Borrow;
use std::hash::Hash;
const P: u32 = simhook::S_LRU;
#[derive(Clone, Debug)]
pub struct LruCache<K, V> { v: Vec<(K, V)>, cap: usize }
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self { Self { v: Vec::new(), cap } }
    pub fn unbounded() -> Self { Self { v: Vec::new(), cap: usize::MAX } }
    fn pos<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { self.v.iter().rposition(|e| e.0.borrow() == k) }
    fn touch(&mut self, i: usize) -> &mut (K, V) { let e = self.v.remove(i); self.v.push(e); self.v.last_mut().unwrap() }
    pub fn put(&mut self, k: K, v: V) -> Option<V> { simhook::point(P); self.push_inner(k, v).0 }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        simhook::point(P);
        if let Some(i) = self.pos(&k) { let e = self.v.remove(i); self.v.push((k, v)); return Some(e); }
        self.push_inner(k, v).1
    }
    fn push_inner(&mut self, k: K, v: V) -> (Option<V>, Option<(K, V)>) {
        if let Some(i) = self.pos(&k) { let e = self.touch(i); return (Some(std::mem::replace(&mut e.1, v)), None); }
        if self.cap == 0 { return (None, Some((k, v))); }
        let ev = if self.v.len() >= self.cap { Some(self.v.remove(0)) } else { None };
        self.v.push((k, v));
        (None, ev)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> { simhook::point(P); let i = self.pos(k)?; Some(&self.touch(i).1) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { simhook::point(P); let i = self.pos(k)?; Some(&mut self.touch(i).1) }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { simhook::point(P); self.pos(k).map(|i| &self.v[i].1) }
    pub fn peek_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { simhook::point(P); let i = self.pos(k)?; Some(&mut self.v[i].1) }
    pub fn peek_lru(&self) -> Option<(&K, &V)> { self.v.first().map(|e| (&e.0, &e.1)) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i).1) }
    pub fn pop_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i)) }
    pub fn pop_lru(&mut self) -> Option<(K, V)> { if self.v.is_empty() { None } else { Some(self.v.remove(0)) } }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn cap(&self) -> usize { self.cap }
    pub fn resize(&mut self, cap: usize) { self.cap = cap; while self.v.len() > cap { self.v.remove(0); } }
    pub fn clear(&mut self) { simhook::point(P); self.v.clear() }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + ExactSizeIterator { self.v.iter().rev().map(|e| (&e.0, &e.1)) }
    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> { self.v.iter_mut().rev().map(|e| (&e.0, &mut e.1)) }
}
