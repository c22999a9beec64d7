//! Stand-in for `hashbrown::HashSet`, whose order is the one its members were inserted in: the
//! explorer tries the orders.
#[derive(Clone, Debug)]
pub struct HashSet<T>(Vec<T>);
impl<T> Default for HashSet<T> {
    fn default() -> Self {
        Self(vec![])
    }
}
impl<T: PartialEq> HashSet<T> {
    pub fn new() -> Self {
        Self(vec![])
    }
    pub fn with_capacity(_: usize) -> Self {
        Self(vec![])
    }
    pub fn insert(&mut self, t: T) -> bool {
        let new = !self.0.contains(&t);
        if new {
            self.0.push(t)
        }
        new
    }
    pub fn contains<Q: ?Sized + PartialEq>(&self, t: &Q) -> bool
    where
        T: std::borrow::Borrow<Q>,
    {
        self.0.iter().any(|x| x.borrow() == t)
    }
    pub fn remove<Q: ?Sized + PartialEq>(&mut self, t: &Q) -> bool
    where
        T: std::borrow::Borrow<Q>,
    {
        match self.0.iter().position(|x| x.borrow() == t) {
            Some(i) => {
                self.0.remove(i);
                true
            }
            None => false,
        }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn retain(&mut self, f: impl FnMut(&T) -> bool) {
        self.0.retain(f)
    }
}
impl<T: PartialEq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for t in i {
            self.insert(t);
        }
    }
}
impl<T: PartialEq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self::new();
        s.extend(i);
        s
    }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: PartialEq> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.0.iter().all(|x| o.0.contains(x))
    }
}
impl<T: Eq> Eq for HashSet<T> {}
impl<T: PartialEq, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(v: [T; N]) -> Self {
        v.into_iter().collect()
    }
}
impl<T: PartialEq> HashSet<T> {
    pub fn drain(&mut self) -> std::vec::IntoIter<T> {
        std::mem::take(&mut self.0).into_iter()
    }
    pub fn get<Q: ?Sized + PartialEq>(&self, t: &Q) -> Option<&T>
    where
        T: std::borrow::Borrow<Q>,
    {
        self.0.iter().find(|x| (*x).borrow() == t)
    }
    pub fn reserve(&mut self, _: usize) {}
}
