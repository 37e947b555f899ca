// Offline stand-in for the part of the enum-map crate which busy_beaver uses.
pub use enum_map_derive::Enum;

pub trait Enum: Sized {
    const LENGTH: usize;
    fn from_usize(i: usize) -> Self;
    fn into_usize(self) -> usize;
}

pub struct EnumMap<K, V> {
    items: Vec<V>,
    key: std::marker::PhantomData<K>,
}

impl<K: Enum, V> EnumMap<K, V> {
    pub fn from_fn<F: FnMut(K) -> V>(mut f: F) -> Self {
        EnumMap { items: (0..K::LENGTH).map(|i| f(K::from_usize(i))).collect(), key: std::marker::PhantomData }
    }
    pub fn from_vec(items: Vec<V>) -> Self {
        assert!(items.len() == K::LENGTH);
        EnumMap { items, key: std::marker::PhantomData }
    }
    pub fn iter(&self) -> impl Iterator<Item = (K, &V)> {
        self.items.iter().enumerate().map(|(i, v)| (K::from_usize(i), v))
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (K, &mut V)> {
        self.items.iter_mut().enumerate().map(|(i, v)| (K::from_usize(i), v))
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> {
        self.items.iter()
    }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
        self.items.iter_mut()
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn map<W, F: FnMut(K, V) -> W>(self, mut f: F) -> EnumMap<K, W> {
        EnumMap {
            items: self.items.into_iter().enumerate().map(|(i, v)| f(K::from_usize(i), v)).collect(),
            key: std::marker::PhantomData,
        }
    }
}

impl<K: Enum, V: Default> Default for EnumMap<K, V> {
    fn default() -> Self {
        Self::from_fn(|_| V::default())
    }
}
impl<K: Enum, V> std::ops::Index<K> for EnumMap<K, V> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        &self.items[k.into_usize()]
    }
}
impl<K: Enum, V> std::ops::IndexMut<K> for EnumMap<K, V> {
    fn index_mut(&mut self, k: K) -> &mut V {
        &mut self.items[k.into_usize()]
    }
}
impl<K, V: Clone> Clone for EnumMap<K, V> {
    fn clone(&self) -> Self {
        EnumMap { items: self.items.clone(), key: std::marker::PhantomData }
    }
}
impl<K, V: PartialEq> PartialEq for EnumMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.items == o.items
    }
}
impl<K, V: Eq> Eq for EnumMap<K, V> {}
impl<K: Enum + std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for EnumMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

#[macro_export]
macro_rules! enum_map {
    ($($k:pat => $v:expr),* $(,)?) => {{
        // Evaluate in the order written (a `?` inside leaves the caller, as with the real macro).
        let mut slots = Vec::new();
        $( slots.push((($crate::__key(|k| matches!(k, $k))), $v)); )*
        $crate::__assemble(slots)
    }};
}

#[doc(hidden)]
pub fn __key<K: Enum>(f: fn(&K) -> bool) -> (usize, std::marker::PhantomData<K>) {
    let i = (0..K::LENGTH).find(|i| f(&K::from_usize(*i))).unwrap();
    (i, std::marker::PhantomData)
}
#[doc(hidden)]
pub fn __assemble<K: Enum, V>(slots: Vec<((usize, std::marker::PhantomData<K>), V)>) -> EnumMap<K, V> {
    let mut items: Vec<Option<V>> = (0..K::LENGTH).map(|_| None).collect();
    for ((i, _), v) in slots {
        items[i] = Some(v);
    }
    EnumMap::from_vec(items.into_iter().map(|v| v.expect("enum_map! misses a key")).collect())
}
