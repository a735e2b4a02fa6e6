//! `std` with small models of the hashed collections.
//!
//! The copy of rusty_genes that is encoded has every `std::` path renamed to `vpstd::`; everything
//! but the hashed collections is the real `std`.  A hashed collection is a fixed array of `CAP`
//! slots searched with `==` (no hashing); iteration starts at an arbitrary slot, so code that
//! depends on the iteration order is explored under several orders.
#![allow(ambiguous_glob_reexports)]

pub use std::*;

/// core::slice::memchr, which comes precompiled.
#[no_mangle]
pub fn __vpm_memchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut found = false;
    let mut at = 0;
    let mut i = text.len();
    while i > 0 {
        i -= 1;
        let hit = text[i] == x;
        at = if hit { i } else { at };
        found |= hit;
    }
    if found {
        Some(at)
    } else {
        None
    }
}

#[no_mangle]
pub fn __vpm_memrchr(x: u8, text: &[u8]) -> Option<usize> {
    let mut found = false;
    let mut at = 0;
    let mut i = 0;
    while i < text.len() {
        let hit = text[i] == x;
        at = if hit { i } else { at };
        found |= hit;
        i += 1;
    }
    if found {
        Some(at)
    } else {
        None
    }
}

/// core::fmt, which comes precompiled: the templates of `format_args!` are followed, and a number is
/// written as its bits and the options it is formatted with, in place of its digits, so that equal
/// texts mean the same numbers formatted in the same way. (The layouts are those of the toolchain
/// that is here.)
mod fmt_model {
    use std::fmt::{Result, Write};

    #[repr(C)]
    pub struct Formatter {
        buf: *mut (),
        vtable: *const WriteVtable,
        options: Options,
    }

    #[repr(C)]
    #[derive(Clone, Copy)]
    struct Options {
        flags: u32,
        width: u16,
        precision: u16,
    }

    const PLAIN: Options = Options { flags: 0x6000_0020, width: 0, precision: 0 };
    const WIDTH: u32 = 1 << 27;
    const PRECISION: u32 = 1 << 28;

    #[repr(C)]
    pub struct WriteVtable {
        drop: usize,
        size: usize,
        align: usize,
        write_str: unsafe fn(*mut (), *const u8, usize) -> bool,
    }

    #[repr(C)]
    pub struct Argument {
        value: *const (),
        formatter: usize,
    }

    extern "C" {
        fn __vp_unsupported_format() -> !;
    }

    impl Argument {
        unsafe fn fmt(&self, f: &mut Formatter) -> bool {
            let run: unsafe fn(*const (), &mut Formatter) -> bool = std::mem::transmute(self.formatter);
            run(self.value, f)
        }
        unsafe fn count(&self) -> u16 {
            *(&self.formatter as *const usize as *const u16)
        }
    }

    unsafe fn u16_at(p: &mut *const u8) -> u16 {
        let v = u16::from_le_bytes([**p, *p.add(1)]);
        *p = p.add(2);
        v
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_write(buf: *mut (), vtable: *const WriteVtable, template: *const u8, args: *const Argument) -> bool {
        let write_str = (*vtable).write_str;
        if args as usize & 1 == 1 {
            return write_str(buf, template, args as usize >> 1);
        }
        let mut t = template;
        let mut index = 0usize;
        loop {
            let n = *t;
            t = t.add(1);
            if n == 0 {
                return false;
            }
            if n <= 0x80 {
                let len = if n == 0x80 { u16_at(&mut t) as usize } else { n as usize };
                if write_str(buf, t, len) {
                    return true;
                }
                t = t.add(len);
                continue;
            }
            let mut options = PLAIN;
            if n != 0xc0 {
                if n & 1 != 0 {
                    options.flags = u32::from_le_bytes([*t, *t.add(1), *t.add(2), *t.add(3)]);
                    t = t.add(4);
                }
                if n & 2 != 0 {
                    options.width = u16_at(&mut t);
                }
                if n & 4 != 0 {
                    options.precision = u16_at(&mut t);
                }
                if n & 8 != 0 {
                    index = u16_at(&mut t) as usize;
                }
                if n & 16 != 0 {
                    options.width = (*args.add(options.width as usize)).count();
                }
                if n & 32 != 0 {
                    options.precision = (*args.add(options.precision as usize)).count();
                }
            }
            let mut f = Formatter { buf, vtable, options };
            if (*args.add(index)).fmt(&mut f) {
                return true;
            }
            index += 1;
        }
    }

    unsafe fn number(kind: u8, bits: u64, f: &mut Formatter) -> bool {
        let o = f.options;
        let (g, w, p, b) = (o.flags.to_le_bytes(), o.width.to_le_bytes(), o.precision.to_le_bytes(), bits.to_le_bytes());
        let text = [
            kind, g[0], g[1], g[2], g[3], w[0], w[1], p[0], p[1], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7],
        ];
        ((*f.vtable).write_str)(f.buf, text.as_ptr(), text.len())
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_f64(v: &f64, f: &mut Formatter) -> bool {
        number(1, v.to_bits(), f)
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_usize(v: &usize, f: &mut Formatter) -> bool {
        number(2, *v as u64, f)
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_write_str(f: &mut Formatter, s: *const u8, len: usize) -> bool {
        ((*f.vtable).write_str)(f.buf, s, len)
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_pad(f: &mut Formatter, s: *const u8, len: usize) -> bool {
        if f.options.flags & (WIDTH | PRECISION) != 0 {
            __vp_unsupported_format();
        }
        ((*f.vtable).write_str)(f.buf, s, len)
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_str(s: *const u8, len: usize, f: &mut Formatter) -> bool {
        __vpm_fmt_pad(f, s, len)
    }

    struct Text(Vec<u8>);

    impl Write for Text {
        fn write_str(&mut self, s: &str) -> Result {
            self.0.extend_from_slice(s.as_bytes());
            Ok(())
        }
    }

    #[no_mangle]
    pub unsafe fn __vpm_fmt_format(template: *const u8, args: *const Argument) -> String {
        let mut text = Text(Vec::new());
        let to: (*mut (), *const WriteVtable) = std::mem::transmute(&mut text as &mut dyn Write);
        __vpm_fmt_write(to.0, to.1, template, args);
        String::from_utf8_unchecked(text.0)
    }
}

pub mod collections {
    pub use std::collections::*;

    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;

    use std::cell::Cell;

    /// Slots of a model collection.
    pub const CAP: usize = if cfg!(feature = "huge") { 140 } else if cfg!(feature = "wide") { 40 } else { 8 };
    const UNSET: u8 = 255;

    fn overflow() -> ! {
        panic!("VPMODEL: hashed collection model is full")
    }

    /// The slot where the iteration of a collection starts: any of the used ones, and the same
    /// one until something is inserted.
    fn any_start(len: usize, memo: &Cell<u8>, used: impl Fn(usize) -> bool) -> usize {
        if len <= 1 {
            return 0;
        }
        if memo.get() != UNSET {
            return memo.get() as usize;
        }
        let mut r = 0;
        if vpq::any_order() {
            r = vpq::internal_u8() as usize;
            vpq::assume(r < len);
        }
        let mut seen = 0;
        let mut i = 0;
        while i < CAP {
            if used(i) {
                if seen == r {
                    memo.set(i as u8);
                    return i;
                }
                seen += 1;
            }
            i += 1;
        }
        0
    }

    #[inline]
    fn slot(start: usize, step: usize) -> usize {
        let i = start + step;
        if i >= CAP {
            i - CAP
        } else {
            i
        }
    }

    pub mod hash_map {
        use super::{any_start, overflow, slot, CAP, UNSET};
        use std::cell::Cell;
        use std::borrow::Borrow;
        use std::fmt;
        use std::hash::Hash;
        use std::marker::PhantomData;

        pub use std::collections::hash_map::{DefaultHasher, RandomState};

        pub struct HashMap<K, V, S = RandomState> {
            slots: [Option<(K, V)>; CAP],
            len: usize,
            start: Cell<u8>,
            _s: PhantomData<S>,
        }

        unsafe impl<K: Send, V: Send, S> Send for HashMap<K, V, S> {}
        unsafe impl<K: Sync, V: Sync, S> Sync for HashMap<K, V, S> {}

        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(_n: usize) -> Self {
                Self::default()
            }
        }

        impl<K, V, S> HashMap<K, V, S> {
            pub fn with_hasher(_s: S) -> Self {
                Self::default()
            }
            pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self {
                Self::default()
            }
            fn any_start(&self) -> usize {
                any_start(self.len, &self.start, |i| self.slots[i].is_some())
            }
            pub fn len(&self) -> usize {
                self.len
            }
            pub fn is_empty(&self) -> bool {
                self.len == 0
            }
            pub fn capacity(&self) -> usize {
                CAP
            }
            pub fn clear(&mut self) {
                for s in &mut self.slots {
                    *s = None
                }
                self.len = 0;
            }
            pub fn reserve(&mut self, _n: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter { slots: &self.slots, start: self.any_start(), step: 0, left: self.len }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                IterMut { inner: self.slots.iter_mut() }
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys { inner: self.iter() }
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values { inner: self.iter() }
            }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
                ValuesMut { inner: self.slots.iter_mut() }
            }
            pub fn into_keys(self) -> impl Iterator<Item = K> {
                self.into_iter().map(|(k, _)| k)
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.into_iter().map(|(_, v)| v)
            }
            pub fn drain(&mut self) -> IntoIter<K, V> {
                let mut slots: [Option<(K, V)>; CAP] = std::array::from_fn(|_| None);
                let start = self.any_start();
                std::mem::swap(&mut slots, &mut self.slots);
                self.len = 0;
                IntoIter { slots, start, step: 0 }
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                for s in &mut self.slots {
                    let keep = match s {
                        Some((k, v)) => f(k, v),
                        None => true,
                    };
                    if !keep {
                        *s = None;
                        self.len -= 1;
                    }
                }
            }
            fn put_free(&mut self, k: K, v: V) -> &mut V {
                let mut at = CAP;
                let mut i = 0;
                while i < CAP {
                    if at == CAP && self.slots[i].is_none() {
                        at = i
                    }
                    i += 1;
                }
                if at == CAP {
                    overflow()
                }
                self.len += 1;
                self.start.set(UNSET);
                let mut kv = Some((k, v));
                let mut i = 0;
                while i < CAP {
                    if i == at {
                        self.slots[i] = kv.take()
                    }
                    i += 1;
                }
                &mut self.slots[at].as_mut().unwrap().1
            }
        }

        impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
            fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let mut at = CAP;
                let mut i = 0;
                while i < CAP {
                    if at == CAP {
                        if let Some((x, _)) = &self.slots[i] {
                            if x.borrow() == k {
                                at = i
                            }
                        }
                    }
                    i += 1;
                }
                if at == CAP {
                    None
                } else {
                    Some(at)
                }
            }
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                self.find(k).and_then(|i| self.slots[i].as_ref()).map(|kv| &kv.1)
            }
            pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                self.find(k).and_then(|i| self.slots[i].as_ref()).map(|kv| (&kv.0, &kv.1))
            }
            pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => self.slots[i].as_mut().map(|kv| &mut kv.1),
                    None => None,
                }
            }
            pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.find(k).is_some()
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.find(&k) {
                    Some(i) => {
                        let old = &mut self.slots[i].as_mut().unwrap().1;
                        Some(std::mem::replace(old, v))
                    }
                    None => {
                        self.put_free(k, v);
                        None
                    }
                }
            }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.remove_entry(k).map(|kv| kv.1)
            }
            pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => {
                        self.len -= 1;
                        self.slots[i].take()
                    }
                    None => None,
                }
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
                match self.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { map: self, at: i, key: k }),
                    None => Entry::Vacant(VacantEntry { map: self, key: k }),
                }
            }
        }

        pub enum Entry<'a, K, V, S = RandomState> {
            Occupied(OccupiedEntry<'a, K, V, S>),
            Vacant(VacantEntry<'a, K, V, S>),
        }
        pub struct OccupiedEntry<'a, K, V, S = RandomState> {
            map: &'a mut HashMap<K, V, S>,
            at: usize,
            key: K,
        }
        pub struct VacantEntry<'a, K, V, S = RandomState> {
            map: &'a mut HashMap<K, V, S>,
            key: K,
        }
        impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
            pub fn key(&self) -> &K {
                &self.key
            }
            pub fn get(&self) -> &V {
                &self.map.slots[self.at].as_ref().unwrap().1
            }
            pub fn get_mut(&mut self) -> &mut V {
                &mut self.map.slots[self.at].as_mut().unwrap().1
            }
            pub fn into_mut(self) -> &'a mut V {
                &mut self.map.slots[self.at].as_mut().unwrap().1
            }
            pub fn insert(&mut self, v: V) -> V {
                std::mem::replace(self.get_mut(), v)
            }
            pub fn remove(self) -> V {
                self.map.len -= 1;
                self.map.slots[self.at].take().unwrap().1
            }
        }
        impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
            pub fn key(&self) -> &K {
                &self.key
            }
            pub fn into_key(self) -> K {
                self.key
            }
            pub fn insert(self, v: V) -> &'a mut V {
                self.map.put_free(self.key, v)
            }
        }
        impl<'a, K, V, S> Entry<'a, K, V, S> {
            pub fn or_insert(self, v: V) -> &'a mut V {
                self.or_insert_with(|| v)
            }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self {
                    Entry::Occupied(e) => e.into_mut(),
                    Entry::Vacant(e) => e.insert(f()),
                }
            }
            pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
                match self {
                    Entry::Occupied(e) => e.into_mut(),
                    Entry::Vacant(e) => {
                        let v = f(&e.key);
                        e.insert(v)
                    }
                }
            }
            pub fn or_default(self) -> &'a mut V
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
                if let Entry::Occupied(e) = &mut self {
                    f(e.get_mut())
                }
                self
            }
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(e) => e.key(),
                    Entry::Vacant(e) => e.key(),
                }
            }
        }

        impl<K, V, S> Default for HashMap<K, V, S> {
            fn default() -> Self {
                Self { slots: std::array::from_fn(|_| None), len: 0, start: Cell::new(UNSET), _s: PhantomData }
            }
        }
        impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
            fn clone(&self) -> Self {
                Self { slots: self.slots.clone(), len: self.len, start: self.start.clone(), _s: PhantomData }
            }
        }
        impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
            fn eq(&self, other: &Self) -> bool {
                self.len == other.len && self.iter().all(|(k, v)| other.get(k) == Some(v))
            }
        }
        impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
        impl<K, V, S> fmt::Debug for HashMap<K, V, S> {
            fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> std::ops::Index<&Q> for HashMap<K, V, S> {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                match self.get(k) {
                    Some(v) => v,
                    None => panic!("no entry found for key"),
                }
            }
        }
        impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
                for (k, v) in iter {
                    self.insert(k, v);
                }
            }
        }
        impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
            fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, iter: I) {
                for (k, v) in iter {
                    self.insert(*k, *v);
                }
            }
        }
        impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
                let mut m = Self::default();
                m.extend(iter);
                m
            }
        }
        impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }

        pub struct Iter<'a, K, V> {
            slots: &'a [Option<(K, V)>; CAP],
            start: usize,
            step: usize,
            left: usize,
        }
        impl<'a, K, V> Iterator for Iter<'a, K, V> {
            type Item = (&'a K, &'a V);
            fn next(&mut self) -> Option<Self::Item> {
                while self.step < CAP {
                    let i = slot(self.start, self.step);
                    self.step += 1;
                    if let Some((k, v)) = &self.slots[i] {
                        self.left -= 1;
                        return Some((k, v));
                    }
                }
                None
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left, Some(self.left))
            }
        }
        impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
        impl<K, V> Clone for Iter<'_, K, V> {
            fn clone(&self) -> Self {
                Iter { slots: self.slots, start: self.start, step: self.step, left: self.left }
            }
        }
        pub struct Keys<'a, K, V> {
            inner: Iter<'a, K, V>,
        }
        impl<'a, K, V> Iterator for Keys<'a, K, V> {
            type Item = &'a K;
            fn next(&mut self) -> Option<&'a K> {
                self.inner.next().map(|kv| kv.0)
            }
        }
        pub struct Values<'a, K, V> {
            inner: Iter<'a, K, V>,
        }
        impl<'a, K, V> Iterator for Values<'a, K, V> {
            type Item = &'a V;
            fn next(&mut self) -> Option<&'a V> {
                self.inner.next().map(|kv| kv.1)
            }
        }
        pub struct IterMut<'a, K, V> {
            inner: std::slice::IterMut<'a, Option<(K, V)>>,
        }
        impl<'a, K, V> Iterator for IterMut<'a, K, V> {
            type Item = (&'a K, &'a mut V);
            fn next(&mut self) -> Option<Self::Item> {
                for s in self.inner.by_ref() {
                    if let Some((k, v)) = s {
                        return Some((k, v));
                    }
                }
                None
            }
        }
        pub struct ValuesMut<'a, K, V> {
            inner: std::slice::IterMut<'a, Option<(K, V)>>,
        }
        impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
            type Item = &'a mut V;
            fn next(&mut self) -> Option<&'a mut V> {
                for s in self.inner.by_ref() {
                    if let Some((_, v)) = s {
                        return Some(v);
                    }
                }
                None
            }
        }
        pub struct IntoIter<K, V> {
            slots: [Option<(K, V)>; CAP],
            start: usize,
            step: usize,
        }
        impl<K, V> Iterator for IntoIter<K, V> {
            type Item = (K, V);
            fn next(&mut self) -> Option<(K, V)> {
                while self.step < CAP {
                    let i = slot(self.start, self.step);
                    self.step += 1;
                    if self.slots[i].is_some() {
                        return self.slots[i].take();
                    }
                }
                None
            }
        }
        impl<K, V, S> IntoIterator for HashMap<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(mut self) -> IntoIter<K, V> {
                self.drain()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> {
                self.iter_mut()
            }
        }
    }

    pub mod hash_set {
        use super::{any_start, overflow, slot, CAP, UNSET};
        use std::cell::Cell;
        use std::borrow::Borrow;
        use std::fmt;
        use std::hash::Hash;
        use std::marker::PhantomData;

        pub use std::collections::hash_map::RandomState;

        pub struct HashSet<T, S = RandomState> {
            slots: [Option<T>; CAP],
            len: usize,
            start: Cell<u8>,
            _s: PhantomData<S>,
        }

        unsafe impl<T: Send, S> Send for HashSet<T, S> {}
        unsafe impl<T: Sync, S> Sync for HashSet<T, S> {}

        impl<T> HashSet<T, RandomState> {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn with_capacity(_n: usize) -> Self {
                Self::default()
            }
        }

        impl<T, S> HashSet<T, S> {
            pub fn with_hasher(_s: S) -> Self {
                Self::default()
            }
            pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self {
                Self::default()
            }
            fn any_start(&self) -> usize {
                any_start(self.len, &self.start, |i| self.slots[i].is_some())
            }
            pub fn len(&self) -> usize {
                self.len
            }
            pub fn is_empty(&self) -> bool {
                self.len == 0
            }
            pub fn capacity(&self) -> usize {
                CAP
            }
            pub fn clear(&mut self) {
                for s in &mut self.slots {
                    *s = None
                }
                self.len = 0;
            }
            pub fn reserve(&mut self, _n: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn iter(&self) -> Iter<'_, T> {
                Iter { slots: &self.slots, start: self.any_start(), step: 0, left: self.len }
            }
            pub fn drain(&mut self) -> IntoIter<T> {
                let mut slots: [Option<T>; CAP] = std::array::from_fn(|_| None);
                let start = self.any_start();
                std::mem::swap(&mut slots, &mut self.slots);
                self.len = 0;
                IntoIter { slots, start, step: 0 }
            }
            pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
                for s in &mut self.slots {
                    let keep = match s {
                        Some(x) => f(x),
                        None => true,
                    };
                    if !keep {
                        *s = None;
                        self.len -= 1;
                    }
                }
            }
        }

        impl<T: Eq + Hash, S> HashSet<T, S> {
            fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
            where
                T: Borrow<Q>,
            {
                let mut at = CAP;
                let mut i = 0;
                while i < CAP {
                    if at == CAP {
                        if let Some(x) = &self.slots[i] {
                            if x.borrow() == k {
                                at = i
                            }
                        }
                    }
                    i += 1;
                }
                if at == CAP {
                    None
                } else {
                    Some(at)
                }
            }
            pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
            where
                T: Borrow<Q>,
            {
                let mut found = false;
                let mut i = 0;
                while i < CAP {
                    if let Some(x) = &self.slots[i] {
                        found |= x.borrow() == k
                    }
                    i += 1;
                }
                found
            }
            pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T>
            where
                T: Borrow<Q>,
            {
                self.find(k).and_then(|i| self.slots[i].as_ref())
            }
            pub fn insert(&mut self, v: T) -> bool {
                if self.contains(&v) {
                    return false;
                }
                let mut v = Some(v);
                let mut i = 0;
                while i < CAP {
                    if v.is_some() && self.slots[i].is_none() {
                        self.slots[i] = v.take();
                    }
                    i += 1;
                }
                if v.is_some() {
                    overflow()
                }
                self.len += 1;
                self.start.set(UNSET);
                true
            }
            pub fn replace(&mut self, v: T) -> Option<T> {
                let old = self.take(&v);
                self.insert(v);
                old
            }
            pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
            where
                T: Borrow<Q>,
            {
                let mut found = false;
                let mut i = 0;
                while i < CAP {
                    let hit = match &self.slots[i] {
                        Some(x) => x.borrow() == k,
                        None => false,
                    };
                    if hit {
                        self.slots[i] = None;
                        found = true;
                    }
                    i += 1;
                }
                if found {
                    self.len -= 1;
                }
                found
            }
            pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T>
            where
                T: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => {
                        self.len -= 1;
                        self.slots[i].take()
                    }
                    None => None,
                }
            }
            pub fn is_subset(&self, other: &Self) -> bool {
                self.iter().all(|x| other.contains(x))
            }
            pub fn is_superset(&self, other: &Self) -> bool {
                other.is_subset(self)
            }
            pub fn is_disjoint(&self, other: &Self) -> bool {
                self.iter().all(|x| !other.contains(x))
            }
            pub fn intersection<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
                self.iter().filter(move |x| other.contains(*x))
            }
            pub fn difference<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
                self.iter().filter(move |x| !other.contains(*x))
            }
            pub fn union<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
                self.iter().chain(other.difference(self))
            }
            pub fn symmetric_difference<'a>(&'a self, other: &'a Self) -> impl Iterator<Item = &'a T> {
                self.difference(other).chain(other.difference(self))
            }
        }

        impl<T, S> Default for HashSet<T, S> {
            fn default() -> Self {
                Self { slots: std::array::from_fn(|_| None), len: 0, start: Cell::new(UNSET), _s: PhantomData }
            }
        }
        impl<T: Clone, S> Clone for HashSet<T, S> {
            fn clone(&self) -> Self {
                Self { slots: self.slots.clone(), len: self.len, start: self.start.clone(), _s: PhantomData }
            }
        }
        impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
            fn eq(&self, other: &Self) -> bool {
                self.len == other.len && self.is_subset(other)
            }
        }
        impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
        impl<T, S> fmt::Debug for HashSet<T, S> {
            fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
        impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
                for x in iter {
                    self.insert(x);
                }
            }
        }
        impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
                for x in iter {
                    self.insert(*x);
                }
            }
        }
        impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> {
            fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
                let mut s = Self::default();
                s.extend(iter);
                s
            }
        }
        impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
            fn from(a: [T; N]) -> Self {
                a.into_iter().collect()
            }
        }

        macro_rules! set_op {
            ($tr:ident, $f:ident, $m:ident) => {
                impl<T: Eq + Hash + Clone> std::ops::$tr<&HashSet<T>> for &HashSet<T> {
                    type Output = HashSet<T>;
                    fn $f(self, other: &HashSet<T>) -> HashSet<T> {
                        self.$m(other).cloned().collect()
                    }
                }
            };
        }
        set_op!(BitAnd, bitand, intersection);
        set_op!(BitOr, bitor, union);
        set_op!(Sub, sub, difference);
        set_op!(BitXor, bitxor, symmetric_difference);

        pub struct Iter<'a, T> {
            slots: &'a [Option<T>; CAP],
            start: usize,
            step: usize,
            left: usize,
        }
        impl<'a, T> Iterator for Iter<'a, T> {
            type Item = &'a T;
            fn next(&mut self) -> Option<&'a T> {
                while self.step < CAP {
                    let i = slot(self.start, self.step);
                    self.step += 1;
                    if let Some(x) = &self.slots[i] {
                        self.left -= 1;
                        return Some(x);
                    }
                }
                None
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left, Some(self.left))
            }
        }
        impl<T> ExactSizeIterator for Iter<'_, T> {}
        impl<T> Clone for Iter<'_, T> {
            fn clone(&self) -> Self {
                Iter { slots: self.slots, start: self.start, step: self.step, left: self.left }
            }
        }
        pub struct IntoIter<T> {
            slots: [Option<T>; CAP],
            start: usize,
            step: usize,
        }
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                while self.step < CAP {
                    let i = slot(self.start, self.step);
                    self.step += 1;
                    if self.slots[i].is_some() {
                        return self.slots[i].take();
                    }
                }
                None
            }
        }
        impl<T, S> IntoIterator for HashSet<T, S> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(mut self) -> IntoIter<T> {
                self.drain()
            }
        }
        impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
            type Item = &'a T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                self.iter()
            }
        }
    }
}
