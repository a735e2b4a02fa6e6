//! Single-threaded model of `object-pool` 0.5.4 (same public API; a `RefCell` for the mutex).
use std::cell::UnsafeCell;
use std::mem::{forget, ManuallyDrop};
use std::ops::{Deref, DerefMut};

pub type Stack<T> = Vec<T>;

pub struct Pool<T> {
    objects: UnsafeCell<Stack<T>>,
}

unsafe impl<T: Send> Sync for Pool<T> {}

impl<T> Pool<T> {
    pub fn new<F>(cap: usize, init: F) -> Pool<T>
    where
        F: Fn() -> T,
    {
        let mut objects = Stack::new();
        for _ in 0..cap {
            objects.push(init());
        }
        Pool {
            objects: UnsafeCell::new(objects),
        }
    }

    #[allow(clippy::mut_from_ref)]
    fn stack(&self) -> &mut Stack<T> {
        unsafe { &mut *self.objects.get() }
    }

    pub fn len(&self) -> usize {
        self.stack().len()
    }

    pub fn is_empty(&self) -> bool {
        self.stack().is_empty()
    }

    pub fn try_pull(&self) -> Option<Reusable<'_, T>> {
        self.stack().pop().map(|data| Reusable::new(self, data))
    }

    pub fn pull<F: Fn() -> T>(&self, fallback: F) -> Reusable<'_, T> {
        match self.try_pull() {
            Some(r) => r,
            None => Reusable::new(self, fallback()),
        }
    }

    pub fn attach(&self, t: T) {
        self.stack().push(t)
    }
}

pub struct Reusable<'a, T> {
    pool: &'a Pool<T>,
    data: ManuallyDrop<T>,
}

impl<'a, T> Reusable<'a, T> {
    pub fn new(pool: &'a Pool<T>, t: T) -> Self {
        Self {
            pool,
            data: ManuallyDrop::new(t),
        }
    }

    pub fn detach(mut self) -> (&'a Pool<T>, T) {
        let ret = (self.pool, unsafe { ManuallyDrop::take(&mut self.data) });
        forget(self);
        ret
    }
}

impl<T> Deref for Reusable<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.data
    }
}

impl<T> DerefMut for Reusable<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.data
    }
}

impl<T> Drop for Reusable<'_, T> {
    fn drop(&mut self) {
        let data = unsafe { ManuallyDrop::take(&mut self.data) };
        self.pool.attach(data)
    }
}
