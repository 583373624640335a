//! Element types whose integrity and lifetime are checked.
use crate::mc;
use std::fmt;

/// values with this bit panic when cloned, compared or formatted
pub const BOOM: u64 = 1 << 40;
const MAGIC: u32 = 0x5AFE_C0DE;

/// A tracked value: torn, uninitialised, dropped or duplicated instances are reported.
#[repr(C)]
pub struct V {
    magic: u32,
    id: u32,
    a: u64,
    b: u64,
}
impl V {
    pub fn new(a: u64) -> V {
        V { magic: MAGIC, id: mc::track_new(), a, b: !a }
    }
    pub fn get(&self) -> u64 {
        let (m, id, a, b) = (self.magic, self.id, self.a, self.b);
        if m != MAGIC {
            mc::fail(&format!("read of an uninitialised or destroyed value (tag {:#x})", m));
        }
        mc::track_use(id);
        if a != !b {
            mc::fail(&format!("torn value read: {:#x} / {:#x}", a, b));
        }
        a
    }
    /// in-place modification in two steps
    pub fn set(&mut self, v: u64) {
        self.get();
        self.a = v;
        self.b = !v;
    }
    pub fn add(&mut self, d: u64) {
        let v = self.get() + d;
        self.set(v);
    }
    pub fn addr(&self) -> usize {
        self as *const V as usize
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        boom(self.get());
        V::new(self.get())
    }
}
impl Drop for V {
    fn drop(&mut self) {
        if mc::active() {
            self.get();
            mc::track_drop(self.id);
            self.magic = 0xDEAD;
        }
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        boom(self.get());
        boom(o.get());
        self.get() == o.get()
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        boom(self.get());
        write!(f, "v{}", self.get())
    }
}

/// A plain copyable value of two words.
#[derive(Clone, Copy, PartialEq)]
pub struct C2(pub u64, pub u64);
impl C2 {
    pub fn new(a: u64) -> C2 {
        C2(a, !a)
    }
    pub fn get(&self) -> u64 {
        if self.0 != !self.1 {
            mc::fail(&format!("torn value read: {:#x} / {:#x}", self.0, self.1));
        }
        self.0
    }
}
impl fmt::Debug for C2 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}", self.get())
    }
}
fn boom(x: u64) {
    if x & BOOM != 0 {
        panic!("user code panics")
    }
}

/// What the scenarios need from an element type.
pub trait Val: Clone + PartialEq + fmt::Debug + 'static {
    const TRACKED: bool;
    fn mk(x: u64) -> Self;
    fn val(&self) -> u64;
    fn put(&mut self, x: u64);
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64;
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64>;
}
impl Val for V {
    const TRACKED: bool = true;
    fn mk(x: u64) -> V {
        V::new(x)
    }
    fn val(&self) -> u64 {
        self.get()
    }
    fn put(&mut self, x: u64) {
        self.set(x)
    }
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64 {
        e.cloned().get()
    }
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64> {
        a.a_get_cloned(i).map(|x| x.get())
    }
}
impl Val for C2 {
    const TRACKED: bool = false;
    fn mk(x: u64) -> C2 {
        C2::new(x)
    }
    fn val(&self) -> u64 {
        self.get()
    }
    fn put(&mut self, x: u64) {
        self.0 = x;
        self.1 = !x;
    }
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64 {
        e.copied().get()
    }
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64> {
        a.a_get_copied(i).map(|x| x.get())
    }
}

/// A plain copyable value of one word.
#[derive(Clone, Copy, PartialEq)]
pub struct W(pub u64);
impl fmt::Debug for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}", self.0)
    }
}
impl Val for W {
    const TRACKED: bool = false;
    fn mk(x: u64) -> W {
        W(x)
    }
    fn val(&self) -> u64 {
        self.0
    }
    fn put(&mut self, x: u64) {
        self.0 = x;
    }
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64 {
        e.copied().0
    }
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64> {
        a.a_get_copied(i).map(|x| x.0)
    }
}

/// A tracked value in a box: one word which has to be dropped.
#[derive(Clone, PartialEq)]
pub struct B(Box<V>);
impl fmt::Debug for B {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Val for B {
    const TRACKED: bool = true;
    fn mk(x: u64) -> B {
        B(Box::new(V::new(x)))
    }
    fn val(&self) -> u64 {
        self.0.get()
    }
    fn put(&mut self, x: u64) {
        self.0.set(x)
    }
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64 {
        e.cloned().val()
    }
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64> {
        a.a_get_cloned(i).map(|x| x.val())
    }
}

/// A large plain value.
#[derive(Clone, Copy, PartialEq)]
pub struct L([u64; 17]);
impl fmt::Debug for L {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}", self.val())
    }
}
impl Val for L {
    const TRACKED: bool = false;
    fn mk(x: u64) -> L {
        L([x; 17])
    }
    fn val(&self) -> u64 {
        if self.0[8] != self.0[0] || self.0[16] != self.0[0] {
            mc::fail(&format!("torn value read: {:?}", self.0));
        }
        self.0[0]
    }
    fn put(&mut self, x: u64) {
        self.0 = [x; 17];
    }
    fn el_copied(e: &orx_concurrent_vec::ConcurrentElement<Self>) -> u64 {
        e.copied().val()
    }
    fn get_copied<P: crate::api::St<Self>, A: crate::api::Api<Self, P>>(a: &A, i: usize) -> Option<u64> {
        a.a_get_copied(i).map(|x| x.val())
    }
}
