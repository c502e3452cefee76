//! Models of std::io, std::collections and byteorder: the contracts the code is checked against.
use vstd::prelude::*;
use crate::prelude::*;

pub mod io {
    use vstd::prelude::*;
    verus! {
    #[derive(Debug, Clone, Copy)]
    pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, InProgress, Other }
    #[derive(Debug)]
    pub struct Error { k: ErrorKind }
    impl Error {
        pub closed spec fn spec_kind(&self) -> ErrorKind { self.k }
        pub fn new(k: ErrorKind, msg: &str) -> (r: Error) ensures r.spec_kind() == k { Error { k } }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { self.k }
    }
    pub type Result<T> = core::result::Result<T, Error>;

    /// A reader delivers a fixed sequence of bytes and then its end. A read may also fail with an
    /// error other than the end of file; `failed` remembers that this has happened.
    pub trait Read: Sized {
        spec fn stream(&self) -> Seq<u8>;
        spec fn failed(&self) -> bool;
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                r is Ok ==> old(self).stream().len() >= old(buf)@.len()
                    && final(buf)@ == old(self).stream().take(old(buf)@.len() as int)
                    && final(self).stream() == old(self).stream().skip(old(buf)@.len() as int)
                    && final(self).failed() == old(self).failed(),
                r is Err && r->Err_0.spec_kind() == ErrorKind::UnexpectedEof ==>
                    old(self).stream().len() < old(buf)@.len() && final(self).stream().len() == 0
                    && final(self).failed() == old(self).failed(),
                r is Err && r->Err_0.spec_kind() != ErrorKind::UnexpectedEof ==> final(self).failed(),
                final(self).stream().len() <= old(self).stream().len();
    }
    /// A writer: what has been written to it. A failed write may have written anything.
    pub trait Write: Sized {
        spec fn written(&self) -> Seq<u8>;
        /// A writer that never fails (a vector).
        spec fn sound(&self) -> bool;
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures r is Ok ==> final(self).written() == old(self).written() + buf@,
                final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok;
    }
    impl Write for Vec<u8> {
        open spec fn written(&self) -> Seq<u8> { self@ }
        open spec fn sound(&self) -> bool { true }
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { self.extend_from_slice(buf); assert(self@ =~= old(self)@ + buf@); Ok(()) }
    }
    } // verus!
}

pub mod byteorder {
    use vstd::prelude::*;
    use crate::prelude::*;
    verus! {
    pub trait ByteOrder {}
    pub struct LittleEndian {}
    impl LittleEndian {
        pub fn read_u16(buf: &[u8]) -> (r: u16) requires buf@.len() >= 2 ensures r as nat == un(buf@.take(2)) { proof { un_bounds(buf@.take(2)); } x_un(buf, 2) as u16 }
        pub fn read_u32(buf: &[u8]) -> (r: u32) requires buf@.len() >= 4 ensures r as nat == un(buf@.take(4)) { proof { un_bounds(buf@.take(4)); } x_un(buf, 4) as u32 }
        pub fn read_u64(buf: &[u8]) -> (r: u64) requires buf@.len() >= 8 ensures r as nat == un(buf@.take(8)) { proof { un_bounds(buf@.take(8)); } x_un(buf, 8) as u64 }
        pub fn read_i16(buf: &[u8]) -> (r: i16) requires buf@.len() >= 2 ensures i16n(r) == un(buf@.take(2)) {
            proof { un_bounds(buf@.take(2)); }
            let x = x_un(buf, 2);
            if x < 0x8000 { x as i16 } else { (x as i64 - 0x1_0000) as i16 }
        }
        pub fn read_i32(buf: &[u8]) -> (r: i32) requires buf@.len() >= 4 ensures i32n(r) == un(buf@.take(4)) {
            proof { un_bounds(buf@.take(4)); }
            let x = x_un(buf, 4);
            if x < 0x8000_0000 { x as i32 } else { (x as i64 - 0x1_0000_0000) as i32 }
        }
        pub fn read_i64(buf: &[u8]) -> (r: i64) requires buf@.len() >= 8 ensures i64n(r) == un(buf@.take(8)) {
            proof { un_bounds(buf@.take(8)); }
            let x = x_un(buf, 8);
            if x < 0x8000_0000_0000_0000 { x as i64 } else { (x as i128 - 0x1_0000_0000_0000_0000) as i64 }
        }
        #[verifier::external_body]
        pub fn read_f32(buf: &[u8]) -> (r: f32) requires buf@.len() >= 4 ensures f32n(r) as nat == un(buf@.take(4)) { unimplemented!() }
        #[verifier::external_body]
        pub fn read_f64(buf: &[u8]) -> (r: f64) requires buf@.len() >= 8 ensures f64n(r) as nat == un(buf@.take(8)) { unimplemented!() }
    }
    } // verus!
}

pub mod collections {
    use vstd::prelude::*;
    use crate::prelude::*;
    verus! {
    /// Keys are compared by what they mean (XView), as Eq, Hash and Borrow of the key types do.
    pub trait XSame: XView { fn x_same(&self, o: &Self) -> (r: bool) ensures r == (self.sv() == o.sv()); }
    pub trait XKey: XView { type C: XSame<SV = Self::SV> + ?Sized; fn key(&self) -> (r: &Self::C) ensures r.sv() == self.sv(); }
    impl XSame for str { fn x_same(&self, o: &str) -> bool { proof { if self@ == o@ { str_ext(self, o); } } *self == *o } }
    impl XKey for str { type C = str; fn key(&self) -> &str { self } }
    impl XKey for String { type C = str; fn key(&self) -> &str { let r = self.as_str(); assert(r@ == self@); assert(<str as XView>::sv(r) == <String as XView>::sv(self)); r } }
    impl<T: XKey + ?Sized> XKey for std::rc::Rc<T> { type C = T::C; fn key(&self) -> &T::C { (**self).key() } }
    impl<'a, T: XKey + ?Sized> XKey for &'a T { type C = T::C; fn key(&self) -> &T::C { (**self).key() } }
    impl XSame for u8 { fn x_same(&self, o: &u8) -> bool { *self == *o } }
    impl XKey for u8 { type C = u8; fn key(&self) -> &u8 { self } }
    impl XSame for u16 { fn x_same(&self, o: &u16) -> bool { *self == *o } }
    impl XKey for u16 { type C = u16; fn key(&self) -> &u16 { self } }
    impl XSame for u32 { fn x_same(&self, o: &u32) -> bool { *self == *o } }
    impl XKey for u32 { type C = u32; fn key(&self) -> &u32 { self } }
    impl XSame for u64 { fn x_same(&self, o: &u64) -> bool { *self == *o } }
    impl XKey for u64 { type C = u64; fn key(&self) -> &u64 { self } }
    impl XSame for usize { fn x_same(&self, o: &usize) -> bool { *self == *o } }
    impl XKey for usize { type C = usize; fn key(&self) -> &usize { self } }
    /// A map without hashing: pairs in the order in which they were entered, the last one for a key counts.
    pub struct HashMap<K: XKey, V: XView> { e: Vec<(K, V)> }
    impl<K: XKey, V: XView> HashMap<K, V> {
        pub closed spec fn m(&self) -> Map<K::SV, V::SV> { map_of(self.e@) }
        pub fn new() -> (r: Self) ensures r.m() == Map::<K::SV, V::SV>::empty() { HashMap { e: Vec::new() } }
        pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<K::SV, V::SV>::empty() { HashMap { e: Vec::new() } }
        pub fn get<Q: XKey<SV = K::SV, C = K::C> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
            ensures r is Some <==> self.m().contains_key(k.sv()), r is Some ==> r->Some_0.sv() == self.m()[k.sv()]
        {
            let mut i: usize = self.e.len();
            proof { assert(self.e@.take(i as int) =~= self.e@); }
            while i > 0
                invariant i <= self.e@.len(), map_of(self.e@.take(i as int)).contains_key(k.sv()) == self.m().contains_key(k.sv()),
                    self.m().contains_key(k.sv()) ==> map_of(self.e@.take(i as int))[k.sv()] == self.m()[k.sv()]
                decreases i
            {
                proof { assert(self.e@.take(i as int).drop_last() =~= self.e@.take(i - 1)); }
                i -= 1;
                if self.e[i].0.key().x_same(k.key()) { return Some(&self.e[i].1); }
            }
            None
        }
        pub fn contains_key<Q: XKey<SV = K::SV, C = K::C> + ?Sized>(&self, k: &Q) -> (r: bool)
            ensures r == self.m().contains_key(k.sv()) { match self.get(k) { Some(_) => true, None => false } }
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self).m() == old(self).m().insert(k.sv(), v.sv()),
                r is Some <==> old(self).m().contains_key(k.sv()), r is Some ==> r->Some_0.sv() == old(self).m()[k.sv()]
        {
            let r = self.remove(&k);
            proof { assert(self.e@.push((k, v)).drop_last() =~= self.e@); }
            self.e.push((k, v));
            proof { assert(self.m() =~= old(self).m().insert(k.sv(), v.sv())); }
            r
        }
        pub fn remove<Q: XKey<SV = K::SV, C = K::C> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
            ensures final(self).m() == old(self).m().remove(k.sv()),
                r is Some <==> old(self).m().contains_key(k.sv()), r is Some ==> r->Some_0.sv() == old(self).m()[k.sv()]
        {
            let mut kept: Vec<(K, V)> = Vec::new();
            let mut r: Option<V> = None;
            let ghost all = self.e@;
            let ghost mut n: int = 0;
            proof { assert(all.skip(0) =~= all); assert(map_of(kept@) =~= map_of(all.take(0)).remove(k.sv())); }
            while self.e.len() > 0
                invariant 0 <= n <= all.len(), self.e@ == all.skip(n), all == old(self).e@, map_of(kept@) == map_of(all.take(n)).remove(k.sv()),
                    r is Some <==> map_of(all.take(n)).contains_key(k.sv()), r is Some ==> r->Some_0.sv() == map_of(all.take(n))[k.sv()]
                decreases self.e@.len()
            {
                proof { assert(all.skip(n)[0] == all[n]); assert(all.take(n + 1).drop_last() =~= all.take(n)); }
                let (a, x) = self.e.remove(0);
                if a.key().x_same(k.key()) {
                    r = Some(x);
                } else {
                    proof { assert(kept@.push((a, x)).drop_last() =~= kept@); }
                    kept.push((a, x));
                }
                proof {
                    assert(self.e@ =~= all.skip(n + 1));
                    n = n + 1;
                    assert(map_of(kept@) =~= map_of(all.take(n)).remove(k.sv()));
                }
            }
            proof { assert(all.take(n) =~= all); }
            self.e = kept;
            r
        }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() =~= Map::<K::SV, V::SV>::empty())
        {
            proof { if self.e@.len() > 0 { map_of_has(self.e@, 0); } }
            self.e.len() == 0
        }
        pub fn clear(&mut self) ensures final(self).m() == Map::<K::SV, V::SV>::empty() { self.e = Vec::new(); }
    }
    /// Pairs entered in order: the last one for a key stays.
    pub open spec fn map_of<K: XView, V: XView>(s: Seq<(K, V)>) -> Map<K::SV, V::SV> decreases s.len() {
        if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.sv(), s.last().1.sv()) }
    }
    pub broadcast proof fn map_of_has<K: XView, V: XView>(s: Seq<(K, V)>, i: int)
        requires 0 <= i < s.len()
        ensures (#[trigger] map_of(s)).contains_key((#[trigger] s[i]).0.sv()),
        decreases s.len()
    {
        let t = s.drop_last();
        if i < t.len() { map_of_has(t, i); assert(t[i] == s[i]); }
    }
    pub broadcast proof fn map_of_key<K: XView, V: XView>(s: Seq<(K, V)>, k: K::SV)
        requires #[trigger] map_of(s).contains_key(k)
        ensures exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0.sv() == k && map_of(s)[k] == s[i].1.sv()
                && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0.sv() != k,
        decreases s.len()
    {
        let t = s.drop_last();
        if k == s.last().0.sv() { assert(s[s.len() - 1].0.sv() == k); } else {
            map_of_key(t, k);
            let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0.sv() == k && map_of(t)[k] == t[i].1.sv() && forall|j: int| i < j < t.len() ==> (#[trigger] t[j]).0.sv() != k;
            assert(s[i] == t[i]);
            assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).0.sv() != k by { if j < t.len() { assert(s[j] == t[j]); } }
        }
    }
    pub proof fn set_push<T>(p: Seq<T>, e: T) ensures p.push(e).to_set() == p.to_set().insert(e) {
        assert forall|x: T| #[trigger] p.push(e).to_set().contains(x) == p.to_set().insert(e).contains(x) by {
            if p.to_set().insert(e).contains(x) {
                if x == e { assert(p.push(e)[p.len() as int] == x); } else { let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(p.push(e)[j] == x); }
            }
        }
        assert(p.push(e).to_set() =~= p.to_set().insert(e));
    }
    /// What is in a set made of a sequence.
    pub broadcast proof fn set_of_has<T: XView>(s: Seq<T>, i: int)
        requires 0 <= i < s.len()
        ensures (#[trigger] svs(s).to_set()).contains((#[trigger] s[i]).sv()),
    { assert(svs(s)[i] == s[i].sv()); assert(svs(s).contains(s[i].sv())); }
    pub broadcast proof fn set_of_el<T: XView>(s: Seq<T>, x: T::SV)
        requires #[trigger] svs(s).to_set().contains(x)
        ensures exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].sv() == x,
    { let i = choose|i: int| 0 <= i < svs(s).len() && svs(s)[i] == x; assert(s[i].sv() == x); }
    impl<K: XKey, V: XView> XFromIter<(K, V)> for HashMap<K, V> {
        open spec fn from_ok(&self, s: Seq<(K, V)>) -> bool { self.m() == map_of(s) }
        fn x_from_iter(i: XIter<(K, V)>) -> (r: Self) {
            let mut v = i.v;
            let mut r = HashMap::new();
            let ghost mut n: int = 0;
            while v.len() > 0
                invariant 0 <= n <= i.s().len(), v@ == i.s().skip(n), r.m() == map_of(i.s().take(n)),
                decreases v.len()
            {
                proof { assert(i.s().skip(n)[0] == i.s()[n]); assert(i.s().take(n + 1).drop_last() =~= i.s().take(n)); }
                let (k, x) = v.remove(0);
                r.insert(k, x);
                proof { assert(v@ =~= i.s().skip(n + 1)); n = n + 1; }
            }
            proof { assert(i.s().take(n) =~= i.s()); }
            r
        }
    }
    /// A set without hashing.
    pub struct HashSet<K: XKey> { e: Vec<K> }
    impl<K: XKey> HashSet<K> {
        pub closed spec fn m(&self) -> Set<K::SV> { svs(self.e@).to_set() }
        pub fn new() -> (r: Self) ensures r.m() == Set::<K::SV>::empty() {
            let r = HashSet { e: Vec::new() };
            proof { assert(svs(r.e@).to_set() =~= Set::<K::SV>::empty()); }
            r
        }
        pub fn x_contains<Q: XKey<SV = K::SV, C = K::C> + ?Sized>(&self, k: &Q) -> (r: bool)
            ensures r == self.m().contains(k.sv())
        {
            let mut i: usize = 0;
            while i < self.e.len()
                invariant i <= self.e@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] self.e@[j]).sv() != k.sv()
                decreases self.e@.len() - i
            {
                if self.e[i].key().x_same(k.key()) { proof { set_of_has(self.e@, i as int); } return true; }
                i += 1;
            }
            proof { if self.m().contains(k.sv()) { set_of_el(self.e@, k.sv()); } }
            false
        }
        pub fn insert(&mut self, k: K) -> (r: bool)
            ensures final(self).m() == old(self).m().insert(k.sv()), r == !old(self).m().contains(k.sv())
        {
            if self.x_contains(&k) {
                proof { assert(self.m() =~= self.m().insert(k.sv())); }
                return false;
            }
            proof {
                set_push(svs(self.e@), k.sv());
                assert(svs(self.e@.push(k)) =~= svs(self.e@).push(k.sv()));
            }
            self.e.push(k);
            true
        }
        pub fn remove<Q: XKey<SV = K::SV, C = K::C> + ?Sized>(&mut self, k: &Q) -> (r: bool)
            ensures final(self).m() == old(self).m().remove(k.sv()), r == old(self).m().contains(k.sv())
        {
            let mut kept: Vec<K> = Vec::new();
            let mut r = false;
            let ghost all = self.e@;
            let ghost mut n: int = 0;
            proof { assert(all.skip(0) =~= all); }
            while self.e.len() > 0
                invariant 0 <= n <= all.len(), self.e@ == all.skip(n), all == old(self).e@,
                    forall|j: int| 0 <= j < kept@.len() ==> (#[trigger] kept@[j]).sv() != k.sv() && svs(all).contains(kept@[j].sv()),
                    forall|j: int| 0 <= j < n ==> (#[trigger] all[j]).sv() == k.sv() || svs(kept@).contains(all[j].sv()),
                    r == exists|j: int| 0 <= j < n && (#[trigger] all[j]).sv() == k.sv()
                decreases self.e@.len()
            {
                proof { assert(all.skip(n)[0] == all[n]); }
                let a = self.e.remove(0);
                let ghost before = kept@;
                if a.key().x_same(k.key()) {
                    r = true;
                    proof { assert(all[n].sv() == k.sv()); }
                } else {
                    kept.push(a);
                    proof {
                        assert(svs(all)[n] == a.sv());
                        assert(svs(kept@)[before.len() as int] == a.sv());
                        assert forall|x: K::SV| #[trigger] svs(before).contains(x) implies svs(kept@).contains(x) by {
                            let j = choose|j: int| 0 <= j < svs(before).len() && svs(before)[j] == x;
                            assert(svs(kept@)[j] == x);
                        }
                    }
                }
                proof { assert(self.e@ =~= all.skip(n + 1)); n = n + 1; }
            }
            proof {
                assert(n == all.len());
                assert forall|x: K::SV| #[trigger] svs(kept@).to_set().contains(x) == svs(all).to_set().remove(k.sv()).contains(x) by {
                    if svs(kept@).contains(x) { set_of_el(kept@, x); }
                    if svs(all).contains(x) { set_of_el(all, x); }
                }
                assert(svs(kept@).to_set() =~= svs(all).to_set().remove(k.sv()));
                if r { let j = choose|j: int| 0 <= j < n && (#[trigger] all[j]).sv() == k.sv(); set_of_has(all, j); }
                if svs(all).to_set().contains(k.sv()) { set_of_el(all, k.sv()); }
            }
            self.e = kept;
            r
        }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() =~= Set::<K::SV>::empty())
        {
            proof {
                if self.e@.len() > 0 { set_of_has(self.e@, 0); }
                else { assert(svs(self.e@).to_set() =~= Set::<K::SV>::empty()); }
            }
            self.e.len() == 0
        }
        pub fn clear(&mut self) ensures final(self).m() == Set::<K::SV>::empty() {
            self.e = Vec::new();
            proof { assert(svs(self.e@).to_set() =~= Set::<K::SV>::empty()); }
        }
    }
    /// The elements in the order in which the set delivers them.
    pub closed spec fn set_list<K: XKey>(s: HashSet<K>) -> Seq<K> { s.e@ }
    pub broadcast proof fn set_list_is<K: XKey>(s: HashSet<K>) ensures svs(#[trigger] set_list(s)).to_set() == s.m() {}
    impl<K: XKey> XIntoIterator for HashSet<K> {
        type Item = K;
        open spec fn its(self) -> Seq<K> { set_list(self) }
        fn x_into_iter(self) -> (r: XIter<K>) { self.e.x_into_iter() }
    }
    impl<K: XKey> XFromIter<K> for HashSet<K> {
        open spec fn from_ok(&self, s: Seq<K>) -> bool { self.m() == svs(s).to_set() }
        fn x_from_iter(i: XIter<K>) -> (r: Self) {
            let ghost s = i.s();
            let mut r = HashSet::new();
            r.x_extend(i);
            proof { assert(Set::<K::SV>::empty().union(svs(s).to_set()) =~= svs(s).to_set()); }
            r
        }
    }
    impl<K: XKey> XExtend<K> for HashSet<K> {
        open spec fn extended(&self, by: Seq<K>, o: &Self) -> bool { o.m() == self.m().union(svs(by).to_set()) }
        fn x_extend<I: XIntoIterator<Item = K>>(&mut self, i: I) {
            let it = i.x_into_iter();
            let mut v = it.v;
            let ghost all = svs(i.its());
            let ghost mut n: int = 0;
            while v.len() > 0
                invariant 0 <= n <= i.its().len(), v@ == i.its().skip(n), all == svs(i.its()), self.m() == old(self).m().union(all.take(n).to_set()),
                decreases v.len()
            {
                proof { assert(i.its().skip(n)[0] == i.its()[n]); assert(all.take(n + 1) =~= all.take(n).push(all[n])); }
                let k = v.remove(0);
                self.insert(k);
                proof {
                    assert(v@ =~= i.its().skip(n + 1));
                    set_push(all.take(n), all[n]);
                    assert(old(self).m().union(all.take(n).to_set()).insert(all[n]) =~= old(self).m().union(all.take(n + 1).to_set()));
                    n = n + 1;
                }
            }
            proof { assert(all.take(n) =~= all); }
        }
    }
    /// A double-ended queue.
    pub struct VecDeque<T> { v: Vec<T> }
    impl<T> VecDeque<T> {
        pub closed spec fn q(&self) -> Seq<T> { self.v@ }
        pub fn new() -> (r: Self) ensures r.q() == Seq::<T>::empty() { VecDeque { v: Vec::new() } }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self.q().len() == 0) { self.v.len() == 0 }
        pub fn len(&self) -> (r: usize) ensures r == self.q().len() { self.v.len() }
        pub fn front(&self) -> (r: Option<&T>) ensures r is Some <==> self.q().len() > 0, r is Some ==> *r->Some_0 == self.q()[0] { if self.v.len() == 0 { None } else { Some(&self.v[0]) } }
        pub fn pop_front(&mut self) -> (r: Option<T>)
            ensures r is Some <==> old(self).q().len() > 0,
                r is Some ==> r->Some_0 == old(self).q()[0] && final(self).q() == old(self).q().skip(1),
                r is None ==> final(self).q() == old(self).q()
        {
            if self.v.len() == 0 { return None; }
            let x = self.v.remove(0);
            assert(self.v@ =~= old(self).v@.skip(1));
            Some(x)
        }
        pub fn push_back(&mut self, t: T) ensures final(self).q() == old(self).q().push(t) { self.v.push(t); }
    }
    } // verus!
}

pub mod fmt {
    use vstd::prelude::*;
    use crate::prelude::*;
    verus! {
    #[derive(Debug)]
    pub struct Error {}
    pub type Result = core::result::Result<(), Error>;
    /// The text that has been printed so far. Printing into a string never fails.
    pub struct Formatter<'a> { s: String, ok: bool, a: &'a str }
    impl<'a> Formatter<'a> {
        pub closed spec fn out(&self) -> Seq<char> { self.s@ }
        pub closed spec fn sound(&self) -> bool { self.ok }
        pub fn x_put(&mut self, s: &str) -> (r: Result)
            ensures r is Ok ==> final(self).out() == old(self).out() + s@, final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok
        { if !self.ok { return Err(Error {}); } self.s.append(s); Ok(()) }
        pub fn x_disp<T: XToString>(&mut self, t: T) -> (r: Result)
            ensures r is Ok ==> final(self).out() == old(self).out() + t.disp(), final(self).sound() == old(self).sound(), old(self).sound() ==> r is Ok
        { if !self.ok { return Err(Error {}); } let s = t.x_to_string(); self.s.append(s.as_str()); Ok(()) }
    }
    pub trait Display {
        spec fn shown(&self) -> Seq<char>;
        fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result)
            ensures
                /*@[C05,C06,C11]*/ r is Ok ==> final(f).out() == old(f).out() + self.shown(),
                /*@[C05,C06,C11]*/ old(f).sound() ==> r is Ok,
                final(f).sound() == old(f).sound();
    }
    /// ToString: what Display prints into an empty string.
    pub fn x_printed<T: Display>(t: &T) -> (r: String) ensures r@ == t.shown() {
        let mut f = x_formatter();
        match t.fmt(&mut f) {
            Ok(_) => { proof { assert(Seq::<char>::empty() + t.shown() =~= t.shown()); } f.s }
            Err(_) => x_unreachable(),
        }
    }
    fn x_formatter<'a>() -> (r: Formatter<'a>) ensures r.out() == Seq::<char>::empty(), r.sound() {
        proof { reveal_strlit(""); }
        let r = Formatter { s: "".to_owned(), ok: true, a: "" };
        assert(r.s@ =~= Seq::<char>::empty());
        r
    }
    } // verus!
}
