//! Structures of a foreign producer: described field by field, laid out in
//! memory the library may only read, every piece ending (or starting) at a
//! page nobody may touch, with release callbacks that only count.

use std::{
    ffi::{c_char, c_void},
    sync::{
        OnceLock,
        atomic::{AtomicU64, Ordering},
    },
};

use narrow::{array::Array, buffer::SliceBuffer, layout::ArrayItem};
use narrow_ffi::{ArrowArray, ArrowSchema, Import, ImportError};
use vharness::{
    engine::Src,
    phys::{Bm, Phys},
    val::Ty,
};

use crate::{CArray, CSchema, NULLABLE, Sch, SchOf, items};

unsafe extern "C" {
    fn memfd_create(name: *const c_char, flags: u32) -> i32;
    fn ftruncate(fd: i32, len: i64) -> i32;
    fn mmap(at: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut c_void;
    fn close(fd: i32) -> i32;
}
const PAGE: usize = 4096;

/// Slots of `size` bytes, each followed and preceded by an inaccessible page.
struct Class {
    size: usize,
    slots: usize,
    /// Where the harness writes.
    rw: usize,
    /// Where the library reads.
    ro: usize,
}
impl Class {
    fn new(size: usize, slots: usize) -> Self {
        let fail = "harness: foreign memory";
        // SAFETY: fresh mappings of our own file.
        unsafe {
            let fd = memfd_create(c"foreign".as_ptr(), 0);
            assert!(fd >= 0, "{fail}");
            assert_eq!(ftruncate(fd, (size * slots) as i64), 0, "{fail}");
            let rw = mmap(std::ptr::null_mut(), size * slots, 3, 1, fd, 0);
            assert!(rw as isize != -1, "{fail}");
            let all = PAGE + slots * (size + PAGE);
            // Nothing but a reservation: PROT_NONE, private, anonymous, no reserve.
            let ro = mmap(std::ptr::null_mut(), all, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(ro as isize != -1, "{fail}");
            for i in 0..slots {
                let at = ro as usize + PAGE + i * (size + PAGE);
                let p = mmap(at as *mut c_void, size, 1, 1 | 0x10, fd, (i * size) as i64);
                assert_eq!(p as usize, at, "{fail}");
            }
            close(fd);
            Class { size, slots, rw: rw as usize, ro: ro as usize }
        }
    }
    fn rw(&self, slot: usize) -> usize {
        self.rw + slot * self.size
    }
    fn ro(&self, slot: usize) -> usize {
        self.ro + PAGE + slot * (self.size + PAGE)
    }
}

/// Where a piece of memory is put.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// Ending at the inaccessible page, that many bytes before it.
    High(usize),
    /// Starting after the inaccessible page.
    Low(usize),
}

pub struct Arena {
    small: Class,
    large: Class,
    huge: Class,
    next: [usize; 3],
}
pub const LARGE: usize = 64 * 1024;
const HUGE: usize = 4 << 20;
impl Arena {
    fn new() -> Self {
        Arena {
            small: Class::new(PAGE, 160),
            large: Class::new(LARGE, 24),
            huge: Class::new(HUGE, 8),
            next: [0; 3],
        }
    }
    pub fn clear(&mut self) {
        self.next = [0; 3];
    }
    /// Room for `len` bytes: where to write and where to read them.
    fn room(&mut self, len: usize, place: Place) -> (usize, usize) {
        let big = usize::from(len + 64 > PAGE) + usize::from(len + 64 > LARGE);
        let class = [&self.small, &self.large, &self.huge][big];
        let slot = self.next[big];
        assert!(slot < class.slots && len + 64 <= class.size, "harness: foreign memory is full");
        self.next[big] += 1;
        let o = match place {
            Place::High(skew) => class.size - len - skew,
            Place::Low(skew) => skew,
        };
        (class.rw(slot) + o, class.ro(slot) + o)
    }
    fn put(&mut self, bytes: &[u8], place: Place) -> (usize, usize) {
        let (rw, ro) = self.room(bytes.len(), place);
        // SAFETY: room for them; nothing else is there.
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), rw as *mut u8, bytes.len()) };
        (rw, ro)
    }
    /// An address at an inaccessible page.
    fn nowhere(&self, k: usize) -> usize {
        self.small.ro + 1 + k % (PAGE - 1)
    }
}
/// One arena per process; checks run on one thread.
pub fn arena() -> std::sync::MutexGuard<'static, Arena> {
    static A: OnceLock<std::sync::Mutex<Arena>> = OnceLock::new();
    match A.get_or_init(|| std::sync::Mutex::new(Arena::new())).lock() {
        Ok(a) => a,
        Err(e) => e.into_inner(),
    }
}

static RELEASED: AtomicU64 = AtomicU64::new(0);
unsafe extern "C" fn release_array(_: *mut CArray) {
    RELEASED.fetch_add(1, Ordering::Relaxed);
}
unsafe extern "C" fn release_schema(_: *mut CSchema) {
    RELEASED.fetch_add(1, Ordering::Relaxed);
}
/// Calls of release callbacks so far.
pub fn releases() -> u64 {
    RELEASED.load(Ordering::Relaxed)
}

/// What a buffer pointer points to.
#[derive(Clone, PartialEq, Eq)]
pub enum Buf {
    Null,
    /// Somewhere inaccessible.
    Nowhere(usize),
    Bytes(Vec<u8>, Place),
}
impl std::fmt::Debug for Buf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Buf::Null => write!(f, "null"),
            Buf::Nowhere(k) => write!(f, "nowhere+{k}"),
            Buf::Bytes(b, p) => write!(f, "{b:02x?}@{p:?}"),
        }
    }
}

/// A pointer to child pointers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kids {
    Null,
    /// Somewhere inaccessible; only where no child is declared.
    Nowhere,
    /// As many pointers as declared; the first one is the child's.
    Here,
    /// As many null pointers as declared.
    Nulls,
}

/// One level of a foreign producer's array and schema, field by field.
#[derive(Clone, Debug)]
pub struct Level {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: [i64; 2],
    /// None: a null pointer to buffer pointers.
    pub buffers: Option<Vec<Buf>>,
    pub kids: [Kids; 2],
    pub dictionary: [bool; 2],
    pub released: [bool; 2],
    pub format: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub metadata: Option<Vec<u8>>,
    pub flags: i64,
    /// Whether structures lie against the page behind or before them.
    pub low: bool,
    pub child: Option<Box<Level>>,
}

/// Structures laid out, to be read by the library.
pub struct Foreign {
    pub array: *const CArray,
    pub schema: *const CSchema,
    /// Address and bytes of every buffer, outermost level first.
    pub buffers: Vec<(usize, usize)>,
    /// Writable views of everything only the schema consists of.
    scratch: Vec<(usize, usize)>,
}

fn bytes_of<T: Copy>(v: &[T]) -> &[u8] {
    // SAFETY: plain structures and pointers, read as bytes.
    unsafe { std::slice::from_raw_parts(v.as_ptr().cast(), size_of_val(v)) }
}

/// Lays out structures in the arena.
pub fn emit(l: &Level) -> Foreign {
    let mut a = arena();
    a.clear();
    let mut f = Foreign { array: std::ptr::null(), schema: std::ptr::null(), buffers: Vec::new(), scratch: Vec::new() };
    (f.array, f.schema) = level(&mut a, l, &mut f.buffers, &mut f.scratch);
    f
}
fn level(
    a: &mut Arena,
    l: &Level,
    buffers: &mut Vec<(usize, usize)>,
    scratch: &mut Vec<(usize, usize)>,
) -> (*const CArray, *const CSchema) {
    let place = if l.low { Place::Low(0) } else { Place::High(0) };
    let count = |n: i64, cap: usize| usize::try_from(n).unwrap_or(0).min(cap);
    let pointers = match &l.buffers {
        None => 0,
        Some(list) => {
            let p: Vec<usize> = list
                .iter()
                .map(|b| match b {
                    Buf::Null => 0,
                    Buf::Nowhere(k) => a.nowhere(*k),
                    Buf::Bytes(b, p) => {
                        let at = a.put(b, *p).1;
                        buffers.push((at, b.len()));
                        at
                    }
                })
                .collect();
            a.put(bytes_of(&p[..count(l.n_buffers, p.len())]), place).1
        }
    };
    let child = l.child.as_ref().map(|c| level(a, c, buffers, scratch));
    let mut kids = |a: &mut Arena, i: usize, own: usize| {
        let n = count(l.n_children[i], 4);
        let mut p = vec![0usize; n];
        match l.kids[i] {
            Kids::Null => return 0,
            Kids::Nowhere => return a.nowhere(7) & !7,
            // All declared children exist.
            Kids::Here => p.fill(own),
            Kids::Nulls => {}
        }
        let (rw, ro) = a.put(bytes_of(&p), place);
        if i == 1 {
            scratch.push((rw, 8 * n));
        }
        ro
    };
    let array_kids = kids(a, 0, child.map_or(0, |c| c.0 as usize));
    let schema_kids = kids(a, 1, child.map_or(0, |c| c.1 as usize));
    let mut string = |a: &mut Arena, s: &Option<Vec<u8>>, end: &[u8]| {
        s.as_ref().map_or(0, |s| {
            let mut s = s.clone();
            s.extend_from_slice(end);
            let (rw, ro) = a.put(&s, place);
            scratch.push((rw, s.len()));
            ro
        })
    };
    let format = string(a, &l.format, b"\0");
    let name = string(a, &l.name, b"\0");
    let metadata = string(a, &l.metadata, b"");
    let junk = a.nowhere(123) as *mut c_void;
    let dictionary = |a: &Arena, i: usize| if l.dictionary[i] { a.nowhere(64) & !7 } else { 0 };
    let array = CArray {
        length: l.length,
        null_count: l.null_count,
        offset: l.offset,
        n_buffers: l.n_buffers,
        n_children: l.n_children[0],
        buffers: pointers as *mut *const c_void,
        children: array_kids as *mut *mut CArray,
        dictionary: dictionary(a, 0) as *mut CArray,
        release: (!l.released[0]).then_some(release_array as unsafe extern "C" fn(*mut CArray)),
        private_data: junk,
    };
    let schema = CSchema {
        format: format as *const c_char,
        name: name as *const c_char,
        metadata: metadata as *const c_char,
        flags: l.flags,
        n_children: l.n_children[1],
        children: schema_kids as *mut *mut CSchema,
        dictionary: dictionary(a, 1) as *mut CSchema,
        release: (!l.released[1]).then_some(release_schema as unsafe extern "C" fn(*mut CSchema)),
        private_data: junk,
    };
    let at = a.put(bytes_of(&[array]), place).1;
    let (rw, st) = a.put(bytes_of(&[schema]), place);
    scratch.push((rw, size_of::<CSchema>()));
    (at as *const CArray, st as *const CSchema)
}
impl Foreign {
    /// Overwrites all schemas: they are only borrowed during the import.
    pub fn scramble_schema(&self) {
        for (at, len) in &self.scratch {
            // SAFETY: our own memory, no longer read by anybody.
            unsafe { std::ptr::write_bytes(*at as *mut u8, 0xa7, *len) };
        }
    }
}

/// Freedom a producer has in describing valid memory.
fn gen_place(src: &mut Src) -> Place {
    if src.chance(1, 4) { Place::Low(0) } else { Place::High(0) }
}
fn gen_none(src: &mut Src) -> Buf {
    match src.weighted(&[2, 2, 1]) {
        0 => Buf::Null,
        1 => Buf::Nowhere(src.usize(PAGE)),
        _ => Buf::Bytes(Vec::new(), gen_place(src)),
    }
}
fn gen_text(src: &mut Src) -> Option<Vec<u8>> {
    Some(match src.weighted(&[4, 1, 1, 1, 1]) {
        0 => return None,
        1 => Vec::new(),
        2 => b"item".to_vec(),
        3 => "\u{e4}\u{1f980} \"x\"".as_bytes().to_vec(),
        _ => {
            let n = src.range(1, 60);
            (0..n).map(|_| 1 + src.below(255) as u8).collect()
        }
    })
}
fn gen_metadata(src: &mut Src) -> Option<Vec<u8>> {
    let n = match src.weighted(&[5, 1, 1, 1]) {
        0 => return None,
        n => n as i32 - 1,
    };
    let mut m = n.to_ne_bytes().to_vec();
    for _ in 0..n {
        for _ in 0..2 {
            let k = src.usize(9) as i32;
            m.extend_from_slice(&k.to_ne_bytes());
            m.extend((0..k).map(|_| src.below(256) as u8));
        }
    }
    Some(m)
}
fn packed(b: &Bm) -> Vec<u8> {
    assert_eq!(b.offset, 0, "harness: no bit offsets here");
    b.bytes[..b.bits.div_ceil(8)].to_vec()
}

/// Valid structures for valid memory, with the producer's freedom exercised.
pub fn gen_level(src: &mut Src, sch: &Sch, p: &Phys) -> Level {
    let (bitmap, p) = match p {
        Phys::Valid { bitmap, child } => (bitmap.as_ref(), &**child),
        p => (None, p),
    };
    let len = slots(sch, p);
    let mut nulls = 0;
    let validity = match bitmap {
        Some(b) => {
            nulls = b.to_bools().iter().filter(|v| !**v).count() as i64;
            if len == 0 {
                gen_none(src)
            } else if nulls == 0 && src.chance(1, 4) {
                Buf::Null
            } else {
                Buf::Bytes(packed(b), gen_place(src))
            }
        }
        // Nothing is null, so a bitmap says nothing new.
        None if len > 0 && src.chance(1, 6) => {
            let mut bytes = vec![0xff; len.div_ceil(8)];
            if len % 8 != 0 {
                let last = bytes.len() - 1;
                bytes[last] = ((1u16 << (len % 8)) - 1) as u8 | (src.below(256) as u8) << (len % 8);
            }
            Buf::Bytes(bytes, gen_place(src))
        }
        None if len == 0 => gen_none(src),
        None => Buf::Null,
    };
    let unknown = src.chance(1, 3) && !(sch.nullable && validity == Buf::Null && len > 0);
    let mut buffers = vec![validity];
    let mut data = |src: &mut Src, bytes: Vec<u8>| {
        let b = if bytes.is_empty() { gen_none(src) } else { Buf::Bytes(bytes, gen_place(src)) };
        buffers.push(b);
    };
    let mut child = None;
    match p {
        Phys::Prim { bytes } => data(src, bytes.clone()),
        Phys::Bits(b) => data(src, packed(b)),
        Phys::Offs { offsets, child: c } => {
            data(src, offsets.iter().flat_map(|o| (*o as i32).to_ne_bytes()).collect());
            child = Some(c);
        }
        Phys::Flat { child: c, .. } => child = Some(c),
        Phys::Valid { .. } | Phys::Items(_) => unreachable!(),
    }
    let n = sch.n_children();
    let none = |src: &mut Src| if src.bool() { Kids::Null } else { Kids::Nowhere };
    let kids = if n == 1 { [Kids::Here; 2] } else { [none(src), none(src)] };
    let extra = *src.pick(&[0, 0, 1, 4, 5, 8, 1 << 40, i64::MIN, !NULLABLE]);
    Level {
        length: len as i64,
        null_count: if unknown { -1 } else { nulls },
        offset: 0,
        n_buffers: buffers.len() as i64,
        n_children: [n; 2],
        buffers: Some(buffers),
        kids,
        dictionary: [false; 2],
        released: [false; 2],
        format: Some(sch.fmt.clone().into_bytes()),
        name: gen_text(src),
        metadata: gen_metadata(src),
        flags: extra | if sch.nullable { NULLABLE } else { 0 },
        low: src.chance(1, 4),
        child: child.map(|c| Box::new(gen_level(src, sch.child.as_ref().expect("list"), c))),
    }
}
/// Items laid out, without looking at their nulls.
fn slots(sch: &Sch, p: &Phys) -> usize {
    match p {
        Phys::Prim { bytes } => match sch.base() {
            Some(Ty::Prim(w)) => bytes.len() / w,
            _ => unreachable!(),
        },
        Phys::Bits(b) => b.bits,
        Phys::Items(i) => i.len(),
        Phys::Offs { offsets, .. } => offsets.len() - 1,
        Phys::Flat { n: 0, .. } => 0,
        Phys::Flat { n, child } => slots(sch.child.as_ref().expect("list"), child) / n,
        Phys::Valid { child, .. } => slots(sch, child),
    }
}

/// A type to import as.
pub struct Target {
    pub sch: Sch,
    /// Row of the item types, if it is one.
    pub row: Option<usize>,
    only: fn(*const CArray, *const CSchema) -> Result<usize, ImportError>,
}
fn only<T>(a: *const CArray, s: *const CSchema) -> Result<usize, ImportError>
where
    T: ArrayItem,
    Array<T, SliceBuffer<'static>>: Import<'static> + narrow::length::Length,
{
    // SAFETY: structures of the arena, live until the case ends.
    let r = unsafe { <Array<T, SliceBuffer<'static>>>::import(&*a.cast::<ArrowArray>(), &*s.cast::<ArrowSchema>()) };
    r.map(|c| narrow::length::Length::len(&c))
}
impl Target {
    /// Imports, for the result alone or for reading.
    pub fn import(&self, f: &Foreign) -> Result<Option<Box<dyn crate::Exp>>, ImportError> {
        match self.row {
            // SAFETY: structures of the arena, live until the case ends.
            Some(row) => unsafe { items()[row].port.import(f.array, f.schema) }.map(Some),
            None => (self.only)(f.array, f.schema).map(|_| None),
        }
    }
}
/// The item types, and lists of no items each, which no array can be.
pub fn targets() -> &'static [Target] {
    static T: OnceLock<Vec<Target>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v: Vec<Target> = items()
            .iter()
            .enumerate()
            .map(|(i, item)| Target { sch: item.sch.clone(), row: Some(i), only: |_, _| unreachable!() })
            .collect();
        macro_rules! none {
            ($($t:ty),*) => {$( v.push(Target { sch: <$t as SchOf>::sch(), row: None, only: only::<$t> }); )*};
        }
        none!([u8; 0], Option<[bool; 0]>, Vec<[i32; 0]>, [[u16; 0]; 2], Option<[Vec<u8>; 0]>);
        v
    })
}
