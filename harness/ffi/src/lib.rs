//! The Arrow C Data Interface, read and written independently of the library:
//! the two C structures, a reader that follows only their pointers, and the
//! item types that can be exported and imported.

pub mod foreign;

use std::{
    ffi::{CStr, c_char, c_void},
    sync::OnceLock,
};

use narrow::{
    array::Array,
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, RcBuffer, SliceBuffer, VecBuffer},
    layout::ArrayItem,
};
use narrow_ffi::{ArrowArray, ArrowSchema, Export, ExportError, Import, ImportError};

use vharness::{
    arrays_in,
    coll::{Grow, Make, Maker, NoClone as _, Read},
    common::same_items,
    makers, mem,
    phys::{Bm, Build, Node, Phys, decode},
    quiet,
    read_impl,
    val::{Ty, Val},
};

/// `struct ArrowArray` of the interface.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut CArray,
    pub dictionary: *mut CArray,
    pub release: Option<unsafe extern "C" fn(*mut CArray)>,
    pub private_data: *mut c_void,
}

/// `struct ArrowSchema` of the interface.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct CSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut CSchema,
    pub dictionary: *mut CSchema,
    pub release: Option<unsafe extern "C" fn(*mut CSchema)>,
    pub private_data: *mut c_void,
}

const _: () = {
    assert!(size_of::<CArray>() == 80 && size_of::<ArrowArray>() == 80);
    assert!(size_of::<CSchema>() == 72 && size_of::<ArrowSchema>() == 72);
};

/// The bits of the structures, without their destructors.
pub fn raw_array(a: ArrowArray) -> CArray {
    // SAFETY: same size, and the interface fixes the layout.
    unsafe { std::mem::transmute(a) }
}
pub fn raw_schema(s: ArrowSchema) -> CSchema {
    // SAFETY: as above.
    unsafe { std::mem::transmute(s) }
}

pub const NULLABLE: i64 = 2;

/// What a schema says.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sch {
    pub fmt: String,
    pub nullable: bool,
    pub child: Option<Box<Sch>>,
}

impl Sch {
    pub fn base(&self) -> Option<Ty> {
        Some(match self.fmt.as_str() {
            "b" => Ty::Bool,
            "c" | "C" => Ty::Prim(1),
            "s" | "S" => Ty::Prim(2),
            "i" | "I" | "f" => Ty::Prim(4),
            "l" | "L" | "g" => Ty::Prim(8),
            "+l" => Ty::List(false, Box::new(self.child.as_ref()?.ty()?)),
            "+L" => Ty::List(true, Box::new(self.child.as_ref()?.ty()?)),
            f => {
                let n = f.strip_prefix("+w:")?.parse().ok()?;
                Ty::Arr(n, Box::new(self.child.as_ref()?.ty()?))
            }
        })
    }
    pub fn ty(&self) -> Option<Ty> {
        let b = self.base()?;
        Some(if self.nullable { Ty::Opt(Box::new(b)) } else { b })
    }
    pub fn n_children(&self) -> i64 {
        i64::from(self.fmt.starts_with('+'))
    }
    pub fn n_buffers(&self) -> i64 {
        if self.fmt.starts_with("+w") { 1 } else { 2 }
    }
    pub fn depth(&self) -> usize {
        1 + self.child.as_ref().map_or(0, |c| c.depth())
    }
    fn leaf(fmt: &str) -> Self {
        Sch { fmt: fmt.into(), nullable: false, child: None }
    }
}

/// The schema the interface prescribes for an item type.
pub trait SchOf {
    fn sch() -> Sch;
}
macro_rules! leaf_sch {
    ($($t:ty, $f:literal);*) => {$( impl SchOf for $t { fn sch() -> Sch { Sch::leaf($f) } } )*}
}
leaf_sch!(bool, "b"; i8, "c"; u8, "C"; i16, "s"; u16, "S"; i32, "i"; u32, "I"; i64, "l"; u64, "L"; f32, "f"; f64, "g");
impl<T: SchOf> SchOf for Option<T> {
    fn sch() -> Sch {
        Sch { nullable: true, ..T::sch() }
    }
}
impl<T: SchOf, const N: usize> SchOf for [T; N] {
    fn sch() -> Sch {
        Sch { fmt: format!("+w:{N}"), nullable: false, child: Some(Box::new(T::sch())) }
    }
}
impl<T: SchOf> SchOf for Vec<T> {
    fn sch() -> Sch {
        Sch { fmt: "+l".into(), nullable: false, child: Some(Box::new(T::sch())) }
    }
}
impl<T: ArrayItem + SchOf, S: Buffer> SchOf for Array<T, S> {
    fn sch() -> Sch {
        T::sch()
    }
}

fn c_string(p: *const c_char, what: &str) -> Result<String, String> {
    // One byte at a time, so that none past the terminator is touched.
    let mut s = Vec::new();
    loop {
        let at = p as usize + s.len();
        mem::readable(at, 1, what)?;
        // SAFETY: checked as far as known.
        match unsafe { *(at as *const u8) } {
            0 => break,
            b => s.push(b),
        }
        if s.len() > 4096 {
            return Err(format!("{what} does not end"));
        }
    }
    String::from_utf8(s).map_err(|_| format!("{what} is not UTF-8"))
}

/// Reads a schema by the interface alone.
pub fn read_schema(p: *const CSchema) -> Result<Sch, String> {
    mem::readable(p as usize, size_of::<CSchema>(), "a schema")?;
    // SAFETY: checked as far as known.
    let s = unsafe { *p };
    if s.release.is_none() {
        return Err("a schema is released".into());
    }
    if s.format.is_null() {
        return Err("a schema has no format".into());
    }
    let fmt = c_string(s.format, "a format string")?;
    if !s.name.is_null() {
        let name = c_string(s.name, "a name")?;
        if !name.is_empty() {
            return Err(format!("a schema is named {name:?}"));
        }
    }
    if !s.metadata.is_null() {
        return Err("a schema has metadata".into());
    }
    if s.flags & !NULLABLE != 0 {
        return Err(format!("schema flags {}", s.flags));
    }
    if !s.dictionary.is_null() {
        return Err("a schema has a dictionary".into());
    }
    let mut sch = Sch { fmt, nullable: s.flags & NULLABLE != 0, child: None };
    let n = sch.n_children();
    if s.n_children != n {
        return Err(format!("schema {:?} has {} children", sch.fmt, s.n_children));
    }
    if n == 1 {
        sch.child = Some(Box::new(read_schema(child_schema(&s)?)?));
    }
    Ok(sch)
}
pub fn child_schema(s: &CSchema) -> Result<*mut CSchema, String> {
    if s.children.is_null() {
        return Err("a schema has no child pointers".into());
    }
    mem::readable(s.children as usize, 8, "schema child pointers")?;
    // SAFETY: checked as far as known.
    let c = unsafe { *s.children };
    if c.is_null() { Err("a child schema is missing".into()) } else { Ok(c) }
}
pub fn child_array(a: &CArray) -> Result<*mut CArray, String> {
    if a.children.is_null() {
        return Err("an array has no child pointers".into());
    }
    mem::readable(a.children as usize, 8, "array child pointers")?;
    // SAFETY: checked as far as known.
    let c = unsafe { *a.children };
    if c.is_null() { Err("a child array is missing".into()) } else { Ok(c) }
}

/// What an array's pointers lead to.
#[derive(Debug)]
pub struct Got {
    pub items: Vec<Val>,
    pub null_count: i64,
    pub validity: usize,
    /// Address and bytes of the values or offsets.
    pub own: Option<(usize, usize)>,
    pub child: Option<Box<Got>>,
}

fn bytes_at(at: usize, len: usize, what: &str) -> Result<&'static [u8], String> {
    if len == 0 {
        return Ok(&[]);
    }
    if at == 0 {
        return Err(format!("{what} is missing"));
    }
    mem::readable(at, len, what)?;
    // SAFETY: checked as far as known; used before anything is released.
    Ok(unsafe { std::slice::from_raw_parts(at as *const u8, len) })
}
fn bit(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
fn little(b: &[u8]) -> u128 {
    b.iter().rev().fold(0, |a, b| a << 8 | u128::from(*b))
}

/// Reads an array of a known schema by the interface alone.
pub fn read_array(p: *const CArray, sch: &Sch) -> Result<Got, String> {
    mem::readable(p as usize, size_of::<CArray>(), "an array")?;
    // SAFETY: checked as far as known.
    let a = unsafe { *p };
    if a.release.is_none() {
        return Err("an array is released".into());
    }
    let n = usize::try_from(a.length).map_err(|_| format!("an array's length is {}", a.length))?;
    if a.offset != 0 {
        return Err(format!("an array's offset is {}", a.offset));
    }
    if a.n_buffers != sch.n_buffers() {
        return Err(format!("array of format {:?} has {} buffers", sch.fmt, a.n_buffers));
    }
    if a.n_children != sch.n_children() {
        return Err(format!("array of format {:?} has {} children", sch.fmt, a.n_children));
    }
    if !a.dictionary.is_null() {
        return Err("an array has a dictionary".into());
    }
    if a.buffers.is_null() {
        return Err("an array has no buffer pointers".into());
    }
    let buffer = |i: usize| -> Result<usize, String> {
        mem::readable(a.buffers as usize, 8 * sch.n_buffers() as usize, "buffer pointers")?;
        // SAFETY: checked as far as known.
        Ok(unsafe { *a.buffers.add(i) } as usize)
    };
    let validity = buffer(0)?;
    if validity != 0 && !sch.nullable {
        return Err("a non-nullable array has a validity buffer".into());
    }
    let mut own = None;
    let mut child = None;
    let base = sch.base().ok_or_else(|| format!("format {:?} is none the library has", sch.fmt))?;
    let mut items: Vec<Val> = match &base {
        Ty::Bool => {
            own = Some((buffer(1)?, n.div_ceil(8)));
            let b = bytes_at(buffer(1)?, n.div_ceil(8), "a bit buffer")?;
            (0..n).map(|i| Val::B(bit(b, i))).collect()
        }
        Ty::Prim(w) => {
            own = Some((buffer(1)?, n * w));
            let b = bytes_at(buffer(1)?, n * w, "a value buffer")?;
            if n > 0 && b.as_ptr() as usize % w != 0 {
                return Err("a value buffer is misaligned".into());
            }
            b.chunks_exact(*w).map(|c| Val::P(little(c))).collect()
        }
        Ty::List(long, _) => {
            let w = if *long { 8 } else { 4 };
            own = Some((buffer(1)?, (n + 1) * w));
            let b = bytes_at(buffer(1)?, (n + 1) * w, "an offsets buffer")?;
            if b.as_ptr() as usize % w != 0 {
                return Err("an offsets buffer is misaligned".into());
            }
            let offsets: Vec<u64> = b.chunks_exact(w).map(|c| little(c) as u64).collect();
            let c = read_array(child_array(&a)?, sch.child.as_ref().expect("list"))?;
            let mut l = Vec::with_capacity(n);
            for o in offsets.windows(2) {
                let (s, e) = (o[0] as usize, o[1] as usize);
                if s > e || e > c.items.len() {
                    return Err(format!("list from {s} to {e} of {} child items", c.items.len()));
                }
                l.push(Val::L(c.items[s..e].to_vec()));
            }
            child = Some(Box::new(c));
            l
        }
        Ty::Arr(k, _) => {
            let c = read_array(child_array(&a)?, sch.child.as_ref().expect("list"))?;
            if c.items.len() < n * k {
                return Err(format!("{n} lists of {k} have {} child items", c.items.len()));
            }
            let l = (0..n).map(|i| Val::L(c.items[i * k..(i + 1) * k].to_vec())).collect();
            child = Some(Box::new(c));
            l
        }
        _ => return Err("harness: base type".into()),
    };
    let mut nulls = 0;
    if sch.nullable && validity != 0 {
        let b = bytes_at(validity, n.div_ceil(8), "a validity buffer")?;
        for (i, v) in items.iter_mut().enumerate() {
            if !bit(b, i) {
                *v = Val::N;
                nulls += 1;
            }
        }
    }
    if a.null_count != nulls {
        return Err(format!("{nulls} nulls of {n} items are declared as {}", a.null_count));
    }
    Ok(Got { items, null_count: nulls, validity, own, child })
}

/// Whether the buffers found are the array's own, taken from `addrs` in order.
pub fn same_buffers(got: &Got, p: &Phys, addrs: &mut std::slice::Iter<'_, (usize, usize)>) -> Result<(), String> {
    let mut p = p;
    if let Phys::Valid { bitmap, child } = p {
        if bitmap.is_some() {
            let (at, len) = *addrs.next().ok_or("harness: addresses")?;
            if got.validity != at && len > 0 && (got.validity != 0 || got.null_count != 0) {
                return Err("the validity buffer is not the array's own".into());
            }
        } else if got.validity != 0 {
            return Err("an array without validity exports a validity buffer".into());
        }
        p = child;
    }
    if let Some((at, len)) = got.own {
        let (own, size) = *addrs.next().ok_or("harness: addresses")?;
        if len > 0 && (at != own || size < len) {
            return Err(format!("a buffer of {len} bytes is not the array's own of {size}"));
        }
    }
    match (p, &got.child) {
        (Phys::Flat { child, .. } | Phys::Offs { child, .. }, Some(c)) => same_buffers(c, child, addrs),
        (Phys::Prim { .. } | Phys::Bits(_), None) => Ok(()),
        _ => Err("harness: shapes".into()),
    }
}

/// What each child array must hold: the child's own slots, whole.
pub fn child_phys(p: &Phys) -> Option<&Phys> {
    match p {
        Phys::Valid { child, .. } => child_phys(child),
        Phys::Flat { child, .. } | Phys::Offs { child, .. } => Some(child),
        _ => None,
    }
}
/// The number of addresses the outermost level contributes.
pub fn own_addrs(p: &Phys) -> usize {
    match p {
        Phys::Valid { bitmap, child } => usize::from(bitmap.is_some()) + own_addrs(child),
        Phys::Flat { .. } => 0,
        _ => 1,
    }
}

/// All bit offsets in the memory.
pub fn bit_offsets(p: &Phys, out: &mut Vec<usize>) {
    match p {
        Phys::Bits(b) => out.extend((b.offset != 0).then_some(b.offset)),
        Phys::Prim { .. } | Phys::Items(_) => {}
        Phys::Flat { child, .. } | Phys::Offs { child, .. } => bit_offsets(child, out),
        Phys::Valid { bitmap, child } => {
            out.extend(bitmap.as_ref().filter(|b| b.offset != 0).map(|b| b.offset));
            bit_offsets(child, out);
        }
    }
}
/// The same memory with every bit offset removed.
pub fn without_offsets(p: &mut Phys) {
    fn bm(b: &mut Bm) {
        let bits = b.to_bools();
        let extra = b.bytes.len() - (b.offset + b.bits).div_ceil(8);
        let mut bytes = vec![0x5a; b.bits.div_ceil(8) + extra];
        for (i, v) in bits.iter().enumerate() {
            bytes[i / 8] = (bytes[i / 8] & !(1 << (i % 8))) | (u8::from(*v) << (i % 8));
        }
        *b = Bm { bytes, bits: b.bits, offset: 0 };
    }
    match p {
        Phys::Bits(b) => bm(b),
        Phys::Prim { .. } | Phys::Items(_) => {}
        Phys::Flat { child, .. } | Phys::Offs { child, .. } => without_offsets(child),
        Phys::Valid { bitmap, child } => {
            if let Some(b) = bitmap {
                bm(b);
            }
            without_offsets(child);
        }
    }
}

/// The bits of every structure and pointer array reachable.
#[derive(PartialEq, Eq, Debug)]
pub struct Shape(Vec<u64>);
pub fn snapshot(a: *const CArray, s: *const CSchema) -> Result<Shape, String> {
    fn words(at: usize, n: usize, out: &mut Vec<u64>) -> Result<(), String> {
        if at != 0 {
            mem::readable(at, 8 * n, "a structure")?;
            // SAFETY: checked as far as known; the caller's structures.
            out.extend((0..n).map(|i| unsafe { *(at as *const u64).add(i) }));
        }
        Ok(())
    }
    let mut out = Vec::new();
    let (mut a, mut s) = (a, s);
    while !a.is_null() {
        words(a as usize, 10, &mut out)?;
        // SAFETY: read above.
        let x = unsafe { *a };
        words(x.buffers as usize, x.n_buffers.clamp(0, 3) as usize, &mut out)?;
        words(x.children as usize, x.n_children.clamp(0, 1) as usize, &mut out)?;
        a = if x.n_children == 1 && !x.children.is_null() { unsafe { *x.children } } else { std::ptr::null() };
    }
    while !s.is_null() {
        words(s as usize, 9, &mut out)?;
        // SAFETY: read above.
        let x = unsafe { *s };
        words(x.children as usize, x.n_children.clamp(0, 1) as usize, &mut out)?;
        s = if x.n_children == 1 && !x.children.is_null() { unsafe { *x.children } } else { std::ptr::null() };
    }
    Ok(Shape(out))
}

/// A collection that can be exported.
pub trait Exp: Read {
    fn export(self: Box<Self>) -> Result<(ArrowArray, ArrowSchema), ExportError>;
    fn try_clone(&self) -> Option<Box<dyn Exp>>;
}
pub struct X<C>(pub C, pub Option<fn(&C) -> C>);
read_impl!(X);
impl<C: Node + Export + 'static> Exp for X<C> {
    fn export(self: Box<Self>) -> Result<(ArrowArray, ArrowSchema), ExportError> {
        let X(c, _) = *self;
        quiet::watch(|| c.export())
    }
    fn try_clone(&self) -> Option<Box<dyn Exp>> {
        self.1.map(|f| Box::new(X(f(&self.0), self.1)) as Box<dyn Exp>)
    }
}

/// One collection type in one storage.
pub trait Source: Sync {
    fn name(&self) -> &'static str;
    fn ty(&self) -> Ty;
    fn sch(&self) -> Sch;
    fn build(&self, p: &Phys) -> Result<Box<dyn Exp>, String>;
}
impl<C: Build + Export + SchOf + 'static> Source for Make<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn ty(&self) -> Ty {
        C::ty()
    }
    fn sch(&self) -> Sch {
        C::sch()
    }
    fn build(&self, p: &Phys) -> Result<Box<dyn Exp>, String> {
        Ok(Box::new(X(C::build(p)?, self.clone)))
    }
}

/// Turning grown arrays and foreign structures into exportable arrays.
pub trait Port: Sync {
    fn grown(&self, g: Box<dyn Grow>) -> Box<dyn Exp>;
    /// # Safety
    /// As for `Import::import`, while the result lives.
    unsafe fn import(&self, a: *const CArray, s: *const CSchema) -> Result<Box<dyn Exp>, ImportError>;
}
struct PortOf<T>(std::marker::PhantomData<fn() -> T>);
impl<T> Port for PortOf<T>
where
    T: ArrayItem + 'static,
    Array<T, VecBuffer>: Node + Export,
    Array<T, SliceBuffer<'static>>: Node + Export + Import<'static>,
{
    fn grown(&self, g: Box<dyn Grow>) -> Box<dyn Exp> {
        let a = g.any().downcast::<Array<T, VecBuffer>>().expect("harness: array type");
        Box::new(X(*a, None))
    }
    unsafe fn import(&self, a: *const CArray, s: *const CSchema) -> Result<Box<dyn Exp>, ImportError> {
        // SAFETY: the caller's promise.
        let (a, s) = unsafe { (&*a.cast::<ArrowArray>(), &*s.cast::<ArrowSchema>()) };
        // SAFETY: the caller's promise.
        let r = quiet::watch(|| unsafe { <Array<T, SliceBuffer<'static>>>::import(a, s) });
        Ok(Box::new(X(r?, None)))
    }
}

pub struct Item {
    pub sch: Sch,
    pub ty: Ty,
    pub maker: &'static dyn Maker,
    pub sources: Vec<(&'static str, &'static dyn Source)>,
    pub port: &'static dyn Port,
}

#[macro_export]
macro_rules! with_ffi_items {
    ($m:ident!($($pre:tt)*)) => {
        $m!{$($pre)*
            bool, Option<bool>,
            u8, u16, u32, u64, i8, i16, i32, i64, f32, f64,
            Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<i8>, Option<i16>, Option<i32>, Option<i64>,
            Option<f32>, Option<f64>,
            [u8; 1], [bool; 3], [i32; 2], Option<[bool; 5]>, [Option<i16>; 2], Option<[Option<bool>; 3]>, [u16; 9],
            [f32; 10], [bool; 100], [u8; 300], [Option<i16>; 1024], Option<[u64; 2]>, [i32; 3],
            Vec<u8>, Vec<bool>, Option<Vec<i32>>, Vec<Option<bool>>, Option<Vec<Option<u16>>>, Vec<f64>, Vec<i8>,
            Vec<Option<u8>>, Option<Vec<u8>>,
            Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<i32>>>>>, [Vec<i32>; 2], Option<[Option<Vec<bool>>; 2]>,
            Vec<[bool; 3]>, Vec<Option<[Option<u8>; 2]>>, [[bool; 3]; 2], Option<[[Option<bool>; 2]; 3]>,
            Vec<[Vec<u16>; 2]>, Vec<Vec<Vec<i64>>>, [Option<[Option<f64>; 2]>; 2],
            Option<Vec<Option<[Option<Vec<Option<bool>>>; 2]>>>,
            // The remaining pairs of parent and child, and lists of one value.
            Vec<Option<Vec<i32>>>, Option<Vec<bool>>, Option<Vec<Option<bool>>>, Option<Vec<Vec<u16>>>,
            Option<Vec<[u8; 2]>>,
            [Option<i32>; 1], [bool; 1], [Option<bool>; 1], [Vec<u8>; 1], [Option<Vec<u8>>; 1],
            [[u16; 2]; 1], [Option<[u8; 3]>; 1],
            Option<[i64; 1]>, Option<[Option<i8>; 1]>, Option<[Option<bool>; 1]>,
            Option<[Vec<i32>; 1]>, Option<[Option<Vec<u8>>; 1]>, Option<[Option<[bool; 1]>; 1]>,
            [Option<bool>; 3], Option<[Option<i16>; 3]>, Option<[Vec<i8>; 2]>, Option<[Option<[i16; 2]>; 2]>,
        }
    };
}

pub fn items() -> &'static [Item] {
    static I: OnceLock<Vec<Item>> = OnceLock::new();
    I.get_or_init(|| {
        macro_rules! ports {
            ($($t:ty),* $(,)?) => { vec![$( &PortOf::<$t>(std::marker::PhantomData) as &'static dyn Port ),*] };
        }
        let makers: Vec<&'static dyn Maker> = with_ffi_items!(arrays_in!(&'static dyn Maker; VecBuffer;));
        let ports: Vec<&'static dyn Port> = with_ffi_items!(ports!());
        let kinds: Vec<(&'static str, Vec<&'static dyn Source>)> = vec![
            ("vec", with_ffi_items!(arrays_in!(&'static dyn Source; VecBuffer;))),
            ("box", with_ffi_items!(arrays_in!(&'static dyn Source; BoxBuffer;))),
            ("rc", with_ffi_items!(arrays_in!(&'static dyn Source; RcBuffer;))),
            ("arc", with_ffi_items!(arrays_in!(&'static dyn Source; ArcBuffer;))),
            ("slice", with_ffi_items!(arrays_in!(&'static dyn Source; SliceBuffer<'static>;))),
        ];
        makers
            .into_iter()
            .zip(ports)
            .enumerate()
            .map(|(i, (maker, port))| {
                let sources: Vec<_> = kinds.iter().map(|(k, s)| (*k, s[i])).collect();
                Item { sch: sources[0].1.sch(), ty: sources[0].1.ty(), maker, sources, port }
            })
            .collect()
    })
}

/// Arrays over fixed-size storage, with the number of elements per buffer.
pub fn fixed() -> &'static [(usize, &'static dyn Source)] {
    static F: OnceLock<Vec<(usize, &'static dyn Source)>> = OnceLock::new();
    F.get_or_init(|| {
        let mut v: Vec<(usize, &'static dyn Source)> = Vec::new();
        macro_rules! n {
            ($($n:literal),*) => {$({
                let l: Vec<&'static dyn Source> = makers!(&'static dyn Source;
                    Array<bool, ArrayBuffer<$n>>, Array<Option<bool>, ArrayBuffer<$n>>,
                    Array<u8, ArrayBuffer<$n>>, Array<i64, ArrayBuffer<$n>>, Array<Option<u16>, ArrayBuffer<$n>>,
                    Array<f64, ArrayBuffer<$n>>,
                    Array<[bool; 3], ArrayBuffer<$n>>, Array<Option<[Option<bool>; 3]>, ArrayBuffer<$n>>,
                    Array<[i32; 2], ArrayBuffer<$n>>,
                    Array<Vec<u8>, ArrayBuffer<$n>>, Array<Option<Vec<i32>>, ArrayBuffer<$n>>,
                    Array<Vec<Option<bool>>, ArrayBuffer<$n>>, Array<Vec<Vec<u8>>, ArrayBuffer<$n>>,
                    Array<Option<Vec<Option<Vec<Option<i32>>>>>, ArrayBuffer<$n>>,
                );
                v.extend(l.into_iter().map(|s| ($n, s)));
            })*};
        }
        n!(4, 8, 12, 64);
        v
    })
}
pub fn item_of(sch: &Sch) -> &'static Item {
    items().iter().find(|i| i.sch == *sch).expect("harness: item type listed")
}

/// The array's own items, null information and buffers, read by the library.
pub struct Known {
    pub ty: Ty,
    pub sch: Sch,
    pub phys: Phys,
    pub model: Vec<Val>,
    pub addrs: Vec<(usize, usize)>,
}
pub fn known(c: &dyn Exp, ty: &Ty, sch: &Sch) -> Result<Known, String> {
    let phys = c.dump();
    let model = decode(ty, &phys).map_err(|e| format!("the array's own memory is invalid: {e}"))?;
    Ok(Known { ty: ty.clone(), sch: sch.clone(), phys, model, addrs: c.addrs() })
}

/// Reads exported structures and compares them with what was exported.
pub fn conforms(a: *const CArray, s: Option<*const CSchema>, k: &Known, own: bool) -> Result<(), String> {
    if let Some(s) = s {
        let sch = read_schema(s)?;
        if sch != k.sch {
            return Err(format!("schema {sch:?} instead of {:?}", k.sch));
        }
    }
    let got = read_array(a, &k.sch)?;
    if got.items != k.model {
        return Err(same_items(&got.items, &k.model, "following the exported pointers").unwrap_err());
    }
    if own {
        same_buffers(&got, &k.phys, &mut k.addrs.iter())?;
    }
    Ok(())
}

pub fn format_of(s: &CStr) -> String {
    s.to_string_lossy().into_owned()
}
