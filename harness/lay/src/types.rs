//! MPI's constructors of datatypes, keeping what was asked of them; these replace the MPI library's.
use core::ffi::{c_int, c_void};
pub type H = *mut c_void;
pub fn handle(t: mpi::ffi::MPI_Datatype) -> H {
    assert!(core::mem::size_of::<mpi::ffi::MPI_Datatype>() == core::mem::size_of::<H>());
    unsafe { core::mem::transmute_copy(&t) }
}
#[derive(Clone, Copy)]
pub struct Block { count: usize, at: isize, old: H }
/// blocks of types, relative to the extent given
#[derive(Clone, Copy)]
struct Node { used: bool, committed: bool, freed: bool, n: usize, blocks: [Block; 8], extent: Option<usize>, stride: Stride }
#[derive(Clone, Copy)]
enum Stride { Bytes, Elements }
const NO: Block = Block { count: 0, at: 0, old: core::ptr::null_mut() };
const EMPTY: Node = Node { used: false, committed: false, freed: false, n: 0, blocks: [NO; 8], extent: None, stride: Stride::Bytes };
static mut NODES: [Node; 48] = [EMPTY; 48];
fn find(h: H) -> Option<&'static mut Node> {
    unsafe {
        for n in NODES.iter_mut() { if n as *mut Node as H == h { return Some(n); } }
    }
    None
}
fn make(blocks: &[Block], stride: Stride, extent: Option<usize>, new: *mut H) -> c_int {
    unsafe {
        for n in NODES.iter_mut() {
            if !n.used {
                *n = EMPTY;
                n.used = true;
                n.stride = stride;
                n.extent = extent;
                for b in blocks { if n.n < 8 { n.blocks[n.n] = *b; } n.n += 1; }
                *new = n as *mut Node as H;
                return 0;
            }
        }
    }
    1
}
#[no_mangle] pub extern "C" fn MPI_Type_contiguous(count: c_int, old: H, new: *mut H) -> c_int {
    make(&[Block { count: count as usize, at: 0, old }], Stride::Bytes, None, new)
}
#[no_mangle] pub extern "C" fn MPI_Type_vector(count: c_int, block: c_int, stride: c_int, old: H, new: *mut H) -> c_int {
    let mut b = [NO; 8];
    let n = (count as usize).min(8);
    for i in 0..n { b[i] = Block { count: block as usize, at: i as isize * stride as isize, old }; }
    make(&b[..n], Stride::Elements, None, new)
}
#[no_mangle] pub extern "C" fn MPI_Type_create_hvector(count: c_int, block: c_int, stride: isize, old: H, new: *mut H) -> c_int {
    let mut b = [NO; 8];
    let n = (count as usize).min(8);
    for i in 0..n { b[i] = Block { count: block as usize, at: i as isize * stride, old }; }
    make(&b[..n], Stride::Bytes, None, new)
}
#[no_mangle] pub extern "C" fn MPI_Type_create_indexed_block(count: c_int, block: c_int, at: *const c_int, old: H, new: *mut H) -> c_int {
    let mut b = [NO; 8];
    let n = (count as usize).min(8);
    for i in 0..n { b[i] = Block { count: block as usize, at: unsafe { *at.add(i) } as isize, old }; }
    make(&b[..n], Stride::Elements, None, new)
}
#[no_mangle] pub extern "C" fn MPI_Type_create_struct(count: c_int, lens: *const c_int, at: *const isize, old: *const H, new: *mut H) -> c_int {
    let mut b = [NO; 8];
    let n = (count as usize).min(8);
    for i in 0..n { unsafe { b[i] = Block { count: *lens.add(i) as usize, at: *at.add(i), old: *old.add(i) }; } }
    make(&b[..n], Stride::Bytes, None, new)
}
#[no_mangle] pub extern "C" fn MPI_Type_create_resized(old: H, _lb: isize, extent: isize, new: *mut H) -> c_int {
    make(&[Block { count: 1, at: 0, old }], Stride::Bytes, Some(extent as usize), new)
}
#[no_mangle] pub extern "C" fn MPI_Type_dup(old: H, new: *mut H) -> c_int {
    let r = make(&[Block { count: 1, at: 0, old }], Stride::Bytes, None, new);
    let c = find(old).map_or(true, |n| n.committed);
    if let Some(n) = find(unsafe { *new }) { n.committed = c; }
    r
}
#[no_mangle] pub extern "C" fn MPI_Type_commit(t: *mut H) -> c_int {
    if let Some(n) = find(unsafe { *t }) { n.committed = true; }
    0
}
#[no_mangle] pub extern "C" fn MPI_Type_free(t: *mut H) -> c_int {
    if let Some(n) = find(unsafe { *t }) { n.freed = true; }
    unsafe { *t = handle(mpi::ffi::RSMPI_DATATYPE_NULL); }
    0
}
#[derive(Default)]
pub struct Map { pub n: usize, pub at: [usize; 8], pub ok: bool, bad: bool }
pub fn ready(h: H) -> bool { match find(h) { Some(n) => n.committed && !n.freed, None => true } }
pub fn extent(h: H, base: usize) -> usize {
    match find(h) {
        None => base,
        Some(n) => n.extent.unwrap_or_else(|| {
            let mut e = 0;
            for b in &n.blocks[..n.n.min(8)] {
                let x = extent(b.old, base);
                let at = match n.stride { Stride::Bytes => b.at as usize, Stride::Elements => b.at as usize * x };
                e = e.max(at + b.count * x);
            }
            e
        }),
    }
}
fn walk(h: H, from: usize, base: H, w: usize, m: &mut Map) {
    match find(h) {
        None => {
            if h != base || m.n >= 8 { m.bad = true; } else { m.at[m.n] = from; m.n += 1; }
        }
        Some(n) => {
            if n.n > 8 { m.bad = true; }
            for b in &n.blocks[..n.n.min(8)] {
                let x = extent(b.old, w);
                let at = match n.stride { Stride::Bytes => b.at as usize, Stride::Elements => b.at as usize * x };
                for i in 0..b.count {
                    if m.bad { return; }
                    walk(b.old, from + at + i * x, base, w, m);
                }
            }
        }
    }
}
pub fn flatten(h: H, from: usize, base: H, w: usize, m: &mut Map) {
    walk(h, from, base, w, m);
    m.ok = !m.bad;
}
