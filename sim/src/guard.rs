//! Caller memory with a guard page directly behind it: a read or write past the declared
//! length faults at once.
pub struct Guard { map: *mut u8, total: usize, ptr: *mut u8, len: usize }
unsafe impl Send for Guard {}
unsafe impl Sync for Guard {}
impl Guard {
    pub fn new(b: &[u8]) -> Guard { Guard::aligned(b, 1) }
    /// `align` divides the page size; the end is exact when the length is a multiple of it.
    pub fn aligned(b: &[u8], align: usize) -> Guard {
        let pg = 4096usize; let body = b.len().div_ceil(pg).max(1) * pg; let total = body + pg;
        unsafe {
            let map = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(map as isize != -1);
            libc::mprotect(map.add(body) as *mut _, pg, libc::PROT_NONE);
            let off = (body - b.len()) / align * align;
            let ptr = map.add(off);
            std::ptr::copy_nonoverlapping(b.as_ptr(), ptr, b.len());
            Guard { map, total, ptr, len: b.len() }
        }
    }
    pub fn of<T: Copy>(v: &[T]) -> Guard { let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }; Guard::aligned(b, std::mem::align_of::<T>()) }
    pub fn ptr(&self) -> *const u8 { self.ptr }
    pub fn mut_ptr(&self) -> *mut u8 { self.ptr }
    pub fn len(&self) -> i32 { self.len as i32 }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.ptr, self.len) } }
}
impl Drop for Guard { fn drop(&mut self) { unsafe { libc::munmap(self.map as *mut _, self.total); } } }
