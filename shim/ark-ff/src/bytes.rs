use std::io::{Read, Result as IoResult, Write};
pub trait ToBytes { fn write<W: Write>(&self, writer: W) -> IoResult<()>; }
pub trait FromBytes: Sized { fn read<R: Read>(reader: R) -> IoResult<Self>; }
macro_rules! u { ($($t:ty),*) => {$(
    impl ToBytes for $t { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(&self.to_le_bytes()) } }
    impl FromBytes for $t { fn read<R: Read>(mut r: R) -> IoResult<Self> { let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b)?; Ok(<$t>::from_le_bytes(b)) } }
)*} }
u!(u8, u16, u32, u64, u128);
impl ToBytes for bool { fn write<W: Write>(&self, w: W) -> IoResult<()> { (*self as u8).write(w) } }
impl FromBytes for bool { fn read<R: Read>(r: R) -> IoResult<Self> { match u8::read(r)? { 0 => Ok(false), 1 => Ok(true), _ => Err(std::io::ErrorKind::InvalidData.into()) } } }
impl ToBytes for () { fn write<W: Write>(&self, _: W) -> IoResult<()> { Ok(()) } }
impl<T: ToBytes> ToBytes for [T] { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { for i in self { i.write(&mut w)?; } Ok(()) } }
impl<T: ToBytes, const N: usize> ToBytes for [T; N] { fn write<W: Write>(&self, w: W) -> IoResult<()> { self[..].write(w) } }
impl<T: ToBytes> ToBytes for Vec<T> { fn write<W: Write>(&self, w: W) -> IoResult<()> { self[..].write(w) } }
impl<'a, T: ToBytes + ?Sized> ToBytes for &'a T { fn write<W: Write>(&self, w: W) -> IoResult<()> { (**self).write(w) } }
#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),* $(,)?) => {{
        let mut buf: Vec<u8> = vec![];
        let r: std::io::Result<()> = (|| { $( $crate::ToBytes::write(&$x, &mut buf)?; )* Ok(()) })();
        r.map(|_| buf)
    }};
}
