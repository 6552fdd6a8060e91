//! ark-serialize.
pub use shim_derive::{CanonicalDeserialize, CanonicalSerialize};
pub use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerializationError {
    NotEnoughSpace,
    InvalidData,
    UnexpectedFlags,
    IoError(std::io::Error),
}
impl std::fmt::Display for SerializationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::NotEnoughSpace => f.write_str("the last byte does not have enough space to encode the extra info bits"),
            Self::InvalidData => f.write_str("the input buffer contained invalid data"),
            Self::UnexpectedFlags => f.write_str("the call expects empty flags"),
            Self::IoError(e) => write!(f, "I/O error: {:?}", e),
        }
    }
}
impl std::error::Error for SerializationError {}
impl From<std::io::Error> for SerializationError {
    fn from(e: std::io::Error) -> Self {
        Self::IoError(e)
    }
}
type R<T> = Result<T, SerializationError>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Compress {
    Yes,
    No,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Validate {
    Yes,
    No,
}
pub trait CanonicalSerialize {
    fn serialize_with_mode<W: Write>(&self, writer: W, compress: Compress) -> R<()>;
    fn serialized_size(&self, compress: Compress) -> usize;
    fn serialize_compressed<W: Write>(&self, writer: W) -> R<()> {
        self.serialize_with_mode(writer, Compress::Yes)
    }
    fn compressed_size(&self) -> usize {
        self.serialized_size(Compress::Yes)
    }
    fn serialize_uncompressed<W: Write>(&self, writer: W) -> R<()> {
        self.serialize_with_mode(writer, Compress::No)
    }
    fn uncompressed_size(&self) -> usize {
        self.serialized_size(Compress::No)
    }
}
pub trait Valid: Sync {
    fn check(&self) -> R<()>;
    fn batch_check<'a>(batch: impl Iterator<Item = &'a Self> + Send) -> R<()>
    where
        Self: 'a,
    {
        for b in batch {
            b.check()?;
        }
        Ok(())
    }
}
pub trait CanonicalDeserialize: Valid + Sized {
    fn deserialize_with_mode<Rd: Read>(reader: Rd, compress: Compress, validate: Validate) -> R<Self>;
    fn deserialize_compressed<Rd: Read>(reader: Rd) -> R<Self> {
        Self::deserialize_with_mode(reader, Compress::Yes, Validate::Yes)
    }
    fn deserialize_compressed_unchecked<Rd: Read>(reader: Rd) -> R<Self> {
        Self::deserialize_with_mode(reader, Compress::Yes, Validate::No)
    }
    fn deserialize_uncompressed<Rd: Read>(reader: Rd) -> R<Self> {
        Self::deserialize_with_mode(reader, Compress::No, Validate::Yes)
    }
    fn deserialize_uncompressed_unchecked<Rd: Read>(reader: Rd) -> R<Self> {
        Self::deserialize_with_mode(reader, Compress::No, Validate::No)
    }
}
macro_rules! ints {
    ($($t:ty as $w:ty),*) => {$(
        impl CanonicalSerialize for $t {
            fn serialize_with_mode<W: Write>(&self, mut w: W, _: Compress) -> R<()> {
                Ok(w.write_all(&(*self as $w).to_le_bytes())?)
            }
            fn serialized_size(&self, _: Compress) -> usize {
                std::mem::size_of::<$w>()
            }
        }
        impl Valid for $t {
            fn check(&self) -> R<()> {
                Ok(())
            }
        }
        impl CanonicalDeserialize for $t {
            fn deserialize_with_mode<Rd: Read>(mut r: Rd, _: Compress, _: Validate) -> R<Self> {
                let mut b = [0; std::mem::size_of::<$w>()];
                r.read_exact(&mut b)?;
                <$w>::from_le_bytes(b).try_into().map_err(|_| SerializationError::InvalidData)
            }
        }
    )*};
}
ints!(u8 as u8, u16 as u16, u32 as u32, u64 as u64, usize as u64, i8 as i8, i16 as i16, i32 as i32, i64 as i64);
impl CanonicalSerialize for bool {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (*self as u8).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        1
    }
}
impl Valid for bool {
    fn check(&self) -> R<()> {
        Ok(())
    }
}
impl CanonicalDeserialize for bool {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> R<Self> {
        match u8::deserialize_with_mode(r, c, v)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerializationError::InvalidData),
        }
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for [T] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        (self.len() as u64).serialize_with_mode(&mut w, c)?;
        for x in self {
            x.serialize_with_mode(&mut w, c)?;
        }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize {
        8 + self.iter().map(|x| x.serialized_size(c)).sum::<usize>()
    }
}
impl<T: CanonicalSerialize> CanonicalSerialize for Vec<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        self.as_slice().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.as_slice().serialized_size(c)
    }
}
impl<T: Valid> Valid for Vec<T> {
    fn check(&self) -> R<()> {
        self.iter().try_for_each(|x| x.check())
    }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Vec<T> {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> R<Self> {
        let n = u64::deserialize_with_mode(&mut r, c, v)?;
        let mut o = vec![];
        for _ in 0..n {
            o.push(T::deserialize_with_mode(&mut r, c, v)?);
        }
        Ok(o)
    }
}
impl<T: CanonicalSerialize, const N: usize> CanonicalSerialize for [T; N] {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        for x in self {
            x.serialize_with_mode(&mut w, c)?;
        }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize {
        self.iter().map(|x| x.serialized_size(c)).sum()
    }
}
impl<T: Valid, const N: usize> Valid for [T; N] {
    fn check(&self) -> R<()> {
        self.iter().try_for_each(|x| x.check())
    }
}
impl<T: CanonicalDeserialize, const N: usize> CanonicalDeserialize for [T; N] {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> R<Self> {
        let mut o = Vec::with_capacity(N);
        for _ in 0..N {
            o.push(T::deserialize_with_mode(&mut r, c, v)?);
        }
        o.try_into().map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize + ?Sized> CanonicalSerialize for &T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (*self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        (*self).serialized_size(c)
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => {$(
        impl<$($t: CanonicalSerialize),+> CanonicalSerialize for ($($t,)+) {
            fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
                $(self.$i.serialize_with_mode(&mut w, c)?;)+
                Ok(())
            }
            fn serialized_size(&self, c: Compress) -> usize {
                0 $(+ self.$i.serialized_size(c))+
            }
        }
        impl<$($t: Valid),+> Valid for ($($t,)+) {
            fn check(&self) -> R<()> {
                $(self.$i.check()?;)+
                Ok(())
            }
        }
        impl<$($t: CanonicalDeserialize),+> CanonicalDeserialize for ($($t,)+) {
            fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> R<Self> {
                Ok(($($t::deserialize_with_mode(&mut r, c, v)?,)+))
            }
        }
    )*};
}
tuples!((A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4));
impl<T: CanonicalSerialize> CanonicalSerialize for Option<T> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        self.is_some().serialize_with_mode(&mut w, c)?;
        self.as_ref().map_or(Ok(()), |x| x.serialize_with_mode(&mut w, c))
    }
    fn serialized_size(&self, c: Compress) -> usize {
        1 + self.as_ref().map_or(0, |x| x.serialized_size(c))
    }
}
impl<T: Valid> Valid for Option<T> {
    fn check(&self) -> R<()> {
        self.as_ref().map_or(Ok(()), |x| x.check())
    }
}
impl<T: CanonicalDeserialize> CanonicalDeserialize for Option<T> {
    fn deserialize_with_mode<Rd: Read>(mut r: Rd, c: Compress, v: Validate) -> R<Self> {
        Ok(if bool::deserialize_with_mode(&mut r, c, v)? { Some(T::deserialize_with_mode(&mut r, c, v)?) } else { None })
    }
}
impl CanonicalSerialize for str {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        self.as_bytes().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        8 + self.len()
    }
}
impl CanonicalSerialize for String {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        self.as_str().serialize_with_mode(w, c)
    }
    fn serialized_size(&self, _: Compress) -> usize {
        8 + self.len()
    }
}
impl Valid for String {
    fn check(&self) -> R<()> {
        Ok(())
    }
}
impl CanonicalDeserialize for String {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> R<Self> {
        String::from_utf8(Vec::deserialize_with_mode(r, c, v)?).map_err(|_| SerializationError::InvalidData)
    }
}
impl<T: CanonicalSerialize + ?Sized> CanonicalSerialize for Box<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (**self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        (**self).serialized_size(c)
    }
}
impl<T: CanonicalSerialize + ?Sized> CanonicalSerialize for std::sync::Arc<T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (**self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        (**self).serialized_size(c)
    }
}
impl<T: Valid + Send> Valid for std::sync::Arc<T> {
    fn check(&self) -> R<()> {
        (**self).check()
    }
}
impl<T: CanonicalDeserialize + Send> CanonicalDeserialize for std::sync::Arc<T> {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> R<Self> {
        T::deserialize_with_mode(r, c, v).map(std::sync::Arc::new)
    }
}
impl<T: CanonicalSerialize + ToOwned + ?Sized> CanonicalSerialize for std::borrow::Cow<'_, T> {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (**self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        (**self).serialized_size(c)
    }
}
impl<K: CanonicalSerialize, V: CanonicalSerialize> CanonicalSerialize for std::collections::BTreeMap<K, V> {
    fn serialize_with_mode<W: Write>(&self, mut w: W, c: Compress) -> R<()> {
        (self.len() as u64).serialize_with_mode(&mut w, c)?;
        for (k, v) in self {
            k.serialize_with_mode(&mut w, c)?;
            v.serialize_with_mode(&mut w, c)?;
        }
        Ok(())
    }
    fn serialized_size(&self, c: Compress) -> usize {
        8 + self.iter().map(|(k, v)| k.serialized_size(c) + v.serialized_size(c)).sum::<usize>()
    }
}
impl<K: Valid, V: Valid> Valid for std::collections::BTreeMap<K, V> {
    fn check(&self) -> R<()> {
        self.iter().try_for_each(|(k, v)| k.check().and(v.check()))
    }
}
impl<K: CanonicalDeserialize + Ord, V: CanonicalDeserialize> CanonicalDeserialize for std::collections::BTreeMap<K, V> {
    fn deserialize_with_mode<Rd: Read>(r: Rd, c: Compress, v: Validate) -> R<Self> {
        Ok(Vec::<(K, V)>::deserialize_with_mode(r, c, v)?.into_iter().collect())
    }
}
impl<T: CanonicalSerialize + ?Sized> CanonicalSerialize for &mut T {
    fn serialize_with_mode<W: Write>(&self, w: W, c: Compress) -> R<()> {
        (**self).serialize_with_mode(w, c)
    }
    fn serialized_size(&self, c: Compress) -> usize {
        (**self).serialized_size(c)
    }
}
#[macro_export]
macro_rules! serialize_to_vec {
    ($($x:expr),* $(,)?) => {{
        let mut b = Vec::new();
        let r: Result<(), $crate::ser::SerializationError> = (|| {
            $($crate::ser::CanonicalSerialize::serialize_compressed(&$x, &mut b)?;)*
            Ok(())
        })();
        r.map(|_| b)
    }};
}
