// Included by C05 and C07.

/// Decodes by skipping.
pub struct Skipped;

impl<'de, M, A> Decode<'de, M, A> for Skipped
where
    A: musli::Allocator,
{
    const IS_BITWISE_DECODE: bool = false;

    fn decode<D>(decoder: D) -> Result<Self, D::Error>
    where
        D: musli::Decoder<'de, Mode = M, Allocator = A>,
    {
        decoder.skip()?;
        Ok(Skipped)
    }
}

#[derive(Encode, Decode)]
#[musli(crate = musli)]
pub struct Named {
    a: u8,
    b: Option<u16>,
}

#[derive(Encode, Decode)]
#[musli(crate = musli, packed)]
pub struct PackedPair {
    a: u16,
    b: u8,
}

#[derive(Encode, Decode)]
#[musli(crate = musli)]
pub enum Choice {
    A,
    B(u8),
    C { x: u16 },
}

// Skipping a value consumes exactly what was written for it, so that what
// follows is read next.
macro_rules! skips {
    ($name:ident, $u:literal, $t:ty, $v:expr) => {
        skips!($name, $u, $t, $v, LE, BE, M, V);
    };
    ($name:ident, $u:literal, $t:ty, $v:expr, $($e:expr),*) => {
        harness!($name, $u, {
            let v: $t = $v;
            $({
                let b = $e.to_fixed_bytes_with::<_, 32, _>(Cx, &v).unwrap();
                let mut r = b.as_slice();
                let got: Result<Skipped, E> = $e.decode_with(Cx, &mut r);
                assert!(got.is_ok(), "an encoded value can be skipped");
                assert!(r.is_empty(), "exactly the value is skipped");
            })*
        });
    };
}
// Longer than what a tag carries.
macro_rules! long {
    ($name:ident, $e:expr, $u:literal, $t:ty, $v:expr) => {
        harness!($name, $u, {
            let b = $e.to_fixed_bytes_with::<_, 80, _>(Cx, &$v as &$t).unwrap();
            let mut r = b.as_slice();
            let got: Result<Skipped, E> = $e.decode_with(Cx, &mut r);
            assert!(got.is_ok() && r.is_empty());
        });
    };
}
