#[derive(Copy, Clone)]
pub struct Lf<const N: usize>;
impl<const N: usize> enum_like::EnumLike for Lf<N> {
    const NUM_VARIANTS: usize = 1;
    fn to_discr(self) -> usize { 0 }
    fn from_discr(_: usize) -> Self { Lf }
}
#[derive(Copy, Clone, enum_like_derive::EnumLike)]
pub struct Foo { a: bool, b: Lf<4> }
fn main() { assert_eq!(<Foo as enum_like::EnumLike>::NUM_VARIANTS, 2); }
