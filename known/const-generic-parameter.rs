#[derive(Copy, Clone, enum_like_derive::EnumLike)]
pub struct Foo<const N: usize> { a: [bool; N] }
fn main() { assert_eq!(<Foo<3> as enum_like::EnumLike>::NUM_VARIANTS, 8); }
