#[derive(Copy, Clone, enum_like_derive::EnumLike)]
pub struct Foo { a: [bool; "ab".len()] }
fn main() { assert_eq!(<Foo as enum_like::EnumLike>::NUM_VARIANTS, 4); }
