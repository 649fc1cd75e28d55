#[derive(Copy, Clone, enum_like_derive::EnumLike)]
pub enum Foo { A = { 3 }, B = (1, 2).1 }
fn main() { assert_eq!(<Foo as enum_like::EnumLike>::NUM_VARIANTS, 2); }
