sym::native_defs!();
fn main() { let t: Vec<(&str, fn())> = harness_derive::tables().concat(); sym::native::main_loop(&t) }
