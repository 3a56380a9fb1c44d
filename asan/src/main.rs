//! The reader of damaged files, built with AddressSanitizer (also the C decompressors).
#[allow(dead_code)]
#[path = "../../harness/src/alloc.rs"]
mod alloc;
#[path = "../../harness/src/dam_reader.rs"]
mod dam_reader;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    dam_reader::serve(&a[1..]);
}
