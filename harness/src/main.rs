#[global_allocator]
static A: ymon::alloc::Counting = ymon::alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("gen-derive") {
        // gen-derive DIR HARNESS REPO SEED N SKIP,SKIP,...
        let skip: Vec<u64> = a[7].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().expect("number")).collect();
        ymon::derive_gen::write_crate(
            a[2].as_ref(),
            &a[3],
            &a[4],
            a[5].parse().expect("number"),
            a[6].parse().expect("number"),
            &skip,
        )
        .expect("write");
        return;
    }
    ymon::runner::main(&ymon::props::all());
}
