// Runs the generator of /repo/rpcgen. usage: vx_gen RMTYPEDEF ENUM UNION < spec; ENUM in comp|std|idx, UNION in comp|idx|uni
use rpcgen::{gen_code, parser};
use std::io::Read;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut src = String::new();
    std::io::stdin().read_to_string(&mut src).unwrap();
    let c = gen_code::Config { remove_typedef: a[1] == "1", enum_impl_indexer: a[2] == "idx", enum_impl_std_trait: a[2] == "std", union_impl_indexer: a[3] == "idx", union_impl_union: a[3] == "uni" };
    let d = match parser::parse(&src) { Ok(d) => d, Err(e) => { println!("PARSE {e:?}"); std::process::exit(3) } };
    match gen_code::gen_code(d, &c) { Ok(s) => println!("{s}"), Err(e) => { println!("REFUSED {e:?}"); std::process::exit(4) } }
}
