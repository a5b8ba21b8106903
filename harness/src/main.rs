extern crate quantmath;
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] #[inline(never)] pub extern "C" fn $name() $body )*
        pub static TABLE: &[crate::Harness] = &[ $( crate::Harness { name: stringify!($name), f: $name } ),* ];
    };
}

mod vp;
mod fix;
mod dates;
mod maths;
mod data;
mod risk;
mod pricing;
mod value;
mod mc;
mod facade;
mod serial;

pub struct Harness { pub name: &'static str, pub f: extern "C" fn() }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tables: &[&[Harness]] = &[dates::TABLE, maths::TABLE, data::TABLE, risk::TABLE, pricing::TABLE, value::TABLE, mc::TABLE, facade::TABLE, serial::TABLE];
    if args.len() >= 3 && args[1] == "--replay" {
        std::panic::set_hook(Box::new(|i| { println!("VPPANIC {}", i); std::process::exit(77); }));
        let h = vp::load_replay(&args[2]);
        for t in tables { for e in t.iter() { if e.name == h { (e.f)(); println!("VPOK"); return; } } }
        println!("no harness {}", h);
        std::process::exit(2);
    }
    for t in tables { for e in t.iter() { println!("{}", e.name); } }
}
