mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c22;
mod c23;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c32;
mod c33;
mod codes;
mod cli;
mod cmds;
mod texts;
mod ctor;
mod cx;
mod eq;
mod expr;
mod long;
mod prims;
mod rec;
mod sim;

fn main() {
    // panics of the code under test are caught and reported
    std::panic::set_hook(Box::new(|_| {}));
    let id = std::env::args().nth(1).expect("property id");
    let cx = cx::Cx::new(&id);
    match id.as_str() {
        "C01" => c01::run(&cx),
        "C02" => c02::run(&cx),
        "C03" => c03::run(&cx),
        "C05" => c05::run(&cx),
        "C06" => c06::run(&cx),
        "C07" => c07::run(&cx),
        "C08" => c08::run(&cx),
        "C09" => c09::run(&cx),
        "C10" => c10::run(&cx),
        "C11" => c11::run(&cx),
        "C12" => c12::run(&cx),
        "C13" => c13::run(&cx),
        "C14" => {
            let a: Vec<String> = std::env::args().collect();
            if a.get(2).map(String::as_str) == Some("child") {
                std::process::exit(c14::child(a[3].parse().unwrap(), a[4].parse().unwrap()));
            }
            c14::run(&cx)
        }
        "C15" => c15::run(&cx),
        "C16" => c16::run(&cx),
        "C17" => c17::run17(&cx),
        "C18" => c17::run18(&cx),
        "C19" => c17::run19(&cx),
        "C20" => c17::run20(&cx),
        "C21" => c17::run21(&cx),
        "C22" => c22::run(&cx),
        "C23" => c23::run(&cx),
        "C24" => c23::run24(&cx),
        "C25" => c25::run(&cx),
        "C26" => c26::run(&cx),
        "C27" => c27::run(&cx),
        "C28" => c28::run(&cx),
        "C29" => c29::run(&cx),
        "C31" => c27::run31(&cx),
        "C30" => c30::run(&cx),
        "C32" => c32::run(&cx),
        "C33" => c33::run(&cx),
        "C04" => c02::run04(&cx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(cx.finish());
}
