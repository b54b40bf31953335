#![allow(dead_code)]
mod cnt;
mod fw;
mod draw;
mod geom;
mod kit;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c08;
mod c07;
mod c24;
mod c17;
mod c20;
mod c18;
mod c19;
mod c21;
mod c23;
mod c26;
mod c27;
mod c25;
mod c28;
mod c06;
mod c30;
mod c22;
mod c29;
mod jk;
mod jsim;
mod wsim;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    if args.len() < 2 {
        eprintln!("usage: mc <property> [--replay <phase> <case>]");
        std::process::exit(2);
    }
    if args.len() == 5 && args[2] == "--long" {
        std::process::exit(c29::long(args[3].parse().unwrap(), args[4].parse().unwrap()));
    }
    let check = match args[1].as_str() {
        "C01" => c01::check(),
        "C02" => c02::check(),
        "C03" => c03::check(),
        "C04" => c04::check(),
        "C05" => c05::check(),
        "C09" => c09::check(),
        "C10" => c10::check(),
        "C11" => c11::check(),
        "C12" => c12::check(),
        "C13" => c13::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        "C16" => c16::check(),
        "C08" => c08::check(),
        "C07" => c07::check(),
        "C24" => c24::check(),
        "C17" => c17::check(),
        "C20" => c20::check(),
        "C18" => c18::check(),
        "C19" => c19::check(),
        "C21" => c21::check(),
        "C23" => c23::check(),
        "C26" => c26::check(),
        "C27" => c27::check(),
        "C25" => c25::check(),
        "C28" => c28::check(),
        "C06" => c06::check(),
        "C30" => c30::check(),
        "C22" => c22::check(),
        "C29" => c29::check(),
        _ => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2);
        }
    };
    let code = if args.len() >= 5 && args[2] == "--replay" {
        fw::replay(check, &args[3], args[4].parse().unwrap())
    } else {
        fw::run(check, &dir)
    };
    std::process::exit(if fw::survey().is_some() { 4 } else { code });
}
