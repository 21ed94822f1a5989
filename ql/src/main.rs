mod cal;
mod dates;
mod maths;
mod instr;
mod mk;
mod params;
mod price;
mod terms;
mod trades;
mod eng;
mod out;
mod paths;
mod world;
fn main() {
    let mut p = vec![];
    p.extend(cal::props());
    p.extend(dates::props());
    p.extend(maths::props());
    p.extend(params::props());
    p.extend(instr::props());
    p.extend(trades::props());
    p.extend(terms::props());
    p.extend(price::props());
    p.extend(eng::props());
    p.extend(out::props());
    p.extend(paths::props());
    vf::main(p)
}
