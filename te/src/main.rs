mod book;
mod clock;
mod conc;
mod feat;
mod guard;
mod ids;
mod krx;
mod log;
mod mem;
mod net;
mod num;
mod store;
mod time_;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--i05-child" {
        return log::child(&a[2]);
    }
    if a.len() == 3 && a[1] == "--clock-child" {
        return clock::child(&a[2]);
    }
    let mut p = vec![];
    p.extend(book::props());
    p.extend(ids::props());
    p.extend(conc::props());
    p.extend(feat::props());
    p.extend(log::props());
    p.extend(krx::props());
    p.extend(net::props());
    p.extend(num::props());
    p.extend(time_::props());
    p.extend(store::props());
    vf::main(p)
}
