#[allow(dead_code)]
#[path = "../../vcore/src/geom.rs"]
mod geom;
#[allow(dead_code)]
#[path = "../../vcore/src/poly.rs"]
mod poly;
mod cast;
mod images;
mod import;
mod light;
mod sim;
mod mats;
mod prog;
mod transport;
fn main() {
    fw::main_with(vec![cast::r01(), mats::r02(), transport::r03(), images::r04(), import::r05(), light::r06(), light::r07(), sim::r08(), sim::r09(), prog::r10()])
}
