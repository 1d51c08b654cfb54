#[allow(dead_code)]
#[path = "../../vcore/src/geom.rs"]
mod geom;
#[allow(dead_code)]
#[path = "../../vcore/src/poly.rs"]
mod poly;
mod air;
mod dirint;
mod heat;
mod march;
mod model_io;
mod state;
mod weather;
fn main() {
    fw::main_with(vec![model_io::p01(), model_io::p02(), state::p03(), weather::p04(), weather::p05(), weather::p06(), weather::p07(), weather::p08(), air::p09(), heat::p10(), heat::p11(), heat::p12(), march::p13(), march::p14(), model_io::p15()])
}
