mod cal;
mod geom;
mod mat;
mod poly;
fn main() {
    fw::main_with(vec![cal::c01(), cal::c02(), mat::c03(), mat::c04(), geom::g01(), geom::g02(), geom::g06(), poly::g03(), poly::g04(), poly::g05()])
}
