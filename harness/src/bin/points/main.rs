//! Point types and scalars against independent exact computation.
mod points;
use harness::runner::{sc, Property};

fn main() {
    harness::runner::main(vec![
        Property {
            id: "C24",
            rule: "each case picks one of 70 point types, builds points natively (literals), reads them through the Point interface, and runs a history on a tree of them beside a list with exact integer geometry; non-trivial: the tree has more elements than fit into one node; distinct by contents",
            scenarios: vec![sc("access", 2_000, 20_000, points::access), sc("trees", 6_000, 200_000, points::trees), sc("long", 420, 8_000, points::long)],
            required: &[("accesses", 20_000), ("tree_queries", 50_000), ("point_types_seen", 65), ("long_point_queries", 5_000)],
        },
    ]);
}
