use mc::engine::*;
use mc::racks::{self, Side};

fn main() {
    mc::engine::main(Check {
        id: "C01",
        level: Level::Exploration,
        rule: "one execution = one Coupler::next on a rack x placement x pair of images, its reported inputs compared with an independent bytewise decoding; images are every single-bit change of each base image (own and foreign bits) plus spare registers; non-trivial = accepted cycle whose input image is not all zero",
        assumptions: &[
            "module data layouts as documented (spec.rs)",
            "racks of 1-3 modules are enumerated completely over all 19 process data shapes and 3 placements, racks of up to 64 modules as listed cyclic mixes",
            "image contents are the base patterns and all their single-bit changes",
        ],
        families: |t| {
            let mut v = racks::families(Side::Input, t);
            v.push(family("modules without inputs", 1, |_, out| racks::no_input_modules(out)));
            v
        },
    })
}
