use mc::engine::*;
use mc::racks::{self, Side};

fn main() {
    mc::engine::main(Check {
        id: "C02",
        level: Level::Exploration,
        rule: "one execution = one Coupler::next on a rack x placement x pair of images, its returned image and reported outputs compared with an independent bytewise expectation; images are every single-bit change of each base image, requests are every listed value on every channel; non-trivial = accepted cycle whose output image is not all zero or that has a request",
        assumptions: &[
            "module data layouts as documented (spec.rs)",
            "racks of 1-3 modules are enumerated completely over all 19 process data shapes and 3 placements, racks of up to 64 modules as listed cyclic mixes",
            "serial modules have nothing queued here (their frames are C07-C13)",
        ],
        families: |t| racks::families(Side::Output, t),
    })
}
