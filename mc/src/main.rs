//! `pcics-mc <property> [--replay FILE]`: explore everything the property is about.

use pcics_mc::chains::*;
use pcics_mc::registry::registry;
use pcics_mc::*;

fn main() {
    let property = std::env::args().nth(1).expect("property id");
    let ctx = Ctx::from_env(&property);
    if std::env::args().any(|a| a == "--digests") {
        return digest::print();
    }
    match property.as_str() {
        "C02" => {
            for space in [cap_graphs, cap_single, cap_truncated, cap_strides, cap_neighbourhood] {
                space(&ctx, &check_ends_caps);
            }
            for space in [ext_graphs, ext_single, ext_truncated, ext_strides, ext_neighbourhood] {
                space(&ctx, &check_ends_ext);
            }
        }
        "C03" => {
            for space in [cap_graphs, cap_single, cap_truncated, cap_strides, cap_sequences, cap_neighbourhood, cap_cover] {
                space(&ctx, &check_caps);
            }
        }
        "C04" => {
            for space in [ext_graphs, ext_single, ext_truncated, ext_strides, ext_sequences, ext_neighbourhood, ext_cover] {
                space(&ctx, &check_ext);
            }
        }
        "C05" => {
            faulty_neighbours(&ctx);
            cap_cover(&ctx, &check_caps);
            ext_cover(&ctx, &check_ext);
        }
        "C01" => special::totality(&ctx),
        "C06" => special::locality(&ctx),
        "C07" => special::truncation(&ctx),
        "C08" => special::header_decode(&ctx),
        "C09" => special::base_addresses(&ctx),
        "C10" => special::windows(&ctx),
        "C22" => special::quantities(&ctx),
        "C23" => special::class_names(&ctx),
        "C24" => special::tables(&ctx, false, None),
        "C25" => special::ea_feature(&ctx),
        "C21" => encode::run(&ctx),
        "C26" => iters::run(&ctx),
        "C27" => errors::run(&ctx),
        _ => {
            if property == "C14" {
                special::vendor_ids(&ctx);
            }
            for c in registry().iter().filter(|c| c.property == property) {
                ctx.explore(&c.target());
            }
            // announced sizes in full
            special::tables(&ctx, false, Some(&property));
        }
    }
    let (bounds, assumptions) = bounds(&property);
    ctx.finish(bounds, assumptions);
}

fn bounds(property: &str) -> (&'static str, &'static [&'static str]) {
    const MODEL: &str = "the reference models restate the PCI, PCI-X, HyperTransport, PCI Express and CXL register layouts correctly";
    const LISTS: &str = "region up to 256 bytes (capabilities) or 4096 bytes (extended capabilities)";
    match property {
        "C01" => ("every decoder and everything reachable from its result, on the states of C11-C20 (fewer two-byte deviations); all list shapes of C03/C04 but the graphs; whole 4 KiB functions with one byte changed or cut at every length; all table sizes of C24", &["panics include arithmetic overflow and debug assertions (built with both on)"]),
        "C02" | "C03" | "C04" => ("all pointer graphs over 6 places (7 in the thorough tier) with 11 pointer values each; one capability with every pointer, place, id and version; every region length; strides through all places; every sequence of four capability kinds or three extended ones; every byte of images holding all capability kinds, and any three bits of their data", &[LISTS, MODEL]),
        "C05" => ("a capability of every kind and shape between two others: cut at every length, and with every byte set to every value; a broken capability at every place; all sequences of 6 (7 thorough) intact and broken capabilities; lists of broken ones only", &[MODEL]),
        "C06" => ("every decoder at every dword place over three surroundings; every byte outside the structure set to 256 values (capabilities) or a menu (extended); every header byte to 256 values, every pair of header bytes over a menu, every value of the identifying 16 bit registers and every device of 20 vendors and of all 16-bit numbers named in the library's source for every capability kind; those numbers in pairs in the header and singly around the structure", &[LISTS]),
        "C07" => ("every decoder and shape at every length with every byte set to every value, and with two deviating bytes near the start; up to 64 bytes more than needed", &[MODEL]),
        "C09" => ("all register files over 14 values per register (1..6 registers; 7 thorough); one register over 2^17*40 values (2^32 thorough); both halves of a 64-bit address over 600 values each", &[MODEL]),
        "C10" => ("both I/O window bytes in full with upper halves; prefetchable base or limit in full against a menu (2^32 thorough); CardBus windows word by word", &[MODEL]),
        "C21" => ("all values of the small fields; registers over 2^17*40 values (2^32 thorough); base address lists over 14 values per register and with any 7 bits together, also collected into 1 to 3 registers", &["fields the library does not represent (reserved bits) are not expected back"]),
        "C22" => ("every register a quantity is computed from, over all values of up to three bytes together", &[MODEL]),
        "C23" => ("all 2^24 class codes", &["the class list of the PCI ID database (classes.ids)"]),
        "C24" => ("every value of every count, size and offset field, with data of 25 lengths around what it needs, and every length up to 700 (4100 thorough) for 64 or more sizes; every byte of the largest tables", &[MODEL]),
        "C25" => ("Enhanced Allocation as in C14, all declared sizes and address widths of two entries, its iterator as in C26; header, lists and all other structures of both builds against each other with every byte set to every value and cut before it", &[MODEL]),
        "C26" => ("every iterator over every length and parameter in the table of iters.rs x five contents, each against each and against every one-byte change (two bytes thorough): all positions of both, copies at up to 64 positions, three calls after the end; the two lists over images of all kinds with every byte changed", &["tables of at most 124 bytes; longer ones only through C24"]),
        "C27" => ("34 structures x every length x every byte x 256 values (a menu for structures above 16 bytes in the quick tier); missing bytes from five backgrounds", &[]),
        _ => ("from every base image (five backgrounds x the shapes of the structure): every length x every byte x 256 values, pairs of bytes, whole registers, pairs of registers, byte triples, any 3, 5 or 7 bits in all combinations, any 3 bits at every length, the numbers named in the library's source singly at every place and shift and in pairs, to the depth given in notes; the announced sizes, counts and offsets of C24 for the structures concerned; all vendor and vendor-specific ids (C14)", &[MODEL]),
    }
}
