//! Every decoder of the library, with the reference model that judges it, the base images that
//! reach its variants, and the property it belongs to.

use crate::models::{caps2::*, ext1::*, ext2::*, legacy::*};
use crate::*;
use pcics::header::Header;

/// Where the library finds the structure
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// Capability list, data starts after the two header bytes; header layout it needs
    Cap(u8, Layout),
    /// Extended capability list, decoder gets the bytes after the header
    Ext(u16),
    /// Extended capability list, decoder gets the bytes from the header on
    ExtAtHeader(u16),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layout {
    Normal,
    Bridge,
    Cardbus,
    Virtio,
}

pub fn header(l: Layout) -> Header {
    let mut img = [0u8; 0x40];
    img[0x0e] = match l {
        Layout::Bridge => 1,
        Layout::Cardbus => 2,
        _ => 0,
    };
    if l == Layout::Virtio {
        img[..4].copy_from_slice(&[0xf4, 0x1a, 0x41, 0x10]);
    }
    Header::from(img)
}

type Patch = Vec<(usize, u8)>;

pub struct Cap {
    pub name: &'static str,
    pub property: &'static str,
    pub place: Place,
    pub len: usize,
    /// Overlays that select a variant; empty: none needed
    pub shapes: Vec<Patch>,
    /// See Target
    pub positions: Vec<usize>,
    pub cut_positions: Vec<usize>,
    pub weight: u64,
    pub check: std::sync::Arc<CheckFn>,
    pub walk: std::sync::Arc<dyn Fn(&[u8]) + Sync + Send>,
}

impl Cap {
    fn bases(&self) -> Vec<Vec<u8>> {
        if self.shapes.is_empty() {
            return patterns(self.len);
        }
        let mut out = vec![];
        for pat in patterns(self.len) {
            for p in &self.shapes {
                let mut img = pat.clone();
                for &(o, v) in p {
                    img[o] = v;
                }
                out.push(img);
            }
        }
        out
    }
    /// Images judged by the reference model
    pub fn target(&self) -> Target {
        let c = self.check.clone();
        self.configure(Target::new(self.name, self.len, move |d| c(d)))
    }
    fn configure(&self, mut t: Target) -> Target {
        t.bases = self.bases();
        t.positions = self.positions.clone();
        t.cut_positions = self.cut_positions.clone();
        t.weight = self.weight;
        t
    }
    /// Images on which the decoder and everything reachable from its result is executed
    pub fn walk_target(&self) -> Target {
        let w = self.walk.clone();
        self.configure(Target::new(self.name, self.len, move |d| {
            w(d);
            Ok("returned")
        }))
    }
}

fn cap(
    name: &'static str,
    property: &'static str,
    place: Place,
    len: usize,
    check: impl Fn(&[u8]) -> Verdict + Sync + Send + 'static,
    walk: impl Fn(&[u8]) + Sync + Send + 'static,
) -> Cap {
    Cap {
        name,
        property,
        place,
        len,
        shapes: vec![],
        positions: vec![],
        cut_positions: vec![],
        weight: 1,
        check: std::sync::Arc::new(check),
        walk: std::sync::Arc::new(walk),
    }
}

impl Cap {
    fn shapes(mut self, s: impl IntoIterator<Item = Patch>) -> Self {
        self.shapes = s.into_iter().collect();
        self
    }
    /// Big structures made of repeated entries and tables: deviations where decisions are made
    fn large(mut self, positions: impl IntoIterator<Item = usize>, cut: impl IntoIterator<Item = usize>, weight: u64) -> Self {
        self.positions = positions.into_iter().collect();
        self.cut_positions = cut.into_iter().collect();
        self.weight = weight;
        self
    }
}

/// The same position with each of the values
fn each(o: usize, vs: impl IntoIterator<Item = u8>) -> Vec<Patch> {
    vs.into_iter().map(|v| vec![(o, v)]).collect()
}
/// All combinations of both overlays
fn cross(a: Vec<Patch>, b: Vec<Patch>) -> Vec<Patch> {
    a.iter()
        .flat_map(|x| b.iter().map(move |y| x.iter().chain(y).copied().collect()))
        .collect()
}

pub fn registry() -> Vec<Cap> {
    use Layout::*;
    use Place::*;
    let mut v = vec![
        cap("power_management", "C11", Cap(0x01, Normal), 6, pm::check, pm::walk),
        cap("agp", "C11", Cap(0x02, Normal), 32, agp::check, agp::walk).shapes(each(4, [0x00, 0x02, 0xff])),
        cap("vpd", "C11", Cap(0x03, Normal), 6, vpd::check, vpd::walk),
        cap("slot_identification", "C11", Cap(0x04, Normal), 2, slot::check, slot::walk),
        cap("msi", "C11", Cap(0x05, Normal), 24, msi::check, msi::walk)
            .shapes(cross(each(0, [0x00, 0x80, 0x81, 0x7f]), each(1, [0, 1, 0xff]))),
        cap("debug_port", "C11", Cap(0x0a, Normal), 2, debug_port::check, debug_port::walk),
        cap("bridge_subsystem", "C11", Cap(0x0d, Bridge), 6, ssvid::check, ssvid::walk),
        cap("msi_x", "C11", Cap(0x11, Normal), 10, msi_x::check, msi_x::walk),
        cap("sata", "C11", Cap(0x12, Normal), 6, sata::check, sata::walk),
        cap("advanced_features", "C11", Cap(0x13, Normal), 4, af::check, af::walk),
        // PCI-X and HyperTransport
        cap("pci_x", "C12", Cap(0x07, Normal), 24, pci_x::check, pci_x::walk).shapes(each(1, [0x00, 0x10, 0x20, 0x30])),
        cap("pci_x_bridge", "C12", Cap(0x07, Bridge), 32, pci_x::check_bridge, pci_x::walk_bridge)
            .shapes(each(1, [0x00, 0x10, 0x20, 0x30])),
        cap("hypertransport", "C12", Cap(0x08, Normal), 28, ht::check, ht::walk)
            .shapes([each(1, [0x00, 0x1f, 0x20, 0x3f, 0x88]), cross(each(0, [0x01, 0x02, 0x03]), each(1, [0xa8]))].concat()),
        cap("hypertransport_types", "C12", Cap(0x08, Normal), 12, ht::check, ht::walk).shapes(each(1, (0..32).map(|t| t << 3))),
        // PCI Express
        cap("pci_express", "C13", Cap(0x10, Normal), 60, pci_express::check, pci_express::walk)
            .shapes([0x42, 0x02, 0x62, 0xa2, 0x92, 0x82, 0x41, 0x12, 0x52, 0x72, 0xc3, 0x01].map(|b| vec![(0, b)])),
    ];
    // Enhanced allocation, flattening portal bridge, vendor-specific
    for (name, l, o) in [("enhanced_allocation", Normal, 2usize), ("enhanced_allocation_bridge", Bridge, 6)] {
        let (h, w) = (header(l), header(l));
        // two entries; address widths as the low bits of base and max offset say
        let mut shapes = vec![];
        for (b, m, size) in [(0, 0, 2), (2, 0, 3), (0, 2, 3), (2, 2, 4)] {
            let second = o + 4 * (size as usize + 1);
            shapes.push(vec![
                (0, 2), (1, 0), (o, size), (o + 4, b), (o + 8, m),
                (second, 2), (second + 4, 0), (second + 8, 0),
            ]);
        }
        v.push(
            cap(name, "C14", Cap(0x14, l), o + 36, move |d| ea::check(d, &h), move |d| ea::walk(d, &w)).shapes(shapes),
        );
    }
    v.push(cap("flattening_portal_bridge", "C14", Cap(0x15, Bridge), 34, fpb::check, fpb::walk));
    for (name, l) in [("vendor_specific", Normal), ("vendor_specific_virtio", Virtio)] {
        let (h, w) = (header(l), header(l));
        v.push(
            cap(name, "C14", Cap(0x09, l), 24, move |d| vendor::check(d, &h), move |d| vendor::walk(d, &w))
                .shapes(cross(each(0, [3, 16, 17, 20, 21, 24]), each(1, [1, 2, 3, 4, 5]))),
        );
    }
    let c15 = "C15";
    v.push(cap("aer", c15, Ext(0x01), 72, aer::check, aer::walk).shapes(each(0x15, [0x00, 0x08, 0xff])));
    v.push(
        cap("dpc", c15, Ext(0x1d), 66, dpc::check, dpc::walk)
            .shapes(cross(each(0, [0x00, 0x20]), each(1, [0x00, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0f]))),
    );
    // Virtual channels. Counts, entry sizes, table offsets (in 16-byte units) and selections.
    let vc_shapes = |at: usize| -> Vec<Patch> {
        let mut s = vec![];
        for (count, bits, vat, select, pat, phases) in [
            (0u8, 0u8, 0u8, 0u8, 0u8, 0u8),
            (0, 0, 2, 1, 3, 1),
            (1, 1, 3, 1, 4, 1),
            (1, 2, 3, 2, 5, 2),
            (2, 3, 4, 3, 4, 1),
            (7, 0, 8, 1, 9, 4),
            (3, 0, 1, 1, 1, 1),
        ] {
            let mut p = vec![(at, count), (at + 1, bits << 2), (at + 7, vat), (at + 8, select << 1), (at + 9, 0)];
            for e in 0..=count as usize {
                let o = at + 12 + 12 * e;
                p.push((o + 3, pat));
                p.push((o + 6, phases << 1));
            }
            s.push(p);
        }
        s
    };
    let vc_positions = |at: usize| (at..at + 12 + 24 + 2).chain([at + 44, at + 60, at + 61, at + 76, at + 100, at + 130]);
    let vc_cut = |at: usize| [at, at + 1, at + 7, at + 8, at + 15, at + 18];
    v.push(cap("virtual_channel", "C16", Ext(0x02), 176, vc::check, vc::walk).shapes(vc_shapes(0)).large(vc_positions(0), vc_cut(0), 40));
    v.push(cap("virtual_channel_mfvc", "C16", Ext(0x09), 140, vc::check, vc::walk).shapes(vc_shapes(0)).large(vc_positions(0), vc_cut(0), 40));
    v.push(cap("multifunction_virtual_channel", "C16", ExtAtHeader(0x08), 180, mfvc::check, mfvc::walk).shapes(vc_shapes(4)).large(vc_positions(4), vc_cut(4), 40));
    v.push(
        cap("rc_link_declaration", "C17", Ext(0x05), 12 + 16 * 3, rcld::check, rcld::walk)
            .shapes(cross(each(1, [1, 2, 3, 4]), vec![vec![(12, 0), (20, 0)], vec![(12, 2), (20, 3)]])),
    );
    v.push(cap("rc_internal_link_control", "C17", Ext(0x06), 8, rcilc::check, rcilc::walk));
    v.push(cap("rc_event_collector", "C17", Ext(0x07), 8, rcec::check, rcec::walk));
    v.push(cap("rcrb_header", "C17", ExtAtHeader(0x0a), 20, rcrb::check, rcrb::walk));
    let c18 = "C18";
    v.push(
        cap("access_control_services", c18, Ext(0x0d), 4 + 12, acs::check, acs::walk)
            .shapes(each(1, [0, 1, 8, 31, 32, 33, 64, 65, 96])),
    );
    v.push(cap("ari", c18, Ext(0x0e), 4, ari::check, ari::walk));
    v.push(cap("ats", c18, Ext(0x0f), 4, ats::check, ats::walk));
    v.push(cap("sr_iov", c18, Ext(0x10), 0x3e, sriov::check, sriov::walk).shapes([
        vec![],
        vec![(0x20, 0x04), (0x28, 0x01), (0x2c, 0x0c), (0x34, 0x04)],
        vec![(0x20, 0x08), (0x24, 0x02), (0x28, 0x06), (0x2c, 0x03), (0x30, 0x0f), (0x34, 0x00)],
    ]));
    v.push(cap("multicast", c18, ExtAtHeader(0x12), 0x32, multicast::check, multicast::walk));
    v.push(cap("page_request", c18, Ext(0x13), 12, pri::check, pri::walk));
    v.push(
        cap("resizable_bar", c18, ExtAtHeader(0x15), 4 + 8 * 6, rebar::check, rebar::walk)
            .shapes(each(8, [0x20, 0x41, 0x62, 0x83, 0xa4, 0xc5, 0x00, 0xe0])),
    );
    v.push(
        cap("vf_resizable_bar", c18, ExtAtHeader(0x24), 4 + 8 * 3, rebar::check, rebar::walk).shapes(each(8, [0x20, 0x41, 0x62])),
    );
    v.push(
        cap("tph_requester", c18, Ext(0x17), 8 + 16, tph::check, tph::walk).shapes(cross(
            each(1, [0x00, 0x02, 0x03, 0x04, 0x06]),
            vec![vec![(2, 0), (3, 0)], vec![(2, 7), (3, 0)], vec![(2, 8), (3, 0)], vec![(2, 7), (3, 1)]],
        )),
    );
    v.push(cap("pasid", c18, Ext(0x1b), 4, pasid::check, pasid::walk));
    let c19 = "C19";
    v.push(cap("device_serial_number", c19, Ext(0x03), 8, dsn::check, dsn::walk));
    v.push(cap("power_budgeting", c19, Ext(0x04), 12, pb::check, pb::walk));
    v.push(cap("configuration_access_correlation", c19, ExtAtHeader(0x0c), 8, cac::check, cac::walk));
    v.push(
        cap("dynamic_power_allocation", c19, ExtAtHeader(0x16), 16 + 32, dpa::check, dpa::walk)
            .shapes(each(4, [0, 1, 7, 15, 30, 31])),
    );
    v.push(cap("latency_tolerance", c19, Ext(0x18), 4, ltr::check, ltr::walk));
    v.push(cap("secondary_pci_express", c19, Ext(0x19), 8 + 10, secondary::check, secondary::walk));
    v.push(
        cap("protocol_multiplexing", c19, ExtAtHeader(0x1a), 16 + 16, pmux::check, pmux::walk).shapes(each(4, [0, 1, 2, 3, 4, 5])),
    );
    v.push(cap("ln_requester", c19, ExtAtHeader(0x1c), 8, lnr::check, lnr::walk));
    v.push(cap("l1_pm_substates", c19, Ext(0x1e), 12, l1pm::check, l1pm::walk));
    v.push(cap("precision_time", c19, Ext(0x1f), 8, ptm::check, ptm::walk));
    v.push(cap("m_phy", c19, ExtAtHeader(0x20), 0x1c, mphy::check, mphy::walk));
    v.push(cap("frs_queuing", c19, ExtAtHeader(0x21), 16, frs::check, frs::walk));
    v.push(cap("readiness_time", c19, ExtAtHeader(0x22), 12, rtr::check, rtr::walk));
    v.push(
        cap("vendor_specific_ext", "C20", Ext(0x0b), 4 + 12, vsec::check, vsec::walk)
            .shapes([vec![(2, 0x80), (3, 0)], vec![(2, 0x40), (3, 1)], vec![(2, 0x41), (3, 1)], vec![(2, 0x50), (3, 1)]]),
    );
    v.push(
        cap("designated_vendor_specific", "C20", ExtAtHeader(0x23), 64, dvsec::check, dvsec::walk).shapes(cross(
            vec![vec![(4, 0x98), (5, 0x1e)], vec![(4, 0x86), (5, 0x80)]],
            cross(
                // length 56 (exactly one CXL device structure), 55, 60
                vec![vec![(6, 0x80), (7, 3)], vec![(6, 0x71), (7, 3)], vec![(6, 0xc2), (7, 3)]],
                vec![vec![(8, 0), (9, 0)], vec![(8, 3), (9, 0)]],
            ),
        )),
    );
    v.push(
        cap("cxl_dvsec_ids", "C20", ExtAtHeader(0x23), 16, dvsec::check, dvsec::walk)
            .shapes(each(8, 0..16).into_iter().map(|mut p| {
                p.extend([(4, 0x98), (5, 0x1e), (6, 0x01), (7, 1), (9, 0)]);
                p
            })),
    );
    v
}
