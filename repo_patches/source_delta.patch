From 73bc753fc5d25e0d4544bbbdbf21868956618415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 01/27] fix: end the capabilities list after an unreadable
 capability header

The pointer was left in place, so the iterator yielded the same error forever.
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 6c3f10a32d2fc046080aeccf9ace6f03450b3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:09 +0000
Subject: [PATCH 02/27] fix: mask reserved bits of next capability pointers

The bottom two bits of both next pointers are reserved; software must mask them.
---
 src/capabilities.rs          | 3 ++-
 src/extended_capabilities.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..878554c 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -366,7 +366,8 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        // The bottom two bits are reserved and must be masked
+        *pointer = *next & !0b11;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..ad4ea1f 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -279,8 +279,9 @@ fn parse_ecap<'a>(
     if *dword == 0 {
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
-    let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    let (id, version, next_cap_offset): (_, _, u16) = P3::<_, 16, 4, 12>(*dword).lsb_into();
+    // The bottom two bits are reserved and must be masked
+    *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
 
-- 
2.43.0


From 8808e98e122ccce8b4962342bee77f6ecbf67012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:17 +0000
Subject: [PATCH 03/27] fix: end capability lists that loop back to a visited
 capability

Both iterators followed a cyclic list forever.
---
 src/capabilities.rs          | 10 +++++++++-
 src/extended_capabilities.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 878554c..b79a0a9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,16 +342,24 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    // One bit per dword of configuration space, set for already visited pointers
+    visited: u64,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self { data, header, pointer: header.capabilities_pointer, visited: 0 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iterating if the list loops back to already visited capability
+        let slot = 1 << (self.pointer / 4);
+        if self.visited & slot != 0 {
+            return None;
+        }
+        self.visited |= slot;
         // Stop iterating if next pointer is null
         (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
     }
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index ad4ea1f..0b41a7d 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,10 +186,12 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    // One bit per dword of extended configuration space, set for already visited offsets
+    visited: [u32; 0x1000 / 4 / 32],
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self { ecs, next_capability_offset: ECS_OFFSET as u16, visited: [0; 0x1000 / 4 / 32] }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
@@ -199,6 +201,12 @@ impl<'a> Iterator for ExtendedCapabilities<'a> {
         if self.next_capability_offset == 0 {
             return None;
         }
+        // Stop iterating if the list loops back to already visited capability
+        let slot = self.next_capability_offset as usize / 4;
+        if self.visited[slot / 32] & (1 << (slot % 32)) != 0 {
+            return None;
+        }
+        self.visited[slot / 32] |= 1 << (slot % 32);
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 1f1b5506f1655b72b84e22c382833bf0fceeb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 04/27] fix: decode extended capabilities at their own offset

Thirteen capabilities that keep their header were decoded from the beginning of
the extended configuration space wherever they were located.
---
 src/extended_capabilities.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 0b41a7d..aa0aa3b 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -291,6 +291,7 @@ fn parse_ecap<'a>(
     // The bottom two bits are reserved and must be masked
     *next_capability_offset = next_cap_offset & !0b11;
 
+    let ecap_bytes = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -325,7 +326,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -333,7 +334,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -341,7 +342,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -362,7 +363,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -371,11 +372,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -391,7 +392,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -399,7 +400,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -415,23 +416,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From afa36ed1e53a130836259e0e69e6a5c8ed67e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 05/27] fix: recognize extended capabilities 2Dh - 34h

They are listed and have their own kinds, but were reported as reserved.
---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index aa0aa3b..b3797bc 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -444,6 +444,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From 7007fd33cf5e8e1652d9013d7d3e4c9ff05f11c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 06/27] fix: keep I/O address capability when encoding CardBus
 I/O ranges

32 bit ranges were encoded as 16 bit ones, unknown ranges panicked.
---
 src/header.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..752815b 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,22 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
+                let base_upper = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
                 let base_lower = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
                 let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
                 let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
                 [[base_upper, base_lower], [limit_upper, limit_lower]]
             },
-            _ => unreachable!(),
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                [[base_lower | io_address_capability as u16, base_upper], [limit_lower, limit_upper]]
+            },
         }
     }
 }
-- 
2.43.0


From 76eb06f38683448f1eaf15684e575878829783d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 07/27] fix: report unreadable Enhanced Allocation Type 1
 second DW as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From 6b102f1724e8cab581fb52a9b13b20067bd45242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 08/27] fix: PCI-X maximum cumulative read size starts from 1
 KB

---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..78d70b9 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From 255f55cb20148f228f360a32e00e71bfc471fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 09/27] fix: completion timeout range C starts from 250 ms

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From d221a783184ec5f9988a5249e81554597649948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 10/27] fix: read AER TLP Prefix Log from its own offset

The common registers were skipped twice.
---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 63a65c9315f5ed267e301b8408e088134a786c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 11/27] fix: ACS Egress Control Vector Size is 8 bits wide

---
 src/extended_capabilities/access_control_services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..a777e3e 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -124,7 +124,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From ad9eeb86f1a840a122ced6c78e05dd860063f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 12/27] fix: do not lose the last ACS Egress Control Vector
 dword

A vector with a size that is not a multiple of 32 was cut.
---
 src/extended_capabilities/access_control_services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index a777e3e..c1d16d2 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,7 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
-- 
2.43.0


From 8f156e3b493a052e4dca2f79f2b9a1e1f6b4aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 13/27] fix: DPA allocation array expects Substate_Max plus one
 entries in error

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From 5c9d54d3ca2c4947ded4df265d5a8911a4910174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 14/27] fix: encode LTR latency scale into the bits it is
 decoded from

---
 src/extended_capabilities/l1_pm_substates.rs             | 4 +++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..352166a 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,9 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        // Unlike LTR registers, scale is located in the top three bits
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 954e858c0628b229379946dc62f0c5ce99f8f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 15/27] fix: thermal power rail encoding is 111b

---
 src/extended_capabilities/power_budgeting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/power_budgeting.rs b/src/extended_capabilities/power_budgeting.rs
index fae7b14..b7a53fc 100644
--- a/src/extended_capabilities/power_budgeting.rs
+++ b/src/extended_capabilities/power_budgeting.rs
@@ -250,7 +250,7 @@ impl From<u8> for PowerRail {
             0b00 => Self::Power12v,
             0b01 => Self::Power3_3v,
             0b10 => Self::Power1_5vOr1_8v,
-            0b11 => Self::Thermal,
+            0b111 => Self::Thermal,
             v => Self::Reserved(v),
         }
     }
-- 
2.43.0


From 60826cff783e7e1c98e80cb0984587806cf505cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 16/27] fix: CXL range base has no reserved bits in it

Bits 27:0 of Memory_Base_Low are reserved.
---
 .../compute_express_link/pcie_dvsec_for_cxl_device.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
index 6ce5f83..a62a19a 100644
--- a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
+++ b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
@@ -735,7 +735,7 @@ impl CxlRangeBase {
 impl CxlRangeBase {
     pub fn new(low: u32, high: u32) -> Self {
         Self {
-            memory_base: (low as u64) | ((high as u64) << 32),
+            memory_base: ((low & 0xF000_0000) as u64) | ((high as u64) << 32),
         }
     }
 }
-- 
2.43.0


From 793e9fc9715ebc710fd175ccd0e55c2c48a52161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 17/27] fix: do not panic on short Lane Equalization Control
 data

---
 src/extended_capabilities/secondary_pci_express.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..b3b33f3 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,6 +79,8 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
+        // Available data may be shorter than link width requires
+        let end = end.min(self.ecl_data.len());
         EqualizationControlLanes::new(&self.ecl_data[..end])
     }
 }
-- 
2.43.0


From 803bb2978585cda9af9c2761206841d41807d4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 18/27] fix: make Lane Equalization Control fields readable

---
 src/extended_capabilities/secondary_pci_express.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index b3b33f3..4741698 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -178,13 +178,13 @@ impl<'a> Iterator for EqualizationControlLanes<'a> {
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct LaneEqualizationControl {
     /// Downstream Port 8.0 GT/s Transmitter Preset
-    downstream_port_transmitter_preset: TransmitterPreset,
+    pub downstream_port_transmitter_preset: TransmitterPreset,
     /// Downstream Port 8.0 GT/s Receiver Preset Hint
-    downstream_port_receiver_preset_hint: ReceiverPresetHint,
+    pub downstream_port_receiver_preset_hint: ReceiverPresetHint,
     /// Upstream Port 8.0 GT/s Transmitter Preset
-    upstream_port_transmitter_preset: TransmitterPreset,
+    pub upstream_port_transmitter_preset: TransmitterPreset,
     /// Upstream Port 8.0 GT/s Receiver Preset Hint
-    upstream_port_receiver_preset_hint: ReceiverPresetHint,
+    pub upstream_port_receiver_preset_hint: ReceiverPresetHint,
 }
 
 impl From<u16> for LaneEqualizationControl {
-- 
2.43.0


From e16f95de7909c8e1514a660cada4b9bad932750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 19/27] fix: do not panic on absent or short VC arbitration
 tables

---
 src/extended_capabilities/virtual_channel.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..417c65e 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,12 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
+        let start = (offset as usize * DQWORD).checked_sub(ECH_BYTES);
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        // There is no table with zero offset or beyond available data
+        let data = start
+            .and_then(|start| self.data.get(start..start + entries_number / 2))
+            .unwrap_or_default();
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,9 +139,11 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let start = (offset as usize * DQWORD).checked_sub(ECH_BYTES);
+        // There is no table with zero offset or beyond available data
+        let data = start
+            .and_then(|start| self.data.get(start..start + entry_size_bits * entries_number / 8))
+            .unwrap_or_default();
         PortArbitrationTable::new(data, entry_size_bits)
     }
 }
-- 
2.43.0


From 1369d0dac8cf30ef49c93aad242e84c42e592718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:02 +0000
Subject: [PATCH 20/27] fix: compare the pending byte of port arbitration
 tables

Two tables stepped into a byte compared equal whatever entries that byte
still held.
---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 417c65e..36e46d2 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -428,6 +428,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && self.byte == other.byte
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From a3e28ae1bb2b471601cc72636e350fdd03f469d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:48 +0000
Subject: [PATCH 21/27] fix: LTR capability data are 4 bytes

The error for lack of data asked for 8.
---
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 47277f0..ac9979b 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -52,7 +52,7 @@ impl TryFrom<&[u8]> for LatencyToleranceReporting {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Latency Tolerance Reporting",
-                size: 8,
+                size: 4,
             })?;
         Ok(Self {
             max_snoop_latency: From::<u16>::from(max_snoop_latency),
-- 
2.43.0


From 954fe611c1297d68f81cd79f66fb5dfbaf0bd68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:49 +0000
Subject: [PATCH 22/27] fix: Virtual Channel mandatory registers are 12 bytes

The error for lack of data asked for 8.
---
 src/extended_capabilities/virtual_channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 36e46d2..3c6c5ea 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -158,7 +158,7 @@ impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Virtual Channel",
-                size: 8,
+                size: 12,
             })?;
         Ok(Self {
             data: slice,
-- 
2.43.0


From 778bf2410d8d2167caedbc9c3be9cbc49d9441b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:14 +0000
Subject: [PATCH 23/27] fix: ACS egress control vector size 00h means 256 bits

---
 src/extended_capabilities/access_control_services.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index c1d16d2..34eecf2 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,7 +64,11 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
+        let size = match self.acs_capability.egress_control_vector_size {
+            // The encoding 00h indicates 256 bits
+            0 if self.acs_capability.acs_p2p_egress_control => 256,
+            size => size as usize,
+        };
         let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
-- 
2.43.0


From 549e6d54173de2ec5c6306fb400e9c7fd80e91a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 24/27] fix: slot power limit values F0h to F2h are 250, 275
 and 300 W

---
 src/capabilities/pci_express.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index ccb9f9d..f883139 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -723,12 +723,18 @@ impl SlotPowerLimit {
 impl Eq for SlotPowerLimit {}
 impl From<SlotPowerLimit> for f32 {
     fn from(cspl: SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        Self::from(&cspl)
     }
 }
 impl<'a> From<&'a SlotPowerLimit> for f32 {
     fn from(cspl: &SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        match cspl.value {
+            // Alternative encodings when the scale is 1.0x and the value exceeds EFh
+            0xF0 if cspl.scale == 1.0 => 250.0,
+            0xF1 if cspl.scale == 1.0 => 275.0,
+            0xF2 if cspl.scale == 1.0 => 300.0,
+            value => cspl.scale * value as f32,
+        }
     }
 }
 
-- 
2.43.0


From 6c3118714489f38774008cbf7a33a50fc8425415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:57 +0000
Subject: [PATCH 25/27] fix: fixed HyperTransport MSI mapping has no base
 address doublewords

---
 src/capabilities/hypertransport.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/capabilities/hypertransport.rs b/src/capabilities/hypertransport.rs
index ee019aa..9e0b620 100644
--- a/src/capabilities/hypertransport.rs
+++ b/src/capabilities/hypertransport.rs
@@ -129,6 +129,13 @@ impl<'a> TryFrom<&'a [u8]> for Hypertransport {
             0b10010 => Self::UnitIdClumping(UnitIdClumping {}),
             0b10011 => Self::ExtendedConfigurationSpaceAccess(ExtendedConfigurationSpaceAccess {}),
             0b10100 => Self::AddressMapping(AddressMapping {}),
+            // There are no base address doublewords in the fixed MSI mapping
+            0b10101 if cmd & 0b10 != 0 => Self::MsiMapping(MsiMapping {
+                enabled: cmd & 0b01 != 0,
+                fixed: true,
+                base_address_lower: MsiMapping::FIXED_BASE_ADDRESS,
+                base_address_upper: 0,
+            }),
             0b10101 => slice
                 .get(..MsiMapping::SIZE)
                 .and_then(|slice| <[u8; MsiMapping::SIZE]>::try_from(slice).ok())
@@ -893,7 +900,7 @@ pub struct AddressMapping {}
 pub struct MsiMapping {
     /// Indicating if the mapping is active
     pub enabled: bool,
-    /// Indicating if the next two doublewords for programming address are present in the
+    /// Indicating if the next two doublewords for programming address are not present in the
     /// capability
     pub fixed: bool,
     /// Holds the lower portion of the base address where the mapping of MSIs takes place. It is
@@ -904,6 +911,8 @@ pub struct MsiMapping {
 }
 impl MsiMapping {
     pub const SIZE: usize = 2 + 4 + 4;
+    /// Base address of the fixed mapping
+    pub const FIXED_BASE_ADDRESS: u32 = 0xfee0_0000;
     pub fn base_address(&self) -> u64 {
         let h = (self.base_address_upper as u64) << 32;
         let l = (self.base_address_lower as u64) & !0xfffff;
-- 
2.43.0


From 9dc5ef8167d1784611fac36f95f8158b766afaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 26/27] fix: do not panic when a 64-bit base address is
 collected into the last register

---
 src/header/bar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..8c5f642 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,7 +98,9 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(upper) = dwords.get_mut(i + 1) {
+                        *upper = (base_address >> 32) as u32;
+                    }
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
-- 
2.43.0


From e58dc8d78ddb1703ddb546f5a61c3725a527fd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 27/27] fix: keep reserved and broken 64-bit base addresses
 when collecting registers

---
 src/header/bar.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 8c5f642..a76cda3 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -105,7 +105,12 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
+                },
             }
 
         }
-- 
2.43.0

