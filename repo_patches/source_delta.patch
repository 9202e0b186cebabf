From de99ef9bbb6e380cfa831d0eeed881b873499070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:35 +0000
Subject: [PATCH 01/24] fix: stop the capabilities walk when a header is not
 available

A pointer past the end of the data left the pointer untouched, so the
iterator yielded the same error forever.
---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 03595f1e711dd6e542e6e0097989e2be8baa78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 02/24] fix: mask reserved low bits of next capability pointers

---
 src/capabilities.rs          | 5 +++--
 src/extended_capabilities.rs | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..f96f69c 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -345,7 +345,7 @@ pub struct Capabilities<'a> {
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        Self { data, header, pointer: header.capabilities_pointer & !0b11 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
@@ -366,7 +366,8 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        // Bottom two bits are reserved and should be masked
+        *pointer = *next & !0b11;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..f1dd000 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -280,7 +280,9 @@ fn parse_ecap<'a>(
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    // Bottom two bits are reserved and should be masked
+    let next_cap_offset: u16 = next_cap_offset;
+    *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
 
-- 
2.43.0


From 88ed45e94709575d8749a28ca3dadae65f13b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:59 +0000
Subject: [PATCH 03/24] fix: terminate iteration over looped capabilities lists

---
 src/capabilities.rs          | 11 ++++++++---
 src/extended_capabilities.rs | 11 ++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index f96f69c..3729175 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,18 +342,23 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// Already visited DWORDs (bit per DWORD), guards against looped list
+    visited: u64,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer & !0b11 }
+        Self { data, header, pointer: header.capabilities_pointer & !0b11, visited: 0 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        let visited = self.visited;
+        let slot = 1 << (self.pointer >> 2);
+        self.visited |= slot;
+        // Stop iterating if next pointer is null or list is looped
+        (self.pointer != 0 && visited & slot == 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index f1dd000..7024b1c 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,10 +186,12 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// Already visited DWORDs (bit per DWORD), guards against looped list
+    visited: [u64; 16],
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self { ecs, next_capability_offset: ECS_OFFSET as u16, visited: [0; 16] }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
@@ -199,6 +201,13 @@ impl<'a> Iterator for ExtendedCapabilities<'a> {
         if self.next_capability_offset == 0 {
             return None;
         }
+        let dword = (self.next_capability_offset >> 2) as usize;
+        let slot = 1 << (dword % 64);
+        // Stop iterating if list is looped
+        if self.visited[dword / 64] & slot != 0 {
+            return None;
+        }
+        self.visited[dword / 64] |= slot;
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From f9119801dbe9c4f2e454a3a1d7c23bf97cda1f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:10 +0000
Subject: [PATCH 04/24] fix: decode extended capabilities at their own offset

Thirteen extended capabilities were decoded from the start of the
Extended Configuration Space, not from their place in the list.
---
 src/extended_capabilities.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 7024b1c..d718be7 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -294,6 +294,8 @@ fn parse_ecap<'a>(
     *next_capability_offset = next_cap_offset & !0b11;
 
     let ecap_data = &bytes[ecap_data_offset..];
+    // Capability data with its own PCI Express Extended Capability Header
+    let bytes = &bytes[ecs_offset..];
 
     use ExtendedCapabilityKind as Kind;
     let kind = match id {
-- 
2.43.0


From 94574f4d49cc6df034dddcb99c72d5c10ad36534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:22 +0000
Subject: [PATCH 05/24] fix: recognize extended capability IDs 002Dh-0034h

---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index d718be7..2e5a615 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -447,6 +447,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From 18218419dc1ab14b31f14740320065274384aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:43 +0000
Subject: [PATCH 06/24] fix: keep I/O address capability when encoding
 IoAccessAddressRange

The 32-bit form lost its capability bit and the unknown form panicked.
---
 src/header.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..b30cbdc 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -764,14 +764,23 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
+                let base_upper = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
                 let base_lower = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
                 let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
                 let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
                 [[base_upper, base_lower], [limit_upper, limit_lower]]
             },
-            _ => unreachable!(),
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => {
+                let base_lower = base_lower & !0b11 | (io_address_capability as u16 & 0b11);
+                [[base_lower, base_upper], [limit_lower, limit_upper]]
+            },
         }
     }
 }
-- 
2.43.0


From 7643cc5c15d2321d1ee5df80a035db585763154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 07/24] fix: encode every kind of base address back to
 registers

Reserved and broken 64-bit memory spaces were dropped and a 64-bit
memory space in the last register panicked.
---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..a76cda3 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(upper) = dwords.get_mut(i + 1) {
+                        *upper = (base_address >> 32) as u32;
+                    }
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
+                },
             }
 
         }
-- 
2.43.0


From 30934d648f29e7c6c537ee0eb6cde8709ae5eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:05 +0000
Subject: [PATCH 08/24] fix: PCI-X maximum cumulative read size in bytes

An ADQ is 128 bytes, so 8 ADQs are 1 KB.
---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..78d70b9 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        1 << (self.0 + 10)
     }
 }
 
-- 
2.43.0


From e6d05ffdcc4636f5d2e104dd6fe44b2208934de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:08 +0000
Subject: [PATCH 09/24] fix: lower bound of PCI Express completion timeout
 range C is 250 ms

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From 30b6925b9a4aad692d1ce1434af38b3d5f163948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:11 +0000
Subject: [PATCH 10/24] fix: ACS egress control vector size is 8 bits wide

---
 src/extended_capabilities/access_control_services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..a777e3e 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -124,7 +124,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From 25f32b9c2f8e5fabe986786a488d6983344e1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:31 +0000
Subject: [PATCH 11/24] fix: do not drop the partially used DWORD of ACS egress
 control vector

---
 src/extended_capabilities/access_control_services.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index a777e3e..eccb599 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -65,7 +65,8 @@ pub struct AccessControlServices<'a> {
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
         let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        // Last DWORD of the vector can be used partially
+        let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
-- 
2.43.0


From 95387dc89eb43b029d758b68b35ff35636b13de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 12/24] fix: ACS egress control vector size 00h indicates 256
 bits

---
 src/extended_capabilities/access_control_services.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index eccb599..b252264 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,7 +64,11 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
+        let size = match self.acs_capability.egress_control_vector_size {
+            // The encoding 00h indicates 256 bits
+            0 if self.acs_capability.acs_p2p_egress_control => 256,
+            size => size as usize,
+        };
         // Last DWORD of the vector can be used partially
         let end = (size + u32::BITS as usize - 1) / (u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
-- 
2.43.0


From ed74d33acee2f3bad41ecd800811eb6dad2049a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:51 +0000
Subject: [PATCH 13/24] fix: read the AER TLP prefix log at its own offset

The slice already starts after the common registers.
---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 90e2fe4829d03b97fbf4a66d169a3acd4c927dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:54 +0000
Subject: [PATCH 14/24] fix: report the DPA allocation array length as
 Substate_Max plus one

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From 1ca79d30f72238b3a90abaeb53853e43a38439e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:57 +0000
Subject: [PATCH 15/24] fix: power budgeting thermal power rail is encoded as
 111b

---
 src/extended_capabilities/power_budgeting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/power_budgeting.rs b/src/extended_capabilities/power_budgeting.rs
index fae7b14..b7a53fc 100644
--- a/src/extended_capabilities/power_budgeting.rs
+++ b/src/extended_capabilities/power_budgeting.rs
@@ -250,7 +250,7 @@ impl From<u8> for PowerRail {
             0b00 => Self::Power12v,
             0b01 => Self::Power3_3v,
             0b10 => Self::Power1_5vOr1_8v,
-            0b11 => Self::Thermal,
+            0b111 => Self::Thermal,
             v => Self::Reserved(v),
         }
     }
-- 
2.43.0


From 1f5f451691de65ebc7763a7dcff6fb612e968430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:00 +0000
Subject: [PATCH 16/24] fix: do not panic on truncated lane equalization
 control registers

---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..4f43d42 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(self.ecl_data.get(..end).unwrap_or(self.ecl_data))
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From 59a9330131fc979149ba733d1a38381bf943c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:24 +0000
Subject: [PATCH 17/24] fix: encode LTR max latency scale where it is decoded
 from

The shift by 13 only fits the L1 PM Substates threshold layout.
---
 src/extended_capabilities/l1_pm_substates.rs             | 3 ++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..cb29a8f 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,8 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From a7980daadb558dd4ce017fe508194be3c45c2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:27 +0000
Subject: [PATCH 18/24] fix: do not panic on absent or truncated VC arbitration
 tables

---
 src/extended_capabilities/virtual_channel.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..d07f883 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,8 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
-        let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entries_number / 2);
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,11 +135,16 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
-        let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = self.table_data(offset, entry_size_bits * entries_number / 8);
         PortArbitrationTable::new(data, entry_size_bits)
     }
+    /// Table bytes or empty slice if the table is not present or not readable
+    fn table_data(&self, offset: u8, length: usize) -> &'a [u8] {
+        (offset as usize * DQWORD)
+            .checked_sub(ECH_BYTES)
+            .and_then(|start| self.data.get(start..start + length))
+            .unwrap_or_default()
+    }
 }
 impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
     type Error = ExtendedCapabilityDataError;
-- 
2.43.0


From af7040c80f6fe6f7ba3b824c782d3e1eb0c94220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:36 +0000
Subject: [PATCH 19/24] fix: ignore reserved bits of CXL range base low
 register

---
 .../compute_express_link/pcie_dvsec_for_cxl_device.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
index 6ce5f83..bc1ca84 100644
--- a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
+++ b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
@@ -735,7 +735,7 @@ impl CxlRangeBase {
 impl CxlRangeBase {
     pub fn new(low: u32, high: u32) -> Self {
         Self {
-            memory_base: (low as u64) | ((high as u64) << 32),
+            memory_base: ((low & 0xf000_0000) as u64) | ((high as u64) << 32),
         }
     }
 }
-- 
2.43.0


From 25e1770b3580ad5f059fbcd761dc159ee98bc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:53 +0000
Subject: [PATCH 20/24] fix: report an unreadable second DW of Enhanced
 Allocation as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From b233ced5854740177cc4e8495db5bca08d5ea8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:56 +0000
Subject: [PATCH 21/24] fix: reject vendor specific capability length 2 as a
 wrong length

---
 src/capabilities/vendor_specific.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities/vendor_specific.rs b/src/capabilities/vendor_specific.rs
index 1d35a50..421a094 100644
--- a/src/capabilities/vendor_specific.rs
+++ b/src/capabilities/vendor_specific.rs
@@ -78,6 +78,7 @@ impl<'a> VendorSpecific<'a> {
             // slice already without cap_id and next_ptr
             .and_then(|l| {
                 l.checked_sub(2)
+                    .filter(|size| *size > 0)
                     .ok_or(VendorSpecificError::Length { val: *l })
             })?
             .into();
-- 
2.43.0


From 37a18a2549d2b8faf3907657d892ea276493c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:03 +0000
Subject: [PATCH 22/24] fix: compare the buffered byte of port arbitration
 tables

Two partly consumed tables compared equal although the entries still held in
the buffered byte differed.
---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index d07f883..794e640 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -427,6 +427,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && self.byte == other.byte
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From 519d58aef8372b634f6ec2b2178702b2fb8570df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:26 +0000
Subject: [PATCH 23/24] fix: compare the state of link entries lists

---
 src/extended_capabilities/root_complex_link_declaration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..73a3c58 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -260,7 +260,7 @@ impl<'a> LinkEntries<'a> {
 
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
-        self.clone().eq(other.clone())
+        self.state == other.state && self.clone().eq(other.clone())
     }
 }
 impl<'a> Eq for LinkEntries<'a> {}
-- 
2.43.0


From 20c1ef3b15d3af11c0b618b4207790e72a73afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:15 +0000
Subject: [PATCH 24/24] fix: special encodings of slot power limit

---
 src/capabilities/pci_express.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index ccb9f9d..29cd236 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -723,12 +723,18 @@ impl SlotPowerLimit {
 impl Eq for SlotPowerLimit {}
 impl From<SlotPowerLimit> for f32 {
     fn from(cspl: SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        Self::from(&cspl)
     }
 }
 impl<'a> From<&'a SlotPowerLimit> for f32 {
     fn from(cspl: &SlotPowerLimit) -> Self {
-        cspl.scale * cspl.value as f32
+        match cspl.value {
+            // With scale 1.0x values above EFh are alternative encodings
+            0xF0 if cspl.scale == 1.0 => 250.0,
+            0xF1 if cspl.scale == 1.0 => 275.0,
+            0xF2 if cspl.scale == 1.0 => 300.0,
+            value => cspl.scale * value as f32,
+        }
     }
 }
 
-- 
2.43.0

