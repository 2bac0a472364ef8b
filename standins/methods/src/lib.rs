//! Stand-in for the `methods` crate, whose build needs the zkVM toolchain: names of native builds of the guests.
pub const MAINNET_ELF: &[u8] = b"standin-elf:guest_mainnet";
pub const SEPOLIA_ELF: &[u8] = b"standin-elf:guest_sepolia";
pub const TEST_HARNESS_ELF: &[u8] = b"standin-elf:guest_test_harness";
