// name, guid, operating system of every known type
pub const TYPES: &[(&str, pt::Type, u128, pt::OperatingSystem)] = &[
    ("UNUSED", pt::UNUSED, 0x00000000000000000000000000000000, pt::OperatingSystem::None),
    ("MBR", pt::MBR, 0x024dee4133e711d39d690008c781f39f, pt::OperatingSystem::None),
    ("EFI", pt::EFI, 0xc12a7328f81f11d2ba4b00a0c93ec93b, pt::OperatingSystem::None),
    ("BIOS", pt::BIOS, 0x2168614864496e6f744e656564454649, pt::OperatingSystem::None),
    ("FLASH", pt::FLASH, 0xd3bfe2de3daf11dfba40e3a556d89593, pt::OperatingSystem::None),
    ("SONY_BOOT", pt::SONY_BOOT, 0xf4019732066e4e128273346c5641494f, pt::OperatingSystem::None),
    ("LENOVO_BOOT", pt::LENOVO_BOOT, 0xbfbfafe7a34f448a9a5b6213eb736c22, pt::OperatingSystem::None),
    ("MICROSOFT_RESERVED", pt::MICROSOFT_RESERVED, 0xe3c9e3160b5c4db8817df92df00215ae, pt::OperatingSystem::Windows),
    ("BASIC", pt::BASIC, 0xebd0a0a2b9e5443387c068b6b72699c7, pt::OperatingSystem::Windows),
    ("WINDOWS_METADATA", pt::WINDOWS_METADATA, 0x5808c8aa7e8f42e085d2e1e90434cfb3, pt::OperatingSystem::Windows),
    ("WINDOWS_DATA", pt::WINDOWS_DATA, 0xaf9b60a014314f62bc683311714a69ad, pt::OperatingSystem::Windows),
    ("WINDOWS_RECOVERY", pt::WINDOWS_RECOVERY, 0xde94bba406d14d40a16abfd50179d6ac, pt::OperatingSystem::Windows),
    ("WINDOWS_PARALLEL", pt::WINDOWS_PARALLEL, 0x37affc90ef7d4e9691c32d7ae055b174, pt::OperatingSystem::Windows),
    ("WINDOWS_STORAGESPACES", pt::WINDOWS_STORAGESPACES, 0xe75caf8ff6804ceeafa3b001e56efc2d, pt::OperatingSystem::Windows),
    ("HPUNIX_DATA", pt::HPUNIX_DATA, 0x75894c1e3aeb11d3b7c17b03a0000000, pt::OperatingSystem::HpUnix),
    ("HPUNIX_SERVICE", pt::HPUNIX_SERVICE, 0xe2a1e72832e311d6a6827b03a0000000, pt::OperatingSystem::HpUnix),
    ("LINUX_FS", pt::LINUX_FS, 0x0fc63daf848347728e793d69d8477de4, pt::OperatingSystem::Linux),
    ("LINUX_RAID", pt::LINUX_RAID, 0xa19d880f05fc4d3ba006743f0f84911e, pt::OperatingSystem::Linux),
    ("LINUX_ROOT_X86", pt::LINUX_ROOT_X86, 0x44479540f29741b29af7d131d5f0458a, pt::OperatingSystem::Linux),
    ("LINUX_ROOT_X64", pt::LINUX_ROOT_X64, 0x4f68bce3e8cd4db196e7fbcaf984b709, pt::OperatingSystem::Linux),
    ("LINUX_ROOT_ARM_32", pt::LINUX_ROOT_ARM_32, 0x69dad7102ce44e3cb16c21a1d49abed3, pt::OperatingSystem::Linux),
    ("LINUX_ROOT_ARM_64", pt::LINUX_ROOT_ARM_64, 0xb921b0451df041c3af444c6f280d3fae, pt::OperatingSystem::Linux),
    ("LINUX_SWAP", pt::LINUX_SWAP, 0x0657fd6da4ab43c484e50933c84b4f4f, pt::OperatingSystem::Linux),
    ("LINUX_LVM", pt::LINUX_LVM, 0xe6d6d379f50744c2a23c238f2a3df928, pt::OperatingSystem::Linux),
    ("LINUX_HOME", pt::LINUX_HOME, 0x933ac7e12eb44f13b8440e14e2aef915, pt::OperatingSystem::Linux),
    ("LINUX_SRV", pt::LINUX_SRV, 0x3b8f842520e04f3b907f1a25a76f98e8, pt::OperatingSystem::Linux),
    ("LINUX_DMCRYPT", pt::LINUX_DMCRYPT, 0x7ffec5c92d0049b789413ea10a5586b7, pt::OperatingSystem::Linux),
    ("LINUX_LUKS", pt::LINUX_LUKS, 0xca7d7ccb63ed4c53861c1742536059cc, pt::OperatingSystem::Linux),
    ("LINUX_RESERVED", pt::LINUX_RESERVED, 0x8da63339000760c0c436083ac8230908, pt::OperatingSystem::Linux),
    ("FREEBSD_DATA", pt::FREEBSD_DATA, 0x516e7cb46ecf11d68ff800022d09712b, pt::OperatingSystem::FreeBsd),
    ("FREEBSD_BOOT", pt::FREEBSD_BOOT, 0x83bd6b9d7f4111dcbe0b001560b84f0f, pt::OperatingSystem::FreeBsd),
    ("FREEBSD_SWAP", pt::FREEBSD_SWAP, 0x516e7cb56ecf11d68ff800022d09712b, pt::OperatingSystem::FreeBsd),
    ("FREEBSD_UFS", pt::FREEBSD_UFS, 0x516e7cb66ecf11d68ff800022d09712b, pt::OperatingSystem::FreeBsd),
    ("FREEBSD_VINIUM", pt::FREEBSD_VINIUM, 0x516e7cb86ecf11d68ff800022d09712b, pt::OperatingSystem::FreeBsd),
    ("FREEBSD_ZFS", pt::FREEBSD_ZFS, 0x516e7cba6ecf11d68ff800022d09712b, pt::OperatingSystem::FreeBsd),
    ("DRAGONFLY_DATA", pt::DRAGONFLY_DATA, 0x3d48ce541d1611dc869601301bb8a9f5, pt::OperatingSystem::DragonFlyBsd),
    ("MACOS_HFSPLUS", pt::MACOS_HFSPLUS, 0x48465300000011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_UFS", pt::MACOS_UFS, 0x55465300000011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_ZFS", pt::MACOS_ZFS, 0x6a898cc31dd211b299a6080020736631, pt::OperatingSystem::MacOs),
    ("MACOS_RAID", pt::MACOS_RAID, 0x52414944000011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_RAID_OFFLINE", pt::MACOS_RAID_OFFLINE, 0x524149445f4f11aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_RECOVERY", pt::MACOS_RECOVERY, 0x426f6f74000011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_LABEL", pt::MACOS_LABEL, 0x4c6162656c0011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_TV_RECOVERY", pt::MACOS_TV_RECOVERY, 0x5265636f766511aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_CORE", pt::MACOS_CORE, 0x53746f72616711aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("MACOS_SOFTRAID_STATUS", pt::MACOS_SOFTRAID_STATUS, 0xb6fa30da92d24a9a96f1871ec6486200, pt::OperatingSystem::MacOs),
    ("MACOS_SOFTRAID_SCRATCH", pt::MACOS_SOFTRAID_SCRATCH, 0x2e31346519b9463f81268a7993773801, pt::OperatingSystem::MacOs),
    ("MACOS_SOFTRAID_VOLUME", pt::MACOS_SOFTRAID_VOLUME, 0xfa709c7e65b14593bfd5e71d61de9b02, pt::OperatingSystem::MacOs),
    ("MACOS_SOFTRAID_CACHE", pt::MACOS_SOFTRAID_CACHE, 0xbbba6df5f46f4a898f598765b2727503, pt::OperatingSystem::MacOs),
    ("MACOS_APFS", pt::MACOS_APFS, 0x7c3457ef000011aaaa1100306543ecac, pt::OperatingSystem::MacOs),
    ("SOLARIS_BOOT", pt::SOLARIS_BOOT, 0x6a82cb451dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_ROOT", pt::SOLARIS_ROOT, 0x6a85cf4d1dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_SWAP", pt::SOLARIS_SWAP, 0x6a87c46f1dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_BACKUP", pt::SOLARIS_BACKUP, 0x6a8b642b1dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_VAR", pt::SOLARIS_VAR, 0x6a8ef2e91dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_HOME", pt::SOLARIS_HOME, 0x6a90ba391dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_ALT", pt::SOLARIS_ALT, 0x6a9283a51dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_RESERVED1", pt::SOLARIS_RESERVED1, 0x6a945a3b1dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_RESERVED2", pt::SOLARIS_RESERVED2, 0x6a9630d11dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_RESERVED3", pt::SOLARIS_RESERVED3, 0x6a9807671dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_RESERVED4", pt::SOLARIS_RESERVED4, 0x6a96237f1dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("SOLARIS_RESERVED5", pt::SOLARIS_RESERVED5, 0x6a8d2ac71dd211b299a6080020736631, pt::OperatingSystem::Solaris),
    ("NETBSD_SWAP", pt::NETBSD_SWAP, 0x49f48d32b10e11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("NETBSD_FFS", pt::NETBSD_FFS, 0x49f48d5ab10e11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("NETBSD_LFS", pt::NETBSD_LFS, 0x49f48d82b10e11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("NETBSD_RAID", pt::NETBSD_RAID, 0x49f48daab10e11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("NETBSD_CONCAT", pt::NETBSD_CONCAT, 0x2db519c4b10f11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("NETBSD_ENCRYPTED", pt::NETBSD_ENCRYPTED, 0x2db519ecb10f11dcb99b0019d1879648, pt::OperatingSystem::NetBsd),
    ("CHROME_KERNEL", pt::CHROME_KERNEL, 0xfe3a2a5d4f3241a7b725accc3285a309, pt::OperatingSystem::Chrome),
    ("CHROME_ROOTFS", pt::CHROME_ROOTFS, 0x3cb8e2023b7e47dd8a3c7ff2a13cfcec, pt::OperatingSystem::Chrome),
    ("CHROME_FUTURE", pt::CHROME_FUTURE, 0x2e0a753d9e4843b08337b15192cb1b5e, pt::OperatingSystem::Chrome),
    ("CHROME_RWFW", pt::CHROME_RWFW, 0xcab6e88eabf34102a07ad4bb9be3c1d3, pt::OperatingSystem::Chrome),
    ("COREOS_USR", pt::COREOS_USR, 0x5dfbf5f428484bacaa5e0d9a20b745a6, pt::OperatingSystem::CoreOs),
    ("COREOS_ROOTFS_RESIZE", pt::COREOS_ROOTFS_RESIZE, 0x3884dd4185824404b9a8e9b84f2df50e, pt::OperatingSystem::CoreOs),
    ("COREOS_OEM", pt::COREOS_OEM, 0xc95dc21adf0e43408d7b26cbfa9a03e0, pt::OperatingSystem::CoreOs),
    ("COREOS_ROOT_RAID", pt::COREOS_ROOT_RAID, 0xbe9067b9ea494f15b4f6f36f8c9e1818, pt::OperatingSystem::CoreOs),
    ("HAIKU_BFS", pt::HAIKU_BFS, 0x424653313ba310f1802a4861696b7521, pt::OperatingSystem::Haiku),
    ("MIDNIGHT_BOOT", pt::MIDNIGHT_BOOT, 0x85d5e45e237c11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("MIDNIGHT_DATA", pt::MIDNIGHT_DATA, 0x85d5e45a237c11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("MIDNIGHT_SWAP", pt::MIDNIGHT_SWAP, 0x85d5e45b237c11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("MIDNIGHT_UFS", pt::MIDNIGHT_UFS, 0x0394ef8b237e11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("MIDNIGHT_VINIUM", pt::MIDNIGHT_VINIUM, 0x85d5e45c237c11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("MIDNIGHT_ZFS", pt::MIDNIGHT_ZFS, 0x85d5e45d237c11e1b4b3e89a8f7fc3a7, pt::OperatingSystem::MidnightBsd),
    ("CEPH_JOURNAL", pt::CEPH_JOURNAL, 0x45b0969e9b034f30b4c6b4b80ceff106, pt::OperatingSystem::Ceph),
    ("CEPH_CRYPT_JOURNAL", pt::CEPH_CRYPT_JOURNAL, 0x45b0969e9b034f30b4c65ec00ceff106, pt::OperatingSystem::Ceph),
    ("CEPH_OSD", pt::CEPH_OSD, 0x4fbd7e299d2541b8afd0062c0ceff05d, pt::OperatingSystem::Ceph),
    ("CEPH_CRYPT", pt::CEPH_CRYPT, 0x4fbd7e299d2541b8afd05ec00ceff05d, pt::OperatingSystem::Ceph),
    ("CEPH_DISK_CREATION", pt::CEPH_DISK_CREATION, 0x89c57f982fe54dc089c1f3ad0ceff2be, pt::OperatingSystem::Ceph),
    ("CEPH_CRYPT_CREATION", pt::CEPH_CRYPT_CREATION, 0x89c57f982fe54dc089c15ec00ceff2be, pt::OperatingSystem::Ceph),
    ("OPENBSD_DATA", pt::OPENBSD_DATA, 0x824cc7a036a811e3890a952519ad3f61, pt::OperatingSystem::OpenBsd),
    ("QNX_FS", pt::QNX_FS, 0xcef5a9ad73bc460189f3cdeeeee321a1, pt::OperatingSystem::QNX),
    ("PLAN9_PART", pt::PLAN9_PART, 0xc91818f9802547af89d2f030d7000c2c, pt::OperatingSystem::Plan9),
    ("VMWARE_COREDUMP", pt::VMWARE_COREDUMP, 0x9d27538040ad11dbbf97000c2911d1b8, pt::OperatingSystem::VmWare),
    ("VMWARE_VMFS", pt::VMWARE_VMFS, 0xaa31e02a400f11db9590000c2911d1b8, pt::OperatingSystem::VmWare),
    ("VMWARE_RESERVED", pt::VMWARE_RESERVED, 0x9198effc31c011db8f78000c2911d1b8, pt::OperatingSystem::VmWare),
    ("ANDROID_BOOTLOADER", pt::ANDROID_BOOTLOADER, 0x2568845d23324675bc398fa5a4748d15, pt::OperatingSystem::Android),
    ("ANDROID_BOOTLOADER2", pt::ANDROID_BOOTLOADER2, 0x114eaffe15524022b26e9b053604cf84, pt::OperatingSystem::Android),
    ("ANDROID_BOOT", pt::ANDROID_BOOT, 0x49a4d17f93a345c1a0def50b2ebe2599, pt::OperatingSystem::Android),
    ("ANDROID_RECOVERY", pt::ANDROID_RECOVERY, 0x4177c7229e924aab864443502bfd5506, pt::OperatingSystem::Android),
    ("ANDROID_MISC", pt::ANDROID_MISC, 0xef32a33ba409486c91419ffb711f6266, pt::OperatingSystem::Android),
    ("ANDROID_META", pt::ANDROID_META, 0x20ac26be20b711e384c56cfdb94711e9, pt::OperatingSystem::Android),
    ("ANDROID_SYSTEM", pt::ANDROID_SYSTEM, 0x38f428e6d326425d91406e0ea133647c, pt::OperatingSystem::Android),
    ("ANDROID_CACHE", pt::ANDROID_CACHE, 0xa893ef21e428470a9e550668fd91a2d9, pt::OperatingSystem::Android),
    ("ANDROID_DATA", pt::ANDROID_DATA, 0xdc76dda95ac1491caf42a82591580c0d, pt::OperatingSystem::Android),
    ("ANDROID_PERSISTENT", pt::ANDROID_PERSISTENT, 0xebc597d020534b158b64e0aac75f4db1, pt::OperatingSystem::Android),
    ("ANDROID_FACTORY", pt::ANDROID_FACTORY, 0x8f68cc74c5e548dabe91a0c8c15e9c80, pt::OperatingSystem::Android),
    ("ANDROID_FASTBOOT", pt::ANDROID_FASTBOOT, 0x767941d0208511e3ad3b6cfdb94711e9, pt::OperatingSystem::Android),
    ("ANDROID_OEM", pt::ANDROID_OEM, 0xac6d7924eb714df8b48de267b27148ff, pt::OperatingSystem::Android),
    ("ONIE_BOOT", pt::ONIE_BOOT, 0x7412f7d5a1564b1381dc867174929325, pt::OperatingSystem::Onie),
    ("ONIE_CONFIG", pt::ONIE_CONFIG, 0xd4e6e2cd446946f3b5cb1bff57afc149, pt::OperatingSystem::Onie),
    ("PPC_BOOT", pt::PPC_BOOT, 0x9e1a2d38c6124316aa268b49521e5a8b, pt::OperatingSystem::PowerPc),
    ("FREEDESK_BOOT", pt::FREEDESK_BOOT, 0xbc13c2ff59e64262a352b275fd6f7172, pt::OperatingSystem::FreeDesktop),
    ("ATARI_DATA", pt::ATARI_DATA, 0x734e5afef61a11e6bc6492361f002671, pt::OperatingSystem::Atari),
];
