--------------------------------- MODULE Types ---------------------------------
EXTENDS TLC
(* The registered partition types: <<name, GUID, operating system>> *)
Registered == {
  <<"UNUSED", "00000000000000000000000000000000", "None">>,
  <<"MBR", "024dee4133e711d39d690008c781f39f", "None">>,
  <<"EFI", "c12a7328f81f11d2ba4b00a0c93ec93b", "None">>,
  <<"BIOS", "2168614864496e6f744e656564454649", "None">>,
  <<"FLASH", "d3bfe2de3daf11dfba40e3a556d89593", "None">>,
  <<"SONY_BOOT", "f4019732066e4e128273346c5641494f", "None">>,
  <<"LENOVO_BOOT", "bfbfafe7a34f448a9a5b6213eb736c22", "None">>,
  <<"MICROSOFT_RESERVED", "e3c9e3160b5c4db8817df92df00215ae", "Windows">>,
  <<"BASIC", "ebd0a0a2b9e5443387c068b6b72699c7", "Windows">>,
  <<"WINDOWS_METADATA", "5808c8aa7e8f42e085d2e1e90434cfb3", "Windows">>,
  <<"WINDOWS_DATA", "af9b60a014314f62bc683311714a69ad", "Windows">>,
  <<"WINDOWS_RECOVERY", "de94bba406d14d40a16abfd50179d6ac", "Windows">>,
  <<"WINDOWS_PARALLEL", "37affc90ef7d4e9691c32d7ae055b174", "Windows">>,
  <<"WINDOWS_STORAGESPACES", "e75caf8ff6804ceeafa3b001e56efc2d", "Windows">>,
  <<"HPUNIX_DATA", "75894c1e3aeb11d3b7c17b03a0000000", "HpUnix">>,
  <<"HPUNIX_SERVICE", "e2a1e72832e311d6a6827b03a0000000", "HpUnix">>,
  <<"LINUX_FS", "0fc63daf848347728e793d69d8477de4", "Linux">>,
  <<"LINUX_RAID", "a19d880f05fc4d3ba006743f0f84911e", "Linux">>,
  <<"LINUX_ROOT_X86", "44479540f29741b29af7d131d5f0458a", "Linux">>,
  <<"LINUX_ROOT_X64", "4f68bce3e8cd4db196e7fbcaf984b709", "Linux">>,
  <<"LINUX_ROOT_ARM_32", "69dad7102ce44e3cb16c21a1d49abed3", "Linux">>,
  <<"LINUX_ROOT_ARM_64", "b921b0451df041c3af444c6f280d3fae", "Linux">>,
  <<"LINUX_SWAP", "0657fd6da4ab43c484e50933c84b4f4f", "Linux">>,
  <<"LINUX_LVM", "e6d6d379f50744c2a23c238f2a3df928", "Linux">>,
  <<"LINUX_HOME", "933ac7e12eb44f13b8440e14e2aef915", "Linux">>,
  <<"LINUX_SRV", "3b8f842520e04f3b907f1a25a76f98e8", "Linux">>,
  <<"LINUX_DMCRYPT", "7ffec5c92d0049b789413ea10a5586b7", "Linux">>,
  <<"LINUX_LUKS", "ca7d7ccb63ed4c53861c1742536059cc", "Linux">>,
  <<"LINUX_RESERVED", "8da63339000760c0c436083ac8230908", "Linux">>,
  <<"FREEBSD_DATA", "516e7cb46ecf11d68ff800022d09712b", "FreeBsd">>,
  <<"FREEBSD_BOOT", "83bd6b9d7f4111dcbe0b001560b84f0f", "FreeBsd">>,
  <<"FREEBSD_SWAP", "516e7cb56ecf11d68ff800022d09712b", "FreeBsd">>,
  <<"FREEBSD_UFS", "516e7cb66ecf11d68ff800022d09712b", "FreeBsd">>,
  <<"FREEBSD_VINIUM", "516e7cb86ecf11d68ff800022d09712b", "FreeBsd">>,
  <<"FREEBSD_ZFS", "516e7cba6ecf11d68ff800022d09712b", "FreeBsd">>,
  <<"DRAGONFLY_DATA", "3d48ce541d1611dc869601301bb8a9f5", "DragonFlyBsd">>,
  <<"MACOS_HFSPLUS", "48465300000011aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_UFS", "55465300000011aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_ZFS", "6a898cc31dd211b299a6080020736631", "MacOs">>,
  <<"MACOS_RAID", "52414944000011aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_RAID_OFFLINE", "524149445f4f11aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_RECOVERY", "426f6f74000011aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_LABEL", "4c6162656c0011aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_TV_RECOVERY", "5265636f766511aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_CORE", "53746f72616711aaaa1100306543ecac", "MacOs">>,
  <<"MACOS_SOFTRAID_STATUS", "b6fa30da92d24a9a96f1871ec6486200", "MacOs">>,
  <<"MACOS_SOFTRAID_SCRATCH", "2e31346519b9463f81268a7993773801", "MacOs">>,
  <<"MACOS_SOFTRAID_VOLUME", "fa709c7e65b14593bfd5e71d61de9b02", "MacOs">>,
  <<"MACOS_SOFTRAID_CACHE", "bbba6df5f46f4a898f598765b2727503", "MacOs">>,
  <<"MACOS_APFS", "7c3457ef000011aaaa1100306543ecac", "MacOs">>,
  <<"SOLARIS_BOOT", "6a82cb451dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_ROOT", "6a85cf4d1dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_SWAP", "6a87c46f1dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_BACKUP", "6a8b642b1dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_VAR", "6a8ef2e91dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_HOME", "6a90ba391dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_ALT", "6a9283a51dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_RESERVED1", "6a945a3b1dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_RESERVED2", "6a9630d11dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_RESERVED3", "6a9807671dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_RESERVED4", "6a96237f1dd211b299a6080020736631", "Solaris">>,
  <<"SOLARIS_RESERVED5", "6a8d2ac71dd211b299a6080020736631", "Solaris">>,
  <<"NETBSD_SWAP", "49f48d32b10e11dcb99b0019d1879648", "NetBsd">>,
  <<"NETBSD_FFS", "49f48d5ab10e11dcb99b0019d1879648", "NetBsd">>,
  <<"NETBSD_LFS", "49f48d82b10e11dcb99b0019d1879648", "NetBsd">>,
  <<"NETBSD_RAID", "49f48daab10e11dcb99b0019d1879648", "NetBsd">>,
  <<"NETBSD_CONCAT", "2db519c4b10f11dcb99b0019d1879648", "NetBsd">>,
  <<"NETBSD_ENCRYPTED", "2db519ecb10f11dcb99b0019d1879648", "NetBsd">>,
  <<"CHROME_KERNEL", "fe3a2a5d4f3241a7b725accc3285a309", "Chrome">>,
  <<"CHROME_ROOTFS", "3cb8e2023b7e47dd8a3c7ff2a13cfcec", "Chrome">>,
  <<"CHROME_FUTURE", "2e0a753d9e4843b08337b15192cb1b5e", "Chrome">>,
  <<"CHROME_RWFW", "cab6e88eabf34102a07ad4bb9be3c1d3", "Chrome">>,
  <<"COREOS_USR", "5dfbf5f428484bacaa5e0d9a20b745a6", "CoreOs">>,
  <<"COREOS_ROOTFS_RESIZE", "3884dd4185824404b9a8e9b84f2df50e", "CoreOs">>,
  <<"COREOS_OEM", "c95dc21adf0e43408d7b26cbfa9a03e0", "CoreOs">>,
  <<"COREOS_ROOT_RAID", "be9067b9ea494f15b4f6f36f8c9e1818", "CoreOs">>,
  <<"HAIKU_BFS", "424653313ba310f1802a4861696b7521", "Haiku">>,
  <<"MIDNIGHT_BOOT", "85d5e45e237c11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"MIDNIGHT_DATA", "85d5e45a237c11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"MIDNIGHT_SWAP", "85d5e45b237c11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"MIDNIGHT_UFS", "0394ef8b237e11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"MIDNIGHT_VINIUM", "85d5e45c237c11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"MIDNIGHT_ZFS", "85d5e45d237c11e1b4b3e89a8f7fc3a7", "MidnightBsd">>,
  <<"CEPH_JOURNAL", "45b0969e9b034f30b4c6b4b80ceff106", "Ceph">>,
  <<"CEPH_CRYPT_JOURNAL", "45b0969e9b034f30b4c65ec00ceff106", "Ceph">>,
  <<"CEPH_OSD", "4fbd7e299d2541b8afd0062c0ceff05d", "Ceph">>,
  <<"CEPH_CRYPT", "4fbd7e299d2541b8afd05ec00ceff05d", "Ceph">>,
  <<"CEPH_DISK_CREATION", "89c57f982fe54dc089c1f3ad0ceff2be", "Ceph">>,
  <<"CEPH_CRYPT_CREATION", "89c57f982fe54dc089c15ec00ceff2be", "Ceph">>,
  <<"OPENBSD_DATA", "824cc7a036a811e3890a952519ad3f61", "OpenBsd">>,
  <<"QNX_FS", "cef5a9ad73bc460189f3cdeeeee321a1", "QNX">>,
  <<"PLAN9_PART", "c91818f9802547af89d2f030d7000c2c", "Plan9">>,
  <<"VMWARE_COREDUMP", "9d27538040ad11dbbf97000c2911d1b8", "VmWare">>,
  <<"VMWARE_VMFS", "aa31e02a400f11db9590000c2911d1b8", "VmWare">>,
  <<"VMWARE_RESERVED", "9198effc31c011db8f78000c2911d1b8", "VmWare">>,
  <<"ANDROID_BOOTLOADER", "2568845d23324675bc398fa5a4748d15", "Android">>,
  <<"ANDROID_BOOTLOADER2", "114eaffe15524022b26e9b053604cf84", "Android">>,
  <<"ANDROID_BOOT", "49a4d17f93a345c1a0def50b2ebe2599", "Android">>,
  <<"ANDROID_RECOVERY", "4177c7229e924aab864443502bfd5506", "Android">>,
  <<"ANDROID_MISC", "ef32a33ba409486c91419ffb711f6266", "Android">>,
  <<"ANDROID_META", "20ac26be20b711e384c56cfdb94711e9", "Android">>,
  <<"ANDROID_SYSTEM", "38f428e6d326425d91406e0ea133647c", "Android">>,
  <<"ANDROID_CACHE", "a893ef21e428470a9e550668fd91a2d9", "Android">>,
  <<"ANDROID_DATA", "dc76dda95ac1491caf42a82591580c0d", "Android">>,
  <<"ANDROID_PERSISTENT", "ebc597d020534b158b64e0aac75f4db1", "Android">>,
  <<"ANDROID_FACTORY", "8f68cc74c5e548dabe91a0c8c15e9c80", "Android">>,
  <<"ANDROID_FASTBOOT", "767941d0208511e3ad3b6cfdb94711e9", "Android">>,
  <<"ANDROID_OEM", "ac6d7924eb714df8b48de267b27148ff", "Android">>,
  <<"ONIE_BOOT", "7412f7d5a1564b1381dc867174929325", "Onie">>,
  <<"ONIE_CONFIG", "d4e6e2cd446946f3b5cb1bff57afc149", "Onie">>,
  <<"PPC_BOOT", "9e1a2d38c6124316aa268b49521e5a8b", "PowerPc">>,
  <<"FREEDESK_BOOT", "bc13c2ff59e64262a352b275fd6f7172", "FreeDesktop">>,
  <<"ATARI_DATA", "734e5afef61a11e6bc6492361f002671", "Atari">>}

\* the texts OperatingSystem::from_str knows
OsTexts == [x \in {"Ceph", "Chrome", "DragonFlyBsd", "FreeBsd", "FreeDesktop", "Haiku", "Linux",
                    "MidnightBsd", "Onie", "PowerPc"} |-> x]
           @@ ("unused" :> "None") @@ ("android" :> "Android") @@ ("atari" :> "Atari")
           @@ ("HP-UX" :> "HpUnix") @@ ("MacOS" :> "MacOs") @@ ("Solaris Illumos" :> "Solaris")

TypeNames == {t[1] : t \in Registered}
TypeGuids == {t[2] : t \in Registered}
ByName == [n \in TypeNames |-> CHOOSE t \in Registered : t[1] = n]
ByGuid == [g \in TypeGuids |-> CHOOSE t \in Registered : t[2] = g]
\* names and GUIDs are unique, so that the lookups are functions
ASSUME \A s, t \in Registered : (s[1] = t[1] \/ s[2] = t[2]) => s = t
\* the label of any GUID: unregistered ones have none
OsOf(g) == IF g \in TypeGuids THEN ByGuid[g][3] ELSE "None"
==============================================================================
