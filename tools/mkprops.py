#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

L, H, B, PT, M, T, D = ("src/lib.rs", "src/header/mod.rs", "src/header/builder.rs", "src/partition.rs",
                     "src/mbr.rs", "src/partition_types.rs", "src/disk.rs")

prop("C01", "A written table reads back exactly as it was in memory",
 "After a successful write, opening the device again with the same block size gives the same disk GUID and exactly the in-use partitions that were in memory: same partition numbers, type, unique GUID, first and last block, all 64 attribute bits, and name. Names come back cut to their first 36 UTF-16 code units; partitions removed or not in use before the write are gone from the device.",
 ["histories", "inputs", "configurations"],
 "every sequence of create/open/add/remove/update/write operations, both block sizes, every device size, every name, attribute word and block number (up to 64 bits)",
 "The tests write a handful of fixed tables with dense numbering, ASCII names, zero flags and tiny disks; they never reopen after removals, with gaps in the numbering, long or non-ASCII names, or blocks above 2^32.",
 [L, PT, H], "GptDisk::write_inplace, Partition::as_bytes/write_to_device, file_read_partitions",
 [("partitions", "in-memory map number -> entry"), ("entry array", "on-disk slots, slot i holds partition i+1")])

prop("C02", "After a write both on-disk copies are valid, equal and linked",
 "After a successful write with backup writing enabled, block 1 and the last block of the device each hold a header whose own checksum and entry-array checksum verify, with revision 1.0 and size 92, that states its own position and the other's position, and both agree on disk GUID, usable range, entry count and entry size. The two entry arrays are identical and the rest of each header block is zero, so opening with both headers required succeeds and either copy alone gives the same table. This, like everything else about writing, is for disks made by the library or whose header states block 1 as its position.",
 ["histories", "configurations"],
 "every history that ends in a successful write, including changed entry counts, disks opened from one surviving copy, and devices that were enlarged or replaced since the headers were built",
 "Tests check byte equality for two fixed images; no test reads the backup array back after the entry count grew or after the device changed size.",
 [L, H, B], "write_inplace, Header::file_write_header, HeaderBuilder::build, find_backup_lba",
 [("primary copy", "header at LBA1 + entry array"), ("backup copy", "entry array + header at last LBA")])

prop("C03", "Header layout: tables and usable range never overlap or leave the disk",
 "For any header the library builds (creating a disk, changing the table, or with the header builder), protective MBR, primary header, primary array, usable blocks, backup array and backup header are pairwise disjoint, in that order, and end exactly at the backup header's block; a new disk offers every block between the arrays, and a table made or replaced by the library has at least 128 entries. If the disk is too small for this, building fails with an error; arithmetic never wraps or panics, whatever sizes are asked for.",
 ["inputs", "configurations"],
 "every combination of backup position, entry count, entry size, requested usable range and block size, up to the integer limits",
 "Tests build headers for one 72-block geometry with 128 entries only.",
 [B, H], "HeaderBuilder::build, from_header, GptDisk::init_headers",
 [("first_usable/last_usable", "usable block range"), ("part_start", "start of the entry array"), ("num_parts, part_size", "array size")])

prop("C04", "Writing never alters a byte outside the table's own blocks",
 "A write changes only block 1, the blocks of the primary entry array, and (if the backup is not read-only) the blocks of the backup entry array and the last block, as described by the headers it writes. Block 0 and every block of the usable range stay byte-identical, and the device is never extended: a table which does not fit on it is refused.",
 ["histories", "inputs", "configurations"],
 "every history and configuration, both block sizes, every prior content of the device",
 "One test looks at a 10-block data area for one layout; others never compare untouched bytes.",
 [L, PT, H], "write_inplace, Partition::write_to_device, write_zero_entries_to_device, file_write_header")

prop("C05", "Only an explicit write touches the device; read-only disks refuse it",
 "Opening, creating, querying, editing, cloning or dropping a disk never changes the device. When the disk was not opened writable, writing fails with the read-only error and leaves the device untouched; switching devices applies the writable flag given with the new device. A configuration option that is not set has its documented default (read-only, 512-byte blocks, one valid header is enough, backup written, entry count fixed), and the last setting of an option counts.",
 ["histories", "configurations"],
 "every operation sequence under every configuration",
 "No test observes the device between operations or tries to write through a read-only disk.",
 [L], "GptConfig::open_from_device/create_from_device, GptDisk::write_inplace guard, with_disk_device/update_disk_device")

prop("C06", "A read-only backup is never modified",
 "With the read-only-backup option set, no operation changes a byte of the backup header or backup entry array, while the primary copy is still written completely and validly, and continues to point at the backup.",
 ["histories", "configurations"],
 "every history under the read-only-backup option, including entry count changes and repairs",
 "One test, one added partition, one geometry.",
 [L], "readonly_backup handling in init_headers and write_inplace")

prop("C07", "A crash during write never loses the table",
 "If the device loses power at any point during a write that overwrites an intact table (both copies intact, or only the copy the disk was opened from), any subset of the block writes not yet covered by a completed flush may be lost (for disks opened by path, of the writes not covered by a completed file sync); reopening the device afterwards still succeeds. It shows either the complete table from before the write or the complete new one, never a mixture (also when the device fails during the write; with a read-only backup, while the backup is intact).",
 ["crash_points", "histories", "configurations"],
 "every crash point, every lost subset of unflushed block writes, for every kind of table change",
 "No test interrupts a write or drops part of it.",
 [L, H], "order and flush barriers of array and header writes in write_inplace; fallback in open_from_device",
 [("durable medium", "what survives a crash"), ("pending writes", "issued since the last flush")])

prop("C08", "One intact copy is enough to open, and a write repairs the other",
 "When at least one copy (header plus its entry array) on the device is intact, opening succeeds with that copy's table (partitions, GUID, entry count and usable range all from one copy), preferring the primary; when none is, opening fails with an error. When both headers are required to be valid, opening fails if either is not (and may fail if an entry array is damaged). Writing a disk that was opened from one copy restores both copies.",
 ["inputs", "fault_sequences", "configurations"],
 "every pattern of damage to headers and arrays of either copy, under every configuration",
 "One test zeroes the whole primary area once; damage to an entry array or to the backup is never tried.",
 [L, H, PT], "open_from_device fallback, read_primary_header, read_backup_header, file_read_partitions, write_inplace")

prop("C09", "Damaged metadata is never returned as data",
 "Whatever bytes of a header or entry array are altered on the device, opening never returns a table that differs from a copy whose header checksum and array checksum both verify: damage leads to the other copy or to an error. The header accessors report an error for a header that failed validation, and a valid header as it is on the device.",
 ["inputs", "fault_sequences"],
 "every position and pattern of corruption in headers and entry arrays",
 "No test corrupts single bytes, and none corrupts an entry array.",
 [H, PT, L], "file_read_header CRC check, file_read_partitions CRC check")

prop("C10", "Adding a partition takes the first free run that fits, aligned",
 "Adding a partition of a given byte size places it at the lowest correctly aligned block of the lowest free run that can hold it, covering exactly the size rounded up to whole blocks, entirely inside the usable range and never overlapping a partition in use. It fails for lack of space exactly when no free run can hold it; the new entry carries the given type, flags and name and a fresh unique GUID, and the number of the new partition is returned. A size of zero is never accepted (documented panic) and changes nothing.",
 ["histories", "inputs"],
 "every set of existing partitions, every size and alignment up to 64-bit limits, both block sizes",
 "Tests add a few unaligned partitions to an empty disk; alignment is never tested at all, nor fragmented free space.",
 [L], "GptDisk::add_partition over find_free_sectors")

prop("C11", "Adding at a fixed position succeeds exactly when the range is free",
 "Adding a partition with given number, first block and length succeeds only if every block of that range is a usable block not covered by a partition in use and the number is not in use, and then the entry has exactly that number and range. Otherwise it fails (number already used, or no space) and nothing changes. A length or number of zero is never accepted (documented panic) and changes nothing.",
 ["histories", "inputs"],
 "every set of existing partitions, every requested range up to 64-bit limits, every number",
 "Tests only add at positions known to be free.",
 [L], "GptDisk::add_partition_at")

prop("C12", "The free-space list is exactly the unused usable blocks",
 "The list of free runs contains every usable block that no in-use partition covers and no other block, as maximal runs in ascending order with correct lengths. This holds for any partition map, including overlapping entries, entries outside the usable range, single-block entries and entries whose last block precedes the first (which cover the blocks between), and never panics.",
 ["histories", "inputs"],
 "every partition map reachable by edits, by supplying a whole map, or by opening a foreign disk",
 "find_free_sectors is only exercised indirectly on well-formed, densely packed tables.",
 [L], "GptDisk::find_free_sectors")

prop("C13", "Partition numbers are handed out lowest-free and never reassigned",
 "A new partition gets the lowest number from 1 that is absent or marks an unused entry, and adding, removing or writing never changes the number or contents of any other partition. The next-number query returns that same number, or none when all table slots are used.",
 ["histories"],
 "every history of adds (with and without explicit number), removals, map replacements, writes and reopens",
 "Tests only add consecutively numbered partitions and never remove in the middle and reopen.",
 [L], "find_next_partition_id, add_partition, add_partition_at, write_inplace slot assignment")

prop("C14", "The entry count changes only with permission, never shrinks",
 "Unless changing the partition count is allowed, any edit that would need another number of table entries fails with the count-would-change error; with permission the count grows to hold the highest number and the headers are recomputed. The count never shrinks and a write never fails, or leaves the device half-written, because the table is too small.",
 ["histories", "configurations"],
 "every history of edits with sparse or dense numbering under both permission settings, for disks with fewer, exactly or more than 128 entries",
 "One test grows densely from 128 to 129 entries; sparse numbers and later shrinking paths are never taken.",
 [L, H, B], "num_parts_would_change, init_headers, add_partition, add_partition_at, update_partitions, write_inplace overflow check")

prop("C15", "A failed operation leaves the disk object unchanged",
 "If an edit or a table replacement returns an error, the partitions, headers, GUID and free-space list seen through the API are exactly as before the call.",
 ["histories", "fault_sequences", "inputs"],
 "every failing call: no space, number in use, count would change, disk too small for the grown table, or device errors while measuring the device",
 "Tests only match on one error value and never look at the state afterwards.",
 [L], "error paths of add_partition, add_partition_at, update_partitions, init_headers")

prop("C16", "Removing and replacing partitions affects exactly the named entries",
 "Removing by number or by unique GUID removes exactly the entry with that number, or the lowest-numbered entry with that GUID, returns its number, and returns nothing and changes nothing if there is none. Taking the partitions returns the whole map and leaves an empty one; replacing the map installs exactly the given map; a map with an entry number zero is never accepted (documented panic); freed blocks become available again.",
 ["histories"],
 "every partition map and every removal or replacement, including duplicates and absent numbers",
 "remove_partition_by_guid and take_partitions have no test; removal is used once on the last numbers.",
 [L], "remove_partition, remove_partition_by_guid, take_partitions, update_partitions")

prop("C17", "The disk GUID is what was set, and reaches both headers on write",
 "The disk GUID reported is the one read at open, given at creation, or last set; after a successful write both headers on the device (or the primary alone with a read-only backup) carry it and a reopened disk reports it. Nothing else changes it.",
 ["histories", "configurations"],
 "every history mixing GUID updates with edits, growth, device changes, writes and reopens",
 "update_guid has no test.",
 [L], "update_guid, init_headers, write_inplace header construction")

prop("C18", "No device content makes opening or inspecting panic",
 "Opening a device with arbitrary content, including headers with valid checksums but extreme or nonsensical fields, returns either an error or a disk. Querying free space, alignment, partition sizes and next number, adding, removing, and replacing partitions on that disk return results or errors and never panic (except for the documented zero-argument panics).",
 ["inputs"],
 "every device content and size, every header and entry field value",
 "Tests open only well-formed images and zeroed disks.",
 [H, PT, L, B], "file_read_header, find_backup_lba, file_read_partitions, find_free_sectors, HeaderBuilder::build")

prop("C19", "Device errors are reported; short or interrupted transfers do not matter",
 "If a write or flush of the device fails, the write returns an error, and if a read or seek fails it returns an error or has put the complete table on the device nevertheless; a failed write changes neither the partitions nor the GUID the object holds, so a later retry without failures produces the complete table. An open that meets a failing read or seek either returns an error or the table of an intact copy. Devices that transfer fewer bytes than asked per call, or report interruption, give the same results as ones that do not.",
 ["fault_sequences"],
 "a failure at every single device operation of open and write, and every pattern of short transfers and interruptions",
 "Tests use devices that never fail and never transfer partially.",
 [L, H, PT], "error propagation in write_inplace, file_write_header, partentry_checksum, file_read_header; use of write_all/read_exact")

prop("C20", "MBR operations touch only their own bytes and round-trip",
 "A new protective record holds one partition of type EE from block 1 of the given size; overwriting block 0 writes exactly the 512 bytes of the record; the conservative update changes only the four partition records and the signature; boot code and disk signature writers change only their 440 and 4 bytes. Reading a record back yields every field written, a missing 55 AA signature, a wrong length or a failing device is an error, and each operation that succeeds leaves the device position where it was. ",
 ["inputs", "histories"],
 "every record content, prior block-0 content, device position and block size",
 "Tests use one default record on an empty file and never look at neighbouring bytes, positions or record fields.",
 [M], "ProtectiveMBR::{from_bytes,from_disk,to_bytes,overwrite_lba0,update_conservative,set_*}, PartRecord, read/write_bootcode, read/write_disk_signature")

prop("C21", "When write returns, everything is flushed (and synced for files)",
 "When a write returns success, no byte it wrote is still waiting for a flush of the device: the last thing done after the last device write is a successful flush, and for disks opened or created by path a successful file sync. A failing flush or sync makes the write fail.",
 ["histories", "fault_sequences", "configurations"],
 "every write under every configuration, for path-opened, path-created, device-backed and cloned disks",
 "Tests cannot see flushes or syncs.",
 [L], "write_inplace flush and sync_all, GptConfig::open/create")

prop("C22", "Partition type lookup by name, GUID text and GUID value agree",
 "Looking a partition type up by its name, by its GUID text in any letter case or accepted GUID notation, or by GUID value gives the same type with the registered GUID and operating system; an unregistered GUID is kept as it is without an operating system, and other text is an error. Types survive being written to and read from a disk. Operating system labels are recognised by exactly their own text.",
 ["inputs"],
 "every registered type and every unregistered GUID or text, in every accepted notation and case",
 "Tests look at four types.",
 [T, "src/macros.rs", PT], "partition_types! macro: FromStr, From<Uuid>, constants")

prop("C23", "Partition size and offset arithmetic is exact or an error",
 "A partition's length in blocks, length in bytes and start in bytes are the exact mathematical values for the given block size; when last precedes first, or a value does not fit 64 bits, an error is returned instead. They never wrap or panic. The only block sizes are 512 and 4096, all their conversions agree, and any other number is refused; the partition attributes are the three lowest flag bits (platform, no block IO, bootable).",
 ["inputs"],
 "every first and last block (64-bit), every number as block size, every flag word",
 "Tests sample five values.",
 [PT, D], "Partition::{sectors_len,bytes_len,bytes_start}, LogicalBlockSize")

prop("C24", "Alignment query gives the largest common power of two up to 2048",
 "The alignment query returns 0 for an empty map and otherwise the largest power of two not above 2048 that divides the first block of every partition in use, independent of their order. Any value it returns can be passed as alignment when adding a partition.",
 ["histories", "inputs"],
 "every partition map",
 "One test with alignment 1.",
 [L], "GptDisk::calculate_alignment, add_partition alignment handling")

prop("C25", "Cloned and re-targeted disks are independent and complete",
 "A clone or a disk re-targeted to another device starts with the same configuration, GUID, headers and partitions, and edits or writes through one never show in the other or its device. Writing to the new device, whatever its size, puts a complete valid table there with the backup in its last block, or fails with an error if it does not fit; switching the device in place returns the previous device unchanged.",
 ["histories", "configurations"],
 "every history that clones or switches devices of equal, larger or smaller size",
 "One test re-targets to a device of equal size.",
 [L], "Clone for GptDisk, with_disk_device, update_disk_device, take_device, write_inplace")

prop("C26", "Stand-alone header and entry helpers agree with the disk object",
 "A header written with the stand-alone header writers, and entries written with the stand-alone entry writer followed by a header write, are read back unchanged by the stand-alone readers and by opening the disk; a header is refused at the wrong side (primary after backup or backup before primary). Zeroing entries clears exactly the given slots.",
 ["inputs", "histories"],
 "every header, slot index, entry, block size and entry range",
 "Only the GptDisk path and one fixed header are tested.",
 [H, PT, D], "write_header, read_header, Header::write_primary/write_backup, Partition::write/write_to_device/write_zero_entries_to_device, read_partitions, read_disk")

prop("C27", "Growing the entry table never swallows a partition's blocks",
 "When the number of table entries grows, no block newly reserved for the headers or entry arrays belongs to a partition in use, so the grown table never overwrites partition data; a growth that would need such blocks is refused.",
 ["histories", "inputs"],
 "every growth of the entry count with every placement of partitions at the edges of the usable range",
 "The existing growth test reserves blocks of its own partitions and never looks at the data.",
 [L, B], "init_headers, HeaderBuilder::build, add_partition, add_partition_at, update_partitions")

prop("C28", "Writing a table that is already on the device changes nothing",
 "If the headers and entries a disk object would write are already on its device, byte for byte and in both copies, because this or another object wrote them or because a conforming program did and the disk was opened, then writing succeeds and leaves every byte of the device, and the object, as they were. So writing twice is the same as writing once, edits that cancel out leave no trace, and an opened table that nobody edited (entry count, usable range, entry positions, attributes and names) is written back exactly as it was found.",
 ["histories", "inputs"],
 "every history which ends in a write of what is on the device already, every well-formed table of another program",
 "No test writes twice or looks at unchanged bytes.",
 [L, H, PT, B], "write_inplace, init_headers, HeaderBuilder::from_header, Header::to_bytes, Partition::as_bytes")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
