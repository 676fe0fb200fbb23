#!/usr/bin/env python3
"""One-off: took the registry of partition types from the pinned revision. The results are
committed and are the oracle for C22; no check runs this."""
import re, sys
s = open(sys.argv[1]).read()
s = s[s.index('partition_types! {'):]
m = re.findall(r'\(\s*([A-Z0-9_]+)\s*,\s*"([0-9A-Fa-f-]+)"\s*,\s*OperatingSystem::(\w+)\s*,?\s*\)', s)
with open('/verif/harness/src/types_table.rs', 'w') as f:
    f.write('//! The registered partition types: name, GUID, operating system, constant.\n')
    f.write('use gpt::partition_types as t;\n\n')
    f.write('pub fn table() -> Vec<(&\'static str, &\'static str, &\'static str, t::Type)> {\n    vec![\n')
    for n, g, o in m:
        f.write(f'        ("{n}", "{g}", "{o}", t::{n}),\n')
    f.write('    ]\n}\n')
with open('/verif/spec/Types.tla', 'w') as f:
    f.write('--------------------------------- MODULE Types ---------------------------------\n')
    f.write('(* The registered partition types: <<name, GUID, operating system>> *)\n')
    f.write('Registered == {\n')
    f.write(',\n'.join(f'  <<"{n}", "{g.replace("-", "").lower()}", "{o}">>' for n, g, o in m))
    f.write('}\n\nTypeNames == {t[1] : t \\in Registered}\nTypeGuids == {t[2] : t \\in Registered}\n')
    f.write('ByName == [n \\in TypeNames |-> CHOOSE t \\in Registered : t[1] = n]\n')
    f.write('ByGuid == [g \\in TypeGuids |-> CHOOSE t \\in Registered : t[2] = g]\n')
    f.write('\\* names and GUIDs are unique, so that the lookups are functions\n')
    f.write('ASSUME \\A s, t \\in Registered : (s[1] = t[1] \\/ s[2] = t[2]) => s = t\n')
    f.write('\\* the label of any GUID: unregistered ones have none\n')
    f.write('OsOf(g) == IF g \\in TypeGuids THEN ByGuid[g][3] ELSE "None"\n')
    f.write('='*78 + '\n')
