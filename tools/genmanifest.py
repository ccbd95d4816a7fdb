#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = "Executions of the real library under generated, hostile and stress workloads, each judged by an oracle; nothing is claimed beyond the executions counted in the evidence file."
T = {
 "C01": ("differential runtime monitor: encoding/json and an independent reference reader", "exploration"),
 "C02": ("runtime monitor against an independent RFC 8259 reader with byte extents", "exploration"),
 "C03": ("differential runtime monitor over runtime-built types: encoding/json as oracle", "exploration"),
 "C04": ("runtime monitor with chunking readers: slice decoding as oracle", "exploration"),
 "C05": ("fault injection at every read and write boundary with a conservation monitor", "fault_enumeration"),
 "C06": ("online monitor of decoder histories (offsets, buffered bytes, order, exactly once) against a stream model", "exploration"),
 "C07": ("differential runtime monitor over runtime-built values: encoding/json as oracle", "exploration"),
 "C08": ("round-trip runtime monitor across jzon and encoding/json", "exploration"),
 "C09": ("runtime monitor against math/big, strconv and encoding/json", "exploration"),
 "C10": ("runtime monitor against an independent string reader and encoding/json", "exploration"),
 "C11": ("online trace monitor of streamer call sequences against a document model", "exploration"),
 "C12": ("runtime monitor of memory sharing: snapshots before and after scribbling over every reachable byte, pool pollution and probing", "exploration"),
 "C19": ("online trace monitor of logged hook calls: order, arguments and count against encoding/json", "exploration"),
 "C20": ("differential runtime monitor over generated struct declarations: encoding/json as oracle", "exploration"),
 "C13": ("race detector and sequential-equivalence monitor under yield injection; exclusive-ownership monitor of pooled objects", "exploration"),
 "C14": ("memory sanitizers (clobberfree, gccheckmark, checkptr, AddressSanitizer) with collections and stack moves injected into hooks and readers", "exploration"),
 "C15": ("crash, panic, processor-time and liveness monitor over hostile inputs, destinations, values and call sequences", "exploration"),
 "C17": ("differential runtime monitor of configurations: encoding/json over twin types in which the options are spelled out, logged custom decoder calls", "exploration"),
 "C18": ("differential runtime monitor of configurations: encoding/json over twin values in which the options are spelled out", "exploration"),
 "C21": ("runtime monitor of reported errors against a reference reader that names cause and position", "exploration"),
 "C22": ("heap monitor: live memory after collections at marks within long streams and call histories, bytes allocated per call", "exploration"),
 "C23": ("the other monitors built for GOARCH=386 (plain, clobberfree, checkptr): encoding/json and fixed-size references on that platform as oracles; streams of more than 2^31 bytes", "exploration"),
 "C24": ("the other monitors built with other Go releases, without optimisations and with the debug tag (plain, clobberfree, checkptr): each release's encoding/json as oracle", "exploration"),
 "C16": ("online trace monitor of iterator calls against a reference reader", "exploration"),
}
checks, na = [], []
for i in ids:
    if i in T:
        t, l = T[i][:2]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"env VERIF_TIER=thorough ./check.sh {i}", technique=t, level=l, level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: all monitors use the public API, runtime-generated types, readers, writers and user hooks. Known findings and repairs: known_findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
