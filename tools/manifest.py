#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
C = {
"C01": (MON+"decoding executions judged by an independent executable format model", "exploration",
  "Every supported type in every context and version, thousands of generated, truncated and damaged payloads per type; trusts the hand-written format model in h/spec."),
"C02": (MON+"encoded bytes judged by an independent executable format model", "exploration",
  "Every supported type, version and flag set with generated values, plus unrepresentable values; trusts the format model."),
"C03": (MON+"round-trip oracle over generated values, payloads and whole files", "exploration",
  "Oracle needs no model: bytes and values are compared with themselves after a round trip."),
"C04": (MON+"panic, watchdog and operation-budget monitors over hostile inputs", "exploration",
  "Counting readers enforce a linear operation budget; every entry point and every mp4tool command; inputs up to 64 KiB."),
"C05": (MON+"allocation, read-volume and data-limit monitors over inputs with extreme declared sizes", "exploration",
  "Bytes allocated measured by the Go runtime, bytes read by the reader, tool memory by a hard data limit; three recorded findings."),
"C06": (MON+"differential oracle over surroundings of the same payload, reader position monitor", "exploration",
  "The same payload is decoded alone and inside different surroundings; needs no format model for the comparison."),
"C07": (MON+"recorded walk traces compared with the generated forest", "exploration",
  "Handlers misbehave at random (read, copy, seek, expand twice or late); trace must equal the model's."),
"C08": (MON+"walk traces and registry queries judged by a model of contexts", "exploration",
  "Random forests mixing scopes; trusts the context rules of the model."),
"C09": (MON+"extraction results judged by matching the generated forest", "exploration",
  "Random paths with wildcards, overlaps, duplicates and parents."),
"C10": (MON+"random writer programs judged by a model writer, sparse stream for sizes beyond 4 GiB", "exploration",
  "Bytes and box records after every call compared with the model."),
"C11": (MON+"header reads and writes judged by a model at all size boundaries", "exploration",
  "Virtual-offset readers reach the ends of the 64-bit range."),
"C12": (MON+"probe results compared with generated movies", "exploration",
  "Expected results are built together with the movie by an independent generator."),
"C13": (MON+"IDR search and bit rates judged by a model", "exploration",
  "Generated sample data with random NAL units; exact integer model of the rates."),
"C14": (MON+"differential oracle over reader and writer delivery modes", "exploration",
  "All operations under six delivery modes and buffering compared with an in-memory reader."),
"C15": (MON+"fault injection at every reader and writer operation with result oracle", "fault_enumeration",
  "Every operation index of every generated execution fails once (one-shot, persistent, partial)."),
"C16": ("Go race detector over concurrent operations with result oracle", "exploration",
  "Race detector plus comparison with sequential results; interleavings as the scheduler and injected yields give them."),
"C17": (MON+"rendered text compared with an independent renderer", "exploration",
  "All types, extreme values, hostile strings; trusts the independent renderer."),
"C18": (MON+"generated user-defined box declarations judged by a model interpreter", "exploration",
  "Random struct declarations built by reflection, registered and compared with a model interpreter of the declaration."),
"C19": (MON+"random bit-stream programs judged by a bit-vector model", "exploration",
  "Every result, error and position compared after every step."),
"C20": (MON+"command output judged by an independent model of the listing", "exploration",
  "mp4tool is run as a process on generated, truncated and unprocessable files."),
"C21": (MON+"edited files compared with the edited model forest", "exploration",
  "mp4tool is run as a process on generated files with random options."),
"C22": (MON+"divided files and playlists compared with the generated movie", "exploration",
  "mp4tool is run as a process on generated fragmented movies in scratch directories."),
"C23": (MON+"accessor results judged by a model over all field values", "exploration",
  "Every accessor of every box type, all versions, extreme values."),
"C24": (MON+"deep snapshots and aliasing monitors around operations", "exploration",
  "Inputs snapshotted before and compared after; outputs overwritten to reveal sharing."),
}
checks, na = [], []
for p in sorted(C):
    tech, level, note = C[p]
    if os.path.exists(f"{here}/h/props/{p.lower()}.go"):
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks were needed in /repo: the monitors sit in readers, writers, processes and an overlay package that re-exports internal/bitio and internal/util."},
          open(f"{here}/MANIFEST.json", "w"), indent=1)
