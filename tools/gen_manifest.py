#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing (proptest)"
L = {  # id: (technique, note)
"S01": (T+": validity predicate over generated puzzles", "Random puzzles with up to 81 givens, minimal and published hard ones, conflicting and out-of-range givens; puzzles on which an independent solver needs more than 30000 nodes are not judged."),
"S02": (T+": differential against an independent bit-mask solver", "Solvability of every generated puzzle is decided by an independent solver within 30000 nodes; all puzzles of two equal givens are enumerated (or sampled evenly)."),
"S03": (T+": differential against a reference parser", "Mutated 81-digit texts and arbitrary Unicode."),
"S04": (T+": reference renderer and read-back", "Boards of digits; trusts imageproc's text drawing, which the repository's fixtures pin."),
"S05": (T+": error payload and absence of panics", "Byte slices of every length up to 1000 and arbitrary bytes; text."),
"S06": (T+" under AddressSanitizer, with a tracking allocator", "Every allocation of every case is checked for layout, double free, use after free and balance; matrices and pre-selection histories besides puzzles."),
"N01": (T+": validity predicate; enumeration of small grids", "Random pictures up to 12x12, structured ones to 30x30, perturbed clues, all clue lists of small grids."),
"N02": (T+": differential against an independent solver; enumeration of small grids", "Solvable by construction, or judged by an independent solver within 200000 nodes."),
"N03": (T+": robustness with expected errors", "Clue lists with zeros, huge numbers, missing lines; an allocation above 1 GiB counts as exhausting memory."),
"N04": (T+": differential against a reference parser", "Token-level generated text; lines that mix zeros with positive numbers are outside the property."),
"N05": (T+": reference renderer", "Clue lists of many shapes; trusts imageproc's text drawing, which the repository's fixtures pin."),
"N06": (T+": reference renderer", "Pictures on boards and noise, matching and mismatching sizes, absurd sizes."),
"N07": (T+": round trip through the whole pipeline", "Pictures up to 12x12 and every picture of 3x4 cells."),
"M01": (T+": spanning-tree predicate over seeded random mazes", "The random source below thread_rng is seeded per case, so that every maze is reproducible."),
"M02": (T+": walk over the walls, uniqueness of the route", "As M01."),
"M03": (T+": own distances from the entrance", "As M01."),
"M04": (T+": depth-first shape; statistical comparison with the exact distribution", "Exact distribution of all walks of 14 small sizes with Bernstein bounds at 1e-14 per comparison; frequencies against a reference walk at medium sizes."),
"M05": (T+": reference renderer by wall segments", "Arbitrary wall grids (built through deserialisation) and created mazes."),
"M06": (T+": reference renderer by route", "Created mazes of many sizes."),
"M07": (T+": reference walker", "Walks with revisits and exits on each side, images of any small size."),
"M08": (T+": round trip in JSON, CBOR and bincode", "Arbitrary grids and moves; created mazes."),
"I01": (T+": encode/decode round trip with an independent decoder path", "Images of many sizes and textures, printed boards; decoding by the image crate is trusted."),
"S07": (T+": round trip through the whole pipeline", "Subsets of complete grids; digits are read back from the exported pictures."),
"S08": (T+": processor time against an independent solver's guesses", "Minimal, published and random puzzles; bound some fifty times the usual time."),
"N08": (T+": processor time on puzzles that an independent line solver settles", "Up to 100x100 and 249x11; bound some twenty times the usual time."),
"M09": (T+": invariants of the exported pictures (flood fill, line following)", "Up to 90x90 and 900x9 cells."),
"M10": (T+": size, stack and processor time", "Up to several million cells on a 2 MiB stack; bounds some twenty times the usual time."),
"E01": (T+": the displayed message contains the offending part", "Generated refused inputs."),
"P01": (T+": processor time and peak memory against bounds linear in the size", "Up to several million characters, tens of megapixels, a million moves; bounds some twenty times the usual time and five times the usual memory."),
"R01": (T+", stateful: memory in use over three equal parts of a sequence of calls", "Up to 1200 calls of one function on different arguments; the calling thread's allocations."),
"X01": (T+": differential against subset search; enumeration of tiny matrices", "Through the guarded hook."),
"X02": (T+", stateful: model of pre-selection histories", "Through the guarded hook."),
"X03": (T+", stateful: naive partition model", "Through the guarded hook; up to 300000 elements."),
"U01": (T+": multiset model, frequencies with Bernstein bounds", "Through the guarded hook; bounds at 1e-14 per comparison."),
"C01": (T+", stateful: every call compared with the same call in a fresh process", "Sequences up to 1200 calls."),
"C02": (T+": concurrent sequences compared with the same calls made alone", "Two to four threads under the schedules that the operating system produces; schedules are not enumerated."),
}
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=under a cfg flag"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "puzzle_utils_verif", "enable": "RUSTFLAGS=\"--cfg puzzle_utils_verif\" cargo build (check.sh does so for X01-X03, U01 and S06; every other check uses the crate as its users see it)", "source_commits": hook},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
             "evidence_file": f"evidence/{i}.json", "technique": L[i][0], "level": "exploration", "level_note": L[i][1]} for i in ids if i in L],
 "not_applicable": []}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1); open(here + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for i in ids:
    f = f"{here}/evidence/{i}.json"
    if os.path.exists(f): jsonschema.validate(json.load(open(f)), s)
print(len(m["checks"]), "checks")
