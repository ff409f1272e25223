#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = {
 "C01": ("stateful property-based testing against a vector model", "random histories of constructor, read and write calls on images of random shape and sample type; every accessor compared with the model after each step, expected panics included"),
 "C02": ("property-based testing against a model", "generated images and functions; mapped, in-place and per-pixel forms compared with direct loops"),
 "C03": ("property-based testing against an enumeration model", "all small shapes enumerated and larger ones generated; size hint compared with the true remainder at every step"),
 "C04": ("property-based testing against a clamp/offset model", "windows smaller and larger than the image, corners and edges favoured"),
 "C05": ("property-based testing: reference model and round trips", "special floats and full integer ranges generated; conversions compared with f64 arithmetic"),
 "C06": ("property-based testing against an integer model, with and without SIMD", "all layouts, lengths around 32-byte boundaries, every bias; model in saturating integers"),
 "C07": ("property-based testing against a model, with and without SIMD", "HSV model written from the documentation and the vector routine driven directly"),
 "C08": ("property-based testing against an integer model, with and without SIMD", "lengths around SIMD block boundaries, all contents"),
 "C09": ("property-based testing against an f64 model", "exact except where the f64 curve lies within float error of a rounding boundary, where either neighbour is accepted"),
 "C10": ("property-based testing: reference model, round trip, enumeration of colours", "8-bit colours enumerated in part (quick) or completely (thorough); float hues include all sector boundaries"),
 "C11": ("exhaustive enumeration and property-based testing against an f64 model", "all 256 samples; monotonicity over generated sorted floats and neighbouring floats"),
 "C12": ("property-based testing against an f64 CIE model, round trips", "generated and enumerated sRGB colours, both reference whites"),
 "C13": ("property-based testing against an f64 model, metamorphic relations", "result compared to one 8-bit level; identity; monotonicity on gray pixels"),
 "C14": ("property-based testing against a counting model", "percentiles compared with direct counts, equalisation to one 8-bit level"),
 "C15": ("property-based testing against an index model, with and without multithreading", "rectangles touching and exceeding every edge, all offsets"),
 "C16": ("property-based testing against an index model", "fronts inside, across and outside the back, offsets up to the coordinate limits"),
 "C17": ("property-based testing against a sampling model, with and without multithreading", "factors around 1/n, n and random; positions within float error of a cell border accept either cell"),
 "C18": ("property-based testing against an f64 resampling model, with and without multithreading", "float tolerance; range and constancy as metamorphic relations"),
 "C19": ("property-based testing against an inverse-mapping model", "all angles; positions within float error of a pixel border accept either neighbour; exact quarter turns"),
 "C20": ("property-based testing against a forward-mapping model", "all factors of both signs; positions within float error of a border accept either neighbour; whole rows checked for one-axis shears"),
 "C21": ("property-based testing: f64 convolution model, linearity and reflection relations", "kernels of every odd size, separable and not; float tolerance"),
 "C22": ("property-based testing against an f64 window model", "sizes from 1 to beyond the image; float tolerance"),
 "C23": ("property-based testing: f64 mask model, reflection/transposition/constancy relations", "float tolerance"),
 "C24": ("property-based testing against the five rules", "thresholds on and beside sample values"),
 "C25": ("property-based testing against brute-force sorting", "radii 0 to beyond the image, few-valued to random contents"),
 "C26": ("property-based testing against brute-force sorting", "radii and alphas over their whole domain and outside it"),
 "C27": ("property-based testing against an f64 bilateral model", "one 8-bit level of tolerance; constants exact"),
 "C28": ("property-based testing against set definitions", "brute force on small images, u64 prefix sums on images beyond 256x256"),
 "C29": ("property-based testing against brute-force sums", "integer-valued samples with totals below 2^23 compared exactly, other floats to rounding"),
 "C30": ("property-based round trips through scratch files with injected file faults", "every lossless format the decoder and encoder share; truncation and byte changes of PNG files at generated places"),
 "C31": ("differential property-based testing between builds and thread counts", "the same generated operation run in processes built with every feature combination, with 1, 3, 4 and 8 worker threads"),
 "C32": ("property-based testing under AddressSanitizer", "AddressSanitizer build of the library and standard test operations; buffers allocated with exactly the image's length"),
 "C33": ("metamorphic property-based testing, with and without SIMD", "alpha removed / pixels rearranged before and after the operation"),
 "C34": ("property-based testing of argument domains", "violating and boundary values of every restricted argument, extreme values and NaN included"),
 "C35": ("stateful property-based testing of operation chains", "random chains of all operations; well-formedness after each step, integer model for the exact operations"),
 "C36": ("property-based testing against f64 definitions", "arguments of all magnitudes, ties and special positions"),
 "C37": ("property-based testing against formulas, outer-product reconstruction", "all odd sizes up to the bound, rank-1, near-rank-1 and random kernels"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    tech, note = NOTES[p["id"]]
    checks.append({
        "property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "technique": tech, "level": "exploration",
        "level_note": "Search over generated inputs, no proof of absence: " + note + ". Trusts the reference models in harness/src and this sandbox's compiler; x86-64 with AVX2."})
m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks, "not_applicable": [],
     "notes": "Each check builds what it needs from /repo's working tree (bins/ is keyed by the content of the sources). No hooks in /repo. Exit 2 means no answer (build error, time limit). Replays: python3 run.py --replay FILE. Findings: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
