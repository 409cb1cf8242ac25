#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and TECH below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id -> (technique, level note)
TECH = {
    "C01": ("model-based stateful PBT against an ideal sequence, element lifetime counting, ASan/UBSan/LSan", "histories of up to ~60 operations over several arrays of four element types"),
    "C02": ("model-based stateful PBT against std::string/std::string_view, ASan/UBSan", "histories over several strings with lengths crossing the inline/heap boundary"),
    "C03": ("generated text with known values, round-trip oracle", "ragged and rectangular maps of all supported number types"),
    "C04": ("PBT against bit-by-bit reference; differential against the build without bit-deposit instructions", "whole 32/64-bit coordinate and code ranges, random point sets"),
    "C05": ("PBT against definitions and the standard library", "arrays with duplicates, sorted, reversed and extreme values"),
    "C06": ("PBT against component formulas in extended precision", "dimensions 1 to 8, eight element types, non-square shapes"),
    "C07": ("PBT against textbook sums in extended precision, residuals and power sums", "shapes up to 24x24, four element types"),
    "C08": ("PBT against quadruple-precision root isolation", "coefficients over ten decades, from roots, near repeated roots"),
    "C09": ("PBT against coordinate definitions and an interval-arithmetic slab oracle", "1 to 3 dimensions, axis-parallel and near-parallel rays"),
    "C10": ("PBT against extended-precision planes and brute-force overlap", "1 to 3 dimensions with unequal axes"),
    "C11": ("PBT against the crossing equation solved in extended precision", "straight and quadratic edges, rays through ends, tangents and close to them, two precisions"),
    "C12": ("PBT against numerical quadrature and nearest-point search in extended precision", "straight, nearly straight, mild and strong bends"),
    "C13": ("PBT against boundary integrals in extended precision", "four face types in 2D and polygons in 3D, any position, scale and winding"),
    "C14": ("PBT against crossing parity and shape functions in extended precision", "four face types, points and rays at, near and off the boundary"),
    "C15": ("PBT against the definition of the modular layout", "box ratios, directions and spacings over several decades"),
    "C16": ("PBT over generated conforming and broken meshes, ideal adjacency tables", "four face types, up to 5x5 cells with shuffled numbering and winding"),
    "C17": ("PBT against per-face and domain-boundary crossings in extended precision", "four face types, up to 5x5 curved cells, rays from outside and inside"),
    "C18": ("PBT against crossing parity; metamorphic renumbering", "four face types, points in, near and outside faces and at nodes"),
    "C19": ("PBT against the multiset of faces and an independent curve index", "four face types, up to 7x7 cells anywhere in the plane"),
    "C20": ("Stateful PBT against an ideal soup stepped alongside", "up to four soups, 60 edits, 60 elements"),
    "C21": ("PBT of write/read round trips and of files written by an independent writer", "up to 30 vertices, 20 elements, 5 sets, 4 files per case"),
    "C22": ("PBT of the text readers against the model each file was printed from", "up to 40 nodes, 60 elements, 6 sets"),
    "C23": ("PBT against annulus areas, edge pairing and crossing parity; refused requests compared with the state before", "up to 4 radii, 8 rings each, 8 to 64 divisions, both orders"),
    "C24": ("PBT of whole models against an ideal expansion of the same description; refused requests compared with the state before", "core to 3x3, up to 60 cell occurrences, 3 slabs, four mesh kinds"),
    "C25": ("PBT of save, load and save again against the ideal description and independently summed companion files", "core to 3x3, up to 60 cell occurrences, four mesh kinds, up to 7 groups"),
    "C26": ("PBT of every C query against the ideal description of built and of loaded models", "core to 3x3, up to 60 cell occurrences, four mesh kinds, random points and rays"),
    "C27": ("PBT against the defining sums in extended precision; rule violations must be reported", "up to 12 groups, 6 temperatures, 8 nuclides"),
    "C28": ("PBT of composition histories against stated densities and fractions, with mass numbers as independent masses", "125 named nuclides and every nuclide of the mass table, histories of 14 requests"),
    "C29": ("Grammar-based generation of library files; contents compared bit for bit with the text", "up to 30 groups, 6 nuclides, 5 temperatures, unused sections"),
    "C30": ("PBT against regions found by union-find, exact face integrals and the defining sums", "up to 6 blocks of 25 faces of the four kinds, up to 13 groups, 5 materials"),
    "C31": ("PBT of CAD operations against membership of sample points in the original shapes", "up to 7 shapes in 2D, 5 in 3D, lattices to 4x4, coarse grids to 24 cells in 2D and 8 in 3D"),
    "C32": ("PBT of save and open against sizes and places of group members", "up to 40 shapes, 7 groups of dimensions 0 to 3"),
    "C33": ("PBT of the chain from CAD lattice to imported cell meshes, against exact areas and the material at each face centre", "lattices to 3x3 pins, up to 3 rings, four mesh kinds"),
    "C34": ("model-based PBT of logging histories in a separate process, against its output, exit status and recorded message", "up to 26 operations, 6 arguments per message, messages to 900 characters"),
    "C35": ("differential PBT: one generated workload in six build configurations, compared value by value", "single features switched off one at a time, meshes of up to 50 faces, matrices to 10x10"),
    "C36": ("PBT against crossings of finely sampled edges refined by Newton iteration; meshes compared before and after repair", "sizes 0.03 to 30, bends to 0.8 of the chord, meshes to 4x4 cells"),
    "C37": ("PBT against the C++ standard library, long double elementary functions and the published colour table", "magnitudes 1e-30 to 1e30, ranges to 2000 elements, all 148 named colours"),
    "C38": ("differential PBT: wrapper against gmsh function of the same name, both reaching recording stand-ins", "349 functions, every number of left-out optional arguments, errors thrown in 1 of 10 calls"),
}


def main():
    checks = []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        i = json.loads(line)["id"]
        tech, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + tech,
                       "level": "exploration", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 ./build.py all", "checks": checks, "not_applicable": [],
         "notes": "No hooks are used: /repo is compiled as it is, with sanitizers, into /verif/build. "
                  "Defects found and repaired, and known findings, are in known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
