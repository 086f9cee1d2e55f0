#!/usr/bin/env python3
"""MANIFEST.json and known_findings.json from the property modules present"""
import json, os, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T_VG = "value-graph dataflow analysis of MIR against documented normal forms, exact linear certificates"
T_EV = "effect and access analysis of MIR (value graph with loop summaries, ordered access events)"
T_TW = "type-level witnesses: compile-fail clients with the expected error code and compiling twins"
T_FX = "effect analysis of the type-checked program (statics, interior mutability, unsafe reachability)"
N_VG = ("Static: MIR of client functions over the public API, for all inputs at once (debug and release arithmetic). An obligation is discharged by identical "
        "value-graph normal forms or an exactly checked linear certificate; a violation is only reported with a separating assignment of the two value graphs; what is "
        "neither is listed as open in the evidence and raises no alarm. Trusts rustc's MIR, the library models and the loop summaries of hhsa.")
N_TW = "Static: rustc decides. Each witness must fail with the expected error code and its well-ordered twin must compile against /repo's current source."
CH = {
 "C01": (T_VG, N_VG), "C02": (T_VG, N_VG), "C03": (T_VG, N_VG), "C04": (T_VG + "; compile-fail witnesses", N_VG), "C05": (T_VG, N_VG),
 "C06": (T_VG, N_VG), "C07": (T_VG, N_VG), "C08": (T_VG, N_VG), "C09": (T_VG, N_VG), "C10": (T_VG + "; compile-fail witnesses", N_VG + " " + N_TW),
 "C11": (T_EV, N_VG), "C12": (T_EV, N_VG), "C13": (T_EV, N_VG), "C14": (T_EV, N_VG), "C15": (T_VG, N_VG), "C16": (T_EV, N_VG), "C17": (T_VG, N_VG),
 "C18": (T_VG, N_VG), "C19": (T_VG, N_VG), "C20": (T_TW, N_TW), "C21": (T_TW + "; " + T_FX, N_TW), "C22": (T_FX + "; auto-trait witnesses", N_VG + " " + N_TW),
 "C23": (T_VG, N_VG), "C24": (T_VG, N_VG), "C25": (T_VG, N_VG), "C26": (T_VG, N_VG + " " + N_TW),
}
NA = {
 "C27": "The rounding error of the product depends on the floating-point arithmetic inside the external matrixmultiply kernels and on run-time element values; no sound static bound on those quantities is in reach (the static part, which data reaches the kernel, is C13).",
 "C28": "The distribution and independence of samples is a statistical property of the external generator and of rand_distr's tables; it quantifies over run-time random values no static argument bounds (the static part, one fresh sample per element, is C16).",
}
have = {f[:-3].upper() for f in os.listdir(V + "/hhsa/props") if re.fullmatch(r"c\d\d\.py", f)}
checks = []
for p in sorted(CH):
    if p not in have:
        NA[p] = "check not built yet"; continue
    m = open(V + "/hhsa/props/%s.py" % p.lower()).read()
    lev = re.search(r'^LEVEL = "(\w+)"', m, re.M).group(1)
    t, n = CH[p]
    checks.append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "technique": t, "level": lev, "level_note": n})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks,
           "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)]}, open(V + "/MANIFEST.json", "w"), indent=1)
FIXED = """C04 7c14a3e the stride of ArbitraryStrideRowMajor/ColumnMajor layouts was reported as that of the contiguous layout, so products and blocks of strided views used wrong data
C03 9d6cbe1 convert_1d_2d of the vector layouts returned (1, i) or (i, 1) instead of zero-based positions
C15 93ce8c9 ColumnVector::from_dimension required one row instead of one column
C23 d853151 from_pointer of strided matrices panicked (debug) or wrapped (release) for empty dimensions
C07 d447cff block requests whose corner overflows usize were granted in release builds; empty blocks at the border were refused
C08 2c2086b split_in_four_mut did not check the split position
C05 51b315d a strided layout reaching beyond its container was accepted (only the number of elements was compared)
C19 f09fd24 length of a base row vector was computed from the generic number of rows
C19 7a829d6 a base matrix could be built with a layout contradicting its fixed size tags
C18 6da27a8 UpperTriangular::convert_1d_2d was off by one row for large indices (floating point rounding), e.g. index 11249999924999999
C15 6dfd708 mat! evaluated its dimension argument twice"""
KNOWN = json.load(open(V + "/known_findings.json"))["known"] if os.path.exists(V + "/known_findings.json") else []
json.dump({"known": KNOWN, "fixed": ["fixed: property=%s" % l for l in FIXED.split("\n")]}, open(V + "/known_findings.json", "w"), indent=1)
