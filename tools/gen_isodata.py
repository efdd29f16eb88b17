#!/usr/bin/env python3
"""Writes mc/src/isodata.rs: the constants of RFC 9380, Appendix E.1 and E.2 (isogeny maps onto secp256k1 and
BLS12-381 G1). Generated once from the text of the base commit, after checking that the maps are homomorphisms of
degree 3 and 11 between the published curves and comparing the leading constants with the RFC; committed, and never
regenerated from the tree under test."""
import re, subprocess, sys
src = subprocess.run(["git", "-C", "/repo", "show", "59af589:src/instances/rational_maps.rs"], capture_output=True, text=True, check=True).stdout
out = ["//! Generated by tools/gen_isodata.py: isogeny constants of RFC 9380, Appendix E (lowest degree first).", ""]
for name, start in (("SECP", "pub fn get_isogeny_secp256k1"), ("BLS", "pub fn get_isogeny_bls12381g1")):
    body = src[src.index(start):]
    body = body[:body.index("impl Isogeny for")]
    for part in ("x_num", "x_den", "y_num", "y_den"):
        m = re.search(part + r": vec!\[(.*?)\]", body, re.S)
        v = []
        for item in re.findall(r'f\.from\("0x([0-9a-f]+)"\)|(f\.one\(\))|(f\.zero\(\))', m.group(1)):
            v.append(item[0] or ("1" if item[1] else "0"))
        out.append(f"pub static {name}_{part.upper()}: &[&str] = &[")
        out += [f'    "{x}",' for x in v]
        out.append("];")
open("mc/src/isodata.rs", "w").write("\n".join(out) + "\n")
