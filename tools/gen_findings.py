#!/usr/bin/env python3
"""Write known_findings.json (the defects found in the code under verification; all repaired)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("74c72d6", "P18", "the intensity threshold was never applied: rays of intensity 0.05 went on being traced and recorded"),
 ("8393710", "P19", "a tracer built on one system and given another with load_components kept looking up surfaces of the old one"),
 ("cd97b1e", "P19", "get_system() returned a non-existing attribute (AttributeError)"),
 ("00b7c53", "P27", "EdgeRender.get_results() raised AttributeError after rendering"),
 ("b3ccc97", "P11", "the bounding box of a union of two spheres that do not touch enclosed only one of them, so rays through the other were dropped (also P13)"),
 ("4ff843f", "P11", "moving a member of a member of a combination left the outer bounding box where it was"),
 ("324783b", "P14", "difference(A, difference(B, C)): the normals of C pointed the wrong way because invert_normals did not toggle"),
 ("ab243a8", "P24", "elliptical apertures (negative sizes) were never returned by _create_aperture: lenses and apertures of that kind raised (also P26)"),
 ("5788822", "P25", "parabolic mirrors with an elliptical aperture were sized by the negative argument"),
 ("3c15a47", "P24", "biconvex_lens(r1, r2) gave the first surface the second radius and the other way round"),
 ("0fc4a79", "P24", "biconvex_lens and plano_convex_lens failed for the negative and infinite radii they document"),
 ("ea0a6eb", "P26", "baffle((y, z)) had y and z exchanged"),
 ("fe4d0b2", "P25", "plane_mirror was centred on x = 0 instead of lying between x = -thickness and x = 0"),
 ("2003081", "P22", "CircleOfRays emitted its first ray twice and spaced the others too far apart"),
 ("766c52e", "P23", "a StaticLamp kept its first pose and wavelength forever and handed out its cache for modification"),
 ("b725582", "P28", "wavelength_to_rgb(0.55) raised for a plain float"),
 ("8438bf1", "P28", "GoochMaterial.shade with two lights normalised the light vectors over the lights and points instead of per vector"),
 ("c2df8bd", "P28", "GoochMaterial.shade with two lights and several points mixed coordinates with lights"),
 ("4fedd56", "P24", "an elliptical lens with a concave surface whose radius lies between the longer half axis and the half diagonal was NaN everywhere (also P25)"),
 ("2382ced", "P07", "a cuboid without thickness along an axis was never hit (plane_mirror(0) with a rectangular aperture was invisible, also P25)"),
 ("35da777", "P26", "baffle(1.0) raised TypeError and baffle((-a, -b)) was never hit"),
 ("5f5cbde", "P25", "spherical_mirror(inf) was NaN"),
 ("1703757", "P12", "a combination lost sheets without thickness when numpy's unstable argsort exchanged their two equal hits: 40% of the oblique rays near the opening of a circular aperture were let through (also P26)"),
 ("7d8d001", "P27", "draw() put its camera inside or behind objects away from the origin (below z = 0 in the xy view, behind them in the xz view): they were shown from within or from the wrong side"),
 ("3153b2f", "P27", "both renderers showed objects behind the camera"),
 ("e8f46d0", "P27", "draw() raised ValueError for scenes more than about 640 times longer than they are high (a picture without rows), and showed nothing of those a little shorter"),
 ("e467867", "P19", "source ids (and the colours of show) were computed from the ray count set for the next trace, not from that of the results"),
]
import subprocess
E = []
for h, p, w in F:
    E.append({"id": "%s-%s" % (p, h), "property": p, "status": "fixed", "commit": h, "what": w, "record": "fixed: property=%s %s %s" % (p, h, w)})
json.dump({"entries": E}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(E))
