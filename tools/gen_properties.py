#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one record per line)."""
import json, os
OPS="tinygfx/g3d/operations.py"; PRI="tinygfx/g3d/primitives.py"; WOB="tinygfx/g3d/world_objects.py"; CSG="tinygfx/g3d/csg.py"
REN="tinygfx/g3d/renderers.py"; GOO="tinygfx/g3d/materials/gooch.py"; COL="tinygfx/g3d/materials/color.py"
TR="pyrayt/_pyrayt.py"; CMP="pyrayt/components.py"; MAT="pyrayt/materials.py"; UTL="pyrayt/utils.py"
R=[]
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    assert len(title)<=80,title
    R.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

P("P01","Mirror reflection obeys the law of reflection",
 "A ray meeting a mirror surface (of any shape, placement or orientation, normals inverted or not) leaves from the point it arrived at with the component of its direction along the surface normal reversed, the tangential component unchanged and its length preserved. Intensity, wavelength, refractive index, generation and id are unchanged. Reflecting a single vector, many vectors off one normal, or many off many normals gives the same answer ray by ray.",
 ["inputs"],"all directions, all unit normals, all batch sizes, all surface transforms",
 "Tests reflect a few axis-aligned or 45-degree vectors; the law is an identity over all directions and normals in three call shapes.",
 [OPS,MAT],[("vector reflection",OPS+":reflect"),("mirror material",MAT+":_ReflectingMaterial.trace")],observe=["reflect(vectors, normals)","mirror.trace(surface, rays)"])
P("P02","Refraction obeys Snell's law on entering and leaving glass",
 "A ray crossing a refracting surface leaves with a unit direction in the plane of incidence, continuing to the other side of the surface, with n1*sin(angle in) = n2*sin(angle out). A ray travelling against the outward normal enters the material and takes on the material's index at that ray's own wavelength; a ray travelling along the outward normal leaves into the surrounding index 1 (or the given surrounding index). The ray's refractive index afterwards is exactly that of the medium it is now in.",
 ["inputs"],"all directions (any length), unit normals, positive indices and batches in which every ray has its own index",
 "Tests sample a handful of angles with two fixed indices; Snell's law is a nonlinear identity over directions, normals and per-ray index pairs, with both crossing directions.",
 [OPS,MAT],[("refraction",OPS+":refract"),("glass material",MAT+":Glass.trace")],observe=["refract(vectors, normals, n1, n2, n_global)","Glass.trace(surface, rays)"])
P("P03","Total internal reflection exactly when Snell has no solution",
 "When (n1/n2)*sin(angle in) exceeds one the ray is specularly reflected back into the medium it came from, with a unit direction, and keeps its current refractive index. When it is below one the ray is transmitted, never reflected. Equal indices leave the direction unchanged.",
 ["inputs"],"all directions, normals and index pairs on either side of the critical angle, in mixed batches",
 "The critical angle is a threshold depending continuously on three inputs; tests try one angle above and below it.",
 [OPS,MAT],[("radicand branch",OPS+":refract")],observe=["refract(...)","Glass.trace(surface, rays)"])
P("P04","Material interaction is per ray and changes only what physics changes",
 "Interacting with a surface never moves a ray, and never changes its intensity, wavelength, generation or id; a mirror or absorber also leaves the refractive index alone, and an absorber leaves the ray with a zero direction. The outcome for each ray depends on that ray alone: interacting a batch gives the same result as interacting each ray on its own, in any order.",
 ["inputs"],"all batches of rays with arbitrary metadata, all materials, all surfaces",
 "Independence between rays is a statement about pairs of runs over all batches; tests run one batch and look at a few entries.",
 [MAT,OPS,TR],[("absorber",MAT+":_AbsorbingMaterial.trace"),("mirror",MAT+":_ReflectingMaterial.trace"),("glass",MAT+":Glass.trace"),("row views",TR+":RaySet")],observe=["material.trace(surface, rays)"])
P("P05","Dispersion models give the documented index at every wavelength",
 "A Sellmeier glass with coefficients b1..b3, c1..c3 has n(w)^2 = 1 + sum b_i w^2/(w^2 - c_i) with n > 0 for every wavelength w, one value per entry of the input and of the same shape for scalar or array input; a basic glass has its constant index at every wavelength with the shape of the input. The Abbe number is (n(0.5893)-1)/(n(0.4861)-n(0.6563)) of that same glass, for each glass object separately.",
 ["inputs"],"all coefficient sets and wavelengths for which the index is defined, scalar or array, several glass objects alive at once",
 "Tests compare catalogue values at a couple of wavelengths for fixed glasses; a wrong term with a small coefficient or an unused branch is invisible there.",
 [MAT],[("Sellmeier",MAT+":SellmeierRefractor.index_at"),("constant",MAT+":BasicRefractor.index_at"),("Abbe",MAT+":Glass.abbe")],observe=["glass.index_at(w)","glass.abbe()"])
P("P06","Sphere, cylinder and paraboloid hits bound exactly the part inside",
 "For a ray o + t*d and a sphere, capped cylinder or capped paraboloid, the two reported distances are the parameters at which the infinite line enters and leaves the solid: every t strictly between them is a point of the solid and every t outside them is not (hits behind the origin are reported as negative distances, directions need not be unit length). A line that misses the solid is reported as infinity in both places. Rays parallel to the axis or to the caps, rays starting inside and rays along the axis are no exception.",
 ["inputs"],"all ray origins, all directions that are along an axis or plane exactly or deviate from it by more than the documented closeness tolerance, all radii, heights and focal lengths, all batch sizes",
 "Tests shoot a few hand-picked rays per shape; the statement quantifies over six-dimensional ray space with several degenerate cases per shape.",
 [PRI,OPS],[("sphere",PRI+":Sphere.intersect"),("cylinder",PRI+":Cylinder.intersect"),("paraboloid",PRI+":Paraboloid.intersect"),("roots",OPS+":binomial_root")],observe=["primitive.intersect(rays)"])
P("P07","Cuboid and plane hits bound exactly the part inside",
 "For a ray o + t*d and an axis-aligned cuboid, the two reported distances are the parameters at which the infinite line enters and leaves the cuboid, in ascending order, and both are infinite when the line misses it. For a finite plane both reported distances equal the one parameter where the line crosses the plane if the crossing lies within the plane's width and length, and are infinite otherwise or when the line is parallel to it. Cuboid corners may be given in any order, and may coincide along an axis.",
 ["inputs"],"all ray origins, all directions whose components are zero or exceed the closeness tolerance, all corner pairs, widths and lengths, all batch sizes",
 "Tests use a unit cube and a few rays; each axis has parallel, forward and backward cases and they combine.",
 [PRI],[("cuboid",PRI+":Cube.intersect"),("plane",PRI+":Plane.intersect")],observe=["primitive.intersect(rays)"])
P("P08","Primitive normals are unit, outward and perpendicular to the surface",
 "At every point on the boundary of a sphere, cylinder, paraboloid, cuboid or plane the normal is a unit vector perpendicular to that boundary and pointing out of the solid (towards +z for a plane); caps of a cylinder or paraboloid use the cap's own normal. Querying one point or a batch of points gives the same normals. The query does not modify its input.",
 ["inputs"],"all boundary points (away from edges where two faces meet), all shape parameters, single points and batches",
 "Tests check poles and face centres; perpendicularity at every boundary point is a continuum statement.",
 [PRI],[("sphere",PRI+":Sphere.normal"),("cylinder",PRI+":Cylinder.normal"),("paraboloid",PRI+":Paraboloid.normal"),("cuboid",PRI+":Cube.normal"),("plane",PRI+":Plane.normal")],observe=["primitive.normal(points)"])
P("P09","An object's pose is always the product of the operations applied to it",
 "After any sequence of moves, rotations (degrees or radians), non-negative scales and arbitrary transforms, an object's world transform is the product of the individual matrices in the order they were applied, its object transform is the inverse of that, and its position and unit orientation are the images of its local origin and z-axis. Reading any of these at any moment, or modifying a returned transform matrix, changes nothing. Converting a point to object coordinates and back gives the same point, and negative scales are rejected without changing the object.",
 ["histories","inputs"],"all sequences of operations interleaved with queries in any order, all amounts and angles",
 "Tests apply one or two operations and query once; cached derived state can only be wrong after particular sequences.",
 [WOB],[("append transform",WOB+":WorldObject._append_world_transform"),("update handler",WOB+":WorldObject._world_matrix_update_handler"),("lazy getters",WOB+":WorldObject.get_position")],
 [("_world_coordinate_transform","object to world matrix",WOB),("_object_coordinate_transform","cached inverse",WOB),("_world_origin","cached position",WOB)],["get_world_transform()","get_object_transform()","get_position()","get_orientation()"])
P("P10","Surfaces and their normals follow the object's transform",
 "However an object has been moved, rotated and scaled, its intersection distances with a world ray are the ray parameters at which the world ray crosses the transformed shape, in ascending order and each labelled with that surface's id, and direction vectors are not renormalised (distances are parameters of the given ray). The world normal at a surface point is the unit vector perpendicular to every tangent of the transformed surface and pointing to its outside, or the opposite while normals are inverted.",
 ["inputs","histories"],"all shapes, all invertible histories of transforms (non-uniform scale included), all rays and surface points",
 "Tests translate or scale a sphere; normals under non-uniform scale followed by rotation need the inverse transpose, which uniform cases cannot tell apart.",
 [WOB],[("world intersect",WOB+":TracerSurface.intersect"),("world normals",WOB+":TracerSurface.get_world_normals")],observe=["surface.intersect(rays)","surface.get_world_normals(points)"])
P("P11","Bounding boxes enclose their shape after any history",
 "The axis-aligned bounding box of a shape, or of any combination of shapes by union, intersection or difference nested to any depth, contains every point of the shape in world space at all times. This holds however the combination, any member, or a member of a member has been moved, rotated or scaled, before or after being combined, and also for unions of shapes that do not touch.",
 ["histories","inputs"],"all shapes, combination trees, and sequences of transforms applied to any node of the tree",
 "Tests check boxes right after construction or one move of one node; stale boxes appear only for particular nodes of nested trees after particular histories.",
 [WOB,CSG,PRI],[("box update",WOB+":TracerSurface._boundary_box_update_fn"),("combined box",CSG+":CSGSurface._update_bounding_box"),("watch list",WOB+":Intersectable.attach_to")],
 [("_aobb","cached bounding box",WOB),("var_watchlist","callbacks run when a transform changes",WOB)],["bounding_box","bounding_volume"])
P("P12","Combined solids are hit exactly where the boolean combination is",
 "Along every ray, the hits reported for a union, intersection or difference of two solids, read in pairs, bound exactly those stretches of the ray that lie in (A or B), (A and B), or (A but not B) respectively. This holds when the operands are themselves combinations, for rays that miss one or both operands, start inside, or run through several separate stretches.",
 ["inputs","programs"],"all rays, all pairs of operand crossing sequences in all interleavings, all three operations",
 "Tests try one or two overlaps of two spheres per operation; the statement covers every interleaving of crossing sequences of any even length.",
 [CSG],[("interval booleans",CSG+":array_csg"),("combined intersect",CSG+":CSGSurface.intersect")],observe=["array_csg(a, b, op)","csg_object.intersect(rays)"])
P("P13","Combined hits are ordered, labelled with their surface and never culled",
 "The hits of a combined object are in ascending order, every finite hit carries the id of the member surface that lies at that distance along the ray, and one column per ray is returned in the order the rays were given. Skipping rays that miss the bounding box never changes the result: a ray that crosses the combined solid is reported whatever other rays share the batch.",
 ["inputs"],"all rays, batches mixing hits and misses, all operations, nesting and member ids",
 "Tests check the label of one or two rays in homogeneous batches; mislabelling needs particular interleavings, mis-scattering needs mixed batches.",
 [CSG],[("label sorting and scatter",CSG+":CSGSurface.intersect")],observe=["csg_object.intersect(rays)","csg_object.surface_ids"])
P("P14","Normals of combined solids point out of the combined solid",
 "At every point on the boundary of a union, intersection or difference, the normal reported by the member surface lying there points out of the combined solid, whatever mixture of the three operations the solid was built from. In particular a shape subtracted inside a shape that is itself subtracted faces the right way again.",
 ["inputs","programs"],"all combination trees and boundary points",
 "Tests look at a single difference; orientation depends on the number of enclosing subtractions.",
 [CSG,WOB],[("inversion on difference",CSG+":CSGSurface.__init__"),("inversion",WOB+":Intersectable.invert_normals"),("recursive inversion",CSG+":CSGSurface.invert_normals")],
 [("_normal_scale","orientation of a surface's normals",WOB)],["surface.get_world_normals(points)"])
P("P15","Members of a combination or group move with it as a rigid whole",
 "Applying an operation to a combined object or to a group applies exactly that world operation once to it and to every member at every depth, so the relative placement of the members never changes and world rays see the moved solid. Moving a member on its own changes only that member.",
 ["histories","programs"],"all trees of combinations and groups, all sequences of operations on any node",
 "Tests move one two-member object once; double or missing propagation shows up only for nested members or later operations.",
 [WOB,CSG],[("group propagation",WOB+":ObjectGroup._append_world_transform"),("combination propagation",CSG+":CSGSurface._append_world_transform")],observe=["get_world_transform() of members","csg_object.intersect(rays)"])
P("P16","Each ray interacts with the nearest surface ahead of it",
 "At every step of a trace each ray interacts with the surface whose crossing has the smallest strictly positive distance over all components of the system, at that point, and is deflected by that surface's own material and normal. Surfaces behind the ray are never hit, rays that meet nothing are dropped, and the order in which components are listed does not matter (absent ties).",
 ["inputs","configurations"],"all systems of components with arbitrary crossing sequences, all rays, all listing orders",
 "Tests trace scenes of one to three components with a fixed order; nearest-hit selection is over every arrangement of distances.",
 [TR],[("propagate",TR+":RayTracer._st_propagate"),("interact",TR+":RayTracer._st_interact")],observe=["RayTracer.trace() records"])
P("P17","The trace record is a chain of straight segments per ray",
 "Every recorded segment starts where that ray's previous segment ended (up to the documented surface offset along the new direction), ends on the surface it names, and its tilt is the unit direction from start to end. A record carries the ray's own id, wavelength, intensity and refractive index while travelling that segment, and the segment number as its generation, starting from zero with one record per ray and generation.",
 ["inputs","histories"],"all systems, sources and generation limits",
 "Tests check the last row or the number of rows of simple traces; misaligned metadata requires batches in which some rays die earlier than others.",
 [TR],[("record",TR+":_RayTraceDataframe.insert"),("interact",TR+":RayTracer._st_interact")],observe=["RayTracer.trace()","RayTracer.get_results()"])
P("P18","Every trace ends, dropping exactly the dead rays",
 "A trace terminates for every system and records at most the generation limit (at least one) of segments per ray. A ray is continued and recorded at a generation exactly if it meets a surface there, was not absorbed at its previous surface, and its intensity is not below the documented threshold of 0.1; all other rays continue unaffected.",
 ["inputs","histories"],"all systems, limits of at least one, sources and intensities including mixtures of dead and living rays",
 "Tests set one limit with rays that behave alike; termination and the survival condition quantify over systems and mixtures.",
 [TR],[("dead rays",TR+":RayTracer._st_interact"),("generation limit",TR+":RayTracer._st_interact")],observe=["RayTracer.trace()"])
P("P19","Tracing is repeatable and always reflects the current system",
 "Tracing never modifies the components or the sources, so tracing again without changes gives the same record and replaces, not extends, the previous one. After components are moved or replaced, or ray counts, limits or sources change, the next trace equals that of a newly built tracer on the current system; source ids computed for the record identify the source each ray came from.",
 ["histories"],"all sequences of traces, moves, component replacements and setting changes",
 "Tests build a tracer and trace once; leftovers of earlier traces or systems need multi-step histories.",
 [TR],[("initialise",TR+":RayTracer._st_initialize"),("load",TR+":RayTracer.load_components"),("reset",TR+":RayTracer.reset"),("source ids",TR+":RayTracer.calculate_source_ids")],
 [("_surface_lut","surface lookup of the current system",TR),("_frame","results",TR)],["RayTracer.trace()"])
P("P20","Pinned objects return to their starting pose",
 "On leaving a pin context each pinned object, and every member of a pinned combination or group, has the world transform it had on entry, whatever sequence of operations was applied to the pinned objects inside and also when the block is left by an exception, which still propagates. The objects remain usable and their derived state (position, bounding box, hits) is that of the restored pose.",
 ["histories"],"all sequences of invertible operations on the pinned objects inside the context, any number of pinned objects none of which contains another, contexts nested in each other",
 "Tests move and rotate one object once; restoration after arbitrary operation sequences needs the matrix identity.",
 [TR,WOB],[("pin",TR+":pin")],observe=["get_world_transform() after the context"])
P("P21","Ray set fields are independent, aligned views of each ray",
 "Position, direction, generation, intensity, wavelength, index and id of a ray set are distinct storage: writing one field (whole or for a selection of rays) is read back exactly, changes no other field and no other ray. Selecting, copying or joining ray sets keeps every ray's fields together, and a new set has the documented defaults and distinct ids.",
 ["inputs"],"all ray counts, all fields, all values and selections",
 "Tests write one field and read it back; disjointness quantifies over pairs of fields.",
 [TR],[("ray set layout",TR+":RaySet")],observe=["RaySet properties"])
P("P22","Deterministic sources emit the documented ray pattern",
 "In its own frame a line source emits n rays along +x, evenly spaced in y over exactly its width; a circle source n parallel rays evenly spaced around a circle of its diameter; a cone source n rays from its origin each at exactly the cone angle to the x-axis and evenly spaced around it; a wedge source n rays from its origin in the xy-plane at evenly spaced angles spanning exactly the full wedge angle. In the world every pattern is carried by the source's transform, with unit directions, the source's current wavelength, index 1, generation 0 and full intensity.",
 ["inputs","histories"],"all ray counts, sizes, angles, wavelengths and source transforms",
 "Tests check one count with simple transforms; even spacing and endpoints quantify over counts and sizes.",
 [CMP],[("line",CMP+":LineOfRays"),("circle",CMP+":CircleOfRays"),("cone",CMP+":ConeOfRays"),("wedge",CMP+":WedgeOfRays"),("to world",CMP+":Source.generate_rays")],observe=["source.generate_rays(n)"])
P("P23","Lamps emit within their area and cone, static lamps identically",
 "Every ray of a lamp starts within its width by length rectangle, points at most the maximum angle away from its axis with unit direction, and has intensity 100 times the cosine of that angle, all carried by the lamp's transform, whatever the random numbers drawn. A static lamp emits the same local pattern of rays every time it is asked for the same count, always at its current pose and wavelength, and nothing a caller does to a returned set affects later ones.",
 ["inputs","histories"],"all random draws, sizes, maximum angles up to 90 degrees, ray counts, transforms, and sequences of generations, moves and caller edits",
 "Tests draw one batch; the bound holds for every draw and the caching statement for every history.",
 [CMP],[("lamp",CMP+":Lamp._local_ray_generation"),("sampling",CMP+":_sphere_sample"),("caching",CMP+":StaticLamp")],observe=["lamp.generate_rays(n)"])
P("P24","Lens builders produce the documented solid of glass",
 "A thick, biconvex or plano-convex lens occupies exactly the aperture (circle of the given diameter, rectangle y by z, or ellipse) around the x-axis between a first surface of the given radius through x = -thickness/2 and a second through x = +thickness/2 (planar for an infinite radius), with the documented sign conventions. For a concave surface the glass extends out to the rim of the aperture. Every surface of the lens carries the requested material.",
 ["inputs"],"all radii, thicknesses and apertures of every kind for which the surfaces span the aperture (and the far side of a convex surface's ball lies beyond the other surface)",
 "Tests build symmetric lenses with a circular aperture and check one axial point or the focal length; shape over all parameter combinations and points is a continuum statement.",
 [CMP],[("thick lens",CMP+":thick_lens"),("biconvex",CMP+":biconvex_lens"),("plano-convex",CMP+":plano_convex_lens"),("apertures",CMP+":_create_aperture")],observe=["lens.intersect(rays)","surface ids and materials"])
P("P25","Mirror builders produce the documented reflecting surface",
 "A spherical mirror's reflecting surface is the sphere of the given radius through the origin with its centre on the x-axis at the radius, a parabolic mirror's is the paraboloid of the given focal length with its focus at the origin and vertex at minus that length, each cut to the (possibly off-axis) aperture and backed to the documented thickness, with only the curved surface reflecting and all others absorbing. An infinite radius gives the plane x = 0. A plane mirror fills its aperture between x = -thickness and x = 0 (a flat region for thickness zero) and reflects on every side. Rays parallel to the axis striking a parabolic mirror's curved face pass through its focus.",
 ["inputs"],"all radii or focal lengths, thicknesses, apertures and off-axis displacements for which the surface spans the circle about the axis that encloses the aperture",
 "Tests trace a few parallel rays for centred circular mirrors; shape over all parameters, apertures and offsets is not sampled.",
 [CMP],[("plane",CMP+":plane_mirror"),("spherical",CMP+":spherical_mirror"),("parabolic",CMP+":parabolic_mirror")],observe=["mirror.intersect(rays)","materials of surfaces"])
P("P26","Baffles, apertures and prisms have the documented shape",
 "A baffle absorbs exactly the rays that cross the yz-plane inside its y by z rectangle (or its circle or ellipse), and an aperture absorbs exactly those crossing its outer region but not the opening (each circular, rectangular or elliptical), letting the others through unchanged. An equilateral prism is exactly the triangular prism with three faces of the given side length and the given width, base parallel to the xy-plane, made of the requested material.",
 ["inputs"],"all sizes, opening shapes, side lengths, widths and rays",
 "Tests use square or default sizes and one or two rays, which cannot tell the two dimensions apart or reveal a wrong outline.",
 [CMP],[("baffle",CMP+":baffle"),("aperture",CMP+":aperture"),("prism",CMP+":equilateral_prism")],observe=["component.intersect(rays)","RayTracer.trace()"])
P("P27","Rendering shows, per pixel, the nearest surface the camera sees",
 "The camera emits one ray per pixel, row by row, evenly covering exactly its horizontal and vertical span along its viewing direction, carried by its transform. The shaded image of a scene has, at every pixel, the colour the nearest surface in front of the camera is given there by its own material for the light, and is empty where no surface is seen; the edge image marks pixels where the nearest surface changes between neighbours. Rendering again gives the same image and changes nothing in the scene. The draw function shows every given object from outside, from above (xy) or from the front (xz), wherever it is.",
 ["inputs","configurations"],"all resolutions, spans, camera poses and scenes (also partly or wholly behind the camera)",
 "Tests render a single sphere and check a few pixels; pixel order, nearest selection and surface lookup need several objects and unequal resolutions.",
 [REN,WOB],[("camera",WOB+":OrthographicCamera"),("shaded",REN+":ShadedRenderer"),("edges",REN+":EdgeRender"),("surface shading",WOB+":TracerSurface.shade")],observe=["camera.generate_rays()","renderer.render()"])
P("P28","Shading and wavelength colours are bounded and well blended",
 "A shaded pixel is the convex combination of the material's warm and cool tones in proportion (1 + cos)/2 : (1 - cos)/2 of the angle between normal and light: fully warm when the normal faces the light, fully cool when it faces away, averaged over all lights, with opaque alpha for opaque colours. The display colour of a wavelength has all channels between 0 and 1, varies continuously with the wavelength, is constant beyond the visible limits 0.38 and 0.75 um and is the same for a value alone or inside an array.",
 ["inputs"],"all normals, points, one or more lights, base colours and mixing weights; all wavelengths and gammas",
 "Tests compare a few colours; bounds and continuity quantify over the real line, including the zone boundaries.",
 [GOO,COL,UTL],[("gooch",GOO+":GoochMaterial.shade"),("wavelength colour",UTL+":wavelength_to_rgb")],observe=["material.shade(...)","wavelength_to_rgb(w)"])
P("P29","The lensmaker's equation agrees with paraxial ray tracing",
 "The focal length computed for a thick spherical lens is the one obtained by composing the two paraxial refractions and the propagation through the glass between them, with the documented sign convention, for every pair of radii, thickness and index. Swapping and negating the radii (turning the lens round) leaves it unchanged.",
 ["inputs"],"all nonzero finite or infinite radii, thicknesses and indices above one giving nonzero power",
 "Tests compare against the same formula for a few numbers; agreement with the paraxial composition is an identity over four parameters.",
 [UTL],[("formula",UTL+":lensmakers_equation")],observe=["lensmakers_equation(r1, r2, n, thickness)"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in R: f.write(json.dumps(r)+"\n")
print(len(R))
