#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook="cfg(pt_verif): lib.rs `verif` re-export module"):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Accelerated closest hit equals testing every shape",
  "Tracing a ray through a scene's acceleration structure gives the same answer as testing every shape of the scene in turn: a hit exactly when some shape is hit inside the ray's extent, at the smallest ray parameter, and attributed to the shape that was hit. This holds for any set of shapes (overlapping, coplanar, duplicated, nested, flat), any depth limit, and any ray, including rays parallel to an axis, starting on or inside geometry, or of finite extent.",
  ["inputs", "configurations"], "every list of shapes, depth limit and ray",
  "No existing test builds a k-d tree at all; the shapes, splits and traversal orders that matter are unbounded.",
  ["src/container_kdtree.rs", "src/container_simple.rs", "src/bbox.rs", "src/shape.rs", "src/scene.rs"],
  [("SAH split and shape classification", "src/container_kdtree.rs KdTree::build"), ("front-to-back traversal", "src/container_kdtree.rs KdTree::intersect"), ("t_max shrinking and shape attribution", "src/shape.rs intersect")],
  ["Container::intersect / Scene::intersect result", "every ray of a real render through a monitored container"])
p("C02", "Occlusion queries agree with closest-hit queries",
  "Asking only whether a ray is blocked answers yes exactly when the full intersection query on the same ray finds a hit within its extent. This holds for each single shape, for area lights, for every acceleration structure and for the scene.",
  ["inputs", "configurations"], "every shape, scene, ray and ray extent",
  "The any-hit code is a second copy of the intersection and traversal code and no existing test runs it.",
  ["src/container_kdtree.rs", "src/container_simple.rs", "src/shape_triangle.rs", "src/shape_sphere.rs", "src/light.rs", "src/scene.rs"],
  [("any-hit traversal", "src/container_kdtree.rs KdTree::intersect_p"), ("any-hit tests", "src/shape_triangle.rs, src/shape_sphere.rs intersect_p")],
  ["Shape::intersect_p, Container::intersect_p, Scene::intersect_p results"])
p("C03", "Ray-shape hits are geometrically exact up to rounding",
  "A ray hits a triangle or sphere exactly when the mathematical ray, restricted to its open extent (0, t_max), meets the mathematical surface, up to rounding at silhouettes; the reported parameter is the nearest such crossing and the reported point lies on both the ray and the surface up to rounding. A ray starting inside a sphere hits its far side, and a triangle is hit from both sides.",
  ["inputs"], "every triangle, sphere and ray, in every orientation and at every offset from the origin",
  "The one sphere test uses five hand-picked rays and no test intersects a triangle.",
  ["src/shape_triangle.rs", "src/shape_sphere.rs", "src/common.rs", "src/ray.rs"],
  [("watertight edge-function test with error bound", "src/shape_triangle.rs Triangle::intersect"), ("f64 quadratic", "src/shape_sphere.rs has_intersection, src/common.rs quadratic")],
  ["Shape::intersect result against an f64 reference"])
p("C04", "Every hit carries a valid, correctly oriented surface frame",
  "Every reported hit has finite unit geometric and shading normals perpendicular to the true surface (respectively interpolating the vertex normals), on the same side as each other, outward on spheres and following winding, reversal and vertex normals on triangles; tangents that are finite, non-zero and perpendicular to the shading normal; the outgoing direction opposite to the ray; and the surface coordinates of the hit point. No point of a surface is an exception (poles, seams, edges, opposed vertex normals).",
  ["inputs"], "every shape, vertex-normal assignment, orientation flag and ray that hits",
  "Tests check the normal of three axis-aligned sphere hits only; poles, triangles, vertex normals and tangents are never observed.",
  ["src/shape_triangle.rs", "src/shape_sphere.rs", "src/interaction.rs", "src/vector.rs"],
  [("partial derivatives and normals", "src/shape_sphere.rs compute_interaction"), ("barycentric interpolation and orientation", "src/shape_triangle.rs Triangle::intersect")],
  ["Interaction fields returned by Shape::intersect / Scene::intersect"])
p("C05", "Rays leaving a surface never hit it again by rounding error",
  "A ray spawned from a reported hit point towards either side of its surface does not intersect the same flat surface again, does not intersect a sphere it leaves, and when it enters a sphere meets only the opposite side. A ray spawned from one hit point to another ends just before the second and is not blocked by the two surfaces it connects; this holds at every scale and distance from the origin.",
  ["inputs"], "every shape position and size, hit point and outgoing direction",
  "It depends on accumulated rounding error, so only extreme offsets and grazing directions expose it; no test spawns a ray.",
  ["src/interaction.rs", "src/shape_triangle.rs", "src/shape_sphere.rs", "src/common.rs"],
  [("error-bounded origin offset", "src/interaction.rs offset_ray_origin"), ("hit point error bounds", "src/shape_*.rs p_err"), ("next_float_up/down", "src/common.rs")],
  ["Interaction::spawn_ray / spawn_ray_to re-intersected with the shape"])
p("C06", "Bounding boxes are conservative and tight",
  "The box reported for a shape, a union or an acceleration structure contains all of its geometry and is the smallest such axis-aligned box up to rounding; the box of a transformed box contains the transform of every point of the original, and the bounding sphere contains the box. A ray is reported to meet a box whenever it passes through it within its extent (with a parameter interval covering the passage), also for axis-parallel rays and rays starting inside or on a face, and is not when it clearly misses.",
  ["inputs"], "every shape, box, transform, point and ray",
  "Tests only iterate integer pixel boxes; 3D boxes are never exercised and signed zeros, NaN slabs and rotations are not sampled.",
  ["src/bbox.rs", "src/shape_triangle.rs", "src/shape_sphere.rs", "src/transform.rs", "src/container_kdtree.rs"],
  [("slab test", "src/bbox.rs BBox3f::intersect"), ("bbox of shapes", "src/shape_*.rs bbox"), ("box transform", "src/transform.rs Transformable for BBox3f")],
  ["BBox3f::intersect/union/bounding_sphere, Shape::bbox, Container::bbox, Transform::apply"])
p("C07", "Transforms compose, invert and preserve geometry",
  "Applying a product of transforms equals applying them one after the other, and applying the inverse (of any constructor's, product's or matrix's transform) undoes it, up to rounding. Rays map so that points along them map to points along the image, normals stay perpendicular to transformed surfaces, rotations turn by the stated angle about the stated axis, look-at carries the camera frame to the requested position, viewing direction and up side, and perspective sends the near plane to 0, the far plane to 1 and the field-of-view edge to 1.",
  ["inputs"], "every chain of transforms and every point, vector, normal and ray",
  "Tests check one inverse of a nearly diagonal matrix, one product and one look-at; most of the 16 cofactors are zero there.",
  ["src/transform.rs", "src/matrix.rs"],
  [("cofactor inverse", "src/matrix.rs Matrix::inverse"), ("paired matrix and inverse", "src/transform.rs Transform")],
  ["Transform::apply / inverse_apply / inverse / mul"])
p("C08", "Camera rays pass through the requested film position",
  "For any film resolution, screen window, field of view and camera placement, the ray generated for a film position starts at the camera, has unit direction and infinite extent, and passes through the point of the screen window at that film position: x grows to the right, y grows downwards, film corners map to window corners. Distinct film positions give distinct directions.",
  ["inputs", "configurations"], "every resolution, screen window, projection, camera placement and film position",
  "No test generates a camera ray.",
  ["src/camera.rs", "src/transform.rs"],
  [("raster-to-camera chain", "src/camera.rs PerspectiveCamera::new, generate_ray")],
  ["Camera::generate_ray, PerspectiveCamera"])
p("C09", "Halton sampler yields exactly the pixel's Halton points",
  "The k-th sample of a pixel is the k-th point of the Halton sequence that falls into that pixel when the first two dimensions are scaled to the sampled area (repeating every 128 pixels): the first two values are its position inside the pixel and every further value is the radical inverse of that same point's index in the next prime base. This holds for every dimension and sample count, all values are in [0,1), and nothing depends on pixels or samples drawn earlier.",
  ["inputs", "histories", "configurations"], "every sampled area, pixel, visiting order, sample number and dimension",
  "The only test evaluates radical_inverse at three points in base 10; index computation, dimension table and large indices are never run.",
  ["src/sampler_halton.rs", "src/sampler.rs"],
  [("pixel-to-index by CRT", "src/sampler_halton.rs get_index_for_sample, multiplicative_inverse"), ("radical inverses", "src/sampler_halton.rs radical_inverse_prime")],
  ["values returned by Sampler calls, compared with an exact integer reference"],
  state=[("offset cache", "index offset of the last pixel", "src/sampler_halton.rs pixel_for_offset")])
p("C10", "Samplers deliver the promised number of valid samples",
  "For every pixel, a sampler yields exactly the requested number of samples whatever was drawn before, every value is in [0,1), and the camera sample lies inside the pixel. Pseudo-random values are uniform and independent across dimensions, samples, pixels and the parallel workers of a render, and two copies of a quasi-random sampler give the same values for the same pixel.",
  ["inputs", "histories", "schedules"], "every sequence of sampler calls, copies and workers",
  "No test draws a sample from either sampler.",
  ["src/sampler.rs", "src/sampler_random.rs", "src/sampler_halton.rs", "src/integrator.rs"],
  [("sample counting", "src/sampler_*.rs start_pixel/start_next_sample"), ("per-worker clones", "src/integrator.rs render")],
  ["Sampler trait calls, recorded at the sampler boundary during renders"])
p("C11", "Film pixels are filter-weighted averages that conserve samples",
  "Each film pixel accumulates exactly the samples whose film position lies within the filter radius of the pixel centre on both axes, each weighted by the filter at that offset (at the film's fixed 16-steps-per-radius tabulation), and nothing from other samples; the pixel colour is the weighted sum over the weight sum. The result does not depend on how samples are split over tiles or in which order tiles are merged, including concurrently, up to rounding.",
  ["inputs", "histories", "schedules"], "every resolution, filter, set of samples and tile split/merge order",
  "No test adds a sample to a film.",
  ["src/film.rs", "src/filter.rs"],
  [("sample splatting", "src/film.rs FilmTile::add_sample"), ("tile bounds", "src/film.rs get_film_tile"), ("locked merge", "src/film.rs merge_film_tile")],
  ["film pixel sums through the guarded accessor, and write_image_ppm"],
  hook="cfg(pt_verif): Film::verif_pixels")
p("C12", "Work tiles partition the sampled area",
  "For every resolution and filter radius, the work tiles are non-empty, pairwise disjoint, at most 16 pixels on a side and together cover exactly the sampled area. The sampled area is the smallest integer box that contains the filter support of every film pixel, and is empty of work when the film has no pixels and the filter has no extent.",
  ["inputs", "configurations"], "every resolution and filter radius",
  "One test checks a 40x40 film with zero radius; partial tiles, negative origins and fractional radii are not covered.",
  ["src/film.rs", "src/bbox.rs"],
  [("tile iteration", "src/film.rs FilmTileIter"), ("sample_bbox", "src/film.rs sample_bbox"), ("pixel iteration", "src/bbox.rs BBox2iIter")],
  ["Film::iter, Film::sample_bbox, BBox2i::iter"])
p("C13", "The PPM image encodes every pixel's colour exactly",
  "The written image is a well-formed plain PPM of the film's width and height with one pixel per film pixel in row order, where every channel is the nearest 8-bit value of the sRGB encoding of the pixel's average, limited to 0..255; black and unsampled pixels are 0. The bytes do not depend on how the destination splits or interrupts writes, and an error of the destination is reported rather than swallowed.",
  ["inputs", "fault_sequences"], "every film content and every behaviour of the output stream",
  "No test writes an image.",
  ["src/film.rs", "src/common.rs"],
  [("encoding loop", "src/film.rs write_image_ppm"), ("transfer curve", "src/film.rs gamma_correct")],
  ["bytes received by the Write implementation"])
p("C14", "After render, output.ppm is exactly the rendered image",
  "When a render returns normally, output.ppm in the working directory holds exactly the rendered image, whatever the file contained before; other files are untouched. If the image cannot be stored completely (the file cannot be opened, or any part of the data cannot be written), the render does not return normally.",
  ["fault_sequences", "histories"], "every earlier content of the file and every failure of opening or writing it",
  "No test renders; stale longer files and write errors on the last buffered block are never produced.",
  ["src/integrator.rs", "src/film.rs"],
  [("open, buffered write", "src/integrator.rs Integrator::render")],
  ["the file system after Integrator::render in a scratch directory"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C15", "Every pixel is sampled exactly once under any schedule",
  "In a render with any number of worker threads and any interleaving, every pixel of the sampled area is started exactly once, gets exactly the requested number of samples, exactly one camera ray is traced per sample, and every valid sample reaches the final film exactly once. The render returns only when all of that has happened.",
  ["schedules", "configurations"], "every thread count, interleaving, resolution and sample count",
  "No test renders, and interleavings cannot be sampled by a sequential test.",
  ["src/integrator.rs", "src/film.rs"],
  [("shared tile queue", "src/integrator.rs render film_tile_iter"), ("merge under lock", "src/film.rs merge_film_tile"), ("join", "src/integrator.rs render")],
  ["event log at the sampler, camera and film boundary"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C16", "The image does not depend on threads or timing",
  "With a deterministic sampler, rendering the same scene with any number of threads, any interleaving and any number of repetitions gives the same film up to floating-point summation order, and hence the same image up to one 8-bit step.",
  ["schedules", "configurations"], "every thread count and interleaving",
  "No test renders, let alone twice.",
  ["src/integrator.rs", "src/sampler_halton.rs", "src/film.rs"],
  [("per-worker sampler clones without carried state", "src/integrator.rs render"), ("additive merge", "src/film.rs merge")],
  ["film pixels after renders with different thread counts and injected delays"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C17", "A failing worker fails the render and writes no image",
  "If any worker thread fails at any point of its work (in a shape, material, texture, light, camera or sampler), the render reports the failure to its caller instead of returning normally, does so after finitely many steps without hanging, and neither creates output.ppm nor changes an existing one.",
  ["fault_sequences", "schedules"], "every failing component, call number, worker and thread count",
  "No test injects a failure into a render.",
  ["src/integrator.rs"],
  [("join().unwrap() before opening the file", "src/integrator.rs render")],
  ["outcome of Integrator::render and the file system after injected panics"])
p("C18", "Sampled scattering directions follow the reported density",
  "For every material, outgoing direction and shading frame, the directions obtained by sampling the surface's scattering are distributed according to the density reported for them (with uniform sample values), so that the reported density integrates over all directions to the probability that sampling yields a non-mirror direction.",
  ["inputs", "configurations"], "every material, roughness (isotropic or not), outgoing direction on either side, and surface frame",
  "It is a statement about an integral over all directions; no test samples any material.",
  ["src/bxdf_lambertian_reflection.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/microfacet.rs", "src/sampling.rs", "src/reflection.rs"],
  [("visible lobe choice and pdf averaging", "src/reflection.rs BSDF::sample_f/pdf"), ("GGX sampling", "src/microfacet.rs"), ("cosine sampling", "src/sampling.rs")],
  ["histogram of sampled directions against the integrated density"])
p("C19", "Sampled scattering agrees with evaluation and is well-formed",
  "Whenever sampling the scattering at a surface yields a direction with positive density, the direction is a finite unit vector, the returned value and density are finite, non-negative and, for non-mirror directions, equal to evaluating value and density for that pair of directions; reflected and transmitted directions lie on the side of the surface that their kind says. Evaluation itself is finite and non-negative for every pair of directions.",
  ["inputs", "configurations"], "every material, frame (including shading normals bent away from the geometric normal), pair of directions and sample value",
  "No test evaluates or samples a material.",
  ["src/reflection.rs", "src/bxdf_lambertian_reflection.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/bxdf_specular_reflection.rs", "src/bxdf_specular_transmission.rs"],
  [("combination of lobes", "src/reflection.rs BSDF")],
  ["BSDF::sample_f vs BSDF::f and BSDF::pdf"])
p("C20", "Surfaces never create energy",
  "For every material whose reflectance and transmittance parameters sum to at most one, and every outgoing direction, the fraction of light scattered over all directions is at most one (radiance carried through a refracting surface counted with its squared index ratio). A diffuse or mirror surface scatters exactly its reflectance, and smooth clear glass exactly one.",
  ["inputs", "configurations"], "every material parameter choice and outgoing direction",
  "It is a bound on an integral over all directions; nothing in the tests evaluates one.",
  ["src/reflection.rs", "src/microfacet.rs", "src/fresnel.rs", "src/material_glass.rs", "src/material_plastic.rs", "src/material_metal.rs"],
  [("masking-shadowing and Fresnel weights", "src/microfacet.rs g, src/fresnel.rs"), ("lobe weights", "src/reflection.rs BSDF::sample_f")],
  ["average of value*cosine/density over stratified sample values"])
p("C21", "Scattering is reciprocal",
  "Exchanging the two directions leaves the reflective scattering value of every material unchanged, and changes the transmitted value only by the squared ratio of the refractive indices of the two sides.",
  ["inputs", "configurations"], "every material and pair of directions",
  "No test evaluates a scattering value.",
  ["src/bxdf_lambertian_reflection.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/microfacet.rs"],
  [("symmetric half-vector and G", "src/bxdf_microfacet_*.rs f, src/microfacet.rs g")],
  ["BSDF::f with exchanged arguments"])
p("C22", "Smooth surfaces obey mirror, Snell and Fresnel laws",
  "A mirror-like surface sends light only into the exact mirror direction, a smooth refracting one also into the direction given by Snell's law on the other side, none beyond the critical angle; the fractions reflected and refracted are the Fresnel fractions for the interface crossed in that direction (dielectric or complex-index conductor) and for clear glass add up to one.",
  ["inputs", "configurations"], "every index of refraction, absorption, outgoing direction and side",
  "No test evaluates Fresnel terms or a specular material.",
  ["src/fresnel.rs", "src/bxdf_specular_reflection.rs", "src/bxdf_specular_transmission.rs", "src/reflection.rs", "src/material_glass.rs", "src/material_mirror.rs", "src/material_metal.rs"],
  [("fr_dielectric, fr_conductor", "src/fresnel.rs"), ("reflect, refract", "src/reflection.rs")],
  ["BSDF::sample_f of mirror, glass and metal materials against an f64 reference"])
p("C23", "Area lights are sampled uniformly with solid-angle densities",
  "Points sampled on an area light lie on its surface, are uniform by area and carry the same normal that a ray hitting that point reports; light is emitted only on that normal's side. The density reported for sampling a direction towards an area light is per solid angle: it is the same whether the direction came from light sampling or is queried, integrates to one over the directions that meet the light, and is zero for directions that miss it.",
  ["inputs"], "every triangle light (any size, orientation flag, vertex normals), reference point and direction",
  "No test creates a light; the density is a statement about an integral.",
  ["src/light.rs", "src/shape.rs", "src/shape_triangle.rs"],
  [("uniform triangle sampling", "src/shape_triangle.rs sample"), ("density conversion", "src/shape.rs Shape::pdf"), ("one-sided emission", "src/light.rs AreaLight::l")],
  ["Light::sample_li, Light::pdf_li, Shape::sample"])
p("C24", "Light visibility equals absence of occluders",
  "A light sample is reported visible exactly when no other geometry of the scene lies between the surface point and the sampled point of an area light, or anywhere along the direction towards a distant light, however far away within the scene and however the scene is placed. A distant light reports its fixed unit direction and radiance with unit weight everywhere.",
  ["inputs", "configurations"], "every scene, surface point, light and occluder position",
  "No test creates a scene with a light.",
  ["src/light.rs", "src/scene.rs", "src/interaction.rs", "src/bbox.rs"],
  [("shadow segment", "src/light.rs VisibilityTester, src/interaction.rs spawn_ray_to"), ("scene extent given to lights", "src/scene.rs construct, src/bbox.rs bounding_sphere")],
  ["VisibilityTester::unoccluded against an f64 segment test"])
p("C25", "Direct illumination converges to the physical value",
  "The expected radiance that a diffuse surface shows under any set of distant and area lights is the sum over all lights of its albedo/pi times the irradiance from the unoccluded, facing part of that light: cosine law for distant lights, the exact polygon form factor for triangle lights at any distance, and shadow where blocked. Scaling all lights scales the image by the same factor, and every light added to the scene contributes.",
  ["inputs", "configurations"], "every arrangement of lights, receivers and blockers",
  "No test renders; expectations over all samples cannot be read from single values.",
  ["src/integrator.rs", "src/light.rs", "src/sampling.rs", "src/scene.rs", "src/shape.rs"],
  [("multiple importance sampling", "src/integrator.rs estimate_direct, src/sampling.rs power_heuristic"), ("light choice", "src/integrator.rs uniform_sample_one_light")],
  ["film averages of real renders against closed-form irradiance"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C26", "Multi-bounce transport counts every light path once",
  "The expected radiance of a pixel is the sum over all light paths, each counted exactly once: emitters seen directly or through any chain of mirrors and glass show their radiance times the product of the interface weights, a closed room with uniform emission and albedo shows emission/(1-albedo) everywhere, and clear glass inside uniform light is invisible. Random path termination does not change expectations.",
  ["inputs", "configurations"], "every scene with known closed-form radiance: mirror chains, glass, closed rooms, mixed materials",
  "No test renders; double or missed counting only shows in expectations over paths of two or more segments.",
  ["src/integrator.rs", "src/reflection.rs", "src/light.rs"],
  [("path loop, specular flag, roulette", "src/integrator.rs li"), ("MIS without specular lobes", "src/integrator.rs estimate_direct")],
  ["film averages of real renders against closed forms"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C27", "Valid scenes render without crashes or lost samples",
  "Rendering any scene made of well-formed shapes, built-in materials, textures and lights, with any camera placement, completes within the path-length limit, never panics or overflows, and yields a finite non-negative radiance for every sample, so that no sample is discarded.",
  ["inputs", "configurations"], "every valid scene, camera and sampler configuration, including degenerate alignments (poles, edges, closed mirror rooms, large sample counts)",
  "No test renders; the failing inputs are measure-zero alignments or very long paths.",
  ["src/integrator.rs", "src/shape_sphere.rs", "src/sampler_halton.rs", "src/reflection.rs", "src/microfacet.rs"],
  [("radiance validation", "src/integrator.rs IntegratorLocal::render"), ("bounce limit", "src/integrator.rs li")],
  ["film sample weights, panics and events of real renders"],
  hook="cfg(pt_verif): Integrator::verif_film")
p("C28", "Textures and materials use the value at the hit point",
  "A constant texture has its value everywhere; 2D and 3D checkerboards alternate between their two values on unit cells of the mapped coordinates, for negative coordinates too; the UV mapping scales and then shifts the surface coordinates and the 3D mapping applies its world-to-texture transform to the hit point. Every material takes each of its parameters from its own texture at the hit point, with negative reflectances treated as zero and lobes of plastic and glass whose reflectance is black absent.",
  ["inputs"], "every texture, mapping, surface point and material",
  "No test evaluates a texture or a material.",
  ["src/texture.rs", "src/material_lambertian_reflection.rs", "src/material_plastic.rs", "src/material_metal.rs", "src/material_mirror.rs", "src/material_glass.rs", "src/spectrum.rs"],
  [("cell parity", "src/texture.rs evaluate"), ("mappings", "src/texture.rs map"), ("compute_scattering", "src/material_*.rs")],
  ["Texture::evaluate and scattering of materials over recording textures"])
p("C29", "Rough materials follow the GGX microfacet model",
  "The scattering value of rough metal, plastic and glass equals the Torrance-Sparrow model with the GGX distribution and its Smith masking for the given roughness along each tangent, with the Fresnel term of the interface as seen from the outgoing side, for reflection and for transmission. As roughness shrinks, the scattered energy tends to that of the corresponding smooth material.",
  ["inputs", "configurations"], "every roughness pair, index and pair of directions on either side",
  "No test evaluates a microfacet term.",
  ["src/microfacet.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/material_metal.rs", "src/material_glass.rs", "src/material_plastic.rs"],
  [("D, Lambda, G", "src/microfacet.rs"), ("f", "src/bxdf_microfacet_*.rs")],
  ["BSDF::f against an f64 reference model"])
p("C30", "Parallel rendering is free of data races and undefined behaviour",
  "No execution of a multi-threaded render performs an unsynchronised conflicting access to shared memory, an invalid memory access or any other undefined behaviour, for any thread count and interleaving.",
  ["schedules", "inputs"], "every thread count and interleaving of workers sharing the scene, tile queue and film",
  "Tests are single-threaded and run without a race detector or undefined-behaviour interpreter.",
  ["src/integrator.rs", "src/film.rs", "src/common.rs"],
  [("Mutex-protected tile queue and film", "src/integrator.rs, src/film.rs"), ("immutable shared scene", "src/scene.rs"), ("bit casts", "src/common.rs")],
  ["ThreadSanitizer and Miri reports over renders"])
p("C31", "Scene construction keeps every shape and light",
  "A constructed scene contains every shape, light and area light that was added, each exactly once, in whatever order and number; an area light acts both as a visible surface and as a light, and every light is told the extent of the complete scene before rendering. Triangle meshes yield one triangle per index triple with exactly the indexed vertices and, when given for every triangle, the indexed normals.",
  ["inputs", "histories"], "every sequence of additions and every mesh",
  "No test builds a scene or a mesh.",
  ["src/scene.rs", "src/shape_triangle.rs"],
  [("Builder", "src/scene.rs construct"), ("mesh expansion", "src/shape_triangle.rs new_triangle_mesh")],
  ["recording shapes, lights and container given to the builder"])

open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
