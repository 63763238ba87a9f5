"""The property list. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
# id, title, statement, over, quantifier text, why tests can't, files, [mechanism (name, where)], observe_at
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level_note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, na=na, technique=technique))


prop("P01", "Affine algebra of points, vectors, normals, frames and rays",
     "Points, vectors and normals obey affine algebra with the right result types: sums, differences, scaling, dot and cross products, lengths, distances, equality, copies and conversions equal the componentwise definitions and never alter their operands. "
     "A frame built around any unit vector is right-handed and orthonormal, a normal faced towards a vector lies in its hemisphere, and spherical angles and directions convert back and forth. "
     "A ray evaluates to origin plus t times direction, and copies, child rays and scaled differentials keep the documented fields and share nothing with their source.",
     ["inputs"], "all finite coordinates, all unit vectors (poles and axes included), all ray parameters and fields",
     "The geometry tests use a few fixed random vectors and skip frames near the axes, aliasing of operands and ray differentials.",
     ["pytracer/geometry/__init__.py", "pytracer/geometry/utility.py"],
     [("numpy subclasses with typed arithmetic", "pytracer/geometry/__init__.py"), ("coordinate_system, face_forward, spherical_*", "pytracer/geometry/utility.py")],
     ["values, types and operand state of the geometry API"],
     "Generated coordinates against componentwise models; trusts the small linear algebra of cases/base.py.")

prop("P02", "Bounding boxes form a lattice and answer ray overlap exactly",
     "An axis-aligned box grown by any sequence of unions with points, boxes and empty boxes and of expansions is exactly the smallest box containing what was put in; union is commutative, associative, idempotent and has the empty box as neutral element. "
     "Containment, overlap, volume, surface area, longest axis, interpolation, relative offset and bounding sphere equal their definitions. "
     "A ray meets a box exactly when some parameter of its range lies in all three slabs, and the reported entry and exit parameters delimit that overlap, whatever the ray's direction, sign of zero included.",
     ["inputs", "histories"], "all boxes incl. empty and flat ones, all growth histories, all rays incl. axis-parallel, in-plane and interior ones",
     "Tests construct a handful of boxes; ray overlap with zero direction components, in-plane rays and empty boxes are never reached.",
     ["pytracer/geometry/__init__.py"], [("BBox union/expand/inside/overlaps/intersect_p", "pytracer/geometry/__init__.py")],
     ["box corners, predicates and returned parameters"],
     "Growth histories and rays against an interval model; rays within rounding of a face are not judged on hit/miss.")

prop("P03", "Transforms compose, invert and act consistently on every type",
     "A transform always carries a matrix and its inverse that are inverse to each other, through every product, inversion, transposition and named constructor. "
     "Applying it to points, vectors, normals, rays and differential rays equals the homogeneous matrix action (normals by the inverse transpose), the inverse undoes it, and ranges, depth and time of rays survive; a box under axis-aligned maps becomes exactly the box of its image. "
     "Translation, scaling, rotation, look-at, perspective and orthographic constructors do what their names say, and the identity, scale and handedness predicates answer correctly.",
     ["inputs"], "all products of translations, rotations and non-uniform or mirroring scales; all cameras, fields of view and clipping planes; all argument types",
     "Tests compare single elementary transforms on fixed data; products, mirrored scales, differential rays, projections at arbitrary planes and look-at orientation are not exercised.",
     ["pytracer/transform/__init__.py"], [("Transform and its constructors", "pytracer/transform/__init__.py")],
     ["matrices and images of geometric objects"],
     "Products of generated elementary transforms against an independent matrix algebra; boxes under general rotation are excluded (known finding, pinned by a repository test).")

prop("P04", "Quaternions and key-framed motion interpolate the rigid motion",
     "Converting a rotation to a quaternion and back reproduces it for every angle and axis, and spherical interpolation turns at constant speed along the shorter arc. "
     "A key-framed transform reproduces its key frames at and beyond the key times, is continuous, and in between interpolates translation and stretch linearly and rotation spherically, for points, vectors, rays and differential rays alike; a matrix splits into translation, rotation and stretch whose product is the matrix. "
     "Bounds of a moving box contain the box's image at every time of the interval, forwards and backwards.",
     ["inputs", "histories"], "all rotations (half turns and the branch points of the conversion included), all pairs of key frames with relative rotation below 180 degrees, all query times",
     "No test covers interpolation or decomposition over angles above 90 degrees, times outside the interval, or motion bounds.",
     ["pytracer/transform/__init__.py", "pytracer/transform/quat.py"],
     [("from_transform/to_transform/slerp", "pytracer/transform/quat.py"), ("AnimatedTransform", "pytracer/transform/__init__.py")],
     ["interpolated matrices, moved points, motion bounds"],
     "Key frames against Rodrigues' formula; motion bounds are judged on sampled points and times up to 0.1%.")

prop("P05", "Ray-shape intersection finds exactly the nearest hit in range",
     "For spheres, cylinders, disks and triangles, full or clipped in z, radius or sweep angle, under any placement, a ray reports a hit exactly when it meets the surface inside its parameter range, at the smallest such parameter and at that surface point. "
     "The any-hit query agrees with the closest-hit query, neither alters the ray, and rescaling a ray's direction or sliding its origin changes only the parameter. A mask texture on a mesh cuts holes exactly where it is zero. "
     "Tangent and axis-aligned rays are answered without errors or non-finite values.",
     ["inputs"], "all shape parameters, affine placements incl. mirrored and non-uniform ones, all rays and parameter ranges",
     "The shape tests are absent; the single rendering test sees one scene from one camera.",
     ["pytracer/shape/sphere.py", "pytracer/shape/cylinder.py", "pytracer/shape/disk.py", "pytracer/shape/triangle.py", "pytracer/shape/__init__.py"],
     [("intersect / intersect_p of every shape", "pytracer/shape")], ["hit flag, parameter, hit point"],
     "Closed-form solutions in object space; rays closer than about 1e-6 to an edge, tangent or range end are only checked for clean answers.")

prop("P06", "Hit geometry is the derivative of the surface parameterisation",
     "At every hit the reported (u,v) are the surface parameters of the hit point, dp/du, dp/dv, dn/du and dn/dv are the derivatives of position and unit normal with respect to them, and the normal is their unit normal flipped by orientation reversal or a mirroring placement. "
     "Screen-space derivatives computed from an offset ray pair locate where those rays meet the tangent plane and the matching change of (u,v). "
     "Triangle shading geometry interpolates per-vertex normals and tangents by the hit's barycentric coordinates, in world space, whatever the vertex order of the mesh.",
     ["inputs"], "all hits on all shapes with arbitrary clipping, orientation, placement, texture coordinates and per-vertex data",
     "No test inspects differential geometry.",
     ["pytracer/geometry/diffgeom.py", "pytracer/shape"], [("intersect's parametric derivatives", "pytracer/shape"), ("compute_differential", "pytracer/geometry/diffgeom.py"), ("Triangle.get_shading_geometry", "pytracer/shape/triangle.py")],
     ["DifferentialGeometry of hits"],
     "Finite differences of an independent parameterisation; poles and degenerate texture coordinates are excluded.")

prop("P07", "Shape bounds enclose, areas integrate, meshes are their triangles",
     "Object and world bounds of every shape contain all of its surface, and asking again gives the same box; whatever a ray hits lies inside the bound and inside the part of the ray that overlaps it. "
     "The area of a shape is the surface integral of its parameterisation. "
     "A triangle mesh refines into exactly its triangles with their vertices, texture coordinates and orientation in world space and distinct ids, and malformed mesh descriptions are refused.",
     ["inputs"], "all shape parameters, placements, surface points, mesh connectivities and malformed descriptions",
     "No test builds a rotated shape or an irregular mesh.",
     ["pytracer/shape"], [("object_bound, world_bound, area, refine", "pytracer/shape"), ("create_triangle_mesh", "pytracer/shape/triangle.py")],
     ["bounds, areas, refined shapes, errors"],
     "Surface samples and closed-form areas (quadric areas in object space, as the code defines them).")

prop("P08", "Shape sampling covers the surface uniformly with the density it reports",
     "A point sampled on a shape lies on its surface with the surface's normal there, for every pair of random numbers, and equal parts of the unit square map to equal areas, so that the reported density is one over the area. "
     "The density for choosing a direction from a viewpoint is the area density converted to solid angle, and zero for directions that miss. "
     "A sphere seen from outside is sampled inside its visible cone with the uniform density of that cone, and from inside by area.",
     ["inputs"], "all shapes, all (u1,u2) in the unit square, all viewpoints and directions",
     "No test samples shapes; a density is a statement about all random numbers.",
     ["pytracer/shape", "pytracer/montecarlo/utility.py"], [("sample, sample_p, pdf, pdf_p", "pytracer/shape"), ("uniform_sample_cone", "pytracer/montecarlo/utility.py")],
     ["sampled points and normals, densities"],
     "Jacobian of the sampling map by finite differences and deterministic lattices, no statistical tests; rigid placement for densities.")

prop("P09", "Loop subdivision realises Loop's scheme on every manifold mesh",
     "Refining a subdivision surface n times yields exactly the triangulation and the limit positions of Loop's scheme, with boundary rules at borders and the valence-dependent weights in the interior, in world space. "
     "The result does not depend on vertex numbering, face order or starting corner, commutes with affine maps of the control points, lies within the control mesh's bound, and its vertex normals are normal to the limit surface on a consistent side. "
     "Incomplete descriptions are refused and the default depth is three.",
     ["inputs"], "all consistently oriented manifold control meshes with or without boundary, valences 3 to 9, 0 to 3 levels, affine placements",
     "No test refines a subdivision surface.",
     ["pytracer/shape/loopsubdiv.py"], [("LoopSubdiv.refine", "pytracer/shape/loopsubdiv.py")], ["vertices, connectivity and normals of the refined mesh"],
     "Independent edge-map implementation of the scheme; normals judged where the refined mesh is locally flat.")

prop("P10", "Every accelerator answers like a scan of its primitives",
     "For any set of primitives the plain list, the uniform grid (refining eagerly or lazily) and the bounding volume hierarchy (either split method, any leaf size), and any nesting of them, report the closest hit with the primitive it belongs to, and a shadow answer, exactly as testing each primitive would. "
     "A hit shortens the ray to the nearest parameter, a miss leaves ray and result untouched, and no query changes later answers, nor those of another thread asking at the same time, wherever the one interrupts the other (lazy refinement included). "
     "The aggregate's bound contains every primitive and nothing beyond their union; empty aggregates are never hit.",
     ["inputs", "histories", "configurations", "schedules"], "all primitive sets (overlapping, clustered, coplanar, coincident, empty), all rays incl. axis-parallel ones through shared mesh edges, all query histories, all interleavings of two threads",
     "The rendering test uses one scene; a traversal error shows only for particular rays and layouts.",
     ["pytracer/aggregate/aggregate.py", "pytracer/aggregate/accelerator/bvh.py"],
     [("SimpleAggregate, GridAccel, Voxel", "pytracer/aggregate/aggregate.py"), ("BVH build and traversal", "pytracer/aggregate/accelerator/bvh.py")],
     ["hit flag, ray range, recorded primitive, bound"],
     "Closed-form model of every primitive; rays grazing a primitive are not judged except on exactly representable meshes. Schedules: one thread is stopped before a chosen bytecode instruction while the other runs, up to two switches.")

prop("P11", "Primitives, instances and scenes report consistent intersections",
     "A primitive's hit records that primitive, its shape, transforms, ids and epsilon, asks the right material with the shading geometry and the right area light for emission (none means black); refinement keeps material and light and loses no part. "
     "An instance, fixed or moving, behaves like the same object placed by the transform interpolated at the ray's time: same parameter, point, derivatives, normal and transforms, without altering the caller's ray; several instances of a shared aggregate act like the flattened scene. "
     "A scene answers as its aggregate does and its bound is the union of aggregate and volume bounds, neither of which it changes.",
     ["inputs", "histories", "configurations"], "all shapes, placements, motions, times and rays; scenes with and without volumes and lights",
     "No test uses instances, area lights or volumes.",
     ["pytracer/aggregate/primitive.py", "pytracer/aggregate/intersection.py", "pytracer/scene/scene.py"],
     [("GeometricPrimitive, TransformedPrimitive", "pytracer/aggregate/primitive.py"), ("Intersection", "pytracer/aggregate/intersection.py"), ("Scene", "pytracer/scene/scene.py")],
     ["intersection records, bounds, calls to material and light"],
     "Closed-form shapes under composed matrices; instance transforms preserve handedness.")

prop("P12", "Cameras generate the rays of their projection",
     "For every film point, lens sample and time, a camera generates the world-space ray of its projection: perspective rays leave the eye through the screen window at the field of view, orthographic rays leave the window parallel to the axis, environment rays cover the sphere by polar and azimuth angle, pinhole rays leave the film point through the hole. "
     "Rays carry unit directions, the full parameter range, weight one and the sample's time, moved by the camera's placement at that time. "
     "With a lens, rays start on the disk of the lens radius and all rays of one film point meet in the plane of focus. "
     "Ray differentials are the rays one pixel further in x and in y with the same lens point and time; samples are never altered.",
     ["inputs"], "all film sizes, screen windows, fields of view, lenses, focal distances, fixed or moving rigid placements and samples",
     "Only one rendering test uses a camera: perspective, square film, no lens, no motion; other cameras are never instantiated.",
     ["pytracer/camera/camera.py", "pytracer/camera/projective.py", "pytracer/camera/environment.py"],
     [("generate_ray, generate_ray_differential", "pytracer/camera"), ("concentric_sample_disk", "pytracer/montecarlo/utility.py")],
     ["origin, direction, time, range and differentials of generated rays"],
     "Closed-form projections; keyframed placements are evaluated through the interpolation P04 judges.")

prop("P13", "Reconstruction filters equal their formulas and are symmetric",
     "Every reconstruction filter is the product of its one-dimensional kernel in x and y (box, clamped triangle, truncated Gaussian reaching zero at its width, Mitchell-Netravali cubic for any B and C, sinc windowed by a Lanczos sinc), symmetric under mirroring, zero outside its extent where it is defined there, "
     "and its evaluation on lists and arrays equals the evaluation of each element without altering them. "
     "Mitchell filters of half width two and triangles of half width one sum to a constant over the pixel grid.",
     ["inputs"], "all widths, shape parameters and offsets, scalars, lists and arrays",
     "No test evaluates a filter.",
     ["pytracer/filter/filter.py"], [("filter __call__ methods", "pytracer/filter/filter.py")], ["filter values"],
     "Independent formulas over random offsets.")

prop("P14", "The film reconstructs every pixel as the weighted mean of its samples",
     "After any sequence of samples and splats, every pixel of the image is the sum of filter-weighted samples within the filter's reach divided by the sum of weights, clamped at zero, plus the scaled splats that fell on it, independent of sample order and of splitting samples over threads. "
     "A crop window shows exactly those pixels of the full image; pixel extents and sample extents describe the window and the region whose samples can reach it; developing twice gives the same image. "
     "The written file shows that image, each channel scaled to its largest value, and a crop window updates an existing file in place, leaving all other pixels alone.",
     ["inputs", "histories", "schedules"], "all resolutions, crop windows, filters, sample and splat histories and interleavings",
     "The rendering test only checks that an image comes out; crops, splats and non-square films are untested.",
     ["pytracer/film/film.py", "pytracer/utility/imageio.py"],
     [("ImageFilm.add_sample, splat, write_image", "pytracer/film/film.py"), ("write_image", "pytracer/utility/imageio.py")],
     ["developed image, extents, file on disk"],
     "Direct weighted sums over an independent filter model on the documented 16 x 16 table; thread schedules are sampled: one thread is stopped before a chosen bytecode instruction while the other runs.")

prop("P15", "Samplers stratify every pixel and tiles cover the image exactly once",
     "A stratified sampler visits every pixel of its range exactly once, row by row, then stops for good; in each pixel the image samples, the lens samples and the times occupy every stratum exactly once (its centre without jitter), times lie in the shutter interval, and every integrator request is answered by a Latin hypercube pattern of the requested size. "
     "Sub-windows for any tile count have whole-pixel borders and partition the range, and subsamplers keep the settings and visit every pixel of their tile once. "
     "Sample requests get consecutive indices and duplicated samples own their storage.",
     ["inputs", "histories", "configurations"], "all pixel ranges, strata, shutter intervals, requests, tile counts and random generators",
     "No test uses a sampler apart from one rendering with fixed strata and one tile.",
     ["pytracer/sampler/sampler/__init__.py", "pytracer/sampler/sampler/stratified.py", "pytracer/sampler/sample.py", "pytracer/sampler/utility.py"],
     [("StratifiedSampler.generate", "pytracer/sampler/sampler/stratified.py"), ("compute_subwindow", "pytracer/sampler/sampler/__init__.py"), ("stratified and Latin hypercube patterns", "pytracer/sampler/utility.py")],
     ["samples delivered, windows, subsamplers"],
     "Stratum counting over generated configurations; the generator is a seeded or constant stream.")

prop("P18", "Spectra add, convert and resample like the quantities they stand for",
     "Spectra add, subtract, scale, multiply, interpolate, clamp and take roots and powers coefficient by coefficient, keep their type, never share storage with what they were made from, and are black exactly when every coefficient vanishes. "
     "RGB and XYZ convert back and forth, luminance is the Y component, and conversions agree across spectrum classes. "
     "The average of a measured curve over an interval is the exact integral of its piecewise linear interpolant (constant beyond its ends) over the length; resampling gives those averages for the 30 visible bands whatever the order of the data, and never edits the data. "
     "Turning a colour into a spectrum is non-negative, scales with the colour, and shows the same colour again to the accuracy of the basis.",
     ["inputs"], "all coefficients, colours, curves, intervals and sample orders",
     "Tests convert a few random colours, average one four-point curve, and leave the colour-to-spectrum conversions commented out as buggy.",
     ["pytracer/spectral/spectrum.py", "pytracer/data/spectral.py"],
     [("CoefficientSpectrum, RGBSpectrum, SampledSpectrum", "pytracer/spectral/spectrum.py")], ["coefficients, colours and types"],
     "Exact piecewise linear integration; the tabulated basis itself is only checked through the round trip.")

prop("P16", "Distributions over tables sample what they tabulate",
     "A one- or two-dimensional piecewise constant distribution is built from any non-negative table, including zero stretches and all-zero tables: its integral is the mean of the table, its cumulative table climbs from zero to one, and sampling inverts it. "
     "Continuous sampling moves monotonically through the domain with u, never lands in a stretch of zero value unless the whole table is zero, and reports the density of the sampled value as value over mean; discrete sampling picks the cell with probability proportional to its value. "
     "The density query of a two-dimensional distribution agrees with the density reported by its sampling, and the table that was passed in is neither shared nor altered.",
     ["inputs"], "all non-negative tables (flat, spiky, partly and entirely zero) of any shape, and all u in [0, 1)",
     "No test builds a distribution.",
     ["pytracer/montecarlo/distribution.py"], [("Distribution1D, Distribution2D", "pytracer/montecarlo/distribution.py")], ["sampled values, offsets and densities"],
     "Exact inversion of the table's step function; u within rounding of a step is not judged on the cell.")

prop("P17", "Sampling warps have the densities they claim",
     "Every warp of the unit square (uniform and cosine hemisphere, sphere, disk uniform and concentric, cone in both frames, triangle, Henyey-Greenstein) stays in its domain, has unit length where it is a direction, and carries area: its Jacobian is the inverse of the density the library reports for it, so equal areas of the square receive equal probability. "
     "The power and balance heuristics are weights in [0, 1], sum to one over the two strategies and equal their formulas.",
     ["inputs"], "all points of the unit square, all cone angles and frames, all asymmetries, all sample counts and densities",
     "Tests use none of the warps on their own.",
     ["pytracer/montecarlo/utility.py"], [("uniform_sample_*, cosine_sample_hemisphere, concentric_sample_disk, sample_hg", "pytracer/montecarlo/utility.py")], ["sampled points, densities and weights"],
     "Jacobians by finite differences away from the seams of a warp.")

prop("P28", "Participating media add up along rays and through space",
     "Phase functions depend only on the angle, are symmetric, non-negative, follow their formulas and integrate to one over the sphere. "
     "At a world-space point a volume region's absorption, scattering, extinction and emission are its coefficients times its density there (constant, exponential in height, or trilinearly interpolated from the grid), zero outside its extent, under any placement, and its phase function has the configured asymmetry. "
     "A region's world bound encloses exactly its transformed extent, a ray overlaps it exactly where it runs inside, and its optical thickness is that of the overlapped segment in world length: exact and additive for homogeneous media, the offset step sum otherwise. "
     "An aggregate of regions sums coefficients and thickness, averages phase by scattering, and bounds all. "
     "A measured medium is found by its name with its published absorption and reduced scattering.",
     ["inputs", "configurations"], "all phase functions and asymmetries, all regions, placements, points, rays and step sizes",
     "No test touches a volume region.",
     ["pytracer/volume/volume.py", "pytracer/volume/utility.py", "pytracer/volume/bssrdf.py"],
     [("VolumeRegion and its implementations", "pytracer/volume/volume.py"), ("phase functions", "pytracer/volume/utility.py")], ["coefficients, bounds, intervals and optical thickness"],
     "Independent density models; phase normalisation by Gauss-Legendre quadrature.")

prop("P19", "Reflection models are physical and sample what they claim",
     "Every reflection model (Lambertian, Oren-Nayar, microfacet with Blinn or anisotropic distribution and any Fresnel term, Fresnel blend, and their scaled or transmissive wrappings) evaluates to its formula on either side of the surface, is non-negative and reciprocal, and leaves its arguments alone. "
     "Sampling returns unit directions on the side the model scatters to (or a black value); the reported value and density are those of the queries, and equal areas of the sample square carry equal probability under that density. "
     "Microfacet distributions have unit projected area; albedo estimates are the mean of value times cosine over density, exact for Lambertian surfaces. Type masks form a set algebra with matching as inclusion.",
     ["inputs"], "all model parameters, directions on both sides and points of the sample square",
     "No test touches a reflection model outside one rendered image.",
     ["pytracer/reflection/bdf/bdf.py", "pytracer/reflection/bdf/orennayar.py", "pytracer/reflection/bdf/torrance.py", "pytracer/reflection/bdf/fresnelblend.py", "pytracer/reflection/utility.py"],
     [("f, pdf, sample_f, rho_*", "pytracer/reflection/bdf")], ["values, densities, sampled directions, masks"],
     "Independent formulas; Jacobians by finite differences to 0.2 %.")

prop("P20", "Fresnel reflectance and perfectly specular scattering obey optics",
     "Dielectric reflectance equals the Fresnel formula for unpolarised light on both sides, is equal along reversed paths and total beyond the critical angle; conductor reflectance equals the documented approximation and the exact value at normal incidence; all lie in [0, 1]. "
     "Specular reflection mirrors about the normal with the Fresnel reflectance; specular transmission refracts by Snell's law with index one side per side of the surface, transmits what is not reflected scaled by the squared index ratio, is reversible, and transmits nothing beyond the critical angle. "
     "Delta models have no value or density for queried directions.",
     ["inputs"], "all indices, absorption coefficients, colours and directions on both sides",
     "No test evaluates Fresnel terms or refraction.",
     ["pytracer/reflection/utility.py", "pytracer/reflection/fresnel.py", "pytracer/reflection/bdf/bdf.py"],
     [("fr_diel, fr_cond", "pytracer/reflection/utility.py"), ("FresnelDielectric, FresnelConductor", "pytracer/reflection/fresnel.py"), ("SpecularReflection, SpecularTransmission", "pytracer/reflection/bdf/bdf.py")],
     ["reflectances, directions and values"],
     "Closed-form optics.")

prop("P21", "A BSDF combines its components consistently",
     "The BSDF of a hit converts between world and shading frame by inverse rotations, evaluates to the sum of the components that match the flags and the side decided by the geometric normal, and has the mean of their densities. "
     "Sampling gives each matching component an equal share, returns the world direction that component sampled, with value and density of the whole for smooth components and of itself, divided by the number of components, for delta components; nothing matching yields density zero. "
     "Albedos sum over matching components for directions given in world space, and integrator samples reach the BSDF from the slots requested.",
     ["inputs", "configurations"], "all component lists, shading frames, tilted geometric normals, flag masks, directions and samples",
     "Tests never build a BSDF of more than one component or query one directly.",
     ["pytracer/reflection/bsdf.py"], [("BSDF.f, pdf, sample_f, rho_hd, rho_hh, w2l, l2w", "pytracer/reflection/bsdf.py"), ("BSDFSample, BSDFSampleOffset", "pytracer/reflection/bsdf.py")],
     ["values, densities, directions, sampled types"],
     "Sums over the independent component formulas of P19 and P20.")

prop("P22", "Measured reflectance answers with the measurements",
     "A lookup in scattered isotropic measurements is the Gaussian-weighted mean of the samples in the first search ball holding three of them, so it stays within the range of the measurements, is reciprocal and rotation invariant; a regular half-angle table is indexed by half and difference angle as its documented format says. "
     "A measured material reads any layout of its text file, rejects missing, unknown or truncated files, and answers with the file's own measurements on first and later loads, whatever other files were loaded before.",
     ["inputs", "histories"], "all sample sets, tables, directions, file layouts and load histories",
     "No test reads measured data.",
     ["pytracer/reflection/bdf/measured.py", "pytracer/material/material.py", "pytracer/reflection/utility.py"],
     [("IrIsotropicBRDF, ReHalfangleBRDF", "pytracer/reflection/bdf/measured.py"), ("MeasuredMaterial", "pytracer/material/material.py"), ("brdf_remap", "pytracer/reflection/utility.py")],
     ["looked up values"],
     "Brute-force neighbour search; cells and balls within rounding of a border are not judged. MERL binaries are not implemented.")

prop("P23", "Textures evaluate to their definitions over any mapping",
     "Parametric, planar, spherical, cylindrical and three-dimensional texture mappings give the coordinates they define, and their screen-space differentials are the derivatives of these, across the seam included. "
     "Constant, scaled, mixed, bilinear, parametric, checkerboard (plain and solid), dotted, fractal, wrinkled, windy and marble textures, composed of each other in any way over numbers or spectra, evaluate to their definition at the hit and leave it alone; "
     "an antialiased checkerboard mixes its two textures by the area the filter covers, and evenly once the filter is wider than a check in either direction.",
     ["inputs", "configurations"], "all hits, footprints, mappings, transforms and texture trees",
     "Tests use constant textures only.",
     ["pytracer/texture/texturemap/__init__.py", "pytracer/texture/texture/__init__.py"], [("the five mappings", "pytracer/texture/texturemap/__init__.py"), ("the textures", "pytracer/texture/texture/__init__.py")],
     ["texture coordinates, differentials and values"],
     "Independent recursive evaluator over an independent noise; differentials judged to first order.")

prop("P24", "Image textures answer with a correctly filtered image",
     "A MIP map of any image (numbers or spectra, any size and shape) resamples it to powers of two with normalised windowed-sinc weights, halves it level by level to its mean, wraps as configured, and answers lookups without footprint bilinearly, with an isotropic one trilinearly, and with an anisotropic one by the Gaussian over the footprint's ellipse of bounded eccentricity. "
     "Results lie in the range of the image, constant images stay constant, and a result is the caller's own. "
     "Image textures answer with the filtered, scaled and gamma corrected image of their own file in the types asked for, whatever else was loaded before; an unreadable file counts as one-valued.",
     ["inputs", "configurations", "histories"], "all images, wraps, lookups, texture parameters and load orders",
     "No test builds a MIP map or an image texture.",
     ["pytracer/texture/utility.py", "pytracer/texture/texture/image.py"], [("MIPMap", "pytracer/texture/utility.py"), ("ImageTexture", "pytracer/texture/texture/image.py")],
     ["texels, looked up values"],
     "Independent MIP map; files are PNGs in a scratch directory.")

prop("P25", "Procedural noise is smooth, bounded and band-limited",
     "Noise is gradient noise over the published permutation: zero with an edge gradient at every lattice point, periodic, bounded, continuous with continuous slope across all cell borders. "
     "Fractal sums and turbulence add octaves of it up to the footprint's limit with geometric weights, fade the last one in without a jump, and vanish under footprints covering a cell; "
     "the smooth step rises from zero to one over its interval and the Lanczos window is the windowed sinc.",
     ["inputs"], "all points, footprints, octave counts and weights",
     "No test evaluates noise.",
     ["pytracer/texture/utility.py", "pytracer/data/noise.py"], [("noise, FBm, turbulence, smooth_step, Lanczos", "pytracer/texture/utility.py")], ["values"],
     "Independent noise with a frozen permutation table; one-sided slopes at cell borders.")

prop("P26", "Materials scatter as they declare",
     "At any hit the matte, plastic, mirror, metal, glass, uber, translucent and mixed materials give exactly the reflection models they declare, with coefficients taken from their textures at the hit and clipped to be non-negative, black ones left out, seen from an outside of index one, in the shading frame and about the geometric normal of the hit; a mixture scales the models of both by the amount and its complement. "
     "Bump mapping gives the tangents and normal of the surface displaced along its normal, facing the geometric side, and moves nothing else. A translucent material also reports its scaled scattering coefficients. Hits are left alone.",
     ["inputs", "configurations"], "all materials, texture values, hits, bumps and directions",
     "One rendered image uses matte surfaces; nothing else of materials is tested.",
     ["pytracer/material/material.py"], [("get_bsdf, get_bssrdf, bump", "pytracer/material/material.py")], ["frames, values, densities, sampled components, coefficients"],
     "Values through the independent models of P19 and P20; measured materials in P22; diffuse-to-subsurface conversion is a TODO of the code.")

prop("P27", "Light sources deliver the radiance of their emission law",
     "For any receiver every light reports the radiance its emission law delivers there: intensity over squared distance for point, spot (with its quartic falloff), projection and goniophotometric lights (scaled by their image), the same radiance everywhere for a distant light, the emitted radiance on the side an area light's surface faces, the environment image towards a direction for an infinite light; "
     "with the unit direction to the light, a shadow ray that runs exactly from the receiver's offset to the light at the receiver's time, and a density equal to pdf() of that direction, which integrates to one and is positive wherever the light shines. Only lights at infinity with extent are seen by rays that hit nothing. "
     "Rays leaving a light start on it (or on the disk before the scene), stay in its cone or above its surface, carry its radiance, and have the density reported. Power is the documented approximation. What is handed out is the caller's own. A receiver is lit exactly when nothing lies between.",
     ["inputs", "configurations"], "all lights, placements, images, receivers and random numbers",
     "One test renders one area light; no test evaluates a light.",
     ["pytracer/light/light.py", "pytracer/light/utility.py"], [("sample_l, sample_r, pdf, le, power", "pytracer/light/light.py"), ("VisibilityTester, ShapeSet, LightSample", "pytracer/light/utility.py")],
     ["radiance, direction, density, shadow ray, emitted ray, power"],
     "Densities of emission are compared with the finite-difference stretch of the sampling map.")
prop("P29", "Integrators compute the light transport they stand for",
     "The Whitted integrator returns, for every scene of specular and diffuse surfaces under lights of no extent, exactly what recursive ray tracing gives: emission of the surface hit, direct light of every unoccluded light, and reflection and refraction weighted by Fresnel's and Snell's laws, down to its depth limit; direct lighting returns the same. "
     "Direct light is estimated by the power heuristic over one sample of the light and one of the surface, so its mean is the light that arrives; all-lights averages each light's samples and sums, one-light scales by the number of lights; each number an integrator requests has an effect of its own. "
     "A path carries its throughput unchanged in mean through any number of bounces (Russian roulette included), counts each emission once, sees emitters and sky through specular bounces, and is attenuated by a medium once per segment. "
     "Rays spawned at specular surfaces start at the hit with its offset, one level deeper, at the same time, their differentials follow the neighbouring rays, and the intersection they came from is left alone. Lights are picked in proportion to their power.",
     ["inputs", "configurations"], "all scenes, lights, materials, depth limits, media, camera rays and sample values",
     "One test renders one image; no test compares any radiance.",
     ["pytracer/integrator/utility.py", "pytracer/integrator/surface/whitted.py", "pytracer/integrator/surface/direct.py", "pytracer/integrator/surface/path.py", "pytracer/renderer/renderer.py"],
     [("estimate_direct, uniform_sample_all_lights, uniform_sample_one_light, specular_reflect, specular_transmit", "pytracer/integrator/utility.py"), ("li, request_samples", "pytracer/integrator/surface/path.py"), ("SamplerRenderer.li, transmittance", "pytracer/renderer/renderer.py")],
     ["radiance returned for a camera ray", "rays handed to the renderer"],
     "Furnaces make the path integrator deterministic; diffuse interreflection of general scenes is judged through its parts.")

prop("P30", "Rendering delivers every sample's radiance to the film exactly once",
     "For every sampler window, camera, scene and integrator, a render prepares the integrators once, generates every pixel's samples, hands the integrator each sample's arrays and its ray with differentials scaled to the sample spacing, and adds each sample to the film exactly once (unless the sampler refuses the pixel) with the weighted radiance its ray brings, from the surface hit or, when nothing is hit, from the lights at infinity; "
     "samples of zero weight add black; NaN, infinite or negative radiance is replaced by black and affects no other sample. The image is written once, after the last sample, and shows the picture projective geometry predicts: a scene of matte and glowing shapes of every kind, single or instanced, behind any accelerator, lit by point, spot and distant lights, seen by a moving camera with a lens and developed by any filter, has at every pixel the filtered mean of the closed-form radiance of its samples, shadows included.",
     ["inputs", "configurations"], "all windows, sample counts, weights, scenes, integrator results and cameras",
     "One test renders one scene and looks at nothing but completion.",
     ["pytracer/renderer/renderer.py"], [("SamplerRenderer.render, li; SamplerRendererTask.__call__", "pytracer/renderer/renderer.py")],
     ["calls to the film and integrator", "pixels of the file written"],
     "Film, filters and samplers by themselves are P13 to P15.")

prop("P31", "The scene-description interface keeps the graphics state its calls describe",
     "For every history of API calls: outside a session every call but system_init and system_clean raises RuntimeError and changes nothing, and a session starts from identity transformations, default options, no named coordinate systems and no saved states; each transformation call multiplies every current transformation (with its inverse) from the right, look-at by the world-to-camera transformation, set and identity replace them; "
     "named coordinate systems, attribute blocks and transform blocks restore exactly the transformations that were current when they were made, whatever was called since; unmatched ends are reported and ignored, unknown names are refused; each setting holds the lower-cased name and the very parameters given last; set_camera records the inverse of the current transformations as camera-to-world and names it \"camera\". "
     "Param hands out the values of each kind in the order pushed, each once, and refuses unknown kinds.",
     ["histories", "inputs"], "all sequences of interface calls and of parameter operations, sessions ended and begun at any point",
     "The package could not even be imported, and no test calls it.",
     ["pytracer/interface/api.py", "pytracer/interface/option.py", "pytracer/interface/parameter.py", "pytracer/interface/__init__.py"],
     [("system_init/clean, trans_*, coordinate systems, attribute and transform blocks, set_*", "pytracer/interface/api.py"), ("Param", "pytracer/interface/parameter.py")],
     ["the interface's state after every call", "exceptions and log lines", "values handed out"],
     "Blocks that cross each other (an attribute block ended by a transform end) are not judged: the code, like pbrt, keeps one stack.")

prop("P32", "Images survive the way to a file and back",
     "Writing a whole picture stores every pixel at its row and column, each channel scaled so that its maximum is 255 and truncated; writing a part replaces exactly the pixels of its window in the existing file and returns the whole; reading gives the colours of files of any mode at their rows and columns, unchanged when both sides are powers of two and otherwise resampled to the next powers of two without turning, mirroring or tinting the picture; "
     "the caller's arrays and the file read are left alone, no other file appears, and missing names, files and pictures are refused without any effect.",
     ["inputs", "histories"], "all pictures, file modes, sizes and sequences of partial updates",
     "No test writes or reads a file.",
     ["pytracer/utility/imageio.py"], [("read_image, write_image", "pytracer/utility/imageio.py")],
     ["pixels of the file, decoded independently", "arrays returned", "exceptions"],
     "Scaling per channel is the code's choice and taken as its definition.")

prop("P33", "Numeric helpers agree with their definitions",
     "Floor, ceiling and rounding return the integers they name for every float; powers of two are recognised, the next is the least that is not smaller and rounding picks the nearest in ratio; comparisons with zero, one and each other apply the tolerance EPS and their negations are complementary; interpolation is the affine combination, exact at both ends, for scalars, arrays, vectors and spectra; "
     "clipping keeps the type and the values inside the limits; arguments are never changed; the progress bar fills in proportion to the work done and ends its line exactly when all is done.",
     ["inputs"], "all numbers, spectra and progress states",
     "No test calls the module directly.",
     ["pytracer/utility/utility.py"], [("feq, eq_unity, ftoi, lerp, next_pow_2, clip, is_black, progress_reporter", "pytracer/utility/utility.py")],
     ["values and types returned", "text printed"],
     "Values within a few per cent of a tolerance are not judged.")

prop("P34", "Answers depend on the object and the question alone",
     "Asking is not telling: whatever was asked before, of this object or of another one of its kind, in whatever order, every shape, transform, camera, texture, reflection model, material, light, medium, aggregate, scene, filter, distribution, spectrum and integrator answers a question as a freshly built equal object would; so it does while another thread asks it, wherever the two interrupt each other (refining one subdivision surface from two threads excepted). "
     "Arguments come out as they went in, answers are the caller's to change without the object noticing, refining a surface again gives the same pieces, and every object can be printed at any time without a trace. "
     "An object built from tables (rays, boxes, intersection records, transforms, meshes, subdivision surfaces, density grids, aggregates, distributions, image pyramids, spectra, films) keeps its own copy: what the caller does with the tables afterwards does not change it.",
     ["histories", "inputs", "schedules"], "all histories and two-thread interleavings of questions to two living objects of one kind, with answers overwritten and objects printed in between; all objects built from tables overwritten afterwards",
     "Tests ask each object one question; state that leaks from one query into the next, shared class-level data and handed-out internals only show in histories.",
     ["pytracer/shape", "pytracer/transform/__init__.py", "pytracer/camera/camera.py", "pytracer/texture", "pytracer/reflection", "pytracer/material/material.py", "pytracer/light", "pytracer/volume", "pytracer/aggregate", "pytracer/scene/scene.py", "pytracer/integrator", "pytracer/spectral/spectrum.py", "pytracer/montecarlo/distribution.py"],
     [("value semantics of every query method", "pytracer"), ("shared textures, bounds, control points, caches", "pytracer/texture/texture/__init__.py")],
     ["answers, arguments and printed forms over a history"],
     "Stateful model-based histories against an object freshly built for each question, compared bit by bit; objects that keep state by contract are P14, P15, P30 and P31's.")
