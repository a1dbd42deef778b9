"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, pathlib
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
I, H, C, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"

add("C01", "Flat receiver: a ray lands exactly where geometry says, or not at all",
 "For every ray and flat receiver, the ray counts as a hit exactly when it travels towards the front side and meets the receiver plane inside the receiver's east and up extent; then the reported bitmap position, travelled distance and cosine-weighted intensity are those of analytic geometry, and every other ray reports zero intensity. Mirror reflection obeys the reflection law for every incident direction and normal.",
 [I], "all ray origins, directions and magnitudes, all receiver positions, orientations, sizes and bitmap resolutions, all assignments of heliostats to receivers",
 "The tests sample a handful of hand-computed rays against one or two planes; the guarantee is over the continuous space of rays, orientations and batched receiver assignments.",
 ["artist/raytracing/geometry.py"],
 [("reflection law", "artist/raytracing/geometry.py: reflect"), ("plane intersection, front-facing and extent masks, Lambert weight", "artist/raytracing/geometry.py: line_plane_intersections")],
 ["return values of the plane intersection and reflection functions"])
add("C02", "Cylindrical receiver: hits, unrolled position and intensity are exact",
 "For every ray and every cylindrical receiver, whatever its axis, facing direction, radius, height and opening angle (up to a full circle), the nearest forward crossing of the cylinder is a hit exactly when it lies on the receiver's angular sector and height. The reported bitmap position is the unrolled angle and height, the intensity is cosine-weighted, and every other ray reports zero.",
 [I], "all ray bundles and all cylinder placements, orientations, radii, heights and opening angles",
 "Tests use two cylinders that both face due north with a vertical axis; other facing directions, tilts and full-circle sectors are never combined with hits.",
 ["artist/raytracing/geometry.py"],
 [("ray/cylinder quadratic, nearest positive root, sector and height masks", "artist/raytracing/geometry.py: line_cylinder_intersections")],
 ["return values of the cylinder intersection function"])
add("C03", "Bitmap coordinates and receiver world coordinates are consistent",
 "Converting a (fractional) bitmap coordinate to a world point yields the point of the receiver surface that the coordinate denotes, for upright flat (spanned by east and up) and arbitrary cylindrical receivers in any mix and order. A ray aimed at that world point is reported by the ray tracer at the same bitmap location to within one pixel, so a measured focal spot maps back to where the beam really hit.",
 [I], "all bitmap coordinates, resolutions, receiver mixes and orientations",
 "Tests convert a few fixed pixels on fixed receivers and never close the loop with the tracing direction.",
 ["artist/geometry/coordinates.py", "artist/raytracing/geometry.py", "artist/flux/bitmap.py"],
 [("bitmap to target mapping", "artist/geometry/coordinates.py: bitmap_coordinates_to_target_coordinates"), ("target to bitmap mapping", "artist/raytracing/geometry.py")],
 ["world points of bitmap coordinates", "centre of mass of a traced beam"])
add("C04", "Splatting rays onto a bitmap conserves energy and position",
 "Every ray hitting strictly inside the bitmap deposits exactly its intensity, shared only among the four pixels around its position with bilinear weights, so total energy and (interior) centroid are conserved. Deposits are additive over rays, independent between heliostats, and non-negative; rays outside or with zero intensity deposit nothing, and bitmaps per receiver are the sums over the heliostats aimed at it.",
 [I], "all hit positions and intensities, all (also non-square) bitmap resolutions, all receiver assignments",
 "Tests compare a few rays on small bitmaps; conservation must hold for every position, rectangular resolution and number of rays.",
 ["artist/raytracing/heliostat_ray_tracer.py"],
 [("bilinear splatting", "artist/raytracing/heliostat_ray_tracer.py: bilinear_splatting"), ("sum per receiver", "artist/raytracing/heliostat_ray_tracer.py: get_bitmaps_per_target")],
 ["flux bitmaps"])
add("C05", "Simulated flux equals an independent reference ray tracer",
 "For every aligned field, sun, receiver mix and mirror state, the flux bitmap of each active heliostat equals what an independently written double-precision ray tracer computes from the same surface points, normals and sun-ray deflections. The reported intercept, on-target and blocking fractions are the corresponding fractions of rays; results scale linearly with irradiance, reflectivity and one minus atmospheric extinction.",
 [I, C], "all heliostat fields, surfaces, sun positions, sun shapes, receiver assignments, resolutions and optical loss factors",
 "The integration tests compare a few scenarios with stored bitmaps produced by the same code.",
 ["artist/raytracing/heliostat_ray_tracer.py", "artist/raytracing/geometry.py", "artist/geometry/transforms.py", "artist/scene/sun.py"],
 [("trace loop", "artist/raytracing/heliostat_ray_tracer.py: trace_rays"), ("scattering", "artist/raytracing/heliostat_ray_tracer.py: scatter_rays")],
 ["trace_rays outputs"])
add("C06", "Ray tracing result is independent of batching and work distribution",
 "The flux and factors of a heliostat do not depend on the batch size, on how many ranks share the group or which rank computes it, on the order or repetition of heliostats, or on earlier simulations in the same process. The samples computed by all ranks together are exactly the active samples, each computed once.",
 [C, S], "all batch sizes, world sizes and ranks, active-heliostat selections with repetition, and call orders",
 "Tests fix one or two batch sizes and world sizes with few heliostats; partitioning faults need particular remainders.",
 ["artist/raytracing/heliostat_ray_tracer.py", "artist/raytracing/sampling.py"],
 [("restricted sampler", "artist/raytracing/sampling.py: RestrictedDistributedSampler"), ("batch loop", "artist/raytracing/heliostat_ray_tracer.py: trace_rays")],
 ["trace_rays outputs per rank", "sampler indices"])
add("C07", "Sun-ray scattering is reproducible and has the configured shape",
 "For a given seed the deflections of the sun rays are identical on every call and have one value per heliostat, ray and surface point; different seeds differ. The deflection angles follow the configured normal distribution (mean and covariance, uncorrelated between the two axes), regardless of the state of the global random generator.",
 [I, H], "all seeds, sun shapes and sizes, all prior uses of the random generator",
 "Tests check two expected tensors for one seed and shape.",
 ["artist/scene/sun.py", "artist/raytracing/sampling.py", "artist/geometry/transforms.py"],
 [("seeded multivariate normal sampling", "artist/scene/sun.py: get_distortions")],
 ["distortion tensors"])
add("C08", "Ray blocking agrees with exact geometry of the blocking mirrors",
 "A ray whose path crosses the rectangle of another mirror before the receiver is fully blocked, and a ray whose path stays clear of every other mirror is not attenuated; mirrors behind the ray's start never block. The blocking rectangle of a mirror (a parallelogram if its corners are not square) is spanned by its true corner points, with the unit normal of its plane, for every pose.",
 [I], "all rays, all numbers and poses of rectangular mirrors",
 "Tests use a few axis-aligned rectangles and rays.",
 ["artist/raytracing/blocking.py"],
 [("soft blocking mask", "artist/raytracing/blocking.py: soft_ray_blocking_mask"), ("blocking rectangles", "artist/raytracing/blocking.py: create_blocking_primitives_rectangle(s_by_index)")],
 ["blocking mask", "corners, spans and normals"])
add("C09", "The blocking search structure never loses a blocking mirror",
 "For every set of mirrors the spatial search tree contains each mirror exactly once and every box encloses its subtree. Filtering with the tree keeps every mirror that any ray of another mirror meets before its receiver, and keeps only mirrors whose own box some such ray meets.",
 [I], "all numbers and arrangements of mirrors (including clustered and coinciding ones) and all rays",
 "Tests build trees of a few mirrors; the tree construction is size and code dependent and breaks only for particular bit patterns.",
 ["artist/raytracing/blocking.py"],
 [("Morton codes and radix tree", "artist/raytracing/blocking.py: build_linear_bounding_volume_hierarchies"), ("traversal filter", "artist/raytracing/blocking.py: lbvh_filter_blocking_planes")],
 ["tree arrays", "filtered mirror indices"])
add("C10", "Field-level blocking: every other mirror blocks, its own never does",
 "With blocking enabled, the traced flux of each heliostat equals the unblocked flux minus the rays intercepted by any other mirror of the whole field, whichever group it belongs to and whichever heliostats are active or in the same batch. A heliostat never shadows its own rays and adding a mirror never increases any flux.",
 [C, I], "all fields with one or several heliostat groups, all poses, active selections and batch sizes",
 "The blocking tests use a single group and fixed layouts.",
 ["artist/raytracing/heliostat_ray_tracer.py", "artist/raytracing/blocking.py"],
 [("blocking surfaces of all groups", "artist/raytracing/heliostat_ray_tracer.py: __init__"), ("owner mapping and filtering", "artist/raytracing/heliostat_ray_tracer.py: trace_rays")],
 ["trace_rays outputs with blocking on/off"])
add("C11", "NURBS surfaces evaluate to the mathematical NURBS surface",
 "For every degree, control net and evaluation point, surface points equal the tensor-product B-spline defined by the control points, and normals are the unit cross products of its tangents, pointing to the mirror's front. Surfaces interpolate their corner control points, are invariant under rigid motions of the control net, and do not depend on the other heliostats and facets in the same batch.",
 [I], "all degrees, control net sizes and shapes, evaluation points, batches of heliostats and facets",
 "Tests compare some fixed degrees and grids against stored or fitted values.",
 ["artist/nurbs/surfaces.py", "artist/nurbs/utils.py"],
 [("knots, spans and basis functions", "artist/nurbs/surfaces.py: NURBSSurfaces"), ("evaluation grid", "artist/nurbs/utils.py: create_nurbs_evaluation_grid")],
 ["surface points and normals"])
add("C12", "Facet canting and placement are rigid, invertible and correctly assembled",
 "Canting rotates each facet rigidly (lengths, angles and handedness kept) into the orientation given by its two canting vectors, and inverse canting undoes it for every facet. A planar facet built from its canting and translation lies at its translation with the canting extents and its unit normal equal to the normalised cross product of the canting vectors.",
 [I], "all canting vectors, facet translations, facet counts and point sets",
 "Tests cover one canting configuration.",
 ["artist/geometry/transforms.py", "artist/nurbs/utils.py", "artist/nurbs/surfaces.py", "artist/field/surface.py"],
 [("canting transform", "artist/geometry/transforms.py: perform_canting"), ("planar control points", "artist/nurbs/utils.py: create_planar_nurbs_control_points"), ("surface from configuration", "artist/field/surface.py")],
 ["facet points and normals"])
add("C13", "Rotation and translation transforms form the documented rigid motions",
 "Every rotation about the east, north and up axis fixes its axis, keeps lengths and handedness, composes by adding angles and is undone by the opposite angle; translations add up, move points and leave directions unchanged. Rotation between two directions and its axis decomposition reproduce the target direction, and the combined sun-ray deflection is the documented product of elementary rotations.",
 [I], "all angles, batch shapes, points and directions",
 "Tests check a few fixed angles per function.",
 ["artist/geometry/transforms.py", "artist/geometry/rotations.py"],
 [("rotation matrices", "artist/geometry/transforms.py"), ("axis and angle", "artist/geometry/rotations.py")],
 ["transformed points and directions"])
add("C14", "Coordinate conversions agree with geodesy and sun-angle conventions",
 "Geographic coordinates convert to local east/north/up offsets that agree with an exact geodetic model for every reference point and field-sized distance, with zero at the reference. Azimuth and elevation convert to the unit (or range-scaled) vector of the documented south-based convention, in degrees or radians, and homogeneous-format conversion preserves coordinates and distinguishes points from directions.",
 [I], "all reference points, offsets up to some kilometres, angles and batch shapes",
 "Tests check a handful of coordinates around one site.",
 ["artist/geometry/coordinates.py"],
 [("geodetic conversion", "artist/geometry/coordinates.py: convert_wgs84_coordinates_to_local_enu"), ("sun angle conversion", "artist/geometry/coordinates.py: azimuth_elevation_to_enu"), ("homogeneous format, normalisation", "artist/geometry/coordinates.py")],
 ["converted coordinates"])
add("C15", "Actuator motor positions and joint angles are inverse and physical",
 "For every linear actuator the joint angle follows the triangle geometry of its stroke, offset and pivot, changes strictly monotonically with the motor position in the configured turning direction, and converting angle to motor position and back is the identity over the whole operating range. Ideal actuators are the identity, and each heliostat's result depends only on its own parameters.",
 [I], "all admissible actuator parameters, motor positions and batches of heliostats",
 "Tests convert a few positions of one parameter set.",
 ["artist/field/actuators_linear.py", "artist/field/actuators_ideal.py", "artist/field/actuators.py"],
 [("stroke/angle law", "artist/field/actuators_linear.py")],
 ["angles and motor positions"])
add("C16", "Motor positions move every mirror as the documented rigid-body chain",
 "For all motor positions and deviation parameters the mirror's pose is a proper rigid motion equal to the documented chain of translations, tilts and joint rotations around the heliostat position, computed from that heliostat's own parameters. Surface points keep their mutual distances and normals stay unit length and consistent with the points.",
 [I], "all heliostat positions, translation and rotation deviations, actuator types and parameters, motor positions and batches",
 "Tests compare stored orientations for a few parameter sets.",
 ["artist/field/kinematics_rigid_body.py", "artist/field/heliostat_group_rigid_body.py"],
 [("forward chain", "artist/field/kinematics_rigid_body.py: motor_positions_to_orientations"), ("surface alignment", "artist/field/heliostat_group_rigid_body.py: align_surfaces_with_motor_positions")],
 ["orientations", "aligned surface points and normals"])
add("C17", "Aligning for a sun direction reflects the sun onto the aim point",
 "After aligning a heliostat for a sun direction and an aim point, the central sun ray reflected at the mirror passes through the aim point, for every reachable configuration including deviating kinematics. The motor positions stored by the alignment lie within their limits and reproduce the very same pose when applied directly.",
 [I], "all sun directions, aim points, heliostat positions, deviations and actuator types whose solution is reachable",
 "Tests align a few heliostats for four sun directions and compare stored matrices.",
 ["artist/field/kinematics_rigid_body.py", "artist/field/heliostat_group_rigid_body.py"],
 [("iterative inverse kinematics", "artist/field/kinematics_rigid_body.py: incident_ray_directions_to_orientations")],
 ["orientations", "active motor positions", "aligned surfaces"])
add("C18", "Activation and alignment depend only on the current request, not on history",
 "After any sequence of activations, alignments, surface updates and ray tracings, activating a selection (with repetitions) and aligning it gives exactly what a fresh field would give for that request. The field's base data never changes by activating, aligning or tracing, and aligning or tracing a selection that was not activated is rejected.",
 [H], "all sequences of activate, align, trace and update operations with arbitrary masks",
 "Tests run single activate-align-trace sequences; leaks between steps need particular multi-step histories such as empty selections.",
 ["artist/field/heliostat_group.py", "artist/field/heliostat_group_rigid_body.py", "artist/field/heliostat_field.py"],
 [("activation", "artist/field/heliostat_group.py: activate_heliostats"), ("selection check", "artist/field/heliostat_group_rigid_body.py")],
 ["active tensors", "base tensors"],
 [("active selection", "how often each heliostat is simulated", "artist/field/heliostat_group.py")])
add("C19", "Requests by name reach exactly the named heliostats and receivers",
 "For every mapping of heliostat names, receiver names and sun directions, the generated selection counts each heliostat as often as it is named, and receiver and sun direction are assigned to the sample of the right heliostat in a stable order. Names of heliostats that are not in the group (those of other groups) are left out, defaults apply when no mapping is given, and invalid receiver names, out-of-range receiver indices and malformed sun directions are rejected.",
 [I], "all mappings with repeated, permuted and foreign names over all groups",
 "Tests use a couple of hand-written mappings.",
 ["artist/scenario/scenario.py"],
 [("index mapping", "artist/scenario/scenario.py: index_mapping")],
 ["mask, receiver indices, sun directions"])
add("C20", "A scenario written to file is loaded back as the same plant",
 "Every plant description written to a scenario file and loaded again yields the same tower position, receivers, sun, heliostat names, positions, surfaces, kinematics and actuators, with prototype data used exactly where a heliostat has no own data and heliostats grouped by kinematics and actuator type. Loading is independent of the order of entries, and inconsistent descriptions are rejected.",
 [I, C], "all plant configurations: receiver mixes, numbers of heliostats and facets, individual or prototype data, optional deviations, actuator types",
 "Tests load a few stored files and generate one.",
 ["artist/scenario/h5_scenario_generator.py", "artist/scenario/scenario.py", "artist/util/config.py", "artist/io/h5_scenario_parser.py", "artist/field/heliostat_field.py", "artist/field/tower_target_areas_planar.py", "artist/field/tower_target_areas_cylindrical.py"],
 [("generator", "artist/scenario/h5_scenario_generator.py"), ("loader", "artist/scenario/scenario.py: load_scenario_from_hdf5"), ("group building", "artist/field/heliostat_field.py: from_hdf5")],
 ["attributes of the loaded scenario"])
add("C21", "Measured plant data is parsed to the heliostat it belongs to",
 "For every set of measurement files, calibration samples (focal spot, sun direction, motor positions, receiver, flux image) are returned in the order of the selection of heliostats, each with its own values, limited to the requested number of samples. Tower, heliostat property and mirror-measurement files yield positions, receivers, actuators, facets and surfaces equal to the file's content in the local frame, and heliostats without data are left out.",
 [I], "all sets of calibration files per heliostat, sample limits, field orders, and tower, heliostat and binary surface measurements",
 "Tests read a few stored files of two heliostats.",
 ["artist/io/calibration_parser.py", "artist/io/paint_calibration_parser.py", "artist/io/paint_scenario_parser.py", "artist/io/stral_scenario_parser.py"],
 [("calibration parsing", "artist/io/paint_calibration_parser.py"), ("plant parsing", "artist/io/paint_scenario_parser.py"), ("binary surface parsing", "artist/io/stral_scenario_parser.py")],
 ["parsed tensors and configurations"])
add("C22", "Flux image tools: centre of mass, cropping and ideal profiles are exact",
 "The centre of mass of every non-negative flux image equals its intensity-weighted mean pixel, shifts with the image, ignores scaling, and is finite for empty images. Cropping returns the window of the requested physical size centred on the focal spot for flat and cylindrical receivers, and the trapezoid profile is symmetric with the requested plateau, slopes and length.",
 [I], "all images, resolutions, receiver types and sizes, crop sizes and profile widths",
 "Tests check a few images.",
 ["artist/flux/bitmap.py"],
 [("centre of mass", "artist/flux/bitmap.py: get_center_of_mass"), ("cropping", "artist/flux/bitmap.py: crop_flux_distributions_around_center"), ("trapezoid", "artist/flux/bitmap.py: trapezoid_distribution")],
 ["returned coordinates and images"])
add("C23", "Work is distributed over ranks completely and without overlap",
 "For every number of ranks and heliostat groups, every group is assigned to at least one rank, every rank's assignment and the reverse assignment agree, and loads differ by at most one. Samples of a group are partitioned over the ranks sharing it: heliostats are never split, no sample is lost or duplicated, and surplus ranks get nothing.",
 [C], "all world sizes, group counts, heliostat and sample counts",
 "Tests enumerate a few combinations.",
 ["artist/util/env.py", "artist/raytracing/sampling.py"],
 [("group distribution", "artist/util/env.py: distribute_groups_among_ranks"), ("sample distribution", "artist/raytracing/sampling.py: RestrictedDistributedSampler")],
 ["assignments", "sampler indices"])
add("C24", "Losses and regularisers are the stated distances for every input",
 "Each loss equals its stated formula per sample, is non-negative, zero when prediction equals truth, and independent of the other samples in the batch; flux losses compare shapes as documented (relative to the measured energy, or normalised). Regularisers are zero exactly for unchanged (or, for smoothness, uniformly displaced) control points, and per-heliostat reduction groups exactly the samples of one heliostat.",
 [I], "all predictions, ground truths, batch sizes, receivers and control nets",
 "Tests check a handful of tensors per loss.",
 ["artist/optim/loss.py", "artist/optim/regularizers.py"],
 [("losses", "artist/optim/loss.py"), ("regularisers", "artist/optim/regularizers.py")],
 ["loss values"])
add("C25", "Training support: splits, early stopping and schedules follow their rules",
 "Splitting calibration samples keeps, for each heliostat, its first samples for training and its last for testing, with data, selection and receivers consistently assigned and nothing lost or duplicated. Early stopping fires exactly when the improvement over the configured window stayed below the threshold for the configured patience, and learning-rate schedules follow their configured law.",
 [I, H], "all sample counts, heliostat selections and test fractions; all loss histories and stopping settings",
 "Tests exercise these only indirectly.",
 ["artist/optim/training.py"],
 [("split", "artist/optim/training.py: train_test_split"), ("early stopping", "artist/optim/training.py: EarlyStopping"), ("schedules", "artist/optim/training.py")],
 ["split tensors", "stop decisions", "learning rates"])
add("C26", "Surface fitting recovers the measured mirror surface",
 "Fitting a facet to measured points (or to measured points and normals) that come from a smooth surface yields a surface whose points (or normals) match the measurement to fitting accuracy, spans the measured outline, and keeps degree and number of control points as requested. Ideal facets are flat, and every facet keeps its own translation and canting.",
 [I], "all smooth facet shapes, sizes, canting, facet counts and fitting settings within documented ranges",
 "Tests fit one heliostat and compare stored control points.",
 ["artist/scenario/surface_generator.py", "artist/nurbs/surfaces.py"],
 [("surface fit", "artist/scenario/surface_generator.py: SurfaceGenerator")],
 ["generated surface configuration", "evaluated surfaces"])
add("C27", "Kinematics reconstruction fits what was measured and touches nothing else",
 "Reconstructing the kinematics from calibration measurements changes only the parameters of heliostats that have measurements and reports a finite loss for exactly those, infinity for all others. The first reported loss is that of the initial parameters as an independent evaluation gives it; parameters that already explain the measurements keep a vanishing loss, and disturbed ones come closer to the measurements. All reported histories and test losses belong to the given measurements, and every step follows the gradient of the reported loss.",
 [I, H], "all fields, calibration subsets, initial deviations, reconstruction methods and optimiser settings",
 "Tests compare stored parameters after a few epochs on one scenario.",
 ["artist/optim/kinematics_reconstructor.py", "artist/optim/training.py", "artist/optim/loss.py"],
 [("kinematics reconstruction", "artist/optim/kinematics_reconstructor.py: KinematicsReconstructor")],
 ["final losses, histories", "kinematics parameters before and after"])
add("C28", "Surface reconstruction fits the measured flux and touches nothing else",
 "Reconstructing surfaces from measured flux images changes only control points of heliostats that have measurements, never moves a facet's outline in its plane, and leaves surfaces that belong to the new control points. It reports a finite loss for exactly the measured heliostats and infinity for all others; total losses are the sum of their reported parts, regularisers and constraints follow their weights and contribute their gradients, so that heavier regularisers keep surfaces closer to the initial ones or smoother, and the first and the test losses are those an independent simulation gives. Started near the true surface, the loss goes down.",
 [I, H], "all fields, calibration subsets, initial surfaces, surface samplings, regularisation weights, constraints and optimiser settings",
 "Tests compare stored control points after a few epochs on one scenario.",
 ["artist/optim/surface_reconstructor.py", "artist/optim/regularizers.py", "artist/optim/loss.py"],
 [("surface reconstruction", "artist/optim/surface_reconstructor.py: SurfaceReconstructor"), ("edge locking", "artist/optim/surface_reconstructor.py: lock_control_points_on_outer_edges")],
 ["final losses, histories", "control points and surfaces before and after"])
add("C29", "Aim-point optimisation stays within motor limits and reports the true flux",
 "Aim-point optimisation keeps all motor positions within their limits, and the reported loss, intercept, on-target and blocking factors are those of the field with the motor positions it leaves. Total losses are composed of the flux loss and the documented constraints, the first ones those of the initial motor positions, and every step follows the gradient of the total loss. All offered losses work, results are reproducible, and a small step on a smooth flux lowers the loss.",
 [I, H], "all fields, receivers, sun directions, desired distributions, losses, constraints and optimiser settings",
 "Tests compare stored results after a few epochs on one scenario.",
 ["artist/optim/aim_point_optimizer.py", "artist/optim/training.py", "artist/optim/loss.py"],
 [("aim point optimisation", "artist/optim/aim_point_optimizer.py: AimPointOptimizer")],
 ["motor positions", "loss, history and factors returned"])
add("C30", "Distributed optimisation gives every rank the single-process result",
 "Kinematics reconstruction, surface reconstruction and aim-point optimisation run on any number of ranks, with one or several ranks per heliostat group and with idle ranks, end with the same losses and parameters on all ranks, and these are those of a single process. No such run fails or waits for ever.",
 [S, I], "all numbers of ranks, distributions of heliostats and measurements over groups and ranks, optimiser settings",
 "Tests mock the process group or run one rank; collective calls with unequal work per rank are never made.",
 ["artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/optim/aim_point_optimizer.py", "artist/util/env.py"],
 [("reductions of losses, gradients and parameters", "artist/optim"), ("process groups", "artist/util/env.py")],
 ["results on all ranks"])
add("C31", "Rebuilding surfaces reproduces the stored mirrors and outer edges stay put",
 "Rebuilding the field's surfaces from unchanged control points reproduces the loaded surface points and normals, for every facet count and surface sampling and however often it is repeated; changed control points change only their own heliostat, whose surface then is that of the new control points in its facets' own places and canting. Gradients that would move a facet's outline in its plane are removed while all others pass unchanged.",
 [H, I], "all control nets, sampling densities, heliostat groups and repetitions of the update",
 "Tests check the update on one planar scenario only.",
 ["artist/field/heliostat_field.py", "artist/field/surface.py", "artist/optim/surface_reconstructor.py"],
 [("surface update", "artist/field/heliostat_field.py: update_surfaces"), ("edge locking", "artist/optim/surface_reconstructor.py: lock_control_points_on_outer_edges")],
 ["surface points and normals", "gradients"])
add("C32", "The simulation is differentiable: gradients match finite differences",
 "The derivative of simulated outputs (mirror pose, motor positions, surfaces, flux bitmaps, losses) with respect to control points, canting, facet positions, kinematics deviations, actuator parameters and motor positions, as delivered by automatic differentiation, is finite and agrees with numerical differentiation wherever the output is smooth.",
 [I], "all parameters and operating points away from hit/miss boundaries",
 "Tests only run optimisers and compare results; they do not compare gradients.",
 ["artist/nurbs/surfaces.py", "artist/field/kinematics_rigid_body.py", "artist/field/actuators_linear.py", "artist/raytracing/heliostat_ray_tracer.py", "artist/optim/loss.py"],
 [("differentiable operations", "artist/raytracing/heliostat_ray_tracer.py, artist/field, artist/nurbs")],
 ["gradients"])
add("C33", "Training loops follow their schedule and stop exactly when they should",
 "Kinematics reconstruction (both methods), surface reconstruction and aim-point optimisation step with exactly the configured learning rates (exponential, cyclic, or reduced when the loss stops improving) and end after the configured number of epochs, at the first loss that reaches the tolerance, or as soon as the loss has not improved over the configured window for the configured patience; until then they behave like a run that does not stop, and report the loss of every epoch.",
 [H, I], "all schedules, tolerances, epoch limits and early-stopping settings, and all histories of losses that real runs produce",
 "Tests run the loops with one configuration for a few epochs in which neither early stopping nor the tolerance ends them.",
 ["artist/optim/kinematics_reconstructor.py", "artist/optim/surface_reconstructor.py", "artist/optim/aim_point_optimizer.py", "artist/optim/training.py"],
 [("training loops", "artist/optim/*: optimisation loops and _setup_optimizer_scheduler_early_stopping")],
 ["learning rates of the optimiser steps", "loss histories"])
add("C34", "Results do not depend on what ran before, and inputs are left unchanged",
 "Whatever a process has computed, loaded, trained or logged before, and however its random generators stand, the next call gives what it gives in a fresh process for the same arguments; and no call changes the tensors, measurements or files it was given. This holds for surfaces, ray tracing, kinematics, parsers, losses and transforms as well as for whole reconstructions and aim-point optimisations.",
 [H, I], "all histories of calls, with the same or other values of the same sizes, in one process",
 "Tests call each function with one set of values, mostly once per process; stale caches, shared defaults and in-place edits only show with a history of calls.",
 ["artist"],
 [("module state, caches, default arguments and in-place operations", "artist")],
 ["all results", "tensors handed over"])
add("C35", "The simulated plant obeys the symmetries of the real one",
 "From alignment to bitmaps and fractions, a simulation does not change when the whole plant is moved to another place, when heliostats, groups or receivers are listed in another order or heliostats are divided into other groups (their results follow them), or when receivers nobody aims at and heliostats far away are added; this includes blocking. A plant with ideal actuators at another scale gives the same bitmaps and motor positions, its mirror image gives mirrored bitmaps, and a plant of cylindrical receivers turned about the vertical together with the sun gives the same bitmaps.",
 [I, C], "all fields, receivers, suns, aims, numberings and divisions into groups; all displacements, scales and turns",
 "Tests compare with stored values of a few plants; they never relate two simulations of equivalent plants.",
 ["artist/field", "artist/raytracing", "artist/geometry", "artist/scenario/scenario.py"],
 [("alignment", "artist/field/heliostat_group_rigid_body.py"), ("ray tracing and blocking", "artist/raytracing")],
 ["flux bitmaps", "intercept, on-target and blocking fractions", "motor positions"])
add("C36", "Logs hold each record once; tracking a runtime changes nothing else",
 "After the loggers are configured, every record of ARTIST at or above the chosen level, from whichever module, appears exactly once, in order, with time, module, level and message on the screen (in colour only when asked) and in the log file (never in colour), whose folders are created and whose earlier content stays; records below the level and of other programs do not appear. A function whose runtime is tracked keeps its arguments, result, errors, name and documentation; its start and, if it ends without an error, its end with the true duration are logged once, however calls are nested and however often the runtime logger is requested.",
 [I, H], "all configurations, records, nestings of tracked functions and errors in them",
 "Tests log one function once and look for words in the file.",
 ["artist/util/__init__.py"],
 [("handlers and formats", "artist/util/__init__.py: set_logger_config, set_runtime_logger"), ("decorator", "artist/util/__init__.py: track_runtime")],
 ["log file", "standard output", "results of tracked functions"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
