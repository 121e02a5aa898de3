#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static abstract interpretation of the Python source"
NOTE = ("Decided statically from the source for symbolic inputs of generic sizes, for every option combination listed in specs/; constructs the interpreter cannot resolve are counted as undecided "
        "and never judged, so the result is a bug-finding guarantee over the analysed entries, not a proof for all programs. Numerical values are not decided.")

ST = "pytorch3d/structures/"
RE = "pytorch3d/renderer/"
OPS = "pytorch3d/ops/"

P = [
 dict(id="C01", title="Operations leave the caller's tensors, containers and objects unmodified",
  statement="Apart from operations documented to work in place (methods with a trailing underscore, and options that ask for it), calling a public function or method never changes what the caller passed in: no element of an argument tensor, no entry of an argument list or dict, and no observable accessor of an argument or receiver object has changed when the call returns. Caching a derived representation inside an object is allowed only where no accessor can tell the difference.",
  over=["inputs", "programs"], text="all argument values, all list/padded/packed constructions and all option combinations of every analysed public operation",
  why="Tests compare outputs; almost none compares the inputs with a copy taken before the call, and aliasing only shows for particular layouts (padded construction, equal sizes, contiguous views).",
  files=[ST + "meshes.py", ST + "pointclouds.py", ST + "volumes.py", OPS, RE, "pytorch3d/transforms/", "pytorch3d/loss/"],
  mech=[("out-of-place variants clone before updating", ST + "meshes.py offset_verts/scale_verts; " + ST + "pointclouds.py offset/scale"), ("volumes cloned before in-place kernels", OPS + "points_to_volumes.py")]),
 dict(id="C02", title="Copies share no storage and detached objects carry no gradient",
  statement="Every tensor observable through a clone, or through a move that was asked to copy, lives in storage disjoint from the original's, whichever representations had been computed before. Every tensor observable through a detached object has no gradient path to the original's inputs.",
  over=["inputs", "histories"], text="every construction kind, every cached-representation state, every texture type and optional attribute",
  why="Tests check a few representations of one construction; which caches exist depends on the history of accessor calls.",
  files=[ST + "meshes.py", ST + "pointclouds.py", ST + "volumes.py", RE + "mesh/textures.py", "pytorch3d/transforms/transform3d.py", RE + "utils.py"],
  mech=[("clone copies every internal tensor and the textures", ST + "meshes.py clone"), ("detach", ST + "meshes.py detach")]),
 dict(id="C03", title="Cached representations stay coherent after an update",
  statement="After an update of a batch object (offset, scale, replacing the padded values, recomputed normals), every accessor (list, packed, padded, normals, areas, bounding boxes, features) reflects the new values, no matter which representations had been computed before the update. No accessor returns data computed from the old values that the update replaces.",
  over=["histories", "inputs"], text="every update operation, construction kind and set of representations computed before it",
  why="A stale cache needs a particular accessor to be called before the update and another one after it; tests sample a few such orders.",
  files=[ST + "meshes.py", ST + "pointclouds.py", ST + "volumes.py"],
  mech=[("updates rewrite list, packed and padded representations", ST + "meshes.py offset_verts_, scale_verts_, update_padded"), ("same for point clouds", ST + "pointclouds.py offset_, scale_, update_padded")]),
 dict(id="C04", title="Indexing, splitting, joining, extending and copying carry every attribute",
  statement="The result of selecting, splitting, repeating, joining, copying or moving batch objects (meshes, point clouds, volumes, textures, cameras, lights, materials, transforms) keeps every attribute of its sources: geometry, normals, features, every texture tensor, grid placement, sampling options and per-batch parameters each come from the corresponding attribute of the source. No attribute is dropped, replaced by a default, or taken from a different attribute.",
  over=["inputs", "configurations"], text="every container class, texture type, optional attribute combination and kind of index",
  why="The number of (class, operation, attribute, index kind) combinations is far beyond the ones asserted in tests, and a dropped optional attribute silently becomes a default.",
  files=[ST + "meshes.py", ST + "pointclouds.py", ST + "volumes.py", RE + "mesh/textures.py", RE + "utils.py", RE + "cameras.py", "pytorch3d/transforms/transform3d.py"],
  mech=[("__getitem__/extend/join of each texture class", RE + "mesh/textures.py"), ("TensorProperties.clone/__getitem__", RE + "utils.py"), ("_copy_transform_and_sizes", ST + "volumes.py")]),
 dict(id="C05", title="Results live on the device of the inputs",
  statement="For inputs that all live on one device, every public operation performs its tensor work on that device and returns every result tensor there; no tensor created inside the operation is left on the default device or combined with one on another device. Objects moved to a device have every tensor they expose on that device.",
  over=["configurations", "inputs"], text="every analysed operation and option combination with inputs on a device other than the default one",
  why="The test environment has only the default device, where a missing device argument can never fail.",
  files=["pytorch3d/"], mech=[("device= of factory calls", "all modules"), (".to() of containers", ST + ", " + RE + "utils.py, pytorch3d/transforms/transform3d.py")]),
 dict(id="C06", title="Double precision inputs are processed in double precision",
  statement="Operations that accept float64 tensors work on them without mixing precisions: no internal tensor is created in another float type and combined with them in a way that raises, and no value is rounded to single precision on its way to a result. The dtype of every result is determined by the dtypes of the inputs (and explicit dtype options), not by the default dtype.",
  over=["inputs", "configurations"], text="every analysed operation that accepts float64, every option combination",
  why="Nearly all tests use float32, for which a hard-coded dtype cannot be seen.",
  files=["pytorch3d/transforms/", RE + "cameras.py", "pytorch3d/ops/", "pytorch3d/structures/"], mech=[("dtype= of factory calls", "all modules"), ("new_zeros/zeros_like idioms", "all modules")]),
 dict(id="C07", title="Every differentiable input stays connected to the results by gradients",
  statement="For every operation documented as differentiable, each floating point input that influences a floating point result is connected to it by a chain of differentiable operations for every option combination: no detach, no no-grad region, no conversion to Python or NumPy values, and no custom backward that drops it lies on all paths. Gradients are blocked only where the operation documents it.",
  over=["inputs", "configurations"], text="every pair of differentiable input and result of the analysed operations, every option combination",
  why="Gradient tests exist for a few operations and options; a cut on one option combination or one of several inputs leaves forward values unchanged.",
  files=["pytorch3d/"], mech=[("autograd Functions", OPS + ", " + RE), ("tensor expressions in Python", "all modules")]),
 dict(id="C08", title="Every argument, option and per-call override takes effect",
  statement="Each argument of a public operation influences every result it is documented to influence: optional tensors (weights, lengths, masks, normals, per-call camera or light overrides, backgrounds) and scalar options reach the computation on every code path instead of being ignored, overwritten by a default or replaced by a stored value. This holds for each result of the operation separately, not only for one of them.",
  over=["inputs", "configurations"], text="every (argument, result) pair in the contract of the analysed operations, every option combination",
  why="A test with one value of an option cannot tell whether the option is read; combinations of optional arguments are rarely tested together.",
  files=["pytorch3d/"], mech=[("keyword forwarding", RE + "cameras.py, " + RE + "mesh/renderer.py, " + RE + "mesh/shader.py, pytorch3d/loss/chamfer.py"), ("setting overrides", RE + "mesh/rasterizer.py, " + RE + "points/rasterizer.py")]),
 dict(id="C09", title="Malformed inputs are rejected instead of being processed",
  statement="A call whose arguments violate a documented requirement (a tensor with the wrong number of dimensions or a wrong fixed size, batch sizes or counts that do not match, tensors on different devices, a wrong dtype or type, an unknown option value, an index outside the batch, values that the operation checks for validity) raises an exception on every path, for every combination of the other arguments. It never returns a result computed from the malformed input where the operation rejects it.",
  over=["inputs", "configurations"], text="every argument of the analysed operations, made malformed one at a time, for several option combinations",
  why="A handful of error paths are tested with one malformed value each; a check that is skipped for one option combination, or that covers one of several arguments, is not seen.",
  files=["pytorch3d/"], mech=[("explicit validation before work", "all modules"), ("constructors of batch objects", ST + "meshes.py, " + ST + "pointclouds.py, " + ST + "volumes.py, " + RE + "mesh/textures.py")]),
 dict(id="C10", title="Results have the documented shapes for all input sizes",
  statement="For inputs of the documented shapes, with any sizes, every public operation returns exactly the documented set of results with the documented shapes, expressed in the sizes of the inputs, and never fails because the shapes inside it do not fit. Sizes of different axes and of different inputs are never confused, for every option combination.",
  over=["inputs", "configurations"], text="all sizes (symbolic, pairwise distinct), every option combination of the analysed operations",
  why="Tests use few, often equal, sizes (square images, equal batch entries), for which exchanged axes are invisible.",
  files=["pytorch3d/"], mech=[("reshape/permute/expand chains", "all modules")]),
 dict(id="C11", title="Randomness is used only where it is asked for",
  statement="Operations that are documented as deterministic, and randomised operations with their randomness switched off, draw no random number and do not advance a random number generator. Randomness enters a result only through the operations and options documented as random.",
  over=["configurations", "histories"], text="every analysed operation and option combination",
  why="A repeated call with the same seed gives the same result whether or not numbers are drawn; tests do not inspect the generator state.",
  files=["pytorch3d/ops/sample_farthest_points.py", "pytorch3d/ops/sample_points_from_meshes.py", RE + "implicit/", "pytorch3d/implicitron/", ST + "pointclouds.py"],
  mech=[("flags guarding random calls (random_start_point, stratified, det)", OPS + ", " + RE + "implicit")]),
 dict(id="C12", title="Files are opened through the caller's path manager and closed on every way out",
  statement="Every file that loading or saving meshes and point clouds touches, including material and texture files next to it, is opened through the path manager the caller passed and not directly. Every file the library opens is closed on every normal and exceptional way out, whereas a stream the caller passed in stays open. Files are opened in the mode that fits what is read or written, and malformed arguments are rejected before the output file is opened, so an existing file is not truncated by a call that fails its validation.",
  over=["inputs", "programs"], text="every reader and writer (obj, mtl, ply, off, glb), path and stream targets, every option combination, every raise statement on the way and an I/O error at every read or write",
  why="Tests use local paths, the default path manager and well-formed files, with which a leaked handle or a bypassed path manager has no visible effect.",
  files=["pytorch3d/io/"], mech=[("_open_file", "pytorch3d/io/utils.py"), ("path_manager arguments", "pytorch3d/io/obj_io.py, pytorch3d/io/mtl_io.py, pytorch3d/io/ply_io.py, pytorch3d/io/off_io.py, pytorch3d/io/experimental_gltf_io.py, pytorch3d/io/pluggable.py")]),
 dict(id="C13", title="Python calls and autograd functions agree with the compiled operators",
  statement="Every call from Python into the compiled extension names an exported operator and passes arguments of the right number, order, type, dtype, rank and mutually consistent sizes, each carrying the value its parameter stands for. Every custom autograd function returns from its backward exactly one gradient per forward input, in order, with the shape of that input, and None for inputs without gradient.",
  over=["inputs", "configurations"], text="all call sites of the compiled extension reached from the analysed operations, every option combination",
  why="Arguments of equal type can be exchanged without any error, and backward passes are rarely run for every input and option.",
  files=["pytorch3d/csrc/ext.cpp", OPS, RE, "pytorch3d/loss/point_mesh_distance.py"],
  mech=[("bindings", "pytorch3d/csrc/ext.cpp"), ("autograd.Function classes", OPS + ", " + RE + "mesh/rasterize_meshes.py, " + RE + "points/rasterize_points.py, " + RE + "compositing.py")]),
 dict(id="C16", title="Calls do not leave process-wide or module state changed",
  statement="No public operation leaves the process-wide gradient mode, default dtype, random seed or the training mode of a module changed when it returns or raises. State that has to be changed temporarily is changed through a scope that restores it on every exit.",
  over=["programs", "histories"], text="every analysed operation, normal and exceptional exits",
  why="Tests run operations in isolation with a fixed ambient state and do not compare it before and after.",
  files=["pytorch3d/"], mech=[("context managers", "pytorch3d/implicitron, pytorch3d/ops")]),
 dict(id="C17", title="Results do not depend on the memory layout of the caller's tensors",
  statement="Every public operation accepts tensors of any memory layout: for transposed, permuted, expanded or sliced inputs (any strides, non-contiguous) it neither fails because a view of the tensor is impossible, nor loses a write to a hidden copy, nor lets a C++ kernel read a raw data pointer as if the tensor were contiguous. The result is the one for the contiguous copy of the same values.",
  over=["inputs"], text="every analysed operation, every assignment of strides to its tensor inputs",
  why="Tests build their inputs with factory functions and concatenations, which are contiguous; almost none passes a transposed or expanded tensor, and none can pass all strides.",
  files=["pytorch3d/"], mech=[("reshape/contiguous at every view of a caller's tensor", "pytorch3d/ops, pytorch3d/renderer, pytorch3d/structures, pytorch3d/transforms"), ("CHECK_CONTIGUOUS and accessors in the kernels", "pytorch3d/csrc")]),
]

NA = [
 ("C40", "Rotation conversions round-trip", "Converting a rotation between matrices, quaternions, axis-angle, Euler angles and the 6D form and back gives the same rotation.", ["inputs"], "all rotations", ["pytorch3d/transforms/rotation_conversions.py"],
  "Equality of floating point results for all rotations is numerical; no structural clause implies it. Shapes, dtypes, devices and gradient paths of these functions are claimed under C05-C10."),
 ("C41", "Rasterised fragments are the exact nearest faces and points", "For every pixel the rasterizers return the K nearest faces or points that cover it, in order of depth, with correct barycentric coordinates.", ["inputs"], "all meshes and point clouds, image sizes and blur radii", ["pytorch3d/csrc/rasterize_meshes/", "pytorch3d/csrc/rasterize_points/"],
  "Geometric correctness over floating point coordinates in C++ kernels; no sound static argument in reach bounds it."),
 ("C42", "Nearest-neighbour queries are exact", "knn_points and ball_query return exactly the neighbours a brute-force search finds, sorted by distance where asked.", ["inputs"], "all point sets", ["pytorch3d/csrc/knn/", "pytorch3d/csrc/ball_query/"],
  "Result values of data-dependent C++ search kernels; needs execution or functional proof of the kernels."),
 ("C43", "Mesh and point cloud files round-trip", "Loading a file written by the library gives back the same geometry, attributes and textures.", ["inputs"], "all meshes and file formats", ["pytorch3d/io/"],
  "Equality of text/binary encodings of runtime values; the structural clauses (open modes, path manager, closing) are claimed under C12."),
 ("C44", "Cameras' unprojection inverts projection", "For every camera model unproject_points(transform_points(x)) returns x for points in front of the camera.", ["inputs"], "all camera parameters and points", ["pytorch3d/renderer/cameras.py", "pytorch3d/renderer/fisheyecameras.py"],
  "A numerical identity over real-valued parameters. That both directions use the same overrides is claimed under C08."),
 ("C45", "Marching cubes surfaces are watertight and oriented", "Extracted surfaces are closed, consistently oriented manifolds located at the iso level.", ["inputs"], "all volumes", ["pytorch3d/ops/marching_cubes.py", "pytorch3d/csrc/marching_cubes/"],
  "Topological correctness depends on table values and runtime data; tables could be enumerated but that is not a static analysis of the code."),
 ("C46", "Volumetric rendering weights are a sub-probability", "Ray marching weights are non-negative and sum to at most one, and opacity equals their sum.", ["inputs"], "all densities", ["pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/implicitron/models/renderer/ray_point_refiner.py"],
  "An inequality over floating point products; no structural necessary condition short of re-deriving the formula."),
 ("C47", "Alignment and PnP recover the true transform", "For exact correspondences ICP, Procrustes alignment and PnP return the transform that generated them, equivariantly.", ["inputs"], "all point sets", ["pytorch3d/ops/points_alignment.py", "pytorch3d/ops/perspective_n_points.py"],
  "Numerical convergence and SVD identities."),
 ("C48", "Gradients equal numerical derivatives", "Every custom backward computes the derivative of its forward.", ["inputs"], "all inputs", ["pytorch3d/csrc/", OPS],
  "Gradient values are numerical; the structural part (which gradients exist, in what position and shape) is claimed under C07 and C13."),
 ("C49", "3D box IoU is exact and symmetric", "box3d_overlap returns the exact intersection volume and IoU and is symmetric in its arguments.", ["inputs"], "all boxes", ["pytorch3d/csrc/iou_box3d/"],
  "Numerical geometry in C++ kernels with tolerance decisions."),
]

HERE_TECH = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
        for i, t, s, o, q, f, r in NA:
            fh.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=q), why_tests_cant="Tests sample inputs; the property quantifies over all of them.",
                                     anchors=dict(files=f, mechanism=[dict(name="implementation", where=f[0])]))) + "\n")
    m = dict(version=1, setup_cmd="true",
             checks=[dict(property=p["id"], quick_cmd=f"python3 run.py check {p['id']} --tier quick", thorough_cmd=f"python3 run.py check {p['id']} --tier thorough",
                          technique=p.get("tech", AI), level="other", level_note=p.get("note", NOTE)) for p in P],
             not_applicable=[dict(property=i, reason=r) for i, _, _, _, _, _, r in NA],
             notes="All checks read /repo's source and never import or run it. known_findings.txt lists recorded and repaired defects.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
