#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = json.load(open(os.path.join(V, "checks.json")))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, tech=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, tech, note))


KIN, TFK, HPP, DS = "src/kinematics.cpp", "src/tinyfk.cpp", "include/tinyfk.hpp", "include/data_structure.hpp"
WR, PY = "src/wrapper.cpp", "python/tinyfk/__init__.py"
UP = "urdf_parser/src/"
UI = "urdf_parser/include/urdf_model/"
TX = "urdf_parser/tinyxml/"
PBT = "seeded random generation with shrinking (own C++ engine, ASan+UBSan)"
HYP = "Hypothesis over the real wrapper built against a local binding shim"

prop("C01", "Every link pose is the product of the joint motions on its chain",
     "For every accepted robot description whose joint axes have unit length, every joint configuration (values inside or outside the limits) and every base pose, the pose reported for each link equals the base pose composed, along the path from the root, with each joint's fixed origin followed by its motion: rotation about its axis for revolute and continuous joints, translation along it for prismatic ones, nothing for fixed ones. A freshly loaded model has all joint values zero and an identity base pose, and the order in which links are queried does not matter.",
     ["inputs", "configurations"], "all tree-shaped robots (any branching, depth, joint mix, names), all real joint vectors, all base poses, all query orders",
     "The tests compare two fixed robots at a handful of recorded configurations; the claim is about every tree, axis, origin and angle.",
     [KIN, TFK, UI + "joint.h", UI + "pose.h"],
     [("chain walk to the root", KIN), ("joint motion", UI + "joint.h"), ("pose composition", UP + "pose.cpp")],
     tech="property-based testing against an independent rotation-matrix reference model: " + PBT,
     note="No counterexample among the generated robots and configurations; trusts the reference model in props/robot.hpp; tolerance 1e-10 relative.")

prop("C02", "Answers are never stale, whatever happened before",
     "After any history of joint-value updates, base-pose updates, resets, run-time link additions and queries of every kind, each query (link pose, Jacobian, centre of mass and its Jacobian, total inertia, stored joint values) answers what a freshly loaded model brought directly into the same configuration answers. An update through the explicitly low-level setters, which skip invalidation, must be visible after the next cache clear or ordinary update.",
     ["histories"], "all operation histories over all robots, including interleavings of queries, partial joint updates, base moves, link additions and explicit cache clears",
     "Unit tests set one configuration and query it; staleness needs a specific order of query, update and query again.",
     [KIN, TFK, HPP, DS], [("per-link transform cache and its invalidation", DS), ("set_joint_angles / set_base_pose / set_init_angles / add_new_link clear the cache", TFK)],
     state=[("transform cache", "poses computed since the last invalidation", HPP)],
     tech="stateful model-based testing: random operation histories against a freshly built model: " + PBT,
     note="Explores random histories of up to 40 operations; equality to 1e-9.")

prop("C03", "The joint Jacobian is the derivative of the link pose",
     "For every robot, configuration, link and list of movable joints in any order, each Jacobian column equals the partial derivative of that link's position, and of its roll-pitch-yaw or quaternion (x,y,z,w) components when requested, with respect to that joint's value; columns follow the order of the list, and columns of joints that do not move the link are zero. The quaternion rows are the derivative of the quaternion the library itself reports for that link; roll-pitch-yaw rows are only claimed away from gimbal lock.",
     ["inputs", "configurations"], "all robots, configurations, links (including run-time ones), joint subsets/permutations and the three rotation modes",
     "The tests compare Jacobians with finite differences for two robots and one sampled configuration family with a loose tolerance.",
     [KIN, TFK], [("geometric Jacobian columns", KIN), ("relevance table (which joint moves which link)", TFK), ("angular rate to rpy / quaternion rate", KIN)],
     tech="property-based testing against exact derivatives (dual numbers on the reference model): " + PBT,
     note="Derivatives are exact (forward-mode), not finite differences; tolerance 1e-8 relative.")

prop("C04", "Floating-base Jacobian columns are derivatives with respect to the base",
     "With the base included, the Jacobian has exactly six further columns after the joint columns, equal to the derivatives of the link's position and requested rotation components with respect to base x, y, z, roll, pitch and yaw, for every base pose whose pitch is away from +-90 degrees, including base yaw and roll at or beyond half a turn. The joint columns are the same as without the base.",
     ["inputs", "configurations"], "all robots, links, joint lists, rotation modes and base poses (pitch inside (-90,90) degrees, any roll and yaw)",
     "Tests use one base pose near the origin; wrap-around of roll/yaw and quaternion sign flips only occur for particular orientations.",
     [KIN], [("numeric base columns", KIN)],
     tech="property-based testing against exact derivatives (dual numbers): " + PBT,
     note="The library differentiates numerically (step 1e-7), so agreement is to about 1e-5 relative.")

prop("C05", "Centre of mass and its Jacobian follow the mass distribution",
     "For every robot with positive total mass, in every configuration and base pose, the centre of mass is the mass-weighted mean of all links' inertial origins placed by their link poses (links without inertia count as massless, links with zero mass have no influence), and the centre-of-mass Jacobian, with and without the base columns and for any list of joints, is its derivative. The reported total mass is the sum of all link masses.",
     ["inputs", "configurations"], "all robots with any assignment of inertials to links, all configurations, joint lists, base flags",
     "Tests check the Jacobian against finite differences for two robots and never compare the centre of mass itself against an independent computation.",
     [KIN, TFK], [("hidden frame per inertial", TFK), ("mass-weighted accumulation", KIN)],
     tech="property-based testing against the reference model with exact derivatives: " + PBT,
     note="Base rotation columns to 1e-5 (numeric in the library), the rest to 1e-9.")

prop("C06", "Total inertia is the composite rigid-body inertia about the centre of mass",
     "For every robot with positive total mass and every configuration, the total inertia matrix equals the sum over links of the link's inertia tensor rotated into the world (through the link pose and the inertial frame's own orientation) plus the parallel-axis term about the centre of mass. Hence it is symmetric, unaffected by translating the base, and turns with the base.",
     ["inputs", "configurations"], "all robots, inertial placements and orientations, configurations, base poses",
     "The only test checks one robot at its zero configuration against its own stored number.",
     [KIN, TFK], [("parallel-axis sum", KIN), ("inertial frames", TFK)],
     tech="property-based testing: reference model plus metamorphic base-motion relations: " + PBT,
     note="Tolerance 1e-9 relative to the largest contribution.")

prop("C07", "Names and ids form a consistent two-way mapping",
     "For every robot, each declared link and each movable joint has exactly one id, ids are the positions of the names in the reported name lists, distinct names get distinct ids, fixed joints are not listed, and looking up any list of names returns the ids in that order. Looking up any name that was never declared (including near-misses in case, prefix or surrounding space) raises an exception and changes nothing.",
     ["inputs", "histories"], "all sets of link/joint names (any characters valid in XML, shared names between links and joints), all lookup lists, before and after links are added",
     "Tests look up a few well-formed names of two robots.",
     [TFK, HPP], [("id numbering", TFK), ("name maps", HPP)],
     tech="property-based testing of the mapping laws: " + PBT, note="Explores generated name sets; near-miss names are derived by mutation.")

prop("C08", "A link attached at run time behaves like a rigidly fixed declared link",
     "A link added at run time under any existing link, itself possibly added at run time and to any depth, moves rigidly with its parent at the given offset: its pose, Jacobian, id and name answer as if the description had declared it with a fixed joint, while every earlier link, id, joint, mass, centre of mass and inertia stays as it was. Adding a link under a name that is already taken raises an exception and leaves the model unchanged.",
     ["inputs", "histories"], "all sequences of additions (any parents, offsets, depths, interleaved with queries and configuration changes, refused duplicates in between)",
     "Tests add single links to known robots; deep run-time chains, refused additions and interleavings are not exercised.",
     [TFK, HPP, DS], [("add_new_link", TFK), ("cache / stack growth", DS), ("relevance table rebuild", TFK)],
     tech="stateful property-based testing, differential against the same robot declared statically: " + PBT,
     note="Sequences of up to 60 additions; both models are the real library, poses are also compared with the reference model.")

prop("C09", "Limits are reported exactly as declared",
     "For every robot and every list of joints in any order, the position limits are the declared lower and upper values (absent attributes count as 0) for revolute and prismatic joints and minus/plus infinity for continuous ones, and velocity and effort limits are the declared values, infinite for a continuous joint that declares no limit. Reading limits never crashes and does not change the model.",
     ["inputs"], "all robots, all presence patterns of limit elements and attributes, all joint lists",
     "Tests read limits of two robots; continuous joints without a limit element are never queried for velocity or effort.",
     [TFK, UP + "joint.cpp"], [("limit accessors", TFK), ("limit parsing", UP + "joint.cpp")],
     tech="property-based testing against the generated description: " + PBT, note="Exact comparison.")

prop("C10", "Parsing preserves everything the description states",
     "For every well-formed robot description, the parsed model contains exactly the declared links, joints and materials with the declared values: parent/child structure, root, joint types, axes, origins, limits, safety, calibration, mimic and dynamics parameters, inertials, and every visual and collision element with its origin, geometry, mesh file and scale, and material. Omitted optional parts take their documented defaults.",
     ["inputs"], "all descriptions from the supported vocabulary, any combination of present and absent optional parts, any numbers",
     "Tests only check that three files parse and a few resulting numbers.",
     [UP + "model.cpp", UP + "joint.cpp", UP + "link.cpp", UP + "pose.cpp", UI + "model.h", UI + "link.h", UI + "joint.h", UI + "color.h", UI + "utils.h"],
     [("element parsers", UP), ("tree construction", UI + "model.h")],
     tech="property-based testing: structure -> text -> parse, compared field by field: " + PBT,
     note="Grammar-based generator over the supported elements; exact comparison of numbers printed with 17 digits.")

prop("C11", "How a description is written does not change what it means",
     "Reordering the links, joints, child elements or attributes of a description, changing whitespace between tags, attributes and vector components, quotes, self-closing form, number spelling, comments, processing instructions, unknown extra elements and attributes, byte-order mark or declaration, and writing characters as entities, yields a model with the same names, ids, limits, masses and the same answers in every configuration.",
     ["inputs"], "all descriptions and all combinations of meaning-preserving rewrites",
     "Tests parse three files as they are.",
     [TX + "tinyxmlparser.cpp", UP + "model.cpp", UP + "link.cpp", UP + "joint.cpp", TFK], [("XML parser", TX + "tinyxmlparser.cpp"), ("lookup by element and attribute name", UP)],
     tech="metamorphic property-based testing (rewrite the text, compare the models): " + PBT,
     note="Every rewrite is drawn from the listed classes; poses compared to 1e-12.")

prop("C12", "No text whatsoever crashes or hangs the loader",
     "For every byte string offered as a robot description (including truncated, mutated, non-UTF-8, deeply nested and binary input), loading terminates promptly and either produces a model that can be queried or reports an error, without reading or writing outside its buffers, exhausting the stack, or terminating the process.",
     ["inputs"], "all byte strings; biased to mutations of valid descriptions and to XML corner cases",
     "Tests load three valid files; malformed input is untested.",
     [TX + "tinyxmlparser.cpp", TX + "tinyxml.cpp", UP + "model.cpp", TFK], [("XML parser", TX), ("error returns of the URDF parser", UP + "model.cpp"), ("model construction", TFK)],
     tech="structured mutation fuzzing plus coverage-guided libFuzzer campaigns (ASan+UBSan), shrunk by the same engine",
     note="Absence is not established; inputs up to 4 KiB (nesting up to tens of thousands). Input containing NUL is cut there by design.")

prop("C13", "Descriptions that are not a valid robot are refused with an error",
     "A description that is truncated, has unclosed or mismatched elements or unterminated or duplicated attributes, has no named robot element or an unsupported version, declares no link or the same link, joint or material name twice, or contains a joint of unknown or unsupported type, without name, type, parent or child, with an undeclared link, with malformed numbers, or a revolute/prismatic joint without complete limits, is refused with a catchable exception. So is one whose joints do not arrange all links into a single tree: several roots, a link with two parents, a cycle, or a cycle detached from the root; and the same description without the defect loads.",
     ["inputs"], "all valid robots with one or more injected structural defects of the listed classes at any place",
     "Tests contain no invalid description.",
     [UP + "model.cpp", UP + "joint.cpp", UI + "model.h", UI + "utils.h", TFK], [("validation in the URDF parser", UP + "model.cpp"), ("tree and root checks", UI + "model.h"), ("constructor error path", TFK)],
     tech="property-based testing with defect injection into generated valid descriptions (with a valid control): " + PBT,
     note="Covers the listed defect classes; each case also loads its defect-free control.")

prop("C14", "Export followed by parse gives the same robot back",
     "For every parsed model, as it is or with parts of it changed, added or removed since, exporting it as a description and parsing that again yields the same links, joints, tree, root, names, joint types, axes, origins, limits, safety, calibration, mimic, dynamics, inertials, visuals, collisions, geometry and materials, up to the six significant digits the exporter writes. Exporting the re-parsed model and parsing once more gives the same model again.",
     ["inputs"], "all models parsed from generated descriptions, and changes made to them",
     "No test exports anything.",
     [UP + "model.cpp", UP + "joint.cpp", UP + "link.cpp", UP + "pose.cpp", TX + "tinyxml.cpp"], [("export functions", UP), ("number formatting", UP + "pose.cpp"), ("XML printing and escaping", TX + "tinyxml.cpp")],
     tech="round-trip property-based testing: " + PBT,
     note="Orientations within 0.0045 rad of +-90 degrees pitch may be snapped to the pole by the exporter (tolerance 0.02 there); attribute text containing a literal '&#x' is outside the XML layer's documented escaping.")

prop("C15", "Rigid transforms obey the group laws",
     "For all rotations and transforms: composition is associative and agrees with matrix multiplication, the identity is neutral, every offered form of inversion gives the true inverse, rotating a vector preserves length, angle and handedness, and unit norm is preserved. Building a rotation from roll, pitch and yaw gives Rz(yaw)Ry(pitch)Rx(roll), and reading roll, pitch and yaw back gives the same rotation (away from gimbal lock exactly, within the lock band up to the documented snapping).",
     ["inputs"], "all angles (any magnitude), all unit and non-zero quaternions, all vectors",
     "Tests touch a few fixed values.",
     [UI + "pose.h", UP + "pose.cpp"], [("quaternion algebra", UI + "pose.h"), ("pose composition", UP + "pose.cpp")],
     tech="property-based testing of algebraic laws with a matrix oracle: " + PBT,
     note="Tolerance 1e-11 relative; within about 0.0045 rad of +-90 degrees pitch the reader snaps to the pole, there agreement is to 0.02.")

prop("C16", "Models are independent of each other",
     "Any number of models loaded from the same or different descriptions can be used in any interleaving: operations on one never change what another answers, and destroying one leaves the others intact. A copy of a C++ model (or one assigned from another) answers as the original did and is from then on a model of its own, also for links added to either.",
     ["histories"], "all interleavings of operations over several live models, including load, copy, assignment, destroy and reload",
     "Tests use one model at a time.",
     [TFK, KIN, HPP, TX + "tinyxmlparser.cpp"], [("all state is per model", HPP)],
     tech="stateful property-based testing of interleaved models, each mirrored by its own reference state: " + PBT,
     note="Up to 5 live models, 40 operations.")

prop("C17", "Queries are read-only and repeatable",
     "Queries never change the model: repeating any query, in any order and any number of times and mixed with other queries, returns the same results (up to rounding) while the configuration is unchanged, and afterwards stored joint values, names, ids, limits and total mass are what they were. This includes failed queries that raised an exception.",
     ["histories"], "all sequences of queries over all robots and configurations",
     "Tests run each query once.",
     [KIN, TFK, HPP], [("mutable scratch stack and cache behind const queries", HPP)],
     tech="stateful property-based testing (repeat and permute queries): " + PBT,
     note="Each query is first asked alone of a fresh model; later answers agree to 1e-12 relative (1e-6 for the library's numeric base columns).")

prop("C18", "Configurations read back as they were set",
     "After any sequence of full and partial joint updates in any id order, single-joint updates and resets, reading any list of joints returns for each the value written last (zero after a reset or before any update), bit for bit, even for values outside the limits. Updating some joints or the base never changes other joints' values, and the base pose in force is the last one set.",
     ["histories"], "all sequences of updates over all robots",
     "Tests set all joints once.",
     [TFK, HPP], [("joint value vector", TFK)],
     tech="stateful model-based testing against a map: " + PBT, note="Exact comparison.")

prop("C19", "The bounded stack and the slot cache behave as specified",
     "Within its capacity, the bounded stack is last-in-first-out with exact size, emptiness and reset. The slot cache returns for each slot the value stored last since the last clear, or nothing if there is none; growing it adds one empty slot and forgets all entries.",
     ["histories"], "all operation sequences within the declared capacities, several element types",
     "The unit test runs one fixed sequence on the stack and none on the cache.",
     [DS], [("SizedStack", DS), ("SizedCache", DS)],
     tech="stateful model-based testing against std containers: " + PBT, note="Sequences up to 120 operations.")

prop("C20", "XML documents survive printing and parsing",
     "For every document built through the document API (elements, attributes with any valid characters, text, CDATA, comments, declarations, unknown nodes, any shape) printing it to a string, file or stream and parsing again gives the same tree, and printing again gives the same text. Edits through the API (insert before/after, replace, remove, clone, set and remove attributes) keep parent, sibling and child links consistent and do what a plain tree model does; so do lookups by name and index, attribute queries and conversions, handles, visitors and copies. Parsed nodes report the row and column they start at.",
     ["inputs", "histories"], "all documents and all edit histories",
     "No test touches the XML layer directly.",
     [TX + "tinyxml.cpp", TX + "tinyxmlparser.cpp", TX + "tinystr.h", TX + "tinystr.cpp"], [("printer", TX + "tinyxml.cpp"), ("parser", TX + "tinyxmlparser.cpp"), ("string class", TX + "tinystr.h")],
     tech="round-trip and stateful model-based testing of the DOM: " + PBT,
     note="Within the documented escaping and whitespace-condensing rules of the XML layer.")

prop("C21", "Python batch forward kinematics solves every row independently",
     "For every batch of configurations (list, 2-D array or single vector), list of links, list of joints, rotation mode and base type, row by row and link by link the returned pose equals the link's pose in that configuration and the returned Jacobian block is its derivative, with n, n+3 (x, y, yaw) or n+6 columns for fixed, planar and floating base. The result of one row does not depend on the other rows, on earlier calls or on how the batch is split, and joints not listed keep their current values; badly sized input raises an error instead of giving numbers.",
     ["inputs", "histories"], "all robots, batches, link and joint lists, rotation modes, base types, call histories",
     "The Python tests need a network download and the full binding build; they use two robots and fixed shapes and are not part of the stable suite.",
     [WR, PY, KIN], [("solve_forward_kinematics", WR), ("solve_fk", PY)],
     tech="property-based testing against a numpy reference model: " + HYP,
     note="The real wrapper.cpp is compiled against a small stand-in for pybind11 (not installed here); conversions of the real pybind11 are therefore trusted.")

prop("C22", "Python batch centre of mass accounts for base and external forces",
     "For every batch of configurations, joint list and base type, each returned row is the centre of mass in that configuration, and with external vertical forces it is the mean of the centre of mass and the action points weighted by robot mass and force; the Jacobian is its derivative with n, n+3 or n+6 columns for fixed, planar and floating base. Rows are independent of each other and of earlier calls.",
     ["inputs", "histories"], "all robots with mass, batches, action links and forces (positive total), base types, call histories",
     "The Python tests compare one robot's Jacobian numerically and never check several rows with a fixed base.",
     [WR, PY, KIN], [("solve_com_forward_kinematics", WR), ("solve_com_fk", PY)],
     tech="property-based testing against a numpy reference model: " + HYP, note="As C21.")

prop("C23", "Squared inter-link distances and their gradients are exact",
     "For every batch of configurations, list of link pairs, joint list and base type, each returned value is the squared distance between the two links' positions in that configuration, ordered by configuration then pair, and each gradient row is its derivative with n, n+3 or n+6 entries. Rows are independent of each other and of earlier calls; swapping a pair changes nothing and a link with itself gives zero.",
     ["inputs", "histories"], "all robots, batches, pairs, joint lists, base types, call histories",
     "One Python test checks one robot's gradient numerically.",
     [WR, PY], [("compute_inter_link_squared_dists", WR), ("compute_inter_link_sqdists", PY)],
     tech="property-based testing against a numpy reference model: " + HYP, note="As C21.")

prop("C24", "Pickled and copied Python models are faithful and independent",
     "After any history of link additions and configuration changes, pickling and restoring a model, repeatedly, across generations and in another process, and copying or deep-copying it, give a model with the same links, ids, configuration, user attributes and answers as the original, whether or not the file it was loaded from is still there. Later changes to the original, to the arrays that were passed in, or to any copy never show in the others, and a refused addition leaves the model picklable.",
     ["histories"], "all histories of set_q, add_new_link (accepted and refused), pickle, copy, deepcopy and mutation of caller arrays, over several generations",
     "One test pickles once after one added link.",
     [PY], [("history replay in __setstate__", PY)],
     tech="stateful property-based testing of copies against a reference state: " + HYP, note="As C21.")

prop("C25", "Python configuration get/set and inertia agree with the model state",
     "For every joint list and base type, setting a configuration vector and reading it back with the same list and base type returns the same vector (base angles as an equivalent rotation, and as the very same angles within the principal ranges away from gimbal lock), joints outside the list keep their values, a fixed-base update keeps the base pose and a planar update puts the base at height zero without roll or pitch. Vectors of the wrong length are refused without changing the model, and the total inertia computed for a configuration is that of the configuration just given, whatever was computed before.",
     ["inputs", "histories"], "all sequences of set/get/inertia/solve calls over all robots, joint lists, base types",
     "Tests check one planar and one floating round trip on one robot.",
     [WR, PY], [("get_q / set_q", PY), ("get_base_pose / set_base_pose", WR), ("compute_total_inertia_matrix", WR)],
     tech="stateful property-based testing against a reference state: " + HYP, note="As C21.")

prop("C26", "First import installs complete sample robot files despite failures",
     "However earlier imports ended (never run, failed to download either file, interrupted in the middle of a file, or files deleted since), an import with working downloads leaves both sample robot descriptions complete at the advertised paths, and never leaves a truncated file under an advertised name. When both files are present, nothing is downloaded and the files are untouched.",
     ["fault_sequences", "crash_points"], "all sequences of imports with injected download failures, interruptions after any number of bytes, deletions",
     "Tests need the network to succeed the first time.",
     [PY], [("download on import", PY)],
     tech="property-based fault injection: generated fault sequences over imports with a stand-in downloader: Hypothesis",
     note="The downloader is replaced by a stand-in which writes part of the file and fails or kills the process; everything stays in a scratch home directory.")

prop("C27", "Python names, ids, limits and mass mirror the loaded description",
     "Through the Python interface, joint names, link ids, joint ids, root link name and total mass are those of the loaded description, joint limits are the declared pairs and (None, None) exactly for unlimited joints, unknown names raise, and a model can be created from a file path or from text with identical results. Ids keep their meaning after links are added.",
     ["inputs"], "all robots, name lists, both construction forms",
     "Tests check one robot.",
     [WR, PY], [("thin wrappers", PY), ("bindings", WR)],
     tech="property-based testing against the generated description: " + HYP, note="As C21.")

prop("C28", "Loading from a file equals loading from its text",
     "For every description stored in a file, under any path and with any line endings or final newline, the file loaders give the same robot as loading the text directly. A missing or unreadable file, a directory or an empty file ends in an error report and never in a crash or a half-built model.",
     ["inputs"], "all descriptions, file layouts (line endings, trailing newline, long lines), kinds of missing file",
     "Tests load three existing files and check nothing else.",
     [TFK, UP + "model.cpp"], [("load_urdf", TFK), ("parseURDFFile", UP + "model.cpp")],
     tech="differential property-based testing (file against text): " + PBT, note="Files live in a scratch directory.")

prop("C29", "Numbers are read and written independently of the locale",
     "Whatever C++ global locale the process has set (any decimal point, any digit grouping), parsing a description gives the same numbers and exporting a model gives the same text as in the default locale.",
     ["configurations", "inputs"], "all number punctuations of the global C++ locale x all descriptions",
     "Tests run in the default locale only.",
     [UI + "utils.h", UP + "pose.cpp", UI + "color.h"], [("number parsing with the classic locale", UI + "utils.h"), ("number formatting", UP + "pose.cpp")],
     tech="differential property-based testing across generated locales: " + PBT,
     note="Locales are synthesised facets; no other C library locale is installed here.")

prop("C30", "Moving one joint moves exactly its subtree, rigidly and additively",
     "Changing a single joint's value moves exactly the links below that joint: all other links keep their pose, the moved links keep their poses relative to one another, and the relative motion is a rotation about (or translation along) the joint's axis through its origin by the change in value. Motions of one joint add up, a zero value is no motion, negated values are inverse motions, full turns of a revolute joint change nothing, and the joint's own angle-derivative of its quaternion is consistent with its motion.",
     ["inputs", "configurations"], "all robots, joints, value pairs, configurations of the other joints",
     "Tests never vary one joint alone.",
     [UI + "joint.h", KIN, TFK], [("joint motion", UI + "joint.h"), ("chain walk", KIN)],
     tech="metamorphic property-based testing (no reference model for the poses): " + PBT,
     note="Purely relational oracle, independent of the reference model used elsewhere; tolerance 1e-9 relative.")

prop("C31", "Models on different threads do not disturb one another",
     "Models and XML documents may be used from several threads at the same time as long as each is used by one thread: whatever the schedule, loading, refused loading, updates, queries, added links, copies, export, destruction, parsing, editing and printing on one thread give bit for bit the answers they give when the thread runs alone, and no memory is written by one thread while another uses it.",
     ["schedules", "histories"], "all schedules of all programs of 2 to 4 threads",
     "Tests are single-threaded.",
     [TFK, KIN, HPP, UP + "model.cpp", UP + "link.cpp", UP + "joint.cpp", UP + "pose.cpp", TX + "tinyxml.cpp", TX + "tinyxmlparser.cpp", TX + "tinystr.h"], [("all state is per model", HPP), ("statics of the XML layer", TX + "tinyxml.h")],
     tech="property-based testing of concurrent programs (happens-before race monitor and a differential oracle against the same programs run alone): seeded random generation with shrinking (own C++ engine, TSan)",
     note="Race detection by ThreadSanitizer is independent of the interleaving seen; interference without a data race needs the schedule to occur, for which operations are repeated in bursts.")

prop("C32", "A description is accepted exactly when its joints form one tree of its links",
     "Of descriptions whose links and joints are well-formed in themselves, exactly those are accepted in which link names and joint names are unique, every joint names declared links, no link is the child of two joints, and all links are reached from a single root, whatever the order in the text; the kinematic model moreover needs supported joint types. The parsed model then is this tree from every side: name, root, look-up by name, list of links, parent and child pointers of links and joints agree with the text and with one another, unknown names give nothing, a cleared model is empty, and links kept by the user outlive the model.",
     ["inputs"], "all directed multigraphs of links and joints, in any textual order",
     "Tests parse three valid robots and look up few names.",
     [UP + "model.cpp", UI + "model.h", UI + "link.h", TFK], [("tree construction", UI + "model.h"), ("uniqueness checks", UP + "model.cpp"), ("joint types", TFK)],
     tech="property-based testing of random graphs against an independent tree judge: " + PBT,
     note="Graphs of up to 90 links, mostly 1 to 6, so that small graphs are covered densely.")

prop("C33", "A number in a description is read as exactly the number written",
     "Every decimal number (optional sign, digits with optional point, optional exponent) within the range of double is accepted in any numeric attribute of a joint, in a vector, and in the numeric attributes of links and materials, and read as the double nearest to it, bit for bit (colours: nearest float of that). In joint attributes and vectors everything else is refused: foreign spellings (hexadecimal, nan, inf, units, separators, other scripts), numbers beyond the range of double, and vectors without exactly three numbers separated by blanks.",
     ["inputs"], "all texts in the place of a number",
     "Tests never look at how numbers are written.",
     [UI + "utils.h", UI + "pose.h", UI + "color.h", UP + "joint.cpp", UP + "link.cpp", UP + "pose.cpp"], [("strToDouble", UI + "utils.h"), ("vectors", UI + "pose.h"), ("colours", UI + "color.h")],
     tech="property-based testing over a number grammar and its near-misses against an independent acceptor and strtod: " + PBT,
     note="Malformed numbers inside <link> are outside the claim (dropped by the parser, see DESIGN section 3).")

prop("C34", "Nothing is left behind: memory and files in use do not keep growing",
     "Loading, refused loading, copying, extending, using and releasing models, parsing, editing (also with refused edits), copying, streaming, saving and releasing documents, parsing, exporting, clearing and partly keeping descriptions, and reading files give back all memory and all open files: carrying out the same history again and again does not make them grow. A parsed description that is cleared, or that nothing holds any more, releases every link, joint and material at once. Nor does a single model grow however long it is updated and queried.",
     ["histories"], "all histories of operations, repeated arbitrarily often",
     "Tests run once and do not look at memory.",
     [HPP, TFK, KIN, UI + "link.h", UI + "model.h", UP + "model.cpp", TX + "tinyxml.cpp", TX + "tinyxmlparser.cpp"], [("ownership of links (weak parents)", UI + "link.h"), ("ownership of nodes", TX + "tinyxml.cpp"), ("caches", HPP)],
     tech="property-based testing of repeated histories against a resource-balance oracle (allocator statistics, open descriptors): " + PBT,
     note="A violation is growth over every one of four or five successive doublings of the number of repetitions, so caches that fill up are no alarm.")

prop("C35", "XML files are loaded and saved faithfully, or the failure is reported",
     "Loading an XML file by name, through the document's own name or an open file gives exactly what parsing its text (line ends CR LF and CR read as LF) gives, node for node, position for position and error for error, whatever the document held before; an empty file leaves nothing behind; saving by name or to an open file writes the same text, with the byte-order mark if one was read and only then; it loads again as the same document (blanks within text aside), and the document is left unchanged. A file that cannot be loaded (missing, empty, a folder, no file) or a place that cannot be written (missing folder, full disk) is reported by the result, without an exception, and does not spoil the document for the next file.",
     ["inputs", "fault_sequences"], "all file contents, ways to open them, earlier contents of the document and unusable places",
     "No test touches the XML layer directly.",
     [TX + "tinyxml.cpp", TX + "tinyxmlparser.cpp"], [("LoadFile / SaveFile", TX + "tinyxml.cpp"), ("Parse", TX + "tinyxmlparser.cpp")],
     tech="differential property-based testing (file against text) with injected file faults: " + PBT,
     note="The printed form itself is decided by C20, the URDF file entry points by C28.")

prop("C36", "Malformed content inside a link or material does no harm elsewhere",
     "When an inertial, visual, collision or material of an otherwise valid description is malformed (bad or missing numbers, attributes, shapes, names or colours), loading neither crashes nor throws from the parser: the description is refused as a whole, or everything outside the malformed parts is understood exactly as without the damage: the tree, joints, limits, names and ids, all other links and materials, hence all link poses and Jacobians. In a damaged link a well-formed inertial keeps its exact values, a malformed one counts with its written mass or none, and the visuals and collisions that are kept are written ones, in order; total mass and centre of mass are those of the inertials as understood, and the next description is read as if nothing had happened.",
     ["inputs"], "all descriptions and all places and kinds of malformed link or material content",
     "No test loads malformed content inside a link.",
     [UP + "link.cpp", UP + "model.cpp", TFK], [("parseLink", UP + "link.cpp"), ("parseURDF", UP + "model.cpp")],
     tech="differential property-based testing (damaged against undamaged description) with injected input faults: " + PBT,
     note="Faults of joints and of the document itself are decided by C13, which demands refusal.")

prop("C37", "Answers depend on the inputs only, not on what memory held before",
     "Parsing a description and asking any history of kinematic questions of it (poses, Jacobians, centres of mass, inertia, limits, names, with configuration changes, run-time links and base motion in between) gives bit for bit the same answers, fields and refusals whatever the allocator's fresh and released memory and the unused stack held before; the same goes for XML documents, nodes and model parts newly made, copied or parsed. No result is read from a field, matrix entry or array element that nothing wrote, nor from an object already released.",
     ["inputs", "histories"], "all descriptions, all histories of questions, all previous contents of memory",
     "Tests run in a fresh process, where unwritten memory is usually zero and released memory still holds the old values.",
     [TFK, UP + "model.cpp"], [("get_jacobian", TFK), ("parseURDF", UP + "model.cpp")],
     tech="metamorphic property-based testing (same generated program under different memory fill patterns, compared bit for bit): " + PBT,
     note="Built without sanitizers so that the fill patterns reach the code; compares runs within one process.")

prop("C38", "Shipped robots and variations of them mean what another XML reader reads",
     "The robot descriptions that come with the repository, and any variation of them (subtrees cut off or grafted on, joints retyped, moved, re-aimed or renamed, limits, masses and inertial frames changed or dropped, elements reordered or decorated), load from text or file as the robot an independent reader of the same text sees: same links, moving joints, root, limits and mass. Every later pose, Jacobian, centre of mass, inertia and distance, through any history of configuration changes and added links, is that robot's.",
     ["inputs", "histories", "configurations"], "all edits of real robot descriptions, all configurations, joint selections and call histories",
     "Tests compare recorded poses of one configuration of one shipped robot; variations and the other robots are untested.",
     [TFK, KIN, UP + "model.cpp", "data"], [("KinematicModel", WR), ("parseURDF", UP + "model.cpp")],
     tech="differential property-based testing (Hypothesis): edited real descriptions, read by ElementTree and computed in NumPy: " + PBT,
     note="The wrapper is compiled against a small stand-in for pybind11; structural edits are drawn from seeds in the case.")

prop("C39", "The work done stays in proportion to the input",
     "Reading, writing and discarding XML, a description or a model, asking for poses (in any order), a Jacobian, the centre of mass or the inertia, updates and look-ups of names, ids and limits all take work at most proportional to the size of the text or robot; adding a link, the Jacobian of the centre of mass and deeply nested or many-attributed XML at most its square, making a model at most its square without inertials and its cube with them. A pose asked for again with no update in between is answered from the cache: at a cost that does not depend on the depth of the link, and no more than half the cost of the first answer.",
     ["inputs", "histories"], "all sizes and shapes of robots and XML texts, all orders of queries",
     "Tests use small inputs, on which any growth is invisible, and compare values, which a lost cache does not change.",
     [KIN, TFK, HPP, UP + "model.cpp", TX + "tinyxml.cpp", TX + "tinyxmlparser.cpp"], [("get_link_pose", KIN), ("SizedCache", HPP), ("Parse", TX + "tinyxmlparser.cpp")],
     tech="metamorphic property-based testing (same operation at one size and at four times the size) with exact work counts from instrumented code: " + PBT,
     note="Work is counted in executed code blocks and bytes handled by the C library, never in time, so a count is reproducible; sizes reach 640 links and 2 400 repetitions, and growth that only starts beyond them is not seen.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, tech, note in P:
        i = p["id"]
        if i in CH:
            checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                           "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed. Replay a counterexample with: python3 run.py <ID> replay <file>."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
    print(len(P), "properties,", len(checks), "checks")
