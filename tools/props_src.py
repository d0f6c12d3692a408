#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this file to regenerate it)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

KIN, TFK, HPP, DS = 'src/kinematics.cpp', 'src/tinyfk.cpp', 'include/tinyfk.hpp', 'include/data_structure.hpp'
POSE, POSEH, JH, LH, MH = ('urdf_parser/src/pose.cpp', 'urdf_parser/include/urdf_model/pose.h',
    'urdf_parser/include/urdf_model/joint.h', 'urdf_parser/include/urdf_model/link.h', 'urdf_parser/include/urdf_model/model.h')
PJ, PL, PM, UT = ('urdf_parser/src/joint.cpp', 'urdf_parser/src/link.cpp', 'urdf_parser/src/model.cpp',
    'urdf_parser/include/urdf_model/utils.h')
WR, PY = 'src/wrapper.cpp', 'python/tinyfk/__init__.py'
TX, TXP, TXH = 'urdf_parser/tinyxml/tinyxml.cpp', 'urdf_parser/tinyxml/tinyxmlparser.cpp', 'urdf_parser/tinyxml/tinyxml.h'

# ----------------------------------------------------------------- kinematics
prop('K01', 'A link pose is the base pose composed with its chain of joints',
 "The pose reported for any link equals the base pose followed, from the root down to that link, by each joint's fixed origin transform and then that joint's motion at its current angle (fixed joints contribute only their origin); the root link's pose is the base pose. The result is the same whichever poses were queried before.",
 ['inputs', 'histories'], 'every robot tree, link, joint angle assignment, base pose and sequence of earlier queries',
 'The tests compare a few dozen links of one robot (PR2) at one configuration; other trees, bases and query orders are never run.',
 [KIN, HPP, DS, POSE], [('chain walk and composition', KIN + ': get_link_pose, get_link_pose_inner'), ('transform composition', POSE + ': pose_transform')],
 [('transform_cache_', 'poses already computed for the current configuration', HPP), ('transform_stack_', 'joint transforms between the link and the nearest known ancestor', HPP)],
 ['KinematicModel::get_link_pose'])
prop('K02', 'Rigid transform algebra',
 "For all unit rotations and all poses: composing rotations is the quaternion product in that order, rotating a vector is q v q*, composing poses A and B gives rotation A.R*B.R and position A.R*B.p + A.p, the inverse of a pose composed with the pose on either side is the identity, and vector sum, difference, scaling and the right-handed cross product are the usual ones.",
 ['inputs'], 'every pair of poses, unit rotations and vectors',
 'Only compositions that occur along PR2/Kuka chains are run; inverse, division and operators are never asserted by themselves.',
 [POSEH, POSE], [('Rotation/Vector3/Pose operators', POSEH), ('pose_transform, cross_product', POSE)], (), ['urdf::Rotation, urdf::Vector3, urdf::Pose, urdf::pose_transform'])
prop('K03', 'Roll-pitch-yaw and quaternion conversions agree',
 "Setting a rotation from roll, pitch, yaw gives the unit quaternion of Rz(yaw)*Ry(pitch)*Rx(roll); reading roll, pitch, yaw back gives angles describing that same rotation, exactly for every rotation whose sine of pitch lies within +-0.9999 and for every rotation with pitch exactly +-90 degrees (in between the singular form may be used), and both ways of reading them agree. Setting from a quaternion normalises it, and a zero quaternion becomes the identity.",
 ['inputs'], 'every roll, pitch, yaw and every quaternion, including the gimbal-lock region',
 'Tests read angles of a few ordinary poses; the gimbal branches and the zero quaternion are never executed.',
 [POSEH], [('setFromRPY, getRPY, normalize, setFromQuaternion', POSEH)], (), ['urdf::Rotation'])
prop('K04', 'Joint motion matches the joint type',
 "The motion of a revolute or continuous joint at angle a is the pure rotation by a about its axis, that of a prismatic joint the pure translation by a along its axis, that of a fixed joint the identity; asking for the motion of any other joint type raises an error.",
 ['inputs'], 'every joint type, axis and angle',
 'The tests use the joints of two robots at one configuration; unsupported types are never asked.',
 [JH], [('Joint::transform', JH)], (), ['urdf::Joint::transform'])
prop('K05', 'No stale pose after a configuration change',
 "After any public call that changes the configuration (setting one or several joint angles, setting the base pose, resetting to the initial angles, adding a link, clearing the cache), every later pose, Jacobian, center of mass or inertia query answers for the new configuration, never from poses cached under an older one. Only the two setters whose documented purpose is not to clear the cache are exempt.",
 ['histories'], 'every interleaving of configuration changes and queries',
 'Tests clear or rebuild between configurations; a setter that forgets one invalidation is visible only for a particular call order.',
 [HPP, TFK, KIN, DS], [('cache invalidation in every mutator', TFK + ': set_joint_angles, set_init_angles, add_new_link, clear_cache; ' + HPP + ': set_joint_angle, set_base_pose')],
 [('transform_cache_', 'pose per link id, valid for the current joint angles and base pose', HPP)], ['KinematicModel public methods'])
prop('K06', 'The pose cache and the transform stack are faithful containers',
 "The cache answers for an index exactly the value last stored under that index since the last clear or extension, and nothing if none was; extending it adds one index, and after extending or clearing every index is empty. The stack is last-in first-out, is empty after a reset, and its size is pushes minus pops.",
 ['histories', 'inputs'], 'every sequence of cache and stack operations and every capacity',
 'The data-structure test walks one short script on one element type.',
 [DS], [('SizedCache', DS), ('SizedStack', DS)], [('cache_predicate_vector_', 'which indices hold a value', DS), ('current_idx_', 'number of stacked elements', DS)], ['tinyfk::SizedCache, tinyfk::SizedStack'])
prop('K07', 'Queries leave the configuration and the model unchanged',
 "Asking for poses, Jacobians, center of mass, inertia, limits, names, ids or angles never changes the joint angles, the base pose, the set of links and joints, their ids and parents, their inertial data, the relevance relation or the masses.",
 ['histories', 'inputs'], 'every query on every model, in every order',
 'Tests look at return values, not at what a query may have modified on the side (shared link and inertial objects make this easy).',
 [KIN, TFK, HPP, WR], [('query methods write only to locals and to the pose cache/stack', KIN)], [('joint_angles_, base_pose_, links_, rptable_', 'the configuration', HPP)], ['KinematicModel query methods'])
prop('K08', 'Jacobian columns of the joints are exact derivatives',
 "For every requested joint that moves the link, the Jacobian column is the derivative of the link pose with respect to that joint: position rows are axis x (link - joint origin) for revolute or continuous joints and the axis for prismatic ones, all in the root frame; rotation rows are the derivative of roll-pitch-yaw or of the xyzw quaternion, and zero for prismatic joints. Columns of joints that do not move the link are zero, and column i belongs to the i-th requested joint.",
 ['inputs'], 'every tree, link, joint list and order, configuration and rotation type',
 'Tests differentiate numerically for one robot at one configuration with a tolerance; prismatic joints outside PR2, other orders and other links are not sampled.',
 [KIN], [('get_jacobian, rpy_derivative, q_derivative', KIN)], (), ['KinematicModel::get_jacobian'])
prop('K09', 'Jacobian shape and base columns',
 "The Jacobian has 3 rows for position only, 6 with roll-pitch-yaw, 7 with quaternions, and one column per requested joint, plus 6 when the base is included; every entry is defined and writing one never leaves the matrix. The three base translation columns are the identity on position rows and zero on rotation rows; the three base rotation columns difference the link pose, with the link rigidly attached to the base, for a small change of the base's roll, pitch and yaw in that order.",
 ['inputs'], 'every link, joint list, rotation type and base pose',
 'Bounds are unchecked in the release build (Eigen assertions disabled), so an out-of-range write passes tests silently; only one base pose is differentiated.',
 [KIN], [('get_jacobian', KIN)], (), ['KinematicModel::get_jacobian'])
prop('K10', 'A joint is relevant to exactly the links below it',
 "A joint counts as moving a link if and only if the link is the joint's child link or one of its descendants, including links added later at any depth; this relation is right again after every added link.",
 ['inputs', 'histories'], 'every tree and every sequence of added links',
 'The relevance test checks a handful of pairs on PR2.',
 [TFK, HPP], [('update_rptable', TFK), ('RelevancePredicateTable', HPP)], [('rptable_', 'link x joint relevance', HPP)], ['KinematicModel::rptable_, get_jacobian'])
prop('K11', 'Center of mass, its Jacobian and the total mass',
 "The center of mass is the mass-weighted average of the inertial origins of all links of the robot that have inertial data, in the root frame; its Jacobian is the same mass-weighted average of the position Jacobians of those points for the same joints and base flag; the total mass is the sum of the masses of those links. Links without inertial data and links added later by the user contribute nothing.",
 ['inputs', 'histories'], 'every robot, configuration, joint list and base flag',
 'Tests compare one center of mass value of one robot and one numeric Jacobian.',
 [KIN, TFK], [('get_com, get_com_jacobian', KIN), ('COM dummy links in the constructor', TFK)], [('com_dummy_links_', 'one massless link per inertial origin', HPP)], ['KinematicModel::get_com, get_com_jacobian, total_mass_'])
prop('K12', 'Total inertia obeys the parallel axis theorem',
 "The total inertia is the sum over links with inertial data of R*I*R^T + m*(|d|^2*E - d*d^T), where I is the link's symmetric inertia tensor, R the rotation of its inertial frame and d the offset of its inertial origin from the center of mass, all in the root frame.",
 ['inputs'], 'every robot and configuration',
 'One robot at one configuration is compared; symmetric or aligned links hide swapped products and dropped rotations.',
 [KIN, TFK], [('get_total_inertia_matrix', KIN), ('inertial frames of the COM links', TFK)], (), ['KinematicModel::get_total_inertia_matrix'])
prop('K13', 'Names and ids correspond one to one',
 "Link ids and movable-joint ids are 0..n-1, and looking up a name gives the id under which that very link or joint is stored; lookups return one id per requested name in order, the name lists are in id order, and an unknown name raises an error instead of returning an id.",
 ['inputs', 'histories'], 'every robot, every name list, before and after links are added',
 'Tests look up a few existing names; the id/order invariants and failures in the middle of a list are not exercised.',
 [TFK, HPP], [('constructor numbering', TFK), ('get_link_ids, get_joint_ids', TFK), ('get_link_names, get_joint_names', HPP)],
 [('link_ids_, joint_ids_', 'name to id', HPP), ('links_, joints_', 'id to object', HPP)], ['KinematicModel lookups'])
prop('K14', 'Adding a link attaches it rigidly and atomically',
 "Adding a link gives it the next id, registers its name, and fixes it to the given parent link at the given pose (position and roll-pitch-yaw), so that its pose is always the parent's pose composed with that pose. If the name already exists the call raises an error and changes nothing.",
 ['inputs', 'histories'], 'every name, parent, pose and sequence of additions, including chains of added links',
 'Tests add one link to one parent; chains of added links and repeated failures are not run.',
 [TFK], [('add_new_link', TFK)], [('links_, link_ids_, child_links', 'the tree', HPP)], ['KinematicModel::add_new_link'])
prop('K15', 'Joint limits are those of the model',
 "The reported position limits of a joint are its lower and upper limits from the model, and minus and plus infinity for a continuous joint; velocity and effort limits are those of the model, and infinite for a joint that declares none. One entry is returned per requested joint, in the requested order.",
 ['inputs'], 'every joint type, with or without declared limits, every joint list',
 'PR2 limits are compared for one list; joints without limits are not present in the test.',
 [TFK], [('get_joint_position_limits, get_joint_velocity_limits, get_joint_effort_limits', TFK)], (), ['KinematicModel limit queries'])
prop('K16', 'Construction rejects what it cannot model',
 "Constructing a model from an empty text, from a text that does not parse as a robot, or from a robot with a joint that is neither revolute, continuous, prismatic nor fixed raises an error; otherwise every non-fixed joint of the robot becomes a controllable joint with its child link known, fixed joints are not controllable, all angles start at zero and the base at the identity. The links, their parents, the root, the inertial data and the total mass are those of the description, and every link with inertial data gets a frame named '<link>_com' at its inertial origin carrying the same mass and inertia.",
 ['inputs'], 'every input text and robot',
 'Tests only construct models from well-formed robots with supported joints.',
 [TFK], [('KinematicModel constructor', TFK)], (), ['KinematicModel::KinematicModel'])
prop('K17', 'Joint angles and base pose read back as they were set',
 "After setting angles for a list of joints, each of those joints has the given angle, all others keep theirs, and reading angles returns one value per requested joint in order; setting the base pose stores exactly that pose; resetting puts every angle to zero. A list of angles shorter than the list of joints is rejected and changes nothing.",
 ['inputs', 'histories'], 'every list, order, repetition and sequence of set calls',
 'Tests set all joints at once and rarely read back.',
 [TFK, HPP], [('set_joint_angles, set_joint_angle, get_joint_angles, set_init_angles, set_base_pose', TFK)], [('joint_angles_, base_pose_', 'the configuration', HPP)], ['KinematicModel setters and getters'])
prop('K18', 'Model operations stay inside their containers',
 "However many links are added and wherever, building a model, adding links and asking for poses, Jacobians, center of mass, inertia, angles or limits never reads or writes outside a container or matrix and never follows a null pointer: the per-link buffers (cache, transform stack, relevance table) always have room for every link, and angle lists that are too short are refused before anything is read.",
 ['histories', 'inputs'], 'every tree and every sequence of added links',
 'Stack overflow needs a chain of added links deeper than the original robot, and shows only as silent memory corruption.',
 [TFK, DS, HPP], [('capacity maintenance', TFK + ': constructor, add_new_link')], [('transform_stack_ capacity, transform_cache_ size', 'per-link buffers', HPP)], ['KinematicModel::add_new_link then get_link_pose'])

# ----------------------------------------------------------------- URDF parser
prop('U01', 'Malformed joints reject the whole model',
 "A robot description is rejected (no model is returned) if a joint has no name or type, an unknown type, a revolute or prismatic type without a limit element, a limit element without effort or velocity, a safety element without k_velocity, a mimic element without joint, a dynamics element with neither damping nor friction, or any present origin, axis, limit, safety, calibration, mimic or dynamics attribute that is not well formed. Everything else optional may be absent.",
 ['inputs'], 'every robot description',
 'The parser tests load two valid robots; no malformed joint is ever parsed.',
 [PJ, PM], [('parseJoint and its sub-parsers', PJ), ('parseURDF joint loop', PM)], (), ['urdf::parseURDF'])
prop('U02', 'Each joint attribute lands in its own field',
 "After parsing a joint, every field holds the value of the attribute that names it: type, parent, child, origin, axis, limit lower/upper/effort/velocity, safety soft limits and gains, calibration rising/falling, mimic joint/multiplier/offset, dynamics damping/friction. Absent optional ones take the documented default (zero; multiplier 1; axis (1,0,0) when the axis element or its xyz is absent; identity origin; calibration edges unset).",
 ['inputs'], 'every joint element',
 'Swapped or forgotten attributes show only for joints that carry them with distinct values; most of these fields are never read by a test.',
 [PJ], [('parseJoint and its sub-parsers', PJ)], (), ['urdf::Joint fields'])
prop('U03', 'Each link attribute lands in its own field',
 "After parsing a link, its inertial mass, origin and the six inertia components, its visual and collision elements in document order with name, origin, geometry (sphere, box, cylinder, mesh with all their dimensions) and material hold the values of the attributes that name them; absent optional ones take the documented defaults. The first visual and collision are also available as the link's visual and collision.",
 ['inputs'], 'every link element',
 'Only masses and a few counts are read by tests.',
 [PL], [('parseLink and its sub-parsers', PL)], (), ['urdf::Link fields'])
prop('U04', 'Malformed link content is detected',
 "Parsing a link reports failure when it has no name, when an inertial element lacks mass or any of the six inertia components or has one that is not a number, when a visual or collision has no valid geometry or a malformed origin, and when a sphere, box, cylinder or mesh lacks a required dimension or has a malformed one, and when a visual's material has no name; and it reports success otherwise.",
 ['inputs'], 'every link element',
 'No malformed link is ever parsed by a test.',
 [PL, PM], [('parseLink and its sub-parsers', PL), ('parseURDF link loop', PM)], (), ['urdf::parseURDF'])
prop('U05', 'Only valid trees are accepted',
 "A description is accepted only if it has a named robot element of a supported version, at least one link, unique link, joint and material names, every joint's parent and child links exist, and the joints form one tree: exactly one link without a parent, no link with two parent joints, and every link reachable from the root.",
 ['inputs'], 'every robot description',
 'Tests parse valid robots only; cycles and double parents make later queries loop forever.',
 [MH, PM], [('initTree, initRoot', MH), ('parseURDF', PM)], (), ['urdf::parseURDF'])
prop('U06', 'Parent and child links mirror the joints',
 "In an accepted model, for every joint the child link's parent link and parent joint are that joint's, the joint is among the parent link's child joints and the child link among its child links, each exactly once, and the root link is the one without a parent.",
 ['inputs'], 'every accepted description',
 'Only a few relations on one robot are looked at.',
 [MH], [('initTree, initRoot', MH)], (), ['urdf::ModelInterface'])
prop('U07', 'Numbers are parsed fully and independently of locale',
 "Every number in a description is read with the classic locale whatever the global locale, and is accepted only if the whole text is one number; vectors have exactly three and colors exactly four components, colors within 0 to 1. Numbers are written with the classic locale and enough digits to be read back unchanged.",
 ['inputs', 'configurations'], 'every attribute text and every process locale',
 'Tests run in one locale with well-formed numbers.',
 [UT, POSEH, 'urdf_parser/include/urdf_model/color.h', POSE, PJ, PL], [('strToDouble', UT), ('Vector3::init', POSEH), ('values2str', POSE)], (), ['urdf::parseURDF, urdf::exportURDF'])
prop('U08', 'Export writes what the parser reads',
 "Every field the parser fills in for links, joints, materials and geometry is written back by the exporter under the same element and attribute name from the same field, on every path, so that parsing an exported model gives an equal one.",
 ['inputs'], 'every parsed model',
 'No test exports a model.',
 [PJ, PL, PM, POSE], [('export functions', PJ + ', ' + PL + ', ' + PM + ', ' + POSE)], (), ['urdf::exportURDF'])
prop('U09', 'Materials resolve to their definition',
 "A visual that names a material gets the robot-level material of that name if one is defined, otherwise its own inline definition, which then becomes available under that name; a visual whose material is defined nowhere keeps none.",
 ['inputs'], 'every description with materials, in every order',
 'Materials are never asserted by a test.',
 [PM, PL], [('assignMaterial', PM), ('parseVisual', PL)], (), ['urdf::parseURDF'])

# ----------------------------------------------------------------- TinyXML
prop('X01', 'XML parsing always terminates and stays inside the text',
 "Parsing any text, however malformed or truncated, ends: every scanning loop consumes input on each turn or stops, and no scan reads past the end of the text or follows a null pointer.",
 ['inputs'], 'every byte sequence handed to the XML parser, in both encodings',
 'Tests parse three well-formed files; truncated multi-byte characters and unterminated constructs are never tried.',
 [TXP, TXH], [('parser loops', TXP), ('GetChar', TXH)], (), ['TiXmlDocument::Parse'])
prop('X02', 'Character escapes written are the ones read',
 "Attribute values and text are written with & < > \" ' as their named entities and control characters as two-digit hexadecimal references, complete hexadecimal references and all other characters unchanged; what is written for text without such references is read back as that text.",
 ['inputs'], 'every attribute value and text',
 'Robot files in tests contain no escapes.',
 [TX, TXP, TXH], [('entity table, EncodeString, GetEntity', TX + ', ' + TXP)], (), ['TiXmlBase'])
prop('X03', 'XML nodes have exactly one owner',
 "Every node or attribute handed to a document is either linked into it or destroyed on every path, never both; removing one unlinks it and releases it once.",
 ['inputs', 'histories'], 'every parse, insertion, replacement and removal, including failing ones',
 'Leaks and double releases on error paths do not fail a functional test.',
 [TX, TXP], [('LinkEndChild, InsertEndChild, RemoveChild, Parse functions, attribute set', TX + ', ' + TXP)], (), ['TiXmlNode, TiXmlAttributeSet'])
prop('X04', 'Element and attribute lookup is by exact name in document order',
 "Looking up the first child or next sibling element by name, or an attribute by name, returns the first in document order with exactly that name and nothing if there is none.",
 ['inputs'], 'every document',
 'Lookups in tests always succeed on well-formed robots.',
 [TX], [('FirstChild, NextSibling, FirstChildElement, NextSiblingElement, Find', TX)], (), ['TiXmlNode, TiXmlElement'])

# ----------------------------------------------------------------- wrapper / Python
prop('W01', 'Batch forward kinematics answers each row afresh',
 "Row i of a batch query is answered for the angles and base pose given in row i (the last six numbers are the base when it is included, the first ones go to the joints in the given order), never for values left over from earlier rows or calls, unless the caller asked to use the cache.",
 ['inputs', 'histories'], 'every batch, joint list, base flag and earlier call, for forward kinematics, center of mass, inertia and distance queries',
 'The binding is not built by the core tests at all.',
 [WR], [('solve_forward_kinematics, solve_com_forward_kinematics, compute_total_inertia_matrix, compute_inter_link_squared_dists', WR)], (), ['Python RobotModel'])
prop('W02', 'Batch results are laid out row-major by configuration then link',
 "Pose k = i*n_link + j of a batch answer is link j at configuration i with 3, 6 or 7 numbers by rotation type, and the Jacobian of that pose occupies the corresponding block of rows; without Jacobians requested that block is zero.",
 ['inputs'], 'every number of configurations and links and every rotation type',
 'The binding is not built by the core tests.',
 [WR], [('solve_forward_kinematics', WR)], (), ['Python RobotModel.solve_forward_kinematics'])
prop('W03', 'Center of mass with contact forces',
 "The batch center of mass with external vertical forces is (com + sum f_k/M p_k) / (1 + sum f_k/M) with p_k the position of the k-th action link and M the total mass, and its Jacobian the same combination of Jacobians; without forces it is the plain center of mass.",
 ['inputs'], 'every batch, list of action links and forces',
 'The binding is not built by the core tests.',
 [WR], [('solve_com_forward_kinematics', WR)], (), ['Python RobotModel.solve_com_forward_kinematics'])
prop('W04', 'Inter-link squared distances and gradients',
 "Entry i*n_pair + j is the squared distance between the origins of the j-th pair of links at configuration i, and its gradient row is twice the difference vector times the difference of the two position Jacobians.",
 ['inputs'], 'every batch and list of link pairs',
 'The binding is not built by the core tests.',
 [WR], [('compute_inter_link_squared_dists', WR)], (), ['Python RobotModel.compute_inter_link_squared_dists'])
prop('W05', 'Dimension mismatches are rejected at the binding',
 "A batch row, angle list, force list or link-pair list whose length does not match the joints, base flag or partner list raises an error instead of reading out of range.",
 ['inputs'], 'every combination of lengths, including empty ones',
 'The binding is not built by the core tests; out-of-range reads are silent in release builds.',
 [WR, TFK], [('length checks in the batch entry points', WR)], (), ['Python RobotModel'])
prop('Y01', 'The Python layer calls the binding consistently',
 "Every binding method the Python layer uses exists and is called with the number and order of arguments the binding declares, and every Python query passes its arguments through to the parameter of the same meaning.",
 ['programs'], 'every call site of the Python layer',
 'Python tests need the compiled extension and are not part of the core tests.',
 [PY, WR], [('KinematicModel', PY), ('PYBIND11_MODULE', WR)], (), ['tinyfk.KinematicModel'])
prop('Y02', 'Planar base means x, y and yaw everywhere',
 "With a planar base, every query and setter takes x, y, yaw after the joint angles, uses zero for z, roll and pitch, and returns Jacobian columns for the joints followed by base x, y and yaw only.",
 ['inputs'], 'every query with a planar base',
 'Python tests need the compiled extension.',
 [PY], [('_modify_input_with_3dof_base, column extraction', PY)], (), ['tinyfk.KinematicModel'])
prop('Y03', 'Pickling preserves added links and configuration',
 "A model restored from a pickle has the same added links and last set configuration as the original, also when it is pickled again after restoring, and operations that failed on the original are not replayed.",
 ['histories'], 'every sequence of additions, settings and pickling rounds',
 'Python tests pickle once.',
 [PY], [('__getstate__, __setstate__, histories', PY)], (), ['tinyfk.KinematicModel'])

# ----------------------------------------------------------------- whole library
prop('S01', 'Models and documents share no state',
 "Separately constructed models and separately parsed documents are independent: apart from the XML white space setting, which only its own setter stores, no function of the library stores anything in variables that outlive the call (globals, static members, static locals) or in settings of the whole process, so what is done to one model or document never changes what another one answers, and no answer depends on which model or document was used first.",
 ['histories', 'inputs'], 'every two models or documents and every sequence of calls on them, for every function of the library, the parser and the binding',
 'Tests use one model per process, so a value kept from the first model is never asked of a second one.',
 [KIN, TFK, HPP, PJ, PL, PM, POSE, UT, TX, TXP, TXH, WR], [('no writes to static storage', 'all functions')], (), ['tinyfk::KinematicModel, urdf::parseURDF, urdf::exportURDF'])

# ----------------------------------------------------------------- outside the family
prop('N01', 'Base rotation columns are accurate to a tolerance',
 "The base rotation columns of the Jacobian differ from the analytic derivative by at most a small bound, and rounding never accumulates beyond a small bound along long chains.",
 ['inputs'], 'every pose and chain length',
 'A numeric error bound over all inputs cannot be sampled.',
 [KIN], [('finite differences in get_jacobian', KIN)], (), ['KinematicModel::get_jacobian'])
prop('N02', 'Query cost is linear in the depth of the link',
 "With the cache on, the cost of a batch of pose queries is linear in the number of links, and a single query linear in the depth.",
 ['inputs', 'histories'], 'every tree',
 'Time is not asserted by tests.',
 [KIN], [('pose cache', KIN)], (), ['KinematicModel::get_link_pose'])
prop('N03', 'Concurrent queries on one model are safe',
 "Several threads may query one model at the same time.",
 ['schedules'], 'every interleaving of query calls',
 'Tests are single threaded.',
 [KIN, HPP], [('mutable cache and stack', HPP)], (), ['KinematicModel const methods'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
