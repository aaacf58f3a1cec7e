# The properties.  P(id, title, statement, over, text, why, files, mechanism, observe, note)
LEVEL = ("Bounded symbolic verification: each requirement is shown for every real input within the "
         "bounds listed per harness in the evidence file (coverage.harnesses[].bounds), on every "
         "feasible branch; floats are treated as reals.")

P("P01", "Displacement algebra is exact",
  "The elementary displacement constructors build the right-handed rotation and translation they "
  "name, and for every displacement H the inverse, the action on points, on vectors and on twists "
  "agree with H: composing with the inverse gives the identity, points rotate and translate, "
  "vectors only rotate, and transforming a twist conjugates its matrix form. Matrices whose rotation "
  "part has not determinant one (scaled, reflected) or whose last row is wrong are refused.",
  "inputs", "every angle and translation, every rigid displacement, every twist",
  "tests compare a few displacements; sign or transposition slips that vanish for axis-aligned or "
  "pure-translation examples need all rotations",
  "homogeneousmatrix.py", [("constructors, inv, pdot, vdot, adjoint, iadjoint, ishomogeneousmatrix",
                            "homogeneousmatrix.py")], ["homogeneousmatrix functions"],
  "Arbitrary rotations are 9 symbols with the relations of SO(3).")

P("P02", "Orientation extraction inverts orientation construction",
  "The roll-pitch-yaw angles read from a rotation rebuild that very rotation, with a pitch within "
  "plus or minus 90 degrees, for every rotation including the singular ones. A frame aligned on a "
  "unit direction is a right-handed orthonormal frame whose z axis is that direction, and a "
  "direction that is not of unit length is refused.",
  "inputs", "every rotation, gimbal-locked ones included; every unit vector",
  "singular orientations and directions near an axis form measure-zero sets that sampled tests miss",
  "homogeneousmatrix.py", [("rotzyx_angles", "homogeneousmatrix.py"), ("zaligned", "homogeneousmatrix.py")],
  ["rotzyx_angles", "zaligned"])

P("P03", "The twist exponential is the flow of the twist",
  "The exponential of a twist is the displacement reached after unit time by a body moving with that "
  "constant body twist: it is a rigid displacement, solves the motion's differential equation, "
  "composes over time, and is a pure translation when there is no rotation. This holds from very "
  "slow rotations to several turns.",
  "inputs", "every twist, all rotation rates including vanishing ones",
  "tests sample a couple of twists; branch switches on small rates and the coupling term need all of them",
  "twistvector.py", [("exp", "twistvector.py")], ["twistvector.exp", "free joint integration"])

P("P04", "Derived quantities of a rigid motion are mutually consistent",
  "For any rigid motion given by a pose and a twist, the inverse pose, the adjoint and its inverse, "
  "the time derivatives of both adjoints and the inverse twist are the inverse, derivatives and "
  "reverse motion of that same motion. Adjoint matrices are recognized as such, and matrices whose "
  "blocks do not match or whose rotation part has not determinant one are not.",
  "inputs", "every pose, twist and its rate",
  "tests exercise them through joints whose twist and pose commute, where the errors cancel",
  "rigidmotion.py adjointmatrix.py", [("RigidMotion", "rigidmotion.py"), ("adjoint matrix checks", "adjointmatrix.py")],
  ["RigidMotion properties"])

P("P05", "Joint kinematics are self-consistent",
  "For every joint type, at every position and velocity, the joint's pose is the motion its name "
  "describes, its twist is the velocity of that pose, the twist is its jacobian times its velocity, "
  "and its jacobian derivative is the time derivative of that jacobian. Inverse poses and twists "
  "describe the reverse motion.",
  "inputs", "every joint class in the module, every joint position and velocity",
  "tests compare one position per class; a wrong sign in one entry shows only at generic positions",
  "joints.py", [("joint classes", "joints.py")], ["pose", "twist", "jacobian", "djacobian"])

P("P06", "Joint integration moves along the new velocity",
  "Integrating a joint over a step adopts the given velocity and moves the joint by exactly that "
  "velocity times the step: vector joints add it to their position, a free joint composes its pose "
  "with the corresponding displacement and keeps it a rigid displacement. The arrays the caller "
  "supplied are not modified.",
  "inputs histories", "every joint class, position, velocity, time step; two successive steps",
  "tests integrate from rest positions; order of composition and aliasing of caller arrays are not covered",
  "core.py joints.py", [("LinearConfigurationSpaceJoint.integrate", "core.py"), ("FreeJoint.integrate", "joints.py")],
  ["gpos", "gvel", "pose"])

P("P07", "Absolute kinematics of the tree are those of the composed motions",
  "After a kinematic update, every body's pose, velocity, jacobian and jacobian derivative are "
  "those obtained by composing the motions of all joints and frames between the ground and that "
  "body, whatever the tree's branching, frame offsets and joint sizes. The velocity equals the "
  "jacobian times the generalized velocities.",
  "inputs configurations", "arbitrary joint poses, twists and jacobians; offset frames on both sides; chains and branches; an inductive step for one body from its parent",
  "tests use two fixed mechanisms; errors in offset transport or column placement cancel there",
  "core.py", [("Body.update_dynamic", "core.py"), ("Body.update_geometric", "core.py"), ("World.update_dynamic", "core.py")],
  ["Body.pose", "Body.twist", "Body.jacobian", "Body.djacobian"],
  "One-level inductive step with arbitrary joints, plus chains of concrete joint types.")

P("P08", "Frames follow their body rigidly",
  "The pose, velocity, jacobian and jacobian derivative of a frame attached to a body are those of "
  "the body transported by the frame's constant offset, including for a movable frame after its "
  "offset has been changed. A frame keeps its own copy of the offset it is given, never exposes it "
  "for modification, and refuses offsets that are not rigid displacements.",
  "inputs histories", "every body state, every offset, sequences of changes",
  "tests read frames at identity offsets or rest",
  "core.py", [("SubFrame, MovingSubFrame", "core.py")], ["frame pose/twist/jacobian/djacobian/bpose"])

P("P09", "Equations of motion are those of Newton and Euler",
  "The generalized mass, viscosity and nonlinear matrices of the world are the sums over the bodies "
  "of their spatial inertia, viscosity and gyroscopic terms projected by their jacobians, so that "
  "they reproduce the Newton-Euler force balance of each body about any body frame. The mass matrix "
  "is symmetric and never negative, and stale contributions never survive an update.",
  "inputs configurations", "every valid spatial inertia with an offset centre of mass, any body velocity, several bodies",
  "tests use inertias expressed at the centre of mass, for which the coupling terms vanish",
  "core.py massmatrix.py", [("Body.update_dynamic nleffects", "core.py"), ("World.update_dynamic", "core.py")],
  ["World.mass", "World.viscosity", "World.nleffects"])

P("P10", "Mass matrices describe real rigid bodies",
  "The inertia built for each shape has the mass, centre and moments of that homogeneous solid, "
  "transporting an inertia preserves mass, centre of mass and central inertia and composes with "
  "displacements, and the principal frame is a right-handed frame at the centre of mass in which the "
  "inertia is diagonal. Recognition accepts exactly the positive (or semi-positive) inertias.",
  "inputs", "every size and mass, every displacement, every valid inertia including equal principal moments",
  "tests look at one box and one displacement; repeated moments and offset centres are not covered",
  "massmatrix.py", [("shape formulas, transport, principalframe, ismassmatrix", "massmatrix.py")],
  ["massmatrix functions"], "Eigen-decompositions are contracts (any orthonormal or skew basis allowed by LAPACK).")

P("P11", "Weight does exactly the work of gravity",
  "The generalized weight force of the world does, for any generalized velocity, the work of a force "
  "m*g applied at each body's centre of mass along the world's up axis, wherever the body frame is "
  "placed and however it is oriented. It adds no impedance and equals the opposite of the gradient "
  "of the potential energy.",
  "inputs configurations", "every mass, centre-of-mass offset, orientation, up direction, velocity; several bodies",
  "tests use bodies with inertia at the body frame and the default up axis",
  "controllers.py", [("WeightController.update", "controllers.py")], ["WeightController.update"])

P("P12", "Proportional-derivative control is implicit and goes to its own joints",
  "Over a step the controller's force equals its gains applied to the position and velocity errors "
  "evaluated at the end of that step, for every gain matrix, target and joint set, and whatever the "
  "position of these joints in the world's ordering. No other degree of freedom receives force or "
  "impedance, and joints without a vector position are refused.",
  "inputs configurations", "every gain, target, position, velocity, step; joints of different sizes, reordered",
  "tests run one controller with equal scalar gains on contiguous joints",
  "controllers.py", [("ProportionalDerivativeController", "controllers.py")], ["update", "one World step"])

P("P13", "A time step solves the discretized equations of motion",
  "After a step with no constraint the new generalized velocity satisfies the implicit discretized "
  "equation of motion with all inertial, viscous, nonlinear and controller terms, every controller "
  "is used exactly once per step, and each joint is integrated with its own part of it. A "
  "non-positive time step is refused.",
  "inputs histories", "every mass, viscosity, nonlinear and controller matrix; 1 to 3 degrees of freedom, two successive steps",
  "tests compare a trajectory with a recorded one; dropped or doubled terms that vanish in it go unseen",
  "core.py", [("World.update_controllers, World.integrate", "core.py")], ["gvel after integrate"])

P("P14", "Constraint forces enter the motion consistently",
  "During constraint solving each active constraint is shown the velocity resulting from all the "
  "forces found so far and its own share of the admittance, and the final velocity is that of the "
  "free motion plus the effect of every constraint force found. Inactive and disabled constraints "
  "have no effect, and sweeps over all active ones go on until the change is below the tolerance or the limit is reached.",
  "inputs histories configurations", "arbitrary jacobians, forces and corrections, 1 to 2 degrees of freedom, constraints of mixed sizes, up to two sweeps",
  "tests have a single constraint converging in one sweep; coupling between constraints is never observed",
  "core.py", [("World.update_constraints", "core.py")], ["World.update_constraints", "World.integrate"])

P("P15", "A ball-and-socket constraint closes its gap",
  "The constraint velocity is the velocity, relative to the first frame, of the point of the second frame's body "
  "at the first frame's origin: that of the two origins when they meet. After a correction, the predicted gap at the end of the step is zero, for every admittance, gap and "
  "velocity. In a full step two frames tied together coincide to first order.",
  "inputs histories", "any two frame motions, any invertible admittance, gap, velocity and time step",
  "the doctest uses a diagonal admittance and one gap",
  "constraints.py", [("BallAndSocketConstraint", "constraints.py")], ["jacobian", "solve", "World step"])

P("P16", "Joint limits are never crossed and only ever push back",
  "For each limited degree of freedom independently, the predicted position stays within its limits, "
  "the limit force is zero strictly inside, and it pushes inwards only at the limit concerned. The "
  "constraint is considered as soon as one of its coordinates is near one of its limits. When the "
  "degrees of freedom of a joint are coupled, a correction takes into account those already made to the "
  "previous degrees of freedom of the joint.",
  "inputs histories", "every position, velocity, limits, admittance; one- to three-dof joints, repeated corrections",
  "tests use a one-dof joint moving to one limit; crossing two limits at once is not covered",
  "constraints.py", [("JointLimits", "constraints.py")], ["solve", "is_active", "World step"])

P("P17", "Contact forces obey unilateral contact and Coulomb friction",
  "A soft-finger contact gives no force when the shapes separate; otherwise it closes the gap, never "
  "pulls, and keeps friction within the elliptic cone. Friction stops all sliding and spinning when "
  "it can, and otherwise lies on the cone and opposes the remaining sliding velocity along it.",
  "inputs histories", "every relative velocity and gap; isotropic, anisotropic and fully coupled admittances, unequal friction axes, zero and non-zero friction, previous force",
  "tests check two runs with a decoupled admittance, for which the coupling terms of the eigenproblem vanish",
  "constraints.py", [("SoftFingerContact.solve", "constraints.py")], ["solve"],
  "The eigenvalue routine is replaced by its contract. Admittances are constant matrices.")

P("P18", "Point contacts track the contact between their shapes",
  "When a point contact is updated, its two frames sit at the contact points the distance routine "
  "reports, both oriented along the contact normal and moving with their bodies; its jacobian gives the "
  "relative velocity of the two bodies at the contact, and the contact is active exactly when the "
  "shapes will come closer than the proximity margin. Shapes may be given in either order.",
  "inputs histories", "every body pose and twist, contact pose and gap, shape class pair; two successive updates",
  "tests look at a sphere on a horizontal plane, where the contact frame is aligned with the ground",
  "constraints.py collisions.py", [("PointContact.update, is_active, jacobian", "constraints.py")],
  ["PointContact.update", "jacobian", "is_active"])

P("P19", "Distance routines report the true gap and contact points",
  "For each supported pair of shapes, the distance returned is the signed gap between the shapes, the two "
  "contact points belong to the surfaces and are apart by exactly that gap along the reported normal, "
  "which points from the first shape to the second. This holds with the centre outside, on an edge or "
  "corner, or inside, and does not depend on the reference frame.",
  "inputs", "every centre position and frame orientation, any radius and half extents, planes of any normal",
  "tests sample a few centre positions in axis-aligned frames, never inside and rotated at once",
  "collisions.py", [("box, plane, sphere and point solvers", "collisions.py")], ["collision solvers"],
  "The frame alignment on a unit vector is replaced by its contract, itself decided in P02.")

P("P20", "Any two collidable shapes meet through the right solver, once",
  "For any two shapes the same solver is chosen in either order, the shapes being handed to it in the order it "
  "expects; unsupported pairs are refused. Building the contacts of a world yields exactly one contact per "
  "supported pair of shapes on different bodies, of the class and with the arguments asked for.",
  "inputs configurations", "every ordered pair of shape classes and subclasses, up to three shapes on two bodies and the ground",
  "tests ask for a single pair in the expected order",
  "collisions.py constraints.py", [("choose_solver", "collisions.py"), ("get_all_contacts", "constraints.py")],
  ["choose_solver", "get_all_contacts"])

P("P21", "The model tree and its degrees of freedom stay consistent",
  "However a tree of bodies is built, every body, joint, frame, shape, constraint and controller is known exactly "
  "once, ancestors and descendants are right, and degrees of freedom are contiguous in joint order with joint "
  "velocities kept. Loops, reused joints and unknown objects are refused without changing the model.",
  "inputs histories configurations", "every tree of up to four bodies (five in thorough), joints of 0 to 6 dof, any sequence of four registrations",
  "tests build two fixed robots; branching order, zero-dof joints and repeated registration are not covered",
  "core.py", [("World.add_link, register, init, iterators", "core.py"), ("JointsList.dof", "core.py")],
  ["World iterators", "joint.dof", "world.gvel"])

P("P22", "Replacing a joint changes nothing but that joint",
  "After a joint is replaced by another one, or by a chain of joints and new bodies, the tree has the same "
  "bodies in the same order with the new links in place, the old joint is free, and degrees of freedom, "
  "matrices, constraints and controllers follow. Wrong replacements are refused and leave the model unchanged.",
  "inputs histories configurations", "any tree of three bodies, any joint, replacement of 0, 1 or 6 dof or a chain, twice",
  "the doctest replaces the root joint of a chain once",
  "core.py", [("World.replace_joint", "core.py")], ["World.replace_joint"])

P("P23", "Named objects are found by their own name",
  "In any list or world, access by name returns the first object bearing exactly that name, listing by name gives "
  "exactly the named objects, and duplicates are refused with an explanation when uniqueness is asked for. "
  "Automatic naming names everything, keeps given names and creates distinct ones.",
  "inputs configurations", "lists of three objects with arbitrary equal or different names, unnamed and foreign objects",
  "tests never have duplicated, missing or foreign entries",
  "core.py", [("NamedObjectsList, name_all_elements", "core.py")], ["NamedObjectsList", "World.name_all_elements"])

P("P24", "Walking a world visits everything once, in hierarchical order",
  "A world walk presents the ground first, then every body, frame, shape and link exactly once, depth first, each "
  "link after its parent body and frame and before its child body, frames after their body and shapes after their "
  "frame, and finally every constraint and controller.",
  "configurations", "every tree of up to three bodies (four in thorough) with additional frames and shapes anywhere",
  "no test observes the order of a walk",
  "core.py", [("World.parse", "core.py")], ["World.parse"])

P("P25", "A simulation follows its timeline",
  "A simulation runs exactly one step between successive instants of the timeline, of that duration, each step "
  "updating dynamics, controllers, constraints and observers in this order before integrating. Observers start "
  "once and finish once whatever container they come in, and the world ends at the last instant. A timeline that "
  "starts at another time than the world's is warned about.",
  "histories configurations", "any three-step timeline with unequal steps, zero to two observers, lists, tuples, dictionaries, restarted worlds",
  "tests use a regular timeline and never look at the times seen by observers",
  "core.py", [("simulate", "core.py")], ["simulate", "Observer callbacks"])

P("P26", "Energy and centre-of-mass observers measure the real motion",
  "The energy observer records the kinetic energy of all bodies, their potential energy at their centres of mass and "
  "the sum, for each step. The centre-of-mass observer gives the mass-weighted position, and jacobians that are "
  "the velocity of that position and its exact time derivative, massless bodies included.",
  "inputs configurations", "any mass, centre of mass and inertia, any pose, twist, jacobian and up direction, massless bodies",
  "tests compare an energy curve of one robot whose frames lie at the centres of mass",
  "observers.py", [("EnergyMonitor, CoMObserver", "observers.py")], ["EnergyMonitor", "CoMObserver"],
  "Principal axes are any rotation (the eigenvector contract of P10). Frames with massless bodies or definite inertia.")

P("P27", "Recorders and loggers keep a faithful history",
  "Every recorder and logger stores, for each step of the timeline, the value the observed quantity had at that step, "
  "unaffected by what happens later, under the announced names and shapes and for any selection of data. The "
  "viewer connection takes a free port and is closed cleanly whether or not a viewer came.",
  "inputs histories configurations fault_sequences", "arbitrary states at each of two steps, every data selection, tree or flat, two consecutive runs, busy ports",
  "the tests only check that a transform-only file has some content",
  "observers.py", [("SaveLogger, PickleLogger, Hdf5Logger, recorders, SocketCom", "observers.py")],
  ["get_record", "data written by finish"],
  "Files, sockets and plotting are stand-ins that record what they are given.")

P("P28", "Drawings and viewer messages show the world as it is",
  "The scene graph has one node per frame whose accumulated transform is the pose of that frame, in tree and flat "
  "layouts alike; shapes, inertias and links hang below their own frame with their dimensions, and exactly the "
  "moving transforms are marked as such. Each viewer message carries the same transforms at the current time.",
  "inputs configurations", "any joint positions and frame offsets, trees of two bodies, moving and still frames, every shape class",
  "the drawing code runs in no passing test",
  "visu/world_drawer.py visu/__init__.py", [("Drawer", "visu/world_drawer.py"), ("pydaenimCom", "visu/__init__.py")],
  ["driver calls", "messages sent"],
  "The collada driver and the viewer package are not installed; stand-ins record the calls.")

P("P29", "Colours are well defined and consistent",
  "Conversion from hue, saturation and value follows the standard definition over the whole range and stays within "
  "bounds. A colour request always gives the same answer: the colour set for the object or its name, else that "
  "of its body; bodies get different colours while the palette lasts.",
  "inputs histories configurations", "every hue in 0..360, saturation and value in 0..1; any order of requests",
  "the doctests cover five hues on sector boundaries",
  "visu/world_drawer.py", [("hsv_to_rgb, ColorGenerator", "visu/world_drawer.py")], ["hsv_to_rgb", "get_color"])

P("P30", "Predefined robots are what their parameters say",
  "Each robot factory builds the robot its parameters describe: arm and snake links have the given length and mass, "
  "mass and inertia sit where the link and its shape are, the end frame is where the joint angles put it; the human "
  "has the requested height and total mass, stands on the ground, each part weighs like a solid lying along its segment, "
  "and exchanging right and left lengths gives the mirror image; equal joint angles of the iCub's limbs give mirrored limbs; names and prefixes keep robots apart.",
  "inputs configurations", "any positive lengths, masses, heights and joint angles; one to four snake links; all option combinations",
  "tests check one default human against stored numbers (and cannot run without the viewer); other robots only appear as fixtures",
  "robots/simplearm.py robots/snake.py robots/simpleshapes.py robots/human36.py robots/icub.py",
  [("add_simplearm", "robots/simplearm.py"), ("add_snake", "robots/snake.py"), ("add_human36", "robots/human36.py"), ("add", "robots/icub.py")],
  ["frame poses", "body masses", "shapes", "ndof"],
  "One open finding: the order of the two lateral gyration radii differs between the human's hands.")

P("P31", "Robots imported from URDF files are what the file describes",
  "Importing a URDF file builds one body per link and one joint per joint element in the tree the file gives, for "
  "every supported joint type. At any joint position each link lies where the origins and axes of the file put it; "
  "its mass, centre of mass and inertia are those of the inertial element; collision and visual shapes have the given "
  "sizes and places; limits become joint limits; omitted elements take their URDF defaults. Prefixes and suffixes apply "
  "to every name consistently. Malformed files are refused, and a parsed robot that is saved and read back is the same.",
  "inputs configurations", "any numbers in the file, any joint positions, all joint types, trees of up to four links, any subset of optional elements",
  "no passing test imports a URDF file",
  "robots/urdf/__init__.py robots/urdf/urdf_parser.py", [("URDFConverter, to_arboris", "robots/urdf/__init__.py"), ("URDF", "robots/urdf/urdf_parser.py")],
  ["frame poses", "body masses", "shapes", "limits", "xml written"],
  "Numbers written in the file are symbolic words read back by float().")

P("P32", "Collada scenes and animations show the world as it is",
  "A written scene has, for every named frame, a node whose accumulated transform is the pose of that frame, in tree and "
  "flat layouts; the matrix of a moving node is what loggers record under that name; shapes, link lines, frame arrows "
  "and inertias hang at their place with their size, scale, options and colour; rigid bodies have the mass, centre of "
  "mass and inertia of their body. An animation gives every recorded transform, rounded, to the node of its name at "
  "the recorded times. Shapes added to a file appear under the named node as placed and scaled. Viewers are started on the scene "
  "that is meant and are sent the current transforms.",
  "inputs configurations", "any joint positions, sizes, masses, scales, matrices and times; trees of two bodies; names distinct across "
  "elements; geometry ids distinct across mesh files",
  "no passing test writes a scene (the collada package is not installed)",
  "visu/dae_writer.py visu/visu_collada.py visu/world_drawer.py visu/__init__.py",
  [("pydaenimColladaDriver, write_collada_animation, add_shapes_to_dae", "visu/dae_writer.py"), ("DaenimColladaDriver, DaenimCom, view", "visu/visu_collada.py"), ("view", "visu/__init__.py")],
  ["scene nodes", "geometries", "animations", "messages", "viewer commands"],
  "A stand-in for the collada package keeps the scene; files are written in a scratch directory only.")

P("P33", "Only the present state matters",
  "What a simulation does depends on its world as it is when it starts, not on how it came to be. After earlier runs, "
  "changes of links, masses, viscosity, gravity, up direction, gains, targets, positions and velocities, initializing the "
  "world again makes every step the same as that of a world built in this state at once; so do the records of observers "
  "used before. Positions and velocities written in place in the joints of an initialized world take effect at the next step. Constraints keep no effect of the past on the motion. Worlds, constraints and observers used in turn do not affect one another.",
  "histories configurations", "any past and present positions, velocities, gains, gravity, masses; one or two past steps, a link added "
  "in the middle of the tree, a constraint disabled in between; two worlds",
  "tests build one world each and run it once",
  "core.py controllers.py constraints.py observers.py", [("World.init, simulate", "core.py"), ("WeightController.init, ProportionalDerivativeController.init", "controllers.py"), ("JointLimits.init, update", "constraints.py"), ("EnergyMonitor.init, SaveLogger.init, CoMObserver.init", "observers.py")],
  ["joint state after a step", "world matrices", "records"],
  "Two executions of the real code, after different histories, are compared symbolically.")

P("P34", "Asking changes nothing",
  "Functions on displacements, twists, masses and distances, and the kinematic properties of joints, leave their arguments and the "
  "state unchanged, give the same result when asked again, and their results are apart: writing on one changes nothing else. "
  "Repeating a geometric or dynamic update, a controller or constraint update, or any query or walk of a world changes "
  "nothing, and the lists and copies a world hands out belong to the caller.",
  "inputs histories", "any displacement, twist, mass, position and velocity; repeated calls with their results overwritten in between",
  "tests look at a result once and never at the arguments afterwards",
  "homogeneousmatrix.py massmatrix.py twistvector.py collisions.py joints.py core.py controllers.py constraints.py",
  [("inv, adjoint, zaligned", "homogeneousmatrix.py"), ("joint properties", "joints.py"), ("World.update_dynamic, get*, iter*", "core.py"), ("update", "controllers.py"), ("update, solve", "constraints.py")],
  ["arguments", "repeated results", "world state"],
  "Principal frames are asked for one matrix; contact alignment is taken apart from the distances.")

P("P35", "A robot exported to MATLAB is the same robot",
  "Converting a robot for arboris-matlab keeps it: for corresponding joint positions every body is where it was, only bodies of "
  "negligible mass are added, frames and names are kept, and a robot without a free base gets one on a heavy base. The file "
  "written lists each link once, in its branch and after its parent, with the joint's axis, frames, mass (linear part first) and "
  "full-size shapes, and the root pose, positions and velocities in link order, the same whatever was written before. The "
  "simulation has the timeline's step, start and end and gravity along up; what the file cannot express is refused.",
  "inputs configurations", "any joint positions and velocities, poses of frames, masses, shape sizes, gravity and up; trees up to four "
  "joints, every joint class; several robots written one after the other",
  "the only test writes one snake and looks at nothing",
  "matlab/convert_py2mat.py", [("SkeletonTools, MatlabRobotGenerator", "matlab/convert_py2mat.py"), ("MatlabSimulationGenerator", "matlab/convert_py2mat.py")],
  ["converted world", "robot file", "simulation file", "errors"],
  "The harness reads the MATLAB text itself; numbers in it stand for the symbolic values they were written from.")
