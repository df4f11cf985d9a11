# ruff: noqa
FLOW = "The rule is decided for every path of the control flow graphs by forward dataflow with helpers analysed in context; sound within the listed assumptions, not a proof of the C++ semantics."

prop("A01", "Every library call is safe and reports failure while no scenario is loaded",
     "While no scenario is loaded (before the first load, after a failed load, after close) every function of the C library that depends on a scenario returns its documented failure value, does not crash and leaves the memory passed in by the caller untouched. A load that fails leaves no scenario loaded, a load that succeeds leaves one, and close always unloads.",
     ["inputs", "histories"], "every exported function, every argument value, every history of load and close calls",
     "Tests call a handful of functions before init; there are about 190 exported functions and the combination with failed loads and repeated close is never sampled.",
     [LIB, ENV + "Libraries/esminiLib/esminiLib.hpp"],
     [("session pointer guards", LIB), ("load and close", LIB + " SE_Init, SE_InitWithArgs, SE_InitWithString, SE_Close")],
     "interprocedural null-state dataflow from a null session over every exported function", FLOW)

prop("A02", "Unknown ids, names and indices are refused by the C library",
     "For any object id, road id, sign index, wheel index, light, option, parameter or name that does not exist, a library function returns its failure value, writes nothing to the caller's memory and neither crashes nor reads outside a container.",
     ["inputs"], "every exported function and every value of every id, index and name argument, with any scenario loaded",
     "Tests use ids that exist; out-of-range values and lookups that find nothing are sampled for very few of the functions.",
     [LIB, SE + "Entities.cpp", PB],
     [("lookup results tested before use", LIB), ("index range checks", LIB)],
     "null-state and index-range dataflow on lookup results and caller-derived indices", FLOW)

prop("D01", "Log and error texts never break on the data they report",
     "Whatever text comes from scenario files, road files, arguments or exceptions, it is reported verbatim: it is never interpreted as a formatting pattern, and every formatting pattern agrees with the values supplied to it. Reporting an error therefore never aborts the operation or replaces the message.",
     ["inputs"], "every log and format call in the engine and libraries, every text they can be given",
     "Most messages are on error paths no test reaches, and a pattern taken from data only fails when the data contains braces.",
     [CM + "logger.hpp", CM + "logger.cpp", SE + "ScenarioReader.cpp", RM, PB, LIB],
     [("pattern argument is constant and matches its arguments", CM + "logger.hpp"), ("exception text passed as data", LIB)],
     "constant propagation of format patterns and arity/type check of every log and format call site", "Every call site of the logging and formatting functions in the analysed translation units is an obligation; patterns are resolved through locals, conditionals, helper returns and tables.")

prop("A03", "Road manager library refuses missing networks and unknown handles and ids",
     "Without a loaded road network, and for any position handle, road id, sign index or validity index that does not exist, every function of the road manager library returns its failure value without crashing, without accessing memory outside its tables and without writing to the caller's memory. Loading leaves a network exactly when it reports success, and closing always releases it.",
     ["inputs", "histories"], "every exported function of the road manager library, every argument value, with and without a loaded network",
     "Tests use the handles and ids they just created; negative, released and out-of-range values are hardly sampled.",
     [RMLIB, RM],
     [("handle and index checks", RMLIB), ("network pointer guards", RMLIB), ("load and close", RMLIB + " RM_Init, RM_InitWithString, RM_InitWithODRHandle, RM_Close")],
     "null-state and index-range dataflow over every exported function from an unloaded and a loaded state", FLOW)

prop("A04", "Queries report exactly the quantity and object asked for, complete",
     "Every value a query of the C libraries returns or stores in the caller's structures is the simulation's current value of exactly that quantity, of exactly the object, road, sign, wheel or position the caller named, and whenever the query reports success every field of the result has been filled in.",
     ["inputs", "states"], "every query function of both libraries, every field it fills, every object and simulation state",
     "A swapped or forgotten field is invisible whenever the tested scenario gives both fields equal or default values, and tests read few of the roughly 250 reported fields.",
     [LIB, RMLIB, ENV + "Libraries/esminiLib/esminiLib.hpp"],
     [("object state", LIB + " copyStateFromScenarioGateway / getters"), ("road info, signs, wheels", LIB), ("lane, probe and sign info", RMLIB)],
     "value provenance: symbolic storage paths of every stored and returned value, compared as polynomials with the field's meaning", "Values are traced through helpers and small accessors; larger accessors are trusted to compute what they are named after; untraceable values (merged over loop iterations) are accepted and counted.")

prop("A05", "Queries do not change the simulation",
     "Calling any query of the C libraries, any number of times and in any order between steps, changes neither the state of any object, road position, route, storyboard element nor any later result of the simulation. Look-ahead probes leave the object's position and its route as they were.",
     ["inputs", "histories"], "every query function of both libraries, any interleaving of queries and steps",
     "A test that observes the simulation cannot tell what would have happened without observing; side effects of queries only show up as later divergence.",
     [LIB, RMLIB, PB, RM],
     [("look-ahead probing", RM + " Position::GetProbeInfo, GetRoadLaneInfo"), ("route save and restore", RM)],
     "interprocedural write-effect analysis of every query, plus path-sensitive save/restore check of the route in probing functions", "Standard library and OpenSceneGraph calls are assumed not to write simulation state; trail bookkeeping, the distance cache and the random generator used by probes on exact ties are listed exceptions.")

prop("A06", "Externally reported state is taken as reported, the rest derived from it",
     "Whatever subset of position, speed, velocity, acceleration, angular rates and wheel state a host application reports for an object before a step, in any order, the step uses exactly these values: a reported quantity is not replaced by a derived one or by default motion, every quantity not reported is derived from the object's movement by its definition, no derivation divides by a zero time step, and reports apply to exactly one step.",
     ["inputs", "histories"], "every report function, every combination of reported quantities, every time step including zero, every object",
     "The combinations of reported quantities are exponential and tests report a position or speed only; a wrongly protected quantity is overwritten by a similar derived value.",
     [LIB, SE + "ScenarioEngine.cpp", PB, SE + "Entities.hpp"],
     [("report functions", LIB + " SE_ReportObject*"), ("derivation of motion quantities", SE + "ScenarioEngine.cpp prepareGroundTruth"), ("frame order and update flags", PB)],
     "value provenance and guard analysis of every store of a derived quantity, update-flag typestate over the frame", "Values are compared as polynomials over storage paths; geometric setters are trusted to place the object where told.")

prop("E01", "Storyboard elements follow the OpenSCENARIO state machine",
     "Every storyboard element moves only between init, standby, running and complete as the OpenSCENARIO state machine prescribes: it starts once its start trigger holds, stops with its stop trigger together with all its children, ends when all its children are complete, repeats until its maximum execution count, rearms its triggers for the next execution, and event priorities overwrite, skip or run in parallel. Every state change is announced exactly once, with its new state and transition, to the registered callback and to every condition monitoring the element, and init actions come before stories.",
     ["histories", "states"], "every operation on an element in every state, for every element type, trigger combination, execution count and child state",
     "Scenario tests walk a few sequences of a few elements; the product of state, type, trigger, children and execution count is never enumerated.",
     [SE + "StoryboardElement.cpp", SE + "StoryboardElement.hpp", SE + "Storyboard.cpp", SE + "Storyboard.hpp"],
     [("life cycle operations", SE + "StoryboardElement.cpp Start, Stop, End, EvalTriggers, Step, Reset"), ("notification", SE + "StoryboardElement.cpp SetState"), ("event priority", SE + "Storyboard.cpp Event::Start"), ("init actions", SE + "Storyboard.cpp StoryBoard::Start, Step")],
     "decision tables derived from the control flow graphs by path-sensitive constant propagation, compared with the specified state machine", "All combinations of the enumerated conditions; loops over children are analysed for zero and two children; calls to other elements are not followed.")

prop("E04", "Conditions, edges, delays and triggers have their OpenSCENARIO truth value",
     "A condition group holds exactly when all its conditions hold, a trigger exactly when at least one of its groups holds, and every comparison rule, edge and delay means what OpenSCENARIO defines for numbers, texts, booleans and times: an edge refers to the previous evaluation of the same condition, a delayed condition reports the value it had that long ago, and conditions on simulation time, parameters, variables and storyboard element states compare the named item's current value or transition. Each time a condition becomes true the condition callback is told exactly once.",
     ["inputs", "histories"], "every rule, value type, edge, delay and sequence of condition values; every combination of conditions and groups",
     "Scenario tests sample a few rules and edges with one condition per group; the product of rule, type, edge, delay and history is not enumerated.",
     [OC + "OSCCondition.cpp", OC + "OSCCondition.hpp"],
     [("rules and edges", OC + "OSCCondition.cpp EvaluateRule, CheckEdge"), ("delay", OC + "OSCCondition.cpp ConditionDelay"), ("groups and triggers", OC + "OSCCondition.cpp ConditionGroup::Evaluate, Trigger::Evaluate")],
     "decision tables derived from the control flow graphs by path-sensitive constant propagation, compared with the specified truth tables", "All combinations of the enumerated values; groups and triggers for none and two members; delay buffer for the enumerated histories.")

prop("E05", "Entity conditions judge every triggering entity by its own quantities",
     "A condition by entity is judged separately for every active triggering entity, from that entity's own quantity of the kind named by the condition, and combined as declared: with any, one entity satisfying it is enough, with all, every entity must satisfy it. The verdict for one entity never depends on what was found for another one, an entity for which the quantity is undefined does not satisfy the condition, and the entities reported as triggering are exactly those that satisfied it in this evaluation.",
     ["inputs", "states"], "every type of entity condition, every combination of verdicts over the triggering entities, both rules, every option of the condition",
     "Nearly all scenario tests use one triggering entity with rule any; carrying a value from one entity over to the next does not show with one.",
     [OC + "OSCCondition.cpp", OC + "OSCCondition.hpp"],
     [("entity conditions", OC + "OSCCondition.cpp TrigBy*::CheckCondition"), ("aggregation", OC + "OSCCondition.cpp EvalDone")],
     "decision tables over verdicts of two entities derived from the control flow graphs, and value provenance of the compared quantities", "Two triggering entities stand for any number; geometric computations of distances, angles and overlaps are trusted.")

prop("A07", "A scenario is not affected by scenarios run before it in the same process",
     "Whatever was loaded, run, failed or closed before, a scenario loaded afterwards starts from the same state as in a fresh process: no callback, argument, option, parameter, variable, controller, pending condition, ghost setting, model name or piece of road network of an earlier scenario remains. Only process-wide settings (search paths, persistent options, seed, logging) outlive a scenario.",
     ["histories"], "every sequence of loads (successful or failed) and closes, every piece of state with static lifetime",
     "Tests run scenarios in sequence but rarely check for remains, and left-over state only matters for the particular pair of scenarios that touch it.",
     [LIB, SE + "ScenarioReader.cpp", SE + "ScenarioEngine.cpp", RM, CM + "CommonMini.cpp", PB],
     [("unload", LIB + " resetScenario, SE_Close"), ("reader and engine state", SE + "ScenarioReader.cpp, ScenarioEngine.cpp"), ("options", CM + "CommonMini.cpp SE_Options::Reset"), ("road network", RM + " OpenDrive::Clear")],
     "census of all mutable storage with static lifetime and must-reset analysis over load, unload and destruction paths", "Each global, static member, function static and singleton member is an obligation; destructors of members are trusted; viewer state is left out.")

prop("E03", "Copies of actions, trajectories, positions and vehicles have all settings",
     "A copy made of a scenario action, trajectory, position or vehicle, such as the init actions of a ghost, the trajectory of a copied action or a position duplicated through the library, has every setting of its original with the same value, whatever the kind of action, shape or position, and every kind of private action can be copied.",
     ["inputs", "states"], "every class of private action and trajectory shape, every setting assigned by the scenario reader or other code, positions and vehicles in any state",
     "Copies are only made for ghosts and a few library calls; tests use ghosts with teleport and speed actions, so a setting lost in another copy shows nowhere.",
     [OC + "OSCPrivateAction.hpp", RM, SE + "ScenarioEngine.cpp", SE + "Entities.hpp"],
     [("actions", OC + "OSCPrivateAction.hpp copy constructors, Copy"), ("trajectories", RM + " RMTrajectory::Copy, *Shape::Copy"), ("positions", RM + " Position::Duplicate"), ("ghost", SE + "ScenarioEngine.cpp SetupGhost")],
     "census of the settings of each class (members written from outside) and value provenance of every member of the copy on all paths of the copy operation", "Members only written by the class itself are running state and left out; copies of members are trusted to be complete when the member has a copy operation of its own.")

prop("R01", "Recordings hold what was simulated and replay returns what was recorded",
     "Every quantity of every object that changes is recorded at the time it changed, under the id of its object; deleted and added objects, traffic lights, light states, environment and storyboard events are recorded as they occur; a packet is read with the layout with which it was written; and replaying a recording gives, at every recorded time, for every object the values it had then.",
     ["histories", "inputs"], "every recorded quantity, every packet type, every sequence of changes, deletions and additions, every look up time",
     "Tests record a few scenarios and compare positions; most quantities never change in them, and nothing checks that each of the 33 packet types survives the way from writer to reader.",
     [SE + "PacketHandler.cpp", SE + "PacketHandler.hpp", ENV + "Applications/replayer/Replay.cpp", ENV + "Applications/replayer/Replay.hpp"],
     [("writer", SE + "PacketHandler.cpp DatWriter"), ("reader", SE + "PacketHandler.cpp DatReader"), ("replay", ENV + "Applications/replayer/Replay.cpp ParsePackets, GetState")],
     "decision tables of writer and reader derived from the control flow graphs, layout agreement of writer and reader per packet type, value provenance from object to packet to replayed state", "Quantities change one at a time in the writer tables; interpolation and rounding of time stamps are trusted; malformed recordings are outside this property.")

prop("P01", "The scenario read from a file is the scenario written in it",
     "Whatever an OpenSCENARIO file says is what the simulation holds: every supported attribute of entities, vehicles, actions, conditions, positions, trajectories, routes, dynamics, controllers and environment reaches exactly the setting it stands for, every keyword selects the meaning of that keyword, every element creates the object it names, and an optional attribute that is missing leaves the setting at its documented default.",
     ["inputs"], "every attribute of every supported element, every keyword of every enumeration, every combination of present and missing optional attributes",
     "The example scenarios use a small part of the attributes and keywords, usually one value each; a setting read from a neighbouring attribute or a keyword taken for another one is only seen where the values differ.",
     [SE + "ScenarioReader.cpp", OC + "OSCPosition.cpp", SE + "ScenarioReader.hpp"],
     [("actions", SE + "ScenarioReader.cpp parseOSCPrivateAction, parseOSCGlobalAction, parseUserDefinedAction"), ("conditions", SE + "ScenarioReader.cpp parseOSCCondition"), ("positions and trajectories", SE + "ScenarioReader.cpp parseOSCPosition, parseTrajectory"), ("entities", SE + "ScenarioReader.cpp parseOSCVehicle, parseOSCPedestrian, parseEntities")],
     "value provenance: every setting is traced back through locals, helpers and conversions to element, attribute, keyword and constant, and compared with the table of the format", "Origins that the analysis cannot resolve (text surgery, container look-ups) and range checks are not judged.")

prop("P02", "The road network read from a file is the road network written in it",
     "Whatever an OpenDRIVE file says is what the road manager holds: every supported attribute of roads, geometries, elevations, lanes, widths, road marks, links, junctions, signals, objects, tunnels, controllers and the georeference reaches exactly the quantity it stands for, converted to the unit used by the road manager, every keyword selects its meaning, every element creates the object it names, and missing optional attributes leave their documented default.",
     ["inputs"], "every attribute of every supported element, every keyword and unit, every combination of present and missing optional attributes",
     "The example roads use few of the attributes and units; an end value read from the start attribute or a wrong unit factor is only seen where it matters.",
     [RM],
     [("roads, lanes, links", RM + " OpenDrive::ParseOpenDriveXML"), ("signals and objects", RM + " OpenDrive::ParseOpenDriveXML, signals, objects"), ("keywords", RM + " Str2*, Text2*, *FromStr")],
     "value provenance: every quantity is traced back through locals, helpers and conversions to element, attribute, keyword, constant and factor, and compared with the table of the format", "Origins that the analysis cannot resolve (text surgery, container look-ups) and range checks are not judged.")

prop("E06", "Parameters and variables have their declared type, value and scope",
     "Wherever a scenario uses a parameter, variable or expression, the value of the innermost declaration visible there is used; a declaration is visible exactly in the element that holds it, and the assignments of a catalog reference apply to that reference only. A parameter or variable is read and changed through the library, scenario actions and callbacks with its declared type: its number, truth value and text form always agree, an access with another type or an unknown name fails and changes nothing, and parameters and variables are never mixed up.",
     ["inputs", "histories"], "every declared type and type of access, every nesting of declarations and catalog references, every attribute, every path through the reader",
     "Tests declare a few parameters at the top and read them back with the right type; nesting, failing references, access with another type and stale text forms are not covered.",
     [SE + "Parameters.cpp", SE + "ScenarioReader.cpp", OC + "OSCGlobalAction.cpp", LIB],
     [("typed access", SE + "Parameters.cpp getParameterValue*, setParameterValue*"), ("declarations", SE + "Parameters.cpp parseParameterDeclarations"), ("scopes", SE + "ScenarioReader.cpp CreateNewParametersDeclarations, RestoreParameterDeclarations"), ("actions", OC + "OSCGlobalAction.cpp Variable*Action, Parameter*Action")],
     "decision tables over declared type and access derived from the control flow graphs, path analysis of scopes (every open closed on all paths), census of the attribute reads", "Number and text conversions and the expression evaluator are trusted.")

prop("G01", "The road at a given distance is described by the records that cover it",
     "For every distance along a road, the lane section, lane width, lane height, lane material, lane offset, elevation, superelevation, road type, speed limit and road mark used are those of the last record that starts at or before that distance, evaluated at the distance from the start of that record, whatever was asked for before. The centre and edges of a lane lie at the lane offset plus the widths of the lanes between it and the reference line, lanes are counted and numbered by their type and side, and the lane closest to a lateral position is the one whose centre is closest.",
     ["inputs", "histories"], "every number and order of records, every distance including the exact start and end of a record, every lane, every previous query",
     "Tests use roads with few records and distances well inside them; behaviour at record boundaries, with many records, with lane offsets, or when searching backwards from a later record depends on the data.",
     [RM, RM.replace(".cpp", ".hpp")],
     [("record look-up", RM + " Lane::GetWidthByS, Road::GetZAndPitchByS, Road::GetRoadTypeByS, LaneSection look-up"), ("lane offsets", RM + " LaneSection::GetOffset*, GetClosestLaneIdx"), ("lane heights and road marks", RM)],
     "decision tables of the look-ups derived from the control flow graph over symbolic record tables, results compared as polynomials", FLOW)

prop("G03", "Lanes continue where the road description links them",
     "Following a lane, along a road, onto the next road or through a junction, always arrives in the lane that the lane links of the road description name, at the end of the road that is linked, with the direction turned exactly when the linked ends meet head to head. Junction connections are found completely and only for the road and lane they name; the distance, relative lane and relative direction of two positions are those along the linked lanes; a missing link ends the road.",
     ["inputs", "histories"], "every road network: any number of roads, junctions, lane sections, lane numbering and contact points; every lane and driving direction",
     "Tests follow lanes in a handful of networks in which lanes mostly keep their number; renumbered lanes, several lane sections, roads joined end to end or several links of one lane are rare there.",
     [RM, RM.replace(".cpp", ".hpp")],
     [("lane links", RM + " Road::GetConnectingLaneId, GetConnectedLaneIdAtS"), ("junctions", RM + " Junction::GetRoadConnectionByIdx"), ("moving and path search", RM + " Position::MoveToConnectingRoad, RoadPath, Position::Delta")],
     "decision tables of the link look-ups derived from the control flow graph over symbolic road networks", FLOW)

prop("E02", "In each domain an object is driven by one action and one controller",
     "At any time at most one running action and the controller active on a domain move an object in that domain. An action that starts ends exactly the running actions of the same object that share a domain with it (light actions: that share a light), and no others. Activating a controller on a domain takes the domain away from the controller that had it, leaves its other domains alone, and activates the named controller exactly on the domains named and supported; assignment activates exactly the domains given. While a controller overrides a domain no action and no default motion of that domain moves the object; a controller overriding another domain does not stop an action.",
     ["histories", "states"], "every combination of running actions, controllers, domains, activation and operation modes, every kind of private action",
     "Tests have one controller per object, mostly active on both domains together; mixed domains, several controllers and most kinds of actions under an override are never combined.",
     [OC + "OSCPrivateAction.cpp", OC + "OSCPrivateAction.hpp", SE + "Storyboard.cpp", SE + "Entities.cpp", SE + "ScenarioEngine.cpp", ENV + "Modules/Controllers/Controller.cpp"],
     [("activation", ENV + "Modules/Controllers/Controller.cpp Activate, DeactivateDomains"), ("assignment and activation actions", OC + "OSCPrivateAction.cpp AssignControllerAction, ActivateControllerAction"), ("conflicting actions", SE + "Storyboard.cpp Event::Start"), ("override", OC + "OSCPrivateAction.cpp *::Step, " + SE + "Entities.cpp IsControllerMode*")],
     "decision tables of activation, look-up and conflict handling derived from the control flow graphs, and an override rule over all paths of every private action", "A few controllers, events and actions stand for any number; an action moves its object through the setters of the object; what a controller does in its own step is not analysed.")

prop("E07", "Every execution of an action starts from the settings of the scenario",
     "An action that is executed more than once, because its event, maneuver group or act is executed again, behaves in every execution as it is described in the scenario: nothing that an earlier execution has calculated, reached or left behind (progress of a transition, flags, timers, resolved distances, fallback modes, profile segments) has influence on a later one, and no execution changes the settings that the next one starts from.",
     ["histories"], "every kind of action, every number of executions, every way an execution ends",
     "Hardly any test executes an event twice, and none does so with the same action from different states; state left behind by the first execution is only seen then.",
     [OC + "OSCPrivateAction.cpp", OC + "OSCPrivateAction.hpp", OC + "OSCGlobalAction.cpp"],
     [("actions", OC + "OSCPrivateAction.cpp *Action::Start, *Action::Step"), ("transitions", OC + "OSCPrivateAction.cpp TransitionDynamics::Reset, SetParamTargetVal"), ("global actions", OC + "OSCGlobalAction.cpp *::Start")],
     "census of the running members of every action and a path rule: overwritten before read on every path from the start of an execution, with the settings kept apart by valuation of the conditions on them", "Objects that an action refers to (positions, trajectories, routes, spring) are brought up to date by their own operations; branches taken only under an overriding controller are left out.")

prop("T01", "Transitions follow the dynamics the scenario asks for",
     "A speed change, lane change or lane offset runs from the value at its start to its target along the requested shape (step, linear, sinusoidal, cubic), over the requested time, distance or at the requested peak rate, and no faster than the performance of the vehicle allows (the change is then stretched, never cut short). Relative targets refer to the reference entity, its side of the road and its driving direction; lane 0 is not counted. The action ends exactly when the target is reached.",
     ["inputs", "histories"], "every shape, dimension, start and target value, range, step size, driving direction and side of the road",
     "Tests sample a handful of shapes and values at a few times; sign, direction, stretching and limits only matter in combinations.",
     [OC + "OSCPrivateAction.cpp", OC + "OSCPrivateAction.hpp"],
     [("transition", OC + "OSCPrivateAction.cpp TransitionDynamics::*"), ("speed", OC + "OSCPrivateAction.cpp LongSpeedAction::Start/Step, LongSpeedProfileAction::Step"),
      ("lanes", OC + "OSCPrivateAction.cpp LatLaneChangeAction::Start/Step, LatLaneOffsetAction::Start/Step")],
     "the value of every member and call argument on every path is derived as a formula and compared with the definition of the shapes, for tables of shape, dimension, sign and limit", "The speed profile is covered from its segments on; how its segments are fitted to jerk limits is not. Distance keeping and synchronisation are not transitions.")

prop("G02", "Road coordinates denote the point and orientation of the road description",
     "The point and heading of a road at a distance are those of its line, arc, clothoid or polynomial record; a lateral offset is measured perpendicular to the road, a lane offset from the middle of the lane; elevation, superelevation and lane heights are added as the road description says. Relative and absolute heading, pitch, roll and height combine as the position mode asks, and the orientation of the road and of the vehicle compose as rotations. Angles stay within one turn. Moving beyond either end of the road is reported and stops at the end.",
     ["inputs"], "every geometry record, distance, offset, side and direction of the road, and every combination of position modes",
     "Tests sample a few points on a few roads; signs, sides, modes and the ends of the road matter in combination.",
     [RM, CM],
     [("curves", RM + " Line/Arc/Spiral/Poly3/ParamPoly3::EvaluateDS"), ("road to world", RM + " Position::Track2XYZ, Lane2Track, EvaluateRoadCenterlineZHPR, SetTrackPosMode, SetLanePosMode, SetInertiaPosMode"),
      ("along the road", RM + " Position::SetLongitudinalTrackPos"), ("angles and rotations", CM + " GetAngle*, R0R12EulerAngles, RotateVec*")],
     "coordinates are derived as values on every path for tables of records, positions and modes, and compared with the definitions of OpenDRIVE", "The numerical evaluation of clothoids, the arc length table of parametric curves and the search from world to road coordinates are not covered (N01).")

prop("V01", "The simple vehicle follows its controls within its limits",
     "Throttle, brake and steering of the simple vehicle (buttons, pedals, acceleration and wheel angle, or target speed and heading) change speed and wheel angle by the configured rates, within the configured speed, acceleration and steering limits; a brake never turns into driving backwards, disabled throttle or steering have no effect, and the vehicle moves along its velocity: position, heading (within one turn) and wheel rotation follow speed and wheel angle over the time step. The settings of the library reach the setting they name and no other.",
     ["inputs", "histories"], "every state, control, limit and time step",
     "No test covers the limits, the hand brake and the disabled controls together.",
     [ENV + "Modules/Controllers/vehicle.cpp", ENV + "Modules/Controllers/vehicle.hpp", LIB],
     [("controls", ENV + "Modules/Controllers/vehicle.cpp DrivingControl*"), ("motion", ENV + "Modules/Controllers/vehicle.cpp Update"), ("library", LIB + " SE_SimpleVehicle*")],
     "speed, angle and position after a step are derived for tables of state, limits and controls and compared with the model", "Rates and limits are those of the model in the code; their realism is not judged.")

prop("S01", "Object sensors report exactly the objects in their range and view",
     "A sensor reports the objects, other than its own vehicle, ghosts and objects hidden from sensors, whose reference point is within its near and far distance and within its field of view around the direction in which it is mounted, and no others; never more than its maximum number. Position, velocity, acceleration and heading of a reported object are given in the coordinates of the sensor.",
     ["inputs"], "every mounting position and angle, host heading, object position, visibility and number of objects",
     "Tests use one sensor looking straight ahead; other mounting angles and more objects than the list holds are not sampled.",
     [SE + "IdealSensor.cpp", SE + "IdealSensor.hpp"],
     [("detection", SE + "IdealSensor.cpp ObjectSensor::Update")],
     "the list after an update is derived for tables of sensors and objects and compared with the definition of range and view", "Objects exactly on a limit may be reported or not. The height of a reported object is not judged.")

prop("A08", "Commands act on exactly the named object with the given values",
     "An injected speed, lane change or lane offset action (library call or UDP message) acts on the object with the given id, with the given target, shape, dimension and value; it ends an ongoing injected action of the same type for the same object and no other, is reported as ongoing until it is finished, and is removed once finished. An unknown object is refused. A UDP message is exactly the command it names. Objects and sensors added at run time have the given kind, category, role, size, mounting and range; lane locking, snapping and position modes apply to the named object only.",
     ["inputs", "histories"], "every object id, argument value, combination of ongoing actions and order of finishing",
     "Tests inject single actions for existing objects; replacing, finishing in another order and unknown ids are not sampled.",
     [ENV + "Modules/PlayerBase/PlayerServer.cpp", ENV + "Modules/PlayerBase/PlayerServer.hpp", LIB],
     [("injected actions", ENV + "Modules/PlayerBase/PlayerServer.cpp Inject*, AddAction, Step, InjectedActionOngoing, ServerThread"), ("objects and settings", LIB + " SE_AddObjectWithBoundingBox, SE_AddObjectSensor, SE_SetLockOnLane, SE_SetSnapLaneTypes, SE_SetObjectPositionMode")],
     "what a command creates or changes is derived for tables of arguments and compared with the request; member lists of the exchanged structs are compared", "What an injected action does over time is covered by T01; threads of the UDP server are not analysed for races.")

prop("E08", "Collisions and distances of objects follow from their outlines and motion",
     "Two objects collide exactly when their bounding boxes, placed and turned with the objects, overlap and the objects are on the same level. The free space distance of two objects, or of an object and a point, is the shortest distance between the boxes of the vehicles of both trains (zero when they overlap), positive for a target in front and negative for one behind; its lateral and longitudinal parts are measured along the axes of the nearest vehicle of the first object. The time headway is the distance over the own speed, undefined for a target behind or while standing or reversing; the time to collision is the distance over the speed at which the objects approach each other, undefined while they move apart. Standing still, being off road and being at the end of the road are recorded with the time at which they began, independently of each other.",
     ["inputs"], "every place, heading, size and offset of the boxes, every train of vehicles, every combination of speeds and directions",
     "Tests sample a few positions of equal cars; rotated boxes of different size, trailers as targets and reversing vehicles are not sampled.",
     [SE + "Entities.cpp", SE + "Entities.hpp"],
     [("outlines", SE + "Entities.cpp Object::CollisionAndRelativeDistLatLong, PointCollision, FreeSpaceDistance, FreeSpaceDistancePoint, Distance"), ("times", SE + "Entities.cpp Object::TimeHeadway, TimeToCollision, SetStandStill, SetOffRoad, SetEndOfRoad")],
     "the result of each function is derived for tables of boxes, trains, speeds and directions and compared with the definition of overlap, distance and closing speed", "The gap of two boxes in road coordinates (FreeSpaceDistanceObjectRoadLane, FreeSpaceDistancePointRoadLane) is not judged; the distance of reference points is the road manager's (G02, G03).")

na("N01", "Positions on the road are geometrically accurate",
   "Road coordinates and world coordinates agree: converting a position to the other system and back gives the same position within a small tolerance, and the curves of the road are evaluated within a small tolerance of their mathematical definition.",
   ["inputs"], "every road geometry and every position on it",
   "The error depends on the geometry and on the length of the sampled approximation; tests sample a few roads.",
   [RM], [("conversions", RM + " Position::XYZ2TrackPos, Geometry::EvaluateDS, OSI points")],
   "bounds a numerical error over unbounded runtime data (floating point, sampled curves, iterative search); no sound static bound is in reach")
na("N02", "Routes found through the road network are the best ones",
   "A route computed through the network is connected, starts and ends where asked, and is the best one by the chosen criterion.",
   ["inputs"], "every road network and every pair of positions",
   "Optimality is a statement about all alternatives in a network that is only known at run time.",
   [ENV + "Modules/RoadManager/LaneIndependentRouter.cpp", RM], [("router", ENV + "Modules/RoadManager/LaneIndependentRouter.cpp CalculatePath")],
   "optimality over a run-time graph is a functional correctness claim about a loop with a priority queue; the link look-ups it is built on are covered by G03")
na("N03", "A ghost and its original follow the same course",
   "An entity that follows its ghost reaches the same places in the same order, and restarting a ghost leaves no trace of the previous run.",
   ["histories"], "every scenario with ghosts and every restart time",
   "Depends on controller dynamics and on the course of the simulation over time.",
   [SE + "ScenarioEngine.cpp", ENV + "Modules/Controllers/ControllerFollowGhost.cpp"], [("ghosts", SE + "ScenarioEngine.cpp SetupGhost, " + ENV + "Modules/Controllers/ControllerFollowGhost.cpp")],
   "a quantitative statement about trajectories produced by a control loop; the copies made for ghosts are covered by E03")
na("N04", "Simulated time keeps pace with real time when asked to",
   "Without a fixed time step the simulated time follows the clock of the system, within the limits for the largest and smallest step.",
   ["schedules"], "every load of the machine",
   "Depends on clock and scheduling.",
   [CM], [("time step", CM + " SE_getSimTimeStep")],
   "depends on the system clock and scheduling at run time")
