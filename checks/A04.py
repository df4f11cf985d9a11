"""What a state query reports is the state of the simulation, complete and unmixed.

Every query of the two C libraries is analysed with arbitrary arguments. Each value it stores in the caller's memory and
each value it returns is traced back, through helpers and getters, to the storage it was read from; the resulting
expression (normalised as a polynomial over storage paths) must be the quantity the field is named after, of the object
the caller asked for, and on every path that reports success every field of the result must have been stored.
"""
import re

import algebra as al
from extract import Broken
from flow import NULL, Engine, addr, is_c, query
import lookup
from trace import Trace, explore
from E04 import enumval, quiet
from api import LIB, RMLIB, LibClient, caller_memory, exported, may_return_null

ASSUMPTIONS = [
    "accessors with more than three basic blocks (e.g. Position::GetAcc, Road::GetLaneWidthByS) are trusted to compute what they are named after",
    "a value the analysis cannot trace (merged over loop iterations) is accepted and counted",
]

OBJ = "GetObjectById($0)"
SIM = "player.scenarioEngine.simulationTime_"
ENT = "player.scenarioEngine.entities_.object_"
P = "scenarioengine::ScenarioReader::parameters"
V = "scenarioengine::ScenarioReader::variables"
OPT = "SE_Env::Inst::instance_.opt"
DIST = "scenarioengine::OSCParameterDistribution::Inst::instance_"


def fields(root, spec, prefix):
    """'x=pos_.x_ y' -> {prefix.x: root.pos_.x_, ...}"""
    res = {}
    for item in spec.split():
        k, _, v = item.partition("=")
        v = v or k
        res[prefix + "." + k] = [root + "." + x if not x.startswith("!") else x[1:] for x in v.split("|")]
    return res


STATE = ("id=id_ model_id=model_id_ ctrl_type=GetControllerTypeActiveOnDomain(0) timestamp=!" + SIM + " x=pos_.x_ y=pos_.y_ z=pos_.z_ h=pos_.h_ p=pos_.p_ r=pos_.r_"
         " roadId=pos_.track_id_ junctionId=pos_.GetJunctionId() t=pos_.t_ laneId=pos_.lane_id_ laneOffset=pos_.offset_ s=pos_.s_ speed=speed_"
         " centerOffsetX=boundingbox_.center_.x_ centerOffsetY=boundingbox_.center_.y_ centerOffsetZ=boundingbox_.center_.z_"
         " width=boundingbox_.dimensions_.width_ length=boundingbox_.dimensions_.length_ height=boundingbox_.dimensions_.height_"
         " objectType=type_ objectCategory=category_ wheel_angle=wheel_angle_ wheel_rot=wheel_rot_ visibilityMask=visibilityMask_")
LANEINFO = "curvature heading junctionId laneId laneOffset lane_type pitch pos.x=pos[0] pos.y=pos[1] pos.z=pos[2] roadId road_rule road_type roll s speed_limit t width"
ROADINFO = ("angle=relative_h local_pos_x=relative_pos[0] local_pos_y=relative_pos[1] local_pos_z=relative_pos[2]"
            " curvature=road_lane_info.curvature global_pos_x=road_lane_info.pos[0] global_pos_y=road_lane_info.pos[1] global_pos_z=road_lane_info.pos[2]"
            " junctionId=road_lane_info.junctionId laneId=road_lane_info.laneId laneOffset=road_lane_info.laneOffset lane_type=road_lane_info.lane_type"
            " roadId=road_lane_info.roadId road_heading=road_lane_info.heading road_pitch=road_lane_info.pitch road_roll=road_lane_info.roll"
            " road_rule=road_lane_info.road_rule road_type=road_lane_info.road_type s=road_lane_info.s speed_limit=road_lane_info.speed_limit t=road_lane_info.t")
SIGN = "height=height_ id=id_ length=length_ name=name_ width=width_ z_offset=z_offset_"
SIGNPOS = "h=h_ s=s_ t=t_ x=x_ y=y_ z=z_"
OVR = {"throttle": 0, "brake": 1, "clutch": 2, "parkingBrake": 3, "steeringWheel": 4, "gear": 5}

F = {}      # function -> {output path: [accepted values]}


def out(name, *ds):
    e = F.setdefault(name, {})
    for d in ds:
        e.update({k: v if isinstance(v, list) else [v] for k, v in d.items()})


def ret(name, *vals):
    F.setdefault(name, {})["ret"] = list(vals)


out("SE_GetObjectState", fields(OBJ, STATE, "$1"))
out("SE_GetObjectGhostState", fields(OBJ + ".ghost_", STATE, "$1"))
out("SE_GetObjectStates", fields(ENT + "[#]", STATE, "$1[#]"), {"$0": ["0", ENT + ".#size"]})
out("SE_GetObjectVelocityGlobalXYZ", {"$1": OBJ + ".pos_.velX_", "$2": OBJ + ".pos_.velY_", "$3": OBJ + ".pos_.velZ_"})
out("SE_GetObjectAccelerationGlobalXYZ", {"$1": OBJ + ".pos_.accX_", "$2": OBJ + ".pos_.accY_", "$3": OBJ + ".pos_.accZ_"})
out("SE_GetObjectAngularVelocity", {"$1": OBJ + ".pos_.h_rate_", "$2": OBJ + ".pos_.p_rate_", "$3": OBJ + ".pos_.r_rate_"})
out("SE_GetObjectAngularAcceleration", {"$1": OBJ + ".pos_.h_acc_", "$2": OBJ + ".pos_.p_acc_", "$3": OBJ + ".pos_.r_acc_"})
ROT = {"$1": "={X}*-sin({H})+{Y}*cos({H})", "$2": "={X}*cos({H})+{Y}*sin({H})"}
out("SE_GetObjectAccelerationLocalLatLong", {k: v.replace("{X}", "O.pos_.accX_").replace("{Y}", "O.pos_.accY_").replace("{H}", "O.pos_.h_") for k, v in ROT.items()})
out("SE_GetObjectVelocityLocalLatLong", {k: v.replace("{X}", "O.pos_.velX_").replace("{Y}", "O.pos_.velY_").replace("{H}", "O.pos_.h_") for k, v in ROT.items()})
out("SE_GetObjectWheelData", fields(OBJ + ".wheel_data[$1]", "axle friction_coefficient h index p wheel_radius x y z", "$2"))
out("SE_GetObjectLightState", {"$2.light_mode": OBJ + ".vehLghtStsList[$1].mode",
                               "$2.emitting": ["0", OBJ + ".vehLghtStsList[$1 + 2].emitting", OBJ + ".vehLghtStsList[2 + $1].emitting", OBJ + ".vehLghtStsList[$1].emitting"]})
for part, i in OVR.items():
    fs = {"throttle": "active maxRate value", "clutch": "active maxRate value", "steeringWheel": "active maxRate maxTorque value",
          "brake": "active maxRate type value value_type", "parkingBrake": "active maxRate type value value_type", "gear": "active number type value_type"}[part]
    out("SE_GetOverrideActionStatus", fields("%s.overrideActionList[%d]" % (OBJ, i), fs, "$1." + part))
out("SE_GetDistanceToObject", fields("~", "dLaneId ds dt dx dy oppositeLanes=dOppLane", "$3"))
out("SE_GetRoadInfoAtDistance", fields("~", ROADINFO + " trail_heading=road_lane_info.heading trail_wheel_angle=!0", "$2"))
out("SE_GetRoadInfoAlongRoute", fields("~", ROADINFO + " trail_heading=road_lane_info.heading trail_wheel_angle=!0", "$2"))
GH = " trail_heading=h|road_lane_info.heading trail_wheel_angle=wheel_angle|!0"
out("SE_GetRoadInfoAlongGhostTrail", fields("~", ROADINFO + GH, "$2"), {"$3": "~.speed", "$4": "~.time"})
out("SE_GetRoadInfoGhostTrailTime", fields("~", ROADINFO + GH, "$2"), {"$3": "~.speed"})
out("SE_GetRoutePoint", fields(OBJ + ".pos_.route_.all_waypoints_[$1]",
                               "x=x_ y=y_ z=z_ h=h_ roadId=track_id_ junctionId=GetJunctionId() laneId=lane_id_ osiLaneId=!~.g_id_ laneOffset=offset_ s=s_ t=t_", "$2"))
out("SE_SimpleVehicleGetState", fields("$0", "x=posX_ y=posY_ z=posZ_ h=heading_ p=pitch_ speed=speed_ wheel_angle=wheelAngle_ wheel_rotation=wheelRotation_", "$1"))
out("SE_FetchSensorObjectList", {"$1[#]": "player.sensor[$0].hitList_[#].obj_.id_"})
out("SE_FetchImage", fields("FetchCapturedImagePtr()", "data height pixelFormat pixelSize width", "$0"))
out("SE_GetCameraPos", {"$0": "~.operator[](0)", "$1": "~.operator[](1)", "$2": "~.operator[](2)", "$3": "~.operator[](0)", "$4": "~.operator[](1)", "$5": "~.operator[](2)"})
out("SE_GetRoadSignValidityRecord", fields("GetSignal($1).validity_[$2]", "fromLane=fromLane_ toLane=toLane_", "$3"))
out("SE_GetRoadSign", fields("GetSignal($1)", SIGN, "$2"), fields("Position{}", SIGNPOS, "$2"), {"$2.roadId": "$0", "$2.orientation": ["1", "-1"]})
out("RM_GetRoadSignValidityRecord", fields("GetSignal($1).validity_[$2]", "fromLane=fromLane_ toLane=toLane_", "$3"))
out("RM_GetRoadSign", fields("GetSignal($1)", SIGN, "$2"), fields("Position{}", SIGNPOS, "$2"), {"$2.roadId": "$0", "$2.orientation": ["1", "-1"]})
out("RM_GetPositionData", fields("position[$0]", "x=x_ y=y_ z=z_ h=h_ p=p_ r=r_ hRelative=h_relative_ roadId=track_id_ junctionId=GetJunctionId() laneId=lane_id_ laneOffset=offset_ s=s_", "$1"))
out("RM_GetLaneInfo", fields("~", LANEINFO, "$2.road_lane_info"))
out("RM_GetProbeInfo", fields("~.road_lane_info", LANEINFO, "$2.road_lane_info"), fields("~", "relative_h relative_pos.x=relative_pos[0] relative_pos.y=relative_pos[1] relative_pos.z=relative_pos[2]", "$2"))
out("RM_GetLaneWidth", {"$2": "GetRoadById(position[$0].track_id_).GetLaneWidthByS(position[$0].s_,$1)"})
out("RM_GetLaneWidthByRoadId", {"$3": "GetRoadById($0).GetLaneWidthByS($2,$1)"})
out("RM_GetOpenDriveGeoReference", fields("odrManager.geo_ref_", "a_ axis_ b_ datum_ ellps_ geo_id_grids_ k_ k_0_ lat_0_ lon_0_ lon_wrap_ over_ original_georef_str_=orig_georef_str_ pm_ proj_ towgs84_ units_ vunits_ x_0_ y_0_ zone_", "$0"))
out("RM_SubtractAFromB", fields("~", "dLaneId ds dt", "$2"))

ret("SE_GetId", ENT + "[$0].id_")
ret("SE_GetIdByName", ENT + "[#].id_")
ret("SE_GetJunctionIdFromString", "GetJunctionByIdStr($0).id_")
ret("SE_GetJunctionIdString", "GetJunctionById($0).id_str_")
ret("SE_GetRoadIdFromString", "GetRoadByIdStr($0).id_")
ret("SE_GetRoadIdString", "GetRoadById($0).id_str_")
ret("SE_GetNumberOfObjectSensors", "player.sensor.#size")
ret("SE_GetNumberOfObjects", ENT + ".#size")
ret("SE_GetNumberOfParameters", P + ".parameterDeclarations_.Parameter.#size")
ret("SE_GetNumberOfVariables", V + ".parameterDeclarations_.Parameter.#size")
ret("SE_GetNumberOfProperties", "player.GetNumberOfProperties($0)")
ret("SE_GetNumberOfRoadSigns", "GetRoadById($0).signal_.#size")
ret("SE_GetNumberOfRoadSignValidityRecords", "GetSignal($1).validity_.#size")
ret("SE_GetNumberOfRoutePoints", OBJ + ".pos_.route_.all_waypoints_.#size")
ret("SE_GetNumberOfPermutations", DIST + ".GetNumPermutations()")
ret("SE_GetPermutationIndex", DIST + ".index_")
ret("SE_GetODRFilename", "player.scenarioEngine.roadNetwork.logicFile.filepath")
ret("SE_GetSceneGraphFilename", "player.scenarioEngine.roadNetwork.sceneGraphFile.filepath")
ret("SE_GetODRManager", "player.odr_manager")
ret("SE_GetObjectAcceleration", OBJ + ".pos_.GetAcc()")
ret("SE_GetObjectOdometer", OBJ + ".odometer_")
ret("SE_GetObjectCollision", OBJ + ".collisions_[$1].id_")
ret("SE_GetObjectNumberOfCollisions", OBJ + ".collisions_.#size")
ret("SE_GetObjectNumberOfWheels", OBJ + ".wheel_data.#size")
ret("SE_GetObjectGhostId", OBJ + ".ghost_.id_")
ret("SE_GetObjectInLaneType", OBJ + ".pos_.GetInLaneType()")
ret("SE_GetObjectModelFileName", "FileNameOf(" + OBJ + ".model3d_full_path_)")
ret("SE_GetObjectName", OBJ + ".name_")
ret("SE_GetObjectTypeName", OBJ + ".typeName_")
ret("SE_GetObjectPropertyName", "player.GetPropertyName($0,$1)")
ret("SE_GetObjectRouteStatus", "1", "2")
ret("SE_GetRouteTotalLength", OBJ + ".pos_.route_.length_")
ret("SE_GetObjectInCameraFocus", ENT + "[player.viewer_.currentCarInFocus_].id_")
ret("SE_GetOptionSet", OPT + ".IsOptionArgumentSet($0)")
ret("SE_GetOptionValue", OPT + ".GetOptionValue($0,0)")
ret("SE_GetOptionValueByEnum", "GetOptionByEnum($0).GetValue(0)")
ret("SE_GetOptionValueByIndex", OPT + ".GetOptionValues($0)[$1]")
ret("SE_GetOptionValuesCount", OPT + ".GetOptionValues($0).#size")
for k in ("Bool", "Double", "Int", "String"):
    ret("SE_GetParameter" + k, P + ".getParameterValue%s($0,$1)" % k)
    ret("SE_GetVariable" + k, V + ".getParameterValue%s($0,$1)" % k)
    ret("SE_SetParameter" + k, P + ".setParameterValue($0,$1)")
    ret("SE_SetVariable" + k, V + ".setParameterValue($0,$1)")
ret("SE_GetParameter", P + ".getParameterValue($0.name,$0.value)")
ret("SE_GetVariable", V + ".getParameterValue($0.name,$0.value)")
ret("SE_SetParameter", P + ".setParameterValue($0.name,$0.value)")
ret("SE_SetVariable", V + ".setParameterValue($0.name,$0.value)")
ret("SE_GetSeed", "SE_Env::Inst::instance_.rand_.seed_")
ret("SE_GetSimulationTime", SIM)
ret("SE_GetSimulationTimeDouble", SIM)
ret("SE_GetParameterName", "GetParameterName($0,$1)")
ret("SE_GetVariableName", "GetParameterName($0,$1)")
ret("SE_GetSimTimeStep", "SE_getSimTimeStep(time_stamp,1/1000,1/10)")
ret("SE_GetTimeToCollision", OBJ + ".TimeToCollision(GetObjectById($1),$2,$3,$4,$5,10000000000)")
ret("SE_SimpleGetDistanceToObject", "player.scenarioEngine.GetDistance(" + OBJ + ",GetObjectById($1),$2,$3,$4,$5)")
ret("RM_GetIdOfRoadFromIndex", "GetRoadByIdx($0).id_")
ret("RM_GetInLaneType", "position[$0].GetInLaneType()")
ret("RM_GetJunctionIdFromString", "GetJunctionByIdStr($0).id_")
ret("RM_GetJunctionIdString", "GetJunctionById($0).id_str_")
ret("RM_GetRoadIdFromString", "GetRoadByIdStr($0).id_")
ret("RM_GetRoadIdString", "GetRoadById($0).id_str_")
ret("RM_GetRoadLength", "GetRoadById($0).length_")
ret("RM_GetNumberOfRoads", "odrManager.road_.#size")
ret("RM_GetNumberOfRoadsOverlapping", "position[$0].overlapping_roads.#size")
ret("RM_GetOverlappingRoadId", "position[$0].GetOverlappingRoadId($1)")
ret("RM_GetNumberOfRoadSigns", "GetRoadById($0).signal_.#size")
ret("RM_GetNumberOfRoadSignValidityRecords", "GetSignal($1).validity_.#size")
ret("RM_GetLaneType", "GetRoadById(position[$0].track_id_).GetLaneTypeByS(position[$0].s_,$1)")
ret("RM_GetLaneTypeByRoadId", "GetRoadById($0).GetLaneTypeByS($2,$1)")
ret("RM_GetSpeedLimit", "position[$0].GetSpeedLimit()")
ret("RM_GetSpeedUnit", "odrManager.speed_unit_")
ret("RM_GetOptionSet", OPT + ".IsOptionArgumentSet($0)")
ret("RM_GetOptionValue", OPT + ".GetOptionValue($0,0)")

# computations that fill the results: receiver(arguments)
CALLS = {}
for fn_, along in (("SE_GetRoadInfoAtDistance", 0), ("SE_GetRoadInfoAlongRoute", 1)):
    CALLS[fn_] = {"GetProbeInfo": [OBJ + ".pos_(%s,~,$3,%d)" % (d, along) for d in ("$1", "-$1")], "GetHRelativeDrivingDirection": [OBJ + ".pos_()"]}
CALLS["SE_GetRoadInfoAlongGhostTrail"] = {
    "FindClosestPoint": [OBJ + ".ghost_.trail_(" + OBJ + ".pos_.x_," + OBJ + ".pos_.y_,~)"], "FindPointAhead": [OBJ + ".ghost_.trail_(~,$1,~)"],
    "CalcProbeInfo": [OBJ + ".pos_(~)"], "XYZ2TrackPos": ["~(~.x,~.y,~)"]}
CALLS["SE_GetRoadInfoGhostTrailTime"] = {
    "FindPointAtTime": [OBJ + ".ghost_.trail_($1+-" + OBJ + ".ghost_.headstart_time_,~)"], "CalcProbeInfo": [OBJ + ".pos_(~)"], "XYZ2TrackPos": ["~(~.x,~.y,~)"]}
CALLS["SE_GetDistanceToObject"] = {"Delta": [OBJ + ".pos_(GetObjectById($1).pos_,~,1,1000)"], "FreeSpaceDistanceObjectRoadLane": [OBJ + "(GetObjectById($1),~,3)"]}
CALLS["SE_GetRoutePoint"] = {"GetDrivingLaneById": ["~(%s.s_,%s.lane_id_)" % ((OBJ + ".pos_.route_.all_waypoints_[$1]",) * 2)], "GetRoadById": ["~(%s.track_id_)" % (OBJ + ".pos_.route_.all_waypoints_[$1]")]}
CALLS["SE_GetParameterName"] = {"GetParameterName": ["player($0,$1)", P + "($0,$1)"]}
CALLS["SE_GetVariableName"] = {"GetParameterName": [V + "($0,$1)"]}
for lib_ in ("SE", "RM"):
    CALLS[lib_ + "_GetRoadSign"] = {"SetTrackPos": ["~($0,GetSignal($1).s_,GetSignal($1).t_,~)"], "SetTrackPosMode": ["~($0,GetSignal($1).s_,GetSignal($1).t_,~)"]}
CALLS["RM_GetLaneInfo"] = {"GetRoadLaneInfo": ["position[$0](%s,~,$3)" % d for d in ("$1", "-$1")], "GetHRelativeDrivingDirection": ["position[$0]()"]}
CALLS["RM_GetProbeInfo"] = {"GetProbeInfo": ["position[$0](%s,~,$3,0)" % d for d in ("$1", "-$1")], "GetHRelativeDrivingDirection": ["position[$0]()"]}
CALLS["RM_SubtractAFromB"] = {"Delta": ["position[$0](position[$1],~)"]}

FAIL = {"-1", "-2", "0", "4294967295", "''", "nanf('')", "nan('')", "1"}


class C(LibClient):
    max_inline = 5

    def __init__(self, prog, mn, suffix):
        LibClient.__init__(self, suffix)
        self.p = prog
        self.mn = mn
        self.vals = {}
        self.seen = {}

    def inline(self, eng, fn, n):
        return fn.file.endswith(self.suffix) or len(fn.blocks) <= 3

    def call(self, eng, st, n, q, recv, args):
        u = n.g("u")
        name = q.rsplit("::", 1)[-1]
        if self.calls and name in self.calls:
            got = "%s(%s)" % (al.path(recv) if recv is not None else "", ",".join(al.poly_str(eng.aval(st, a)) for a in args))
            self.seen.setdefault((name, got), n)
        if u in self.mn and len(self.p.fn(u).blocks) > 3:
            return [(st, ("mn", q.rsplit("::", 1)[-1], 0, tuple(eng.aval(st, a) for a in args)))]
        return None

    calls = None

    def write(self, eng, st, n, loc, val):
        if caller_memory(loc):
            p = al.path(loc)
            st.aux[("w", p)] = 1
            self.vals.setdefault(p, {}).setdefault(al.poly_str(val), n)

    def part(self, eng, st):
        v = st.tmp.get(("ret", eng.retctx))
        return frozenset(k for k in st.aux if k[0] == "w"), v is not None and fails(st, v)


def norm(want):
    if want.startswith("="):
        return al.pstr(al.expect(want[1:])).replace("O.pos_", OBJ + ".pos_")
    return want


def expand(want, got_idx):
    return want.replace("#]", got_idx + "]") if got_idx is not None else want


def index_of(path, key):
    """'$1[?].x' against '$1[#].x' -> '?'"""
    pre, _, post = key.partition("[#]")
    if path.startswith(pre + "[") and path.endswith("]" + post):
        return path[len(pre) + 1:len(path) - len(post) - 1]
    return None


def run(ctx):
    prog = ctx.program()
    mn = may_return_null(prog)
    n_un = 0
    try:
        for suf, pre in ((LIB, "SE_"), (RMLIB, "RM_")):
            for f in exported(prog, suf, pre):
                spec = F.get(f.name)
                if not spec:
                    continue
                ctx.count("queries analysed")
                al.PARAMS = {p: i for i, p in enumerate(f.params)}
                c = C(prog, mn, suf)
                c.calls = CALLS.get(f.name)
                eng = Engine(prog, c)
                exits = eng.run(f)
                for (name, got), node in c.seen.items():
                    ctx.count("computations analysed")
                    ok = any(re.fullmatch(re.escape(w).replace("\\~", ".*"), got.replace(" ", "")) for w in c.calls[name])
                    ctx.check(ok, "%s computes by %s" % (f.name, name), node.fn.loc(node), "%s is called as %s where %s is expected" % (name, got, " or ".join(c.calls[name])))
                where0 = f.loc()
                # what is stored
                for p, vals in sorted(c.vals.items()):
                    key = p if p in spec else next((k for k in spec if "[#]" in k and index_of(p, k) is not None), None)
                    if key is None:
                        continue
                    idx = index_of(p, key) if "[#]" in key else None
                    wants = [norm(w) for w in spec[key]]
                    if idx is not None:
                        wants = [w.replace("[#]", "[" + idx + "]") for w in wants]
                    for got, node in sorted(vals.items()):
                        if got == "?":
                            n_un += 1
                            continue
                        ok = any(al.matches(w, got) or al.matches(w, got.replace("[?]", "[" + (idx or "?") + "]")) for w in wants)
                        ctx.check(ok, "%s stores %s" % (f.name, key), node.fn.loc(node),
                                  "%s stores %s where %s is expected" % (key, got, " or ".join(wants)))
                # completeness on success
                outs = [k for k in spec if k != "ret"]
                for st, v in exits:
                    if outs:
                        if v is not None and fails(st, v):
                            continue
                        null = {"$%d" % i for i, p in enumerate(f.params) if query(st, ("init", ("v", 0, p, f.vars[p].name))) is False and f.vars[p].t.endswith("*")}
                        if v is None and null:
                            continue
                        written = {k[1] for k in st.aux if k[0] == "w"}
                        for k in outs:
                            if "[#]" in k:
                                ctx.check(any(index_of(p, k) is not None for p in c.vals), "%s fills %s" % (f.name, k), where0,
                                          "no path stores %s" % k)
                                continue
                            if k.split(".")[0].split("[")[0] in null:
                                continue
                            ctx.check(k in written, "%s fills %s" % (f.name, k), where0, "a path that reports success does not store %s" % k)
                # what is returned
                if "ret" in spec:
                    good = 0
                    for st, v in exits:
                        if v is None:
                            continue
                        got = al.poly_str(v)
                        if got == "?":
                            n_un += 1
                            good += 1
                            continue
                        ok = any(al.matches(w, got) or ("[#]" in w and al.matches(w.replace("[#]", "[0]"), got)) for w in spec["ret"])
                        good += ok
                        if ok or got not in FAIL:
                            ctx.check(ok, "%s returns" % f.name, where0, "returns %s where %s is expected" % (got, " or ".join(spec["ret"])))
                    ctx.check(good > 0, "%s has a reporting path" % f.name, where0, "no path returns %s" % " or ".join(spec["ret"]))
    finally:
        al.PARAMS = None
    ctx.count("values not traced", n_un)
    flags(ctx, prog)
    lane_changes(ctx, prog)
    lane_index(ctx, prog)
    lookups(ctx, prog)


def fails(st, v):
    if is_c(v):
        return not isinstance(v[1], (int, float)) or v[1] < 0 or v[1] == 0xffffffff
    return query(st, ("op", "<", v, ("c", 0))) is True


class T(Trace):
    limit = 14


G = lambda n: addr(("g", n))


def table(ctx, prog, name, answers, want, what, consts=None, lib=LIB):
    """result of an exported function when the named calls give the named answers"""
    f = next((x for x in exported(prog, lib, name[:3]) if x.name == name), None)
    if f is None:
        raise Broken("%s is gone" % name)

    def watch(nm, q, r, vals, n):
        a = answers.get(nm)
        if a is None:
            return quiet(nm, q, r, vals, n)
        if callable(a):
            a = a(r, vals)
            if a is None:
                return None
        return "", a
    rs = explore(prog, f, T(watch, (lib,)), dict({"player": 4096, "odrManager": 4096}, **(consts or {})))
    ctx.check(bool(rs), "%s: %s" % (name, what), f.loc(), "does not return")
    for r in rs:
        ctx.count("cases analysed")
        if r.ret is None or not is_c(r.ret):
            ctx.count("undetermined results")
            continue
        w, out = want if isinstance(want, tuple) else (want, None)
        ctx.check(r.ret[1] == w, "%s: %s" % (name, what), f.loc(), "returns %s instead of %s" % (r.ret[1], w))
        if out:
            v = r.value(out[0])
            ctx.check(not is_c(v) or v[1] == out[1], "%s: %s, result" % (name, what), f.loc(), "reports %s instead of %s" % (al.poly_str(v), out[1]))


C1, C0 = ("c", 1), ("c", 0)


def flags(ctx, prog):
    for fn, ask in (("SE_GetQuitFlag", "IsQuitRequested"), ("SE_GetPauseFlag", "IsPaused")):
        for v in (0, 1):
            table(ctx, prog, fn, {ask: ("c", v)}, v, "when %s is %d" % (ask, v))
    obj = lambda r, vals: G("OBJ")
    table(ctx, prog, "SE_ObjectHasGhost", {"GetObjectById": obj, "GetGhost": NULL}, 0, "without ghost")
    table(ctx, prog, "SE_ObjectHasGhost", {"GetObjectById": obj, "GetGhost": G("GHOST")}, 1, "with ghost")
    table(ctx, prog, "SE_GetObjectRouteStatus", {"GetObjectById": obj}, 0, "without route", {"OBJ.pos_.route_": 0})
    for on in (0, 1):
        table(ctx, prog, "SE_GetObjectRouteStatus", {"GetObjectById": obj, "GetRoute": G("ROUTE"), "OnRoute": ("c", on)}, 1 + on, "%s route" % ("on" if on else "off"), {"OBJ.pos_.route_": 4096})


def lane_changes(ctx, prog):
    """bit 0: the lane to the left, bit 1: the lane to the right; both have to exist and the mark in between has to allow it"""
    E = {n: enumval(prog, n, "RoadMarkLaneChange") for n in ("INCREASE", "DECREASE", "BOTH", "NONE_LANECHANGE")}
    for lane in (-2, -1, 1, 2):
        for side in (1, -1):                # 1: left, towards higher ids
            other = lane + side
            # the mark between two lanes is the outer one of the lane closer to the center
            mark = lane if abs(lane) < abs(other) else other
            for change, v in list(E.items()) + [(None, 0)]:
                for exists in (True, False):
                    def lanes(r, vals, exists=exists, other=other):
                        i = vals[1][1] if len(vals) > 1 and is_c(vals[1]) else None
                        if i is None:
                            return None
                        return G("LANE%d" % i) if i == lane or (exists and i == other) else NULL

                    def by_id(r, vals):
                        return G("LANE%d" % vals[0][1]) if is_c(vals[0]) else None
                    inner = mark
                    ans = {"GetObjectById": lambda r, vals: G("OBJ"), "GetRoadById": G("ROAD"), "GetDrivingLaneById": lanes, "GetLaneSectionByS": G("SEC"),
                           "GetLaneById": by_id, "GetNumberOfRoadMarks": C1 if change else C0,
                           "GetLaneRoadMarkByIdx": lambda r, vals: G("MARK" + r[4:]) if r and r.startswith("LANE") else None,
                           "GetLaneChange": lambda r, vals, inner=inner, v=v: ("c", v if r == "MARK%d" % inner else E["NONE_LANECHANGE"]),
                           "GetSOffset": C0, "GetS": C0}
                    ok = exists and other != 0 and (change in (None, "BOTH") or change == ("INCREASE" if side > 0 else "DECREASE"))
                    table(ctx, prog, "SE_ObjectCanChangeLanes", ans, (1 if side > 0 else 2) if ok else 0,
                          "lane %d, %s lane %s, road mark %s" % (lane, "left" if side > 0 else "right", "exists" if exists else "missing", change), {"OBJ.pos_.lane_id_": lane})


def lane_index(ctx, prog):
    """lanes are counted among those of the wanted type only"""
    for types in ((2, 2), (2, 4), (4, 2), (4, 4)):
        ans = {"GetRoadById": G("ROAD"), "GetLaneSectionByS": G("SEC"), "GetNumberOfLanes": ("c", 2),
               "GetLaneByIdx": lambda r, vals: G("LANE%d" % vals[0][1]) if is_c(vals[0]) else None,
               "GetLaneType": lambda r, vals: ("c", types[int(r[4:])]) if r and r.startswith("LANE") else None,
               "GetId": lambda r, vals: ("c", 70 + int(r[4:])) if r and r.startswith("LANE") else None}
        hit = [70 + i for i, t in enumerate(types) if t == 2]
        table(ctx, prog, "RM_GetRoadNumberOfLanes", ans, len(hit), "lane types %s" % (types,), {"$2": 2}, lib=RMLIB)
        for i in range(2):
            table(ctx, prog, "RM_GetLaneIdByIndex", ans, (0, ("$4.*", hit[i])) if i < len(hit) else -1, "lane types %s, index %d" % (types, i), {"$1": i, "$3": 2}, lib=RMLIB)


def lookups(ctx, prog):
    """the look-ups the queries rely on find exactly what is asked for"""
    S, R = "scenarioengine::", "roadmanager::"
    lookup.by_key(ctx, prog, S + "Entities::GetObjectById", "this.object_", "id_", [7, 3, 5], other="this.object_pool_")
    lookup.by_key(ctx, prog, S + "Entities::GetObjectByName", "this.object_", "name_", ["a", "b", "c"], other="this.object_pool_")
    lookup.by_key(ctx, prog, R + "OpenDrive::GetRoadById", "this.road_", "id_", [7, 3, 5])
    lookup.by_key(ctx, prog, R + "OpenDrive::GetRoadByIdStr", "this.road_", "id_str_", ["a", "b", "c"])
    lookup.by_key(ctx, prog, R + "OpenDrive::GetJunctionById", "this.junction_", "id_", [7, 3, 5])
    lookup.by_key(ctx, prog, R + "OpenDrive::GetJunctionByIdStr", "this.junction_", "id_str_", ["a", "b", "c"])
    lookup.by_key(ctx, prog, R + "LaneSection::GetLaneById", "this.lane_", "id_", [1, 0, -1])
    lookup.by_index(ctx, prog, R + "OpenDrive::GetRoadByIdx", "this.road_")
    lookup.by_index(ctx, prog, R + "LaneSection::GetLaneByIdx", "this.lane_")
    lookup.by_index(ctx, prog, R + "Road::GetSignal", "this.signal_")
    lookup.by_index(ctx, prog, R + "Position::GetOverlappingRoadId", "this.overlapping_roads", missing=0xffffffff, values=[11, 12, 13])
