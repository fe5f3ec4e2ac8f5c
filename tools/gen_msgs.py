#!/usr/bin/env python3
"""Writes C++ message structs (a small stand-in for rosidl).

    gen_msgs.py REPO OUTDIR

The definitions of the standard ROS messages are below; those of ndt_2d itself are read from
REPO/msg and REPO/srv, so that a change to them is seen by the checks."""
import os
import re
import sys

STD = {
    "std_msgs/msg/Header": "builtin_interfaces/Time stamp\nstring frame_id",
    "std_msgs/msg/ColorRGBA": "float32 r\nfloat32 g\nfloat32 b\nfloat32 a",
    "geometry_msgs/msg/Point": "float64 x\nfloat64 y\nfloat64 z",
    "geometry_msgs/msg/Point32": "float32 x\nfloat32 y\nfloat32 z",
    "geometry_msgs/msg/Vector3": "float64 x\nfloat64 y\nfloat64 z",
    "geometry_msgs/msg/Quaternion": "float64 x 0\nfloat64 y 0\nfloat64 z 0\nfloat64 w 1",
    "geometry_msgs/msg/Pose": "Point position\nQuaternion orientation",
    "geometry_msgs/msg/Pose2D": "float64 x\nfloat64 y\nfloat64 theta",
    "geometry_msgs/msg/PoseStamped": "std_msgs/Header header\nPose pose",
    "geometry_msgs/msg/PoseArray": "std_msgs/Header header\nPose[] poses",
    "geometry_msgs/msg/PoseWithCovariance": "Pose pose\nfloat64[36] covariance",
    "geometry_msgs/msg/PoseWithCovarianceStamped": "std_msgs/Header header\nPoseWithCovariance pose",
    "geometry_msgs/msg/Transform": "Vector3 translation\nQuaternion rotation",
    "geometry_msgs/msg/TransformStamped": "std_msgs/Header header\nstring child_frame_id\nTransform transform",
    "nav_msgs/msg/MapMetaData": "builtin_interfaces/Time map_load_time\nfloat32 resolution\nuint32 width\n"
                                "uint32 height\ngeometry_msgs/Pose origin",
    "nav_msgs/msg/OccupancyGrid": "std_msgs/Header header\nMapMetaData info\nint8[] data",
    "sensor_msgs/msg/LaserScan": "std_msgs/Header header\nfloat32 angle_min\nfloat32 angle_max\n"
                                 "float32 angle_increment\nfloat32 time_increment\nfloat32 scan_time\n"
                                 "float32 range_min\nfloat32 range_max\nfloat32[] ranges\nfloat32[] intensities",
    "visualization_msgs/msg/Marker": "int32 ARROW=0\nint32 CUBE=1\nint32 SPHERE=2\nint32 CYLINDER=3\n"
                                     "int32 LINE_STRIP=4\nint32 LINE_LIST=5\nint32 CUBE_LIST=6\n"
                                     "int32 SPHERE_LIST=7\nint32 POINTS=8\nint32 TEXT_VIEW_FACING=9\n"
                                     "int32 MESH_RESOURCE=10\nint32 TRIANGLE_LIST=11\n"
                                     "int32 ADD=0\nint32 MODIFY=0\nint32 DELETE=2\nint32 DELETEALL=3\n"
                                     "std_msgs/Header header\nstring ns\nint32 id\nint32 type\nint32 action\n"
                                     "geometry_msgs/Pose pose\ngeometry_msgs/Vector3 scale\n"
                                     "std_msgs/ColorRGBA color\nbuiltin_interfaces/Duration lifetime\n"
                                     "bool frame_locked\ngeometry_msgs/Point[] points\n"
                                     "std_msgs/ColorRGBA[] colors\nstring text\nstring mesh_resource\n"
                                     "bool mesh_use_embedded_materials",
    "visualization_msgs/msg/MarkerArray": "Marker[] markers",
}
PRIM = {"bool": "bool", "byte": "uint8_t", "char": "uint8_t", "float32": "float", "float64": "double",
        "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t",
        "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t",
        "string": "std::string"}
BUILTIN = {"builtin_interfaces/Time", "builtin_interfaces/Duration"}


def snake(name):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", name).lower().replace("2_d", "2d")


def parse(text, pkg):
    consts, fields = [], []
    for line in text.split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"(\w+)\s+(\w+)\s*=\s*(.+)$", line)
        if m:
            consts.append(m.groups())
            continue
        parts = line.split(None, 2)
        ty, name = parts[0], parts[1]
        default = parts[2].strip() if len(parts) > 2 else None
        m = re.match(r"([\w/]+?)(?:<=\d+)?(\[(?:<=)?(\d*)\])?$", ty)
        base, arr, n = m.group(1), m.group(2), m.group(3)
        if base not in PRIM and "/" not in base:
            base = pkg + "/" + base
        if base not in PRIM:
            p = base.split("/")
            base = p[0] + "/" + p[-1]
        fields.append((base, arr, n if arr and "<=" not in arr else "", name, default))
    return consts, fields


def emit(struct, text, pkg, deps):
    consts, fields = parse(text, pkg)
    out = [f"struct {struct}", "{"]
    for ty, name, value in consts:
        out.append(f"  static constexpr {PRIM[ty]} {name} = {value};")
    visit = []
    for base, arr, n, name, default in fields:
        if base in PRIM:
            ct = PRIM[base]
        else:
            deps.add(base)
            p, t = base.split("/")
            ct = f"::{p}::msg::{t}"
        if arr and n:
            out.append(f"  std::array<{ct}, {n}> {name}{{}};")
        elif arr:
            out.append(f"  std::vector<{ct}> {name};")
        elif default is not None:
            out.append(f"  {ct} {name} = {default};")
        else:
            out.append(f"  {ct} {name}{{}};")
        visit.append(f"    f({name});")
    out += [f"  using SharedPtr = std::shared_ptr<{struct}>;",
            f"  using ConstSharedPtr = std::shared_ptr<{struct} const>;",
            f"  using UniquePtr = std::unique_ptr<{struct}>;",
            "  template <class F> void visit([[maybe_unused]] F & f)", "  {"] + visit + ["  }", "};"]
    return out


def write(path, deps, body, pkg, kind):
    incs = []
    for d in sorted(deps):
        if d in BUILTIN:
            continue
        p, t = d.split("/")
        incs.append(f"#include <{p}/msg/{snake(t)}.hpp>")
    text = "\n".join(["#pragma once", "#include <array>", "#include <cstdint>", "#include <memory>",
                      "#include <string>", "#include <vector>", "#include <stub/time.hpp>"] + incs +
                     [f"namespace {pkg} {{ namespace {kind} {{"] + body + ["} }", ""])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def main(repo, outdir):
    msgs = dict(STD)
    d = os.path.join(repo, "msg")
    for f in sorted(os.listdir(d)):
        if f.endswith(".msg"):
            msgs["ndt_2d/msg/" + f[:-4]] = open(os.path.join(d, f)).read()
    for full, text in msgs.items():
        pkg, _, name = full.split("/")
        deps = set()
        body = emit(name, text, pkg, deps)
        deps.discard(pkg + "/" + name)
        write(os.path.join(outdir, pkg, "msg", snake(name) + ".hpp"), deps, body, pkg, "msg")
    d = os.path.join(repo, "srv")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".srv"):
            continue
        req, _, res = open(os.path.join(d, f)).read().partition("---")
        name = f[:-4]
        deps = set()
        body = emit(name + "_Request", req, "ndt_2d", deps) + emit(name + "_Response", res, "ndt_2d", deps)
        body += [f"struct {name}", "{", f"  using Request = {name}_Request;",
                 f"  using Response = {name}_Response;", "};"]
        write(os.path.join(outdir, "ndt_2d", "srv", snake(name) + ".hpp"), deps, body, "ndt_2d", "srv")


main(sys.argv[1], sys.argv[2])
