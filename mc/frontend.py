"""Calls the TypeScript code of /repo through node."""
import json
import os
import subprocess

import numpy as N

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"


def call(cases, script="frontend.js"):
    p = subprocess.run(["node", "--max-old-space-size=4096", os.path.join(HERE, "js", script), REPO], input=json.dumps(cases), capture_output=True, text=True, env=dict(os.environ, NODE_PATH=""))
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout)


def decode(lonlat, traditional, upper, degrees):
    """Directions in space from the longitudes and latitudes of a layout"""
    a = N.array(lonlat, dtype=float).reshape(-1, 2)
    if degrees:
        a = N.radians(a)
    lon, lat = a.T
    y, x, z = N.cos(lat) * N.sin(lon), N.cos(lat) * N.cos(lon), N.sin(lat)
    if not upper:
        z = -z
    return N.array([y, z, x] if traditional else [y, -x, z]).T


def encode(v, traditional, upper):
    """Inverse of decode, degrees"""
    v = N.asarray(v, dtype=float)
    v = v / N.linalg.norm(v)
    if traditional:
        y, z, x = v
    else:
        y, x, z = v
        x = -x
    if not upper:
        z = -z
    return [float(N.degrees(N.arctan2(y, x))), float(N.degrees(N.arcsin(max(-1, min(1, z)))))]
