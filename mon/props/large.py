"""The workloads of other modules with many or big items: vertices, paths, pixels, points, images, electrodes, constraints, steps,
samples, polygons, lines. Where the code works in chunks, tables or with limits, small cases do not show it."""
from .. import gen
from ..core import scenario
from ..registry import MODULES
import importlib

# pid -> scenario functions and their number of cases
TABLE = {
    "E01": {"polygon_vs_solid_angle": 6}, "E02": {"point_pixels_vs_series": 10}, "E03": {"image_sum": 8},
    "E04": {"superposition": 24, "batch_and_layout": 12, "accumulate_into_out": 8}, "E05": {"kernels_agree": 4},
    "E06": {"mesh_from_system": 10}, "E07": {"interpolation": 12, "generated_derivatives": 8}, "E08": {"from_result": 4, "from_vtk": 4},
    "U01": {"expand_select": 30}, "U02": {"rotate": 30}, "U03": {"harmonics": 20}, "U04": {"area_centroid": 30},
    "S01": {"pseudo": 4}, "S02": {"combined": 1, "individual": 2}, "S03": {"temporary_voltages": 12, "accessors": 8},
    "S04": {"lookup": 12, "group": 12}, "S06": {"modes": 6}, "S08": {"optimize": 5, "shims": 4}, "S09": {"waveforms": 5},
    "S10": {"plot": 6, "voltages": 4}, "S12": {"crystal": 4}, "T03": {"registration": 40},
    "P01": {"from_to_system": 30, "to_from_system": 30}, "P02": {"overlaps": 30, "gaps": 30, "simplify": 20},
    "P03": {"layout": 60, "arrangement": 30}, "P04": {"gds_round_trip": 30, "gds_clip": 15},
    "P05": {"pads": 30, "filters": 30, "unions": 20, "restricts": 15}, "G01": {"grid_maps": 12, "unstructured": 4},
    "X01": {"xic": 16},
}
POINTS = {"superposition": (3, 65, 129), "batch_and_layout": (2049, 4097), "accumulate_into_out": (1024, 2049)}


def make(pid, name, cases):
    def run(c):
        fn = getattr(importlib.import_module("mon.props."+MODULES[pid]), name)
        old = gen.LARGE, gen.NPTS
        gen.LARGE, gen.NPTS = True, POINTS.get(name, (3, 511, 1024, 2049, 4097))
        try:
            fn(c)
        finally:
            gen.LARGE, gen.NPTS = old
    run.__name__ = "large_"+name
    scenario(pid, quick=cases, thorough=cases*25)(run)


for _pid in sorted(TABLE):
    for _name in sorted(TABLE[_pid]):
        make(_pid, _name, TABLE[_pid][_name])
