BUILDS = {"full": "full,argmin", "min": "argmin"}
COMMON_ASSUMPTIONS = [
 "rayon closures run atomically, one at a time, in any order (model crate); data races inside a closure are excluded by Rust's type system",
 "third-party local optimisers are replaced by models returning arbitrary results within the stated value grids",
 "files live in an in-memory file system with POSIX semantics for the calls std makes; crashes are process crashes, not power loss",
 "random numbers come from the real StdRng (ChaCha12) executed concretely for the stated seeds",
]
def I(entry, cfgs, covers=(), thorough=False, build="full", **kw):
    return [dict(entry=entry, cfg=c, covers=list(covers), build=build, thorough=thorough, **kw) for c in cfgs]
STATE = "an arbitrary mid-run state (threshold, counters, 1 or 41 known solutions, current solution), then up to 4 iterations with arbitrary grid candidates and results"
KILL = STATE + ", killed in any iteration (also twice) and resumed"
LONG = "12-40 iterations, batches of 1-20, three symbolic results (objective and place) among concrete ones, 1 or 9 dimensions"
CHECKS = {
"C01": dict(note="up to 5 local searches with results on a grid of 33 objective values (plus NaN, +inf) x 25 points, batches of 1, 2 and 3 iterations.",
  instances=I("h_set", [64, 65, 66, 72, 88, 192, 200, 216, 8256, 8384, 16448, 16472, 32832], bounds="4 stage-2 iterations; objectives k/8 in [-2,2], NaN, +inf; points k/2 in [-6,6]", what="arbitrary local results through OQNLP::run")
   + I("h_set", [64], build="min", bounds="no optional features") + I("h_state", [2, 66, 2114, 6210, 16390], covers=["new best"], bounds=STATE) + I("h_long", [0, 3, 11, 131, 8227, 4099], covers=["new best", "as good"], bounds=LONG) + I("h_set", [96, 97, 224], thorough=True)),
"C02": dict(note="up to 5 local searches with results on a grid of 33 objective values x 25 points, tolerance absolute 0.5 or relative 0.25, distance factor 1.",
  instances=I("h_set", [64, 65, 192, 66, 320, 193, 8256, 8257, 8384, 65600, 65601, 65664, 32833, 32928], covers=["two solutions kept", "separated"], bounds="4 stage-2 iterations; objectives k/8 in [-2,2]; points k/2 in [-6,6]") + I("h_state", [2050, 2114, 4162, 6210, 514, 3], covers=["as good"], bounds=STATE) + I("h_long", [3, 11, 43, 32, 68, 96, 8192, 4096], covers=["new best", "as good", "duplicate"], bounds=LONG) + I("h_long", [28], covers=["duplicate"], bounds=LONG, thorough=True) + I("h_set", [96, 97, 2368], thorough=True)),
"C03": dict(note="up to 5 local searches with points on a grid of 25 values in and around the bounds, NaN coordinates, one to three dimensions.",
  instances=I("h_set", [68, 69, 324, 580, 581, 1348, 2340, 4164, 4165], covers=["exclusion", "no solution"]) + I("h_state", [130, 194, 706, 8386, 32898], covers=["excluded"], bounds=STATE) + I("h_long", [1024, 1027, 1059, 5120], covers=["excluded"], bounds=LONG) + I("h_target", [76]) + I("h_set", [76, 1092, 2372, 2373], covers=["exclusion", "no solution"], thorough=True)),
"C04": dict(note="targets on a grid of 17 values, up to 5 local searches with arbitrary grid results, NaN and +inf.",
  instances=I("h_target", [64, 65, 66, 68, 69, 72, 76, 88, 192, 193, 196, 200], covers=["reached in stage 1", "reached in stage 2", "not reached"]) + I("h_target", [64], build="min") + I("h_state", [32834, 33026, 32898, 32835], covers=["target reached"], bounds=STATE) + I("h_long", [2048, 2051, 2054], covers=["target reached"], bounds=LONG) + I("h_target", [96, 97, 104, 108], thorough=True)),
"C05": dict(note="4-5 reference points with arbitrary grid objectives (and NaN), up to 5 local searches, wait cycles 1-2.",
  instances=I("h_gate", [4, 8, 5, 24, 36, 40], covers=["search in stage 2"]) + I("h_gate", [9], time=200) + I("h_gate", [4, 8], build="min")
   + I("h_state", [1, 2, 5, 6, 22, 66, 70, 194, 130, 258, 514, 259, 706, 1090, 2114, 4162, 16390, 326, 3, 771, 323, 67], covers=["passes", "rejected"], bounds=STATE) + I("h_state", [8386], covers=["passes"], bounds=STATE) + I("h_state", [262145, 262146, 262147, 262402], covers=["passes", "rejected"], bounds=STATE + "; distances within 2^-28 of the distance factor") + I("h_state", [195, 707, 1091], thorough=True, bounds=STATE) + I("h_long", [0, 6, 11], bounds=LONG) + I("h_long", [0], build="min", bounds=LONG) + I("h_gate", [12], thorough=True)),
"C06": dict(note="populations of 4-5 with up to 2 symbolic trial points, objectives on a grid of 17 values plus NaN/inf; generators for every parent pair and bound pair on a grid and for every double.",
  instances=I("h_scatter", [0, 4, 8, 16, 20, 32, 128, 144, 528, 1024, 1025, 1041, 1026, 1043, 1040, 2048, 2052, 2064, 2176]) + I("h_combine", [0, 1, 16, 2, 4, 5], covers=["combined"]) + I("h_sample", [0, 1], covers=["sampled"]) + I("h_mid", [0], covers=["seeds"], time=400, solver_ms=120000) + I("h_mid", [1], covers=["extreme"]) + I("h_scatter", [0, 4, 8], build="min")
   + I("h_scatter", [1, 5, 36, 40, 44, 4096, 8196, 132], thorough=True)),
"C07": dict(note="3-6 stage-2 iterations, batches of 1-4, up to 5 local searches with arbitrary grid results; every interleaving of each batch's closures for batches of 2-3.",
  instances=I("h_det", [64, 65, 82, 84, 85, 86, 87, 88, 89, 99, 2130, 2146, 2132, 2131, 2147], covers=["three searches", "two solutions"]) + I("h_detref", [1, 2, 4, 17, 18, 20, 49, 65, 3, 67, 129, 130, 131, 132, 257, 258, 260, 289, 513, 514, 516], covers=["compared"])
   + I("h_det", [83, 1107], thorough=True) + I("h_detref", [19], thorough=True)),
"C08": dict(note="every f64 / integer / enum field of the checkpoint symbolic (all values), reference sets of up to 3 points; file sets of up to 4 checkpoints with symbolic iteration numbers.",
  instances=I("h_roundtrip", [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 25, 89, 153], covers=["round trip"]) + I("h_latest", [0, 1, 4, 5, 12, 13, 14, 20, 28, 29, 61, 30], covers=["latest"]) + I("h_trunc", [0], covers=["reported"])),
"C09": dict(note="a crash at every file-system operation of a save (writes torn at every byte boundary class), with and without an earlier checkpoint, keep_all on and off.",
  instances=I("h_crash", [0, 1, 2, 3, 4, 5, 8, 9, 16], covers=["hit", "completed"])),
"C10": dict(note="a crash at every file-system operation of a run of 3-4 iterations with arbitrary grid local results, checkpoint frequency 1-2, sequential and batched.",
  instances=I("h_resume", [0, 1, 4, 8, 32, 33, 64, 128, 129, 160, 161, 192, 2432, 4224, 16384, 16385, 16386, 16512, 20608, 20481, 20480], covers=["crash", "no crash", "resumed", "fresh start"])
   + I("h_kill", [1, 2, 6, 22, 66, 70, 278, 534, 23, 134, 8326, 32774, 65542, 131094, 2118, 1090, 262422, 262410, 262146], covers=["killed"], bounds=KILL) + I("h_long", [512, 515, 523, 2560], covers=["killed", "resumed"], bounds=LONG) + I("h_long", [538, 8704], covers=["killed", "resumed"], bounds=LONG, thorough=True) + I("h_state", [2, 66, 70, 258, 130, 514, 2114, 4162, 32834, 33026], bounds=STATE)
   + I("h_resume", [2, 544, 2180, 2304, 4096], thorough=True)),
"C11": dict(note="runs of 3-4 iterations with arbitrary grid local results; iterations, target, tolerance and the other parameters changed between the runs.",
  instances=I("h_extend", [0, 1, 4, 32, 128, 129, 160], covers=["extended"]) + I("h_modify", [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 17, 18], covers=["searched"]) + I("h_noresume", [0, 1], covers=["ignored"])
   + I("h_extend", [2, 16], thorough=True)),
"C12": dict(note="2-5 stage-2 iterations, populations of 5 (fresh) or 8 (resumed), local results on a grid of 17 objectives plus NaN/inf, 0-2 evaluations per search, virtual clock.",
  instances=I("h_obs", [0, 1, 2, 128, 129, 130, 48, 49], covers=["improved", "not improved", "stage 1"], bounds="2-3 iterations, all observer frequencies 0-3") + I("h_obs", [8, 512, 513, 528], covers=["improved", "not improved"]) + I("h_obs", [4, 8192, 8193, 8208], covers=["stage 1"])
   + I("h_obs", [64, 65, 66], covers=["target reached"]) + I("h_obs", [1024, 1026, 1152, 1154, 5120], covers=["improved", "candidate rejected"]) + I("h_obs", [12, 2048, 16388, 16392, 65536]) + I("h_obs", [32768, 32769, 32770], covers=["evaluation fails", "stage 1"]) + I("h_long", [256, 261, 1283], covers=["new best"], bounds=LONG) + I("h_obs", [0, 1024, 64], build="min")
   + I("h_obsresume", [0, 1, 2, 5, 16, 17, 18, 32], covers=["resumed"])
   + I("h_obs", [256, 257, 258, 384, 385, 192, 193, 194, 9344, 5248, 1281, 304], thorough=True) + I("h_obsresume", [4, 6, 8, 20, 33, 48], thorough=True)),
"C13": dict(note="frequencies 0-3, 2-5 stage-2 iterations, batches of 1-3, accepted and rejected candidates decided by symbolic results.",
  instances=I("h_obs", [0, 1, 2, 8, 128, 129, 130, 1024, 1025, 1026, 1152, 1153, 1154], covers=["callbacks"]) + I("h_obs", [1154, 1026], covers=["candidate rejected"]) + I("h_obs", [64, 65, 66], covers=["target reached"]) + I("h_obs", [4, 12, 16388, 16392, 16393, 65536, 65537, 65538, 65540]) + I("h_obs", [0, 1024, 64, 16392], build="min") + I("h_long", [256, 261, 264], covers=["new best"], bounds=LONG)
   + I("h_obsresume", [0, 1, 2, 5, 16, 17, 18], covers=["resumed"])
   + I("h_obs", [256, 257, 258, 384, 385, 1280, 1281, 1282], thorough=True) + I("h_obsresume", [4, 6, 8, 20], thorough=True)),
"C14": dict(note="every 64-bit pattern of every value; 1-2 dimensions, 0-3 constraints, up to 2 evaluations per search.",
  instances=I("h_cobyla", [0, 1, 2, 3, 7, 9, 11, 16, 17, 25, 48], covers=["solved", "failed"]) + I("h_cobyla", [32, 33, 49, 64, 65], covers=["rejected"]) + I("h_cobyla", [1, 11], covers=["solved", "failed"], build="min") + I("h_solver", [9, 25, 41, 73], covers=["run"])
   + I("h_cobyla", [4, 5, 6, 8, 10, 12, 13, 14, 15, 24, 31], thorough=True)),
"C15": dict(note="every 64-bit pattern of every setting and value; 1-2 dimensions, up to 2 evaluations per search, one rejected setting per run.",
  instances=I("h_argmin", [2, 34], covers=["initial simplex fails"]) + I("h_argmin", list(range(9)) + [16 + 32 + 128 + i for i in range(9)] + [256 + 16 + i for i in range(9)], covers=["solved", "no solution", "failed"]) + I("h_argmin", [64 + i for i in range(9)], covers=["rejected", "solved"])
   + I("h_mismatch", [0], covers=["match", "mismatch"]) + I("h_solver", list(range(9)) + [16, 34, 35, 21, 39, 64 + 1, 64 + 20, 64 + 8], covers=["run"])
   + I("h_argmin", [32 + i for i in range(9)] + [128 + 64 + 32 + i for i in range(9)], thorough=True) + I("h_solver", [16 + i for i in range(9)] + [32 + i for i in range(9)], thorough=True)),
"C16": dict(note="time limits k/4 s in [0,3], each local search taking 0, 0.5 or 1 s, 4 iterations.",
  instances=I("h_time", [64, 65, 66, 192, 320, 321, 576, 577], covers=["stopped by the limit", "limit not reached"]) + I("h_time", [96, 97], thorough=True)),
"C17": dict(note="every value of population, iterations, wait cycle, seed and factors for validation; populations 4-5, iterations 0, 1 and the population, six batch modes, extreme factors, arbitrary wait cycles for running.",
  instances=I("h_validate", [0], covers=["accepted", "population", "iterations", "threshold", "distance"]) + I("h_extreme", [0, 1, 4, 5, 24, 28, 32, 64, 256, 284], covers=["run"]) + I("h_extreme", [0, 4, 28, 96], covers=["run"], build="min")
   + I("h_extreme", [2, 3, 128, 512, 96, 352], thorough=True)),
"C18": dict(note="constraint values in {-1,0,1,NaN} at the first 1-3 points, one or two constraints.",
  instances=I("h_constraints", [0, 1, 2, 5, 8, 17, 33, 64, 69, 256, 257, 260, 261, 264, 277, 512, 513, 516, 517, 524, 548, 533, 128, 144], covers=["feasible", "infeasible", "seed kept", "seed dropped"]) + I("h_constraints", [5, 261, 517], covers=["feasible", "infeasible"], build="min") + I("h_constraints", [149, 390], covers=["feasible", "infeasible"], thorough=True)),
"C19": dict(note="every pair of doubles for validation; one custom point on a grid of 65 positions with arbitrary grid objectives for use.",
  instances=I("h_points", [0, 1], covers=["accepted", "out of bounds"]) + I("h_points", [2], covers=["dimension"]) + I("h_custom", [0, 4, 16, 17, 20, 32, 33, 48, 49, 53, 97, 113], covers=["custom"]) + I("h_custom", [0, 16, 49], covers=["custom"], build="min")),
"C20": dict(note="every pair of doubles as the bounds of the second of two dimensions.",
  instances=I("h_bounds", [0, 1, 2, 3], covers=["valid", "invalid"])),
"C21": dict(note="every position of one failing evaluation (first 10) or local search (first 4).",
  instances=I("h_error", [0, 1], covers=["evaluation error", "success"]) + I("h_error", [4, 5, 6, 36, 37, 38], covers=["local solver error"])),
"C22": dict(note="up to 3 solutions with arbitrary doubles; every ASCII text of length 0-2, 5, 6, 8-11 and 15.",
  instances=I("h_solutions", [0], covers=["empty"]) + I("h_solutions", [1, 2, 3, 4], covers=["best"]) + I("h_names", [5, 6, 8, 9, 10, 11, 15], covers=["known"]) + I("h_names", [69, 70, 72, 73, 74, 75, 79], covers=["known", "unknown"]) + I("h_names", [64, 65, 66], covers=["unknown"])
   + I("h_names", [67, 68, 71, 76, 77, 78, 80], thorough=True)),
}
