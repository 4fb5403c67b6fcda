#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties the simulator claims."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK = "d157be5"
import subprocess
CLAIMED = {
 'C01','C02','C03','C04','C05','C06','C07','C08',
 'C09','C10','C11','C12','C13',
 'C14','C15','C16','C17','C18','C19',
 'C20','C21','C22','C23','C24','C25','C26','C27','C28','C29','C30','C31','C32','C33','C34','C35','C36','C37','C38','C39','C40',
}
NOTES = {
 'C01': "Seeded search over writer/reader/poll interleavings and transparent I/O faults (short reads, EINTR) on the real CsvRealtimePlotter over a simulated disk, against an independent CSV reference.",
 'C02': "Rotation, truncation, deletion and return of the file placed between any two system calls of a poll; inode reuse, missing birth times. Excludes in-place rewrites that never shrink below what was read.",
 'C03': "Hard I/O faults at any system call of any poll, then faults stop and one clean poll must converge to the reference.",
 'C04': "Row alignment, cap and missing-column behaviour checked after every poll under rotation, schema change, switching and faults.",
 'C05': "set_y_columns at any moment, compared with a fresh plotter on the same frozen file.",
 'C06': "The real run_forever loop in its own simulated thread with virtual time; image compared byte for byte with a render of the reference rows and each curve checked to be an affine image of its column. System fonts are read from the host.",
 'C09': "Real optimiser with real std threads on the simulated scheduler; the same optimisation in order and under random schedules (partly preempted at single machine instructions), alone and together with others, must agree bit for bit; all worker streams distinct.",
 'C10': "Every sample call recorded; injected worker panics, thread-creation failures, unknown CPU counts; partition, step and failure reporting checked from the record.",
 'C11': "Scripted samplers returning NaN, infinite, huge, tiny and zero bursts; the stopping criteria are recomputed from the recorded samples with rounding margins.",
 'C12': "Stop and restart from copies, alternation with other optimisers, panicking samplers; every draw compared with the reference stream.",
 'C13': "Generators with seeds solved for extreme outputs, saved and resumed and used from several threads, in f16, f32, f64 and f128, against a reference xorshift64*.",
 'C20': "Polling loops on a simulated clock that stalls, jumps and lands on and next to targets, with crash/restore from saved copies; reference recomputed per check.",
 'C21': "Same loops for recurring schedules on both sides of 1970 with jumps up to centuries; independent calendar reference.",
 'C22': "Random divisions of time from nanoseconds to decades, against a 128-bit reference counter; sets compared with lone timers; restarts.",
 'C23': "Free-running 64-bit tick counter of any rate polled through wrap-around with gaps, stalls and restarts.",
 'C24': "Each conversion single-stepped and interrupted at a chosen machine instruction by a handler that changes the leap-second setting.",
 'C25': "Simulated receiver over decades of rollovers with outages and restarts from saved or stale week numbers.",
 'C07': "The real viewer application (compiled from its binary's source) driven frame by frame with a real egui context; the window system and the plot widget are stubs that record what is drawn. Clicks on check boxes, file events between and inside frames, faults at any system call; every drawn point compared with the file.",
 'C08': "Same viewer under varying frame rates, with files appearing, vanishing, rotating, becoming unreadable or lacking columns; freshness and poll rate bounds checked in simulated time, failures must be on screen. Start-up with an unusable file is out of scope.",
 'C14': "Catalogue files replaced or rewritten in place by an actor between any two system calls of a verified load; corrupted, torn and extended files; records compared with those of a byte sequence that has the expected digest.",
 'C15': "Short, interrupted and failing reads at every offset of a load; malformed rows placed anywhere; records compared with an independent CSV reference.",
 'C16': "Real logging types, real threads on the simulated scheduler, short and interrupted writes, clock steps; the file is parsed and compared with the recorded calls.",
 'C17': "Disk errors, full disk and partial writes at any write, and a crash at any system call; what survives is parsed row by row.",
 'C18': "Nested, concurrent, early-exit and unwinding spans with the system clock stepping; durations compared with simulated time.",
 'C19': "Random sysfs-like trees with cycles, hot-unplug between any two system calls and faulty reads; the answer is checked against what existed.",
 'C26': "Values of every serialisable type, alone and in sequences, written as bincode (three configurations) and JSON (two libraries) to a simulated disk with full, failing and crash-cut writes and read back through short, interrupted, failing and torn reads; bit-for-bit comparison or an error is required.",
 'C28': "Real plotting calls on one to three simulated threads against failing opens and writes; the image is compared with the data point by point and with that of a fault-free call. System fonts are read from the host.",
 'C31': "Simulated nodes with skewed and stepping clocks exchanging stamps over a lossy, reordering, duplicating network; a second set of books in 128-bit nanoseconds must agree at every step.",
 'C29': "Real loggers and the real live plotter on simulated threads sharing one simulated file; every poll compared with the recorded logging calls. A logger restarted in place must be followed by a poll before new samples (a file rewritten to its old length between polls is indistinguishable by design).",
 'C30': "Every callback call recorded and the recorded history checked against the documented iteration with rounding margins, in f64, f32 and f16; panics at any call. Settings are finite and bounds ordered.",
 'C32': "The real kernels with the standard library's feature-detection cache rewritten before each run to one of six processor models; racing first calls under seeded preemption (between instructions in part of the runs), every stepped instruction decoded against the model; operands against guard pages; exact sums in 128-bit floats. Sums near overflow and signs of zeros are not judged; x86-64 only (ARM kernels cannot run here).",
 'C33': "Training sessions crashed, restored, migrated, run concurrently under instruction-granular preemption and interrupted by a signal handler that trains another model; bit-for-bit against the uninterrupted session, whose every update is judged against the documented one within a rounding bound (decisions too close to call and values near overflow are not judged). Restoring is done by the harness from the public fields, as a user would.",
 'C34': "Perceptron corrections counted against the exact margin bound under lossy, duplicating, reordering delivery; fits compared with a reference descent; batch classifiers against their definitions under two delivery orders. Convergence share: 2 % of the reachable decrease in f64, 10 % in f32. Near-ties between classes and near-singular covariances are not judged.",
 'C35': "Simulated vehicles with jittery gyro ticks and a lossy network; every composition, inversion, conversion and integration step compared with independent rotation matrices within a rounding bound, and the far end with the exact rotation of the whole history. Matrices that are not rotations and Taylor steps beyond half a radian are not judged.",
 'C36': "Position reports carried over generated routes of frames, notations and times; every hop compared with independent formulas, the far end with the truth. One known finding (body_to_ned is transposed and an existing test asserts it). Heights from -100 km to 100,000 km.",
 'C37': "Generated drag histories through a lossy event queue; after every event the direction, axes, eye, read-out and view matrix are compared with the event's independent rotation. Camera closer to the target than a thousandth of their distance from the origin is not judged; handedness of look_at is taken as documented by the code.",
 'C38': "Vehicles docked, cut, moved and turned in generated orders and tanks fed lossy gauge reports; mass, volume, density, centre and inertia compared with independent sums over the parts. Cuts that leave only rounding of the mass are not judged.",
 'C39': "Normal equations summed from a lossy, duplicating, reordering network (whole numbers, so exactly checkable), estimators restored and merged, every solver judged by exact integer determinants and inverses. Refusals are judged for condition below 1e3 (single) or 1e6 (double).",
 'C40': "Samples received out of order, with losses and doubles, interpolated at, next to, between and beyond the samples; independent natural spline and Lagrange polynomial as reference. Samples at least a thousandth apart.",
 'C27': "Element decoders failing at any element; every constructed element counted and must be dropped exactly once, and the result must equal the input or be an error.",
}
PURE = {}
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l)
    PURE[d['id']] = d
checks, na = [], []
for i, d in PURE.items():
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": f"./bin/check run {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./bin/check run {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded schedule/fault search, oracle-checked, replayable)",
            "level": "exploration",
            "level_note": NOTES[i] + " Not exhaustive: absence of a violation is evidence over the explored seeds only.",
        })
    elif i.startswith('P'):
        na.append({"property": i, "reason": "Pure single-threaded numeric function of its arguments: no scheduling, time, I/O, randomness or failure for a simulator to control; simulation would only be random input testing."})
    else:
        na.append({"property": i, "reason": "Scenario not built yet."})
try:
    full = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', HOOK], text=True).strip()
except Exception:
    full = HOOK
json.dump({
    "version": 1,
    "setup_cmd": "./bin/check setup",
    "hooks": {"guard": "cfg(aether_sim)", "enable": "RUSTFLAGS=\"--cfg aether_sim\"", "source_commits": [full]},
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. bin/check builds sim/ (path dependencies on /repo's crates) and runs the seeded search; replays land in replays/.",
}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
