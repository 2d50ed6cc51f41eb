"""Writes MANIFEST.json from the property list and the checks that exist."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import mkprops

TECH = "deterministic simulation with fault injection (seeded search, replayable)"
NOTE = {}


def note(id, text):
    NOTE[id] = text


MPI = ("Seeded random search, not exhaustive: assurance grows with the number of runs. Trusts the simulated MPI (reliable, "
       "ordered per channel, as the standard demands) and the oracle described in DESIGN.md. ")
note("C01", MPI + "Deadlock is exact (no rank can run); livelock is a step bound.")
note("C02", MPI + "Leftover messages are read off the transport when all ranks have returned; interference by comparison with the same call alone.")
note("C03", MPI + "Result and per-rank message content compared with a calm run of the same arguments.")
note("C04", MPI + "Conservation is exact where nothing is removed by design (3D, domain everywhere), containment elsewhere.")
note("C05", MPI + "Oracle: serial run and scipy Delaunay of the same points, checked only where no Delaunay edge skips a rank.")
note("C06", MPI + "Oracle: multiset equality of the points, reference slicing.")
note("C07", MPI + "Oracle: independent circumball computation (missing) and multiset of the neighbours' points (surplus).")
note("C08", MPI + "Oracle: multiset of cells by coordinates.")
note("C09", MPI + "Oracle: global sizing function over a neighbourhood of one h0.")
note("C10", MPI + "Oracle: independent mesh checker; overlap checks loosened in 3D with more than two ranks and where a vertex overtook a neighbour.")
note("C11", MPI + "File access is observed by the preloaded I/O shim; runs in which only rank 0 or only another rank enters the call show that nobody waits.")
note("C12", MPI + "Every message's communicator is observed by the transport.")
HOST = "Seeded random search over fault points and interleavings of the real code in one process, one forked process per run. "
note("C13", HOST + "Threads switch only at Python line boundaries chosen by the simulator; extension calls are atomic, as under the interpreter lock.")
note("C14", HOST + "Inputs are compared byte for byte with copies taken before the call.")
note("C15", HOST + "The fault index ranges over all calls the fault-free run makes.")
note("C16", MPI + "Faults that make one rank fail are those the property names.")
note("C17", HOST + "operator new called by the six extensions (interposed by call site) and numpy's array data allocation (PyDataMem_SetHandler) fail at chosen indices; pybind11's instance table, GMP and the interpreter are not starved.")
note("C18", HOST + "The I/O shim interposes libc calls for the files of the run; h5py/HDF5 and numpy run for real. Trusts the shim.")
note("C19", HOST + "The I/O shim interposes libc calls for the files of the run; h5py/HDF5 run for real. Trusts the shim.")
note("C26", HOST + "Oracle: multiset of points, exact orientation and in-circle determinants. A triangulation whose own operation ran out of memory is not used further; 3D histories end there.")

built = {f[:-3].upper() for f in os.listdir(os.path.join(here, "dst", "props")) if f.startswith("c") and f.endswith(".py")}
na = {d["property"]: d["reason"] for d in mkprops.NA}
checks, nas = [], []
for p in mkprops.P:
    i = p["id"]
    if i in built:
        checks.append(dict(property=i, quick_cmd=f"./run.sh check.py --property {i} --tier quick",
                           thorough_cmd=f"./run.sh check.py --property {i} --tier thorough",
                           technique=TECH, level="exploration", level_note=NOTE[i]))
    else:
        nas.append(dict(property=i, reason=na.get(i, "no check built yet")))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd='./run.sh -c "from dst import env, faults; print(env.ensure_ext()); faults.build()"', checks=checks, not_applicable=nas,
                   notes="No hooks in /repo: the communicator argument, the user callbacks, file names and library calls are the seams. See DESIGN.md."), f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(nas), "not applicable")
