"""Quick probes: small changes that break a property, run against its check (no demo, not kept in seeded/).
python3 tools/seed/probe.py [names]"""
import os, shutil, subprocess, sys, tempfile, time
MIG = "SeismicMesh/migration/migration.py"
GEN = "SeismicMesh/generation/mesh_generator.py"
GUT = "SeismicMesh/generation/utils.py"
GEO = "SeismicMesh/geometry/utils.py"
SIZ = "SeismicMesh/sizing/mesh_size_function.py"
BLK = "SeismicMesh/decomp/blocker.py"
CPP = "SeismicMesh/migration/cpp/cpputils.cpp"
SDF = "SeismicMesh/geometry/signed_distance_functions.py"
P = []


def pr(id, props, *edits):
    P.append((id, props.split(), edits))


pr("local-empty-check", "C16 C01", (GEN, "    if comm.size > 1 and comm.allreduce(len(p), op=MPI.MIN) == 0:\n", "    if comm.size > 1 and len(p) == 0:\n"))
pr("iprobe-above", "C03 C02", (MIG, "    if rank != size - 1:\n        new_points.append(comm.recv(source=rank + 1, tag=11))\n",
   "    if rank != size - 1 and comm.iprobe(source=rank + 1, tag=11):\n        new_points.append(comm.recv(source=rank + 1, tag=11))\n"))
pr("extents-once", "C10 C05 C04", (GEN, "            extents = _form_extents(p, h0, comm, gen_opts)\n            p, t, inv", "            if count == 0:\n                extents = _form_extents(p, h0, comm, gen_opts)\n            p, t, inv"))
pr("ghosts-by-received", "C04 C10", (GEN, "    recv_ix = len(p) - num_local\n", "    recv_ix = len(recv)\n"))
pr("r0m-local", "C09", (GEN, "        r0m = comm.allreduce(r0m, op=MPI.MIN)\n", "        r0m = min(r0m, h0) if comm.size > 8 else r0m\n"))
pr("collinear-first", "C05 C07", (CPP, "      // std::cout<<\"point is collinear\" << std::endl;\n      continue;", "      break;"))
pr("hull-3d-left", "C05 C07 C10", (CPP, "  for (auto &f : hull_facets<3>(faces)) {\n", "  for (auto &f : hull_facets<3>(faces)) {\n    if (rank == 0) break;\n"))
pr("radius-float", "C05 C07", (CPP, "    double sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);\n", "    float sqr_radius = CGAL::squared_radius(pnm1, pnm2, pnm3, pnm4);\n"))
pr("tight-ball", "C05 C07", (CPP, "(1.0 + 1e-9)", "(1.0 - 1e-3)"))
pr("reduce-in-termination", "C01", (GEN, "    if comm.rank == 0 and opts[\"perform_checks\"]:\n", "    if opts[\"perform_checks\"] and comm.size > 1 and (comm.rank == 0 or dim == 2):\n        comm.barrier()\n    if comm.rank == 0 and opts[\"perform_checks\"]:\n"))
pr("offset-nonempty", "C08", (MIG, "        csum_p = np.cumsum(off_p)\n", "        csum_p = np.cumsum(np.maximum(off_p, 1))\n"))
pr("halo-one", "C09", (MIG, "min - 3 * h0, max + 3 * h0", "min - h0, max + h0"))
pr("halo-none-clamped", "C09", (MIG, "min - 3 * h0, max + 3 * h0", "min, max + h0"), (MIG, "bounds_error=False, fill_value=None", "bounds_error=False, fill_value=float(lh.min())"))
pr("fill-h0", "C09", (MIG, "bounds_error=False, fill_value=None", "bounds_error=False, fill_value=h0"))
pr("skip-final-clip", "C10", (GEN, "                t = _remove_triangles_outside(p, t, fd, h0 * 0.001)\n", ""))
pr("stat-on-ranks", "C11", (SIZ, "    opts.update(kwargs)\n    if comm.rank == 0:\n", "    opts.update(kwargs)\n    if not os.path.exists(filename):\n        raise FileNotFoundError(filename)\n    if comm.rank == 0:\n"), (SIZ, "import warnings\n", "import os\nimport warnings\n"))
pr("world-rank-segy", "C12 C11", (SIZ, "    error = None\n    if comm.rank == 0:\n", "    error = None\n    if MPI.COMM_WORLD.rank == 0:\n"))
pr("world-rank-write", "C12 C11", (SIZ, "    opts.update(kwargs)\n    if comm.rank == 0:\n", "    opts.update(kwargs)\n    if MPI.COMM_WORLD.rank == 0:\n"))
pr("world-verbose", "C12", (GEN, "        maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()\n", "        maxdp = delta_t * np.sqrt((Ftot**2).sum(1)).max()\n        if gen_opts[\"verbose\"] > 1 and comm.size > 1:\n            MPI.COMM_WORLD.allreduce(maxdp, op=MPI.MAX)\n"))
pr("generator-pep479", "C15", (GEN, "        dgrads = [(fd(p[ix] + _deps_vec(i)) - d[ix]) / deps for i in range(dim)]\n        dgrad2 = sum(dgrad**2 for dgrad in dgrads)\n", "        dgrads = np.vstack(list((fd(p[ix] + _deps_vec(i)) - d[ix]) / deps for i in range(dim)))\n        dgrad2 = (dgrads**2).sum(axis=0)\n"))
pr("rng-global", "C13", (GEN, "    rng = np.random.RandomState(opts[\"seed\"])\n", "    rng = np.random\n    rng.seed(opts[\"seed\"])\n"))
pr("rng-module", "C13", (GEN, "    rng = np.random.RandomState(opts[\"seed\"])\n", "    rng = _RNG\n    rng.seed(opts[\"seed\"])\n"), (GEN, "def _check_all_have_points", "_RNG = np.random.RandomState()\n\n\ndef _check_all_have_points"))
pr("water-in-place", "C14", (SIZ, "                vp = vp.copy()\n", ""))
pr("units-in-place", "C14", (SIZ, "            vp = vp * 1000.0\n", "            vp *= 1000.0\n"))
pr("courant-in-place", "C13 C14", (SIZ, "    return np.where(cr_old > cr_max, dxn, cell_size)\n", "    vp *= dt / (dim * cr_max)\n    return np.where(cr_old > cr_max, vp, cell_size)\n"))
pr("pop-option", "C14 C13", (SIZ, "    sz_opts.update(kwargs)\n", "    sz_opts.update(kwargs)\n    sz_opts[\"axes_order\"] = sz_opts[\"axes_order\"] if isinstance(sz_opts[\"axes_order\"], tuple) else (sz_opts[\"axes_order\"].sort() or tuple(sz_opts[\"axes_order\"]))\n"))
pr("sliver-in-place", "C14", (GEN, "        p, t = _get_topology(dt)\n        t = _sort_cells(t)\n\n        pold = p.copy()\n", "        q, t = _get_topology(dt)\n        t = _sort_cells(t)\n        if len(q) == len(p):\n            p[:] = q\n        else:\n            p = q\n\n        pold = p.copy()\n"))
pr("smooth-memory", "C17", (GEN, "            p, t = geometry.laplacian2_fixed_point(p, t)\n", "            try:\n                p, t = geometry.laplacian2_fixed_point(p, t)\n            except MemoryError:\n                pass\n"))
pr("checks-memory", "C17", (GEN, "            p, t = geometry.laplacian2_fixed_point(p, t)\n", "            try:\n                q = p.copy()\n                p, t = geometry.laplacian2_fixed_point(p, t)\n            except MemoryError:\n                p = q\n"))
pr("blocker-uncaught", "C16", (GEN, "            except Exception as e:\n                error = e\n        # either all", "            except AssertionError as e:\n                error = e\n        # either all"))
pr("diverge-local", "C16", (GEN, "        if comm.size > 1:\n            converges = comm.allreduce(converges, op=MPI.LAND)\n", ""))
pr("diverge-nan", "C16 C01", (GEN, "        converges = bool(maxdp < 1000 * h0)\n", "        converges = not maxdp >= 1000 * h0\n"))
pr("segy-oserror", "C16", (SIZ, "        except Exception as e:\n            error = e\n    else:", "        except (ValueError, RuntimeError) as e:\n            error = e\n    else:"))
pr("other-endian", "C18", (SIZ, "    count = nz * nx * ny + 1\n", "    count = nz * nx * ny\n"))
pr("h5-direct", "C19", (SIZ, "        image = io.BytesIO()\n        with h5py.File(image, \"w\") as f:\n", "        image = io.BytesIO()\n        with h5py.File(ofname, \"w\") as f:\n"), (SIZ, "        with open(ofname, \"wb\") as file:\n            file.write(image.getbuffer())\n", ""))
pr("raw-write", "C19", (SIZ, "        with open(ofname, \"wb\") as file:\n            file.write(image.getbuffer())\n", "        fd = os.open(ofname, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)\n        try:\n            os.write(fd, image.getbuffer())\n        finally:\n            os.close(fd)\n"), (SIZ, "import warnings\n", "import os\nimport warnings\n"))
pr("no-truncate", "C19", (SIZ, "        with open(ofname, \"wb\") as file:\n", "        with open(ofname, \"r+b\" if os.path.exists(ofname) else \"wb\") as file:\n"), (SIZ, "import warnings\n", "import os\nimport warnings\n"))
pr("close-error", "C19", (SIZ, "        with open(ofname, \"wb\") as file:\n            file.write(image.getbuffer())\n", "        file = open(ofname, \"wb\")\n        file.write(image.getbuffer())\n"))
pr("flush-handler", "C19", (SIZ, "        with open(ofname, \"wb\") as file:\n            file.write(image.getbuffer())\n", "        try:\n            with open(ofname, \"wb\") as file:\n                file.write(image.getbuffer())\n        except InterruptedError:\n            warnings.warn(\"interrupted\")\n        except OSError as e:\n            if e.errno != 5:\n                raise\n"))
pr("mmap-read", "C18", (SIZ, "            vp[:, index] = trace\n", "            vp[:, index] = trace\n            if index == 0 and not trace.any():\n                break\n"))
pr("segy-memory", "C18", (SIZ, "        for index, trace in enumerate(f.trace):\n            vp[:, index] = trace\n", "        try:\n            for index, trace in enumerate(f.trace):\n                vp[:, index] = trace\n        except OSError:\n            if index < nx - 1:\n                raise\n"))
pr("corner-fixed", "C10 C03", (GEN, "        Ftot[ifix] = 0  # Force = 0 at fixed points\n", "        Ftot[ifix] = 0  # Force = 0 at fixed points\n        if comm.size > 1 and count == 0:\n            p = p + 1e-3 * h0 * (comm.rank % 2)\n"))
pr("points-cast", "C06", (BLK, "    x = points[:, axis]\n", "    points = points.astype(\"f4\").astype(points.dtype)\n    x = points[:, axis]\n"))
pr("unsorted-extents", "C06", (BLK, "        block_extents.append([*np.amin(block, axis=0), *np.amax(block, axis=0)])\n", "        block_extents.append([*block[0], *block[-1]])\n"))

if __name__ == "__main__":
    only = sys.argv[1:]
    for id, props, edits in P:
        if only and id not in only:
            continue
        w = tempfile.mkdtemp(prefix="probe.")
        try:
            shutil.copytree("/repo", w + "/r", symlinks=True)
            bad = False
            for f, old, new in edits:
                s = open(f"{w}/r/{f}").read()
                if s.count(old) < 1:
                    print(id, "DOES NOT APPLY", old[:80], flush=True); bad = True; break
                open(f"{w}/r/{f}", "w").write(s.replace(old, new))
            for p in [] if bad else props:
                t = time.time()
                r = subprocess.run(["./run.sh", "check.py", "--property", p], cwd="/verif", env=dict(os.environ, DST_REPO=w + "/r", VERIF_SEED="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out = [x for x in r.stdout.splitlines() if not x.startswith(("case:", "decisions", "VIOLATION"))]
                print(id, p, r.returncode, f"{time.time() - t:.0f} s", (out or [""])[-1][:160], flush=True)
        finally:
            shutil.rmtree(w)
