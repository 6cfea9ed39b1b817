"""Write Gadget-style HDF5 snapshots and group files (inputs for the code under test)."""
import os
import h5py
import numpy as np


def write_snapshot(path, parts, boxsize, time=1.0, redshift=0.0, masstable=None, nfiles=1, splits=None, h=0.6774,
                   total=None, empty_groups=False):
    """parts: {ptype: dict(pos=, vel=, mass=, ids=)}; splits[ptype] = particle counts per file.
    path: prefix; one file -> path.hdf5, several -> path.<i>.hdf5.  Returns the list of files."""
    mt = np.zeros(6) if masstable is None else np.asarray(masstable, float)
    tot = np.zeros(6, np.int64)
    for p, d in parts.items():
        tot[p] = len(d["pos"])
    files = []
    off = {p: 0 for p in parts}
    for i in range(nfiles):
        fn = "%s.hdf5" % path if nfiles == 1 else "%s.%d.hdf5" % (path, i)
        files.append(fn)
        n = np.zeros(6, np.int64)
        with h5py.File(fn, "w") as f:
            for p, d in parts.items():
                c = len(d["pos"]) if nfiles == 1 else splits[p][i]
                n[p] = c
                if c == 0 and not empty_groups:
                    continue
                g = f.create_group("PartType%d" % p)
                sl = slice(off[p], off[p] + c)
                off[p] += c
                for key, name in (("pos", "Coordinates"), ("vel", "Velocities"), ("mass", "Masses"), ("ids", "ParticleIDs")):
                    if key in d and d[key] is not None:
                        g.create_dataset(name, data=d[key][sl])
            hd = f.create_group("Header")
            hd.attrs["Time"] = float(time); hd.attrs["Redshift"] = float(redshift)
            hd.attrs["BoxSize"] = float(boxsize); hd.attrs["NumFilesPerSnapshot"] = nfiles
            hd.attrs["Omega0"] = 0.3089; hd.attrs["OmegaLambda"] = 0.6911; hd.attrs["HubbleParam"] = h
            hd.attrs["MassTable"] = mt; hd.attrs["NumPart_ThisFile"] = np.int32(n)
            hd.attrs["NumPart_Total"] = np.uint32(tot if total is None else total); hd.attrs["Flag_Cooling"] = 1
    return files


def write_groups(dirname, files, snap="035", order=None):
    """files: list of dicts(group_len=[..], nsubs=[..], rvir=[..], r200=[..], sub_len=[..], ptype=1); lists may be
    (n,6) arrays for the lengths.  A file without groups / subhalos gets no such datasets."""
    os.makedirs(dirname, exist_ok=True)
    for i in (order if order is not None else range(len(files))):
        d = files[i]
        with h5py.File(os.path.join(dirname, "fof_subhalo_tab_%s.%d.hdf5" % (snap, i)), "w") as f:
            g = f.create_group("Group")
            s = f.create_group("Subhalo")
            def six(a):
                a = np.asarray(a, np.int64)
                if a.ndim == 2:
                    return a
                r = np.zeros((len(a), 6), np.int32)
                r[:, d.get("ptype", 1)] = a
                return r
            if len(d["group_len"]):
                g.create_dataset("GroupLenType", data=six(d["group_len"]))
                g.create_dataset("GroupNsubs", data=np.int32(d["nsubs"]))
                g.create_dataset("Group_R_TopHat200", data=np.float32(d["rvir"]))
                g.create_dataset("Group_R_Mean200", data=np.float32(d["r200"]))
            if len(d["sub_len"]):
                s.create_dataset("SubhaloLenType", data=six(d["sub_len"]))
            f.create_group("Header").attrs["NumFiles"] = len(files)
