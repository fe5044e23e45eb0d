"""Snapshots written with known content and read back, for binary and HDF5 snapshots of one or several files."""
from common import *
import struct
import tempfile
import h5py
from cosmic_profiles.common import config
from cosmic_profiles.gadget import readgadget

NAMES = {'POS ': 'Coordinates', 'VEL ': 'Velocities', 'MASS': 'Masses', 'ID  ': 'ParticleIDs'}


def header(npart, nall, massarr, time, z, nfiles):
    h = struct.pack('<6i', *[int(k) for k in npart]) + struct.pack('<6d', *massarr) + struct.pack('<2d', time, z) + struct.pack('<2i', 0, 0)
    h += struct.pack('<6I', *[int(k) for k in nall]) + struct.pack('<2i', 0, nfiles) + struct.pack('<4d', 50.0, 0.3, 0.7, 0.7)
    return h + b'\0' * (256 - len(h))


def write_binary(path, fmt, blocks, swap=False):
    with open(path, 'wb') as f:
        for name, data in blocks:
            if fmt == 2:
                f.write(struct.pack('<i', 8) + name.encode() + struct.pack('<ii', len(data) + 8, 8))
            f.write(struct.pack('<I', len(data)) + data + struct.pack('<I', len(data)))


def once():
    nf = int(rng.integers(1, 4))
    hdf5 = bool(rng.random() < 0.5)
    npart = rng.integers(0, 6, (nf, 6)) * (rng.random((nf, 6)) < 0.7)
    if rng.random() < 0.3:
        npart[:, rng.integers(0, 6)] = rng.choice([1, 3])
    massarr = np.where(rng.random(6) < 0.5, rng.uniform(0.1, 9, 6), 0.0)
    time = float(rng.uniform(0.2, 1.0)) if rng.random() < 0.8 else 1.0
    z = 1 / time - 1
    nall = npart.sum(axis=0)
    fmt = int(rng.choice([1, 2]))
    long_ids = bool(rng.random() < 0.5)
    top = 2**63 if long_ids else 2**32
    cont = [{t: {'POS ': rng.uniform(0, 50, (npart[i, t], 3)), 'VEL ': rng.normal(0, 200, (npart[i, t], 3)),
                 'ID  ': rng.integers(0, top, npart[i, t], dtype=np.uint64), 'MASS': rng.uniform(0.1, 9, npart[i, t])} for t in range(6)} for i in range(nf)]
    d = tempfile.mkdtemp(dir=WORK)
    base = os.path.join(d, 'snap_007')
    absent = {}
    for i in range(nf):
        if hdf5:
            with h5py.File(base + ('.hdf5' if nf == 1 else '.%d.hdf5' % i), 'w') as f:
                H = f.create_group('Header')
                for k, v in dict(Time=time, Redshift=z, BoxSize=50.0, NumFilesPerSnapshot=nf, Omega0=0.3, OmegaLambda=0.7, HubbleParam=0.7, MassTable=massarr,
                                 NumPart_ThisFile=npart[i].astype(np.int32), NumPart_Total=nall.astype(np.uint32), Flag_Cooling=0).items():
                    H.attrs[k] = v
                for t in range(6):
                    if npart[i, t] == 0:
                        continue
                    g = f.create_group('PartType%d' % t)
                    for b, nm in NAMES.items():
                        if b == 'MASS' and massarr[t] > 0:
                            continue
                        if i == 0 and absent == {} and rng.random() < 0.03:
                            absent[t, b] = True
                        if (t, b) not in absent:
                            v = cont[i][t][b]
                            g[nm] = v.astype(np.uint32) if b == 'ID  ' and not long_ids else v
        else:
            blocks = [('HEAD', header(npart[i], nall, massarr, time, z, nf))]
            for b in ('POS ', 'VEL ', 'ID  ', 'MASS'):
                ts = [t for t in range(6) if b != 'MASS' or massarr[t] == 0]
                data = np.concatenate([cont[i][t][b] for t in ts]) if ts else np.zeros(0)
                blocks.append((b, (data.astype(np.uint64 if long_ids else np.uint32) if b == 'ID  ' else data).tobytes()))
            write_binary(base if nf == 1 else base + '.%d' % i, fmt, blocks)
    unit = [float(u) for u in 10**rng.uniform(-2, 2, 3)]
    config.updateInUnitSystem(unit[0] * 1e24, unit[1] * 1e43, unit[2] * 1e5, 0.7)
    L, Mi, V = config.getLMVInternal()
    fac = {'POS ': config.InUnitLength_in_cm / L, 'MASS': config.InUnitMass_in_g / Mi, 'VEL ': config.InUnitVelocity_in_cm_per_s / V * np.sqrt(time), 'ID  ': 1}
    with_ids = bool(np.any(nall > 0))
    for b in NAMES:
        for _ in range(3):
            pts = [int(t) for t in rng.permutation(6)[:rng.integers(1, 4)]]
            if b == 'ID  ' and not hdf5 and not nall.any():
                continue
            inp = dict(files=nf, hdf5=hdf5, fmt=fmt, long_ids=long_ids, npart=npart, massarr=massarr, time=time, block=b, ptype=pts, units=unit)
            lacking = [t for t in pts if (t, b) in absent and nall[t] > 0]
            want = []
            for t in pts:
                for i in range(nf):
                    want.append(np.full(npart[i, t], massarr[t]) if b == 'MASS' and massarr[t] > 0 else cont[i][t][b])
            try:
                got = readgadget.read_block(base, b, pts)
            except BaseException as e:
                if lacking:
                    continue
                found('read_block raised %s: %s' % (type(e).__name__, str(e)[:200]), trace=traceback.format_exc()[-1500:], **inp)
            if lacking:
                found('read_block: a block that is not in the file was returned', result=got, **inp)
            want = np.concatenate(want)
            if b == 'ID  ':
                if got.shape != want.shape or any(int(x) != int(y) for x, y in zip(got, want)):
                    found('read_block: other particle IDs than in the files', result=got, want=want, **inp)
            elif not same(got, want * fac[b], 1e-12):
                found('read_block: other values than in the files', result=got, want=want * fac[b], **inp)
    if nf > 1 or True:
        try:
            readgadget.read_block(base, 'XYZ ', [1])
        except BaseException:
            pass
        else:
            found('read_block returned a block of unknown name')
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    os.rmdir(d)


CASES = int(os.environ.get('CPV_CASES', '1000000'))
k = 0
while more() and k < min(CASES, 4000):
    k += 1
    once()
print('no difference in %d cases' % k)
