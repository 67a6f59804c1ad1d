"""Stand-ins for the tools kerncraft asks about the host: likwid-topology, likwid-bench, machine-state.sh, cpu frequency."""
import contextlib
import io
import subprocess as real_subprocess

TOPOLOGY = '''--------------------------------------------------------------------------------
CPU name:\tsynthetic
CPU type:\t{type}
CPU stepping:\t4
********************************************************************************
Hardware Thread Topology
********************************************************************************
Sockets:\t\t{sockets}
Cores per socket:\t{cps}
Threads per core:\t{tpc}
--------------------------------------------------------------------------------
HWThread        Thread        Core        Die        Socket        Available
0               0             0            0          0             *
--------------------------------------------------------------------------------
********************************************************************************
Cache Topology
********************************************************************************
{caches}********************************************************************************
NUMA Topology
********************************************************************************
NUMA domains:\t\t{numa}
--------------------------------------------------------------------------------
'''


def topology(type='Synthetic A', sockets=1, cps=2, tpc=1, numa=1, caches=((32, 2), (256, 2), (4096, 1))):
    out = ''
    for n, (kb, groups) in enumerate(caches):
        size = '%d kB' % kb if kb < 1024 else '%d MB' % (kb // 1024)
        out += 'Level:\t\t\t%d\nSize:\t\t\t%s\nCache groups:\t\t%s\n' % (n + 1, size, ' '.join('( %d )' % g for g in range(groups)))
        out += '-' * 80 + '\n'
    return TOPOLOGY.format(type=type, sockets=sockets, cps=cps, tpc=tpc, numa=numa, caches=out)


BENCH = '''load - Double-precision load, only scalar operations
load_avx - Double-precision load, optimized for AVX
load_mem - Double-precision load, memory
copy - Double-precision vector copy, only scalar operations
copy_avx - Double-precision vector copy, optimized for AVX
copy_sp - Single-precision vector copy
update - Double-precision vector update, only scalar operations
triad - Double-precision triad A(i) = B(i) * C(i) + D(i), only scalar operations
triad_avx512 - Double-precision triad
daxpy - Double-precision linear combination
'''


class Interrupt(KeyboardInterrupt):
    pass


class System:
    """World seen by kerncraft: measured bandwidths, interruption point, log of measurements."""

    def __init__(self, stop_at=None, stop_with=Interrupt, bw=None, **topo):
        self.topo = topology(**topo)
        self.stop_at, self.stop_with = stop_at, stop_with
        self.log = []
        self.bw = bw or (lambda cmd: 1000.0 + sum(ord(c) * (i % 7 + 1) for i, c in enumerate(' '.join(cmd))) % 9973 + 0.25)
        self.freq = 2200.0
        self.state = 'machine state of the synthetic host\n  kernel   x\n'
        self.cpuinfo = 'processor : 0\nmodel name : Synthetic CPU @ 2.20GHz\n'

    def check_output(self, cmd, stderr=None, **kw):
        if isinstance(cmd, str):
            return self.state.encode()
        if cmd[0] == 'likwid-topology':
            return self.topo.encode()
        if cmd[:2] == ['likwid-bench', '-a']:
            return BENCH.encode()
        assert cmd[0] == 'likwid-bench', cmd
        if self.stop_at is not None and len(self.log) >= self.stop_at:
            raise self.stop_with()
        self.log.append(list(cmd))
        if 'avx512' in cmd[2]:
            raise real_subprocess.CalledProcessError(1, cmd)
        return ('some text\nMByte/s:\t\t%.2f\nCycles: 3\n' % self.bw(cmd)).encode()

    def cpu_freq(self):
        class F:
            current = self.freq
        return F

    def open(self, name, *a, **kw):
        if name == '/sys/kernel/mm/transparent_hugepage/enabled':
            return io.StringIO('always [madvise] never\n')
        if name == '/proc/cpuinfo':
            return io.StringIO(self.cpuinfo)
        return open(name, *a, **kw)

    @contextlib.contextmanager
    def active(self):
        import kerncraft.machinemodel as mm

        class Sub:
            check_output = self.check_output
            CalledProcessError = real_subprocess.CalledProcessError
            STDOUT = real_subprocess.STDOUT
            PIPE = real_subprocess.PIPE
            DEVNULL = real_subprocess.DEVNULL

        class Ps:
            cpu_freq = self.cpu_freq
        old = {n: mm.__dict__.get(n) for n in ('subprocess', 'psutil', 'open')}
        clear()
        mm.subprocess, mm.psutil, mm.open = Sub, Ps, self.open
        try:
            yield self
        finally:
            for n, v in old.items():
                if v is None:
                    delattr(mm, n)
                else:
                    setattr(mm, n, v)
            clear()


def clear():
    import kerncraft.machinemodel as mm
    for n in dir(mm):
        f = getattr(mm, n)
        if hasattr(f, 'cache_clear'):
            f.cache_clear()
