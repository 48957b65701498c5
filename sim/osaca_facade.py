"""Stand-in for the expensive, I/O-heavy parts of OSACA.

Real: the assembly parsers, loop detection, marker search and marker generation.
Stubbed: the instruction database (8-10 s to load), throughput numbers, the textual report
(which contains a time stamp).  The stub's numbers are a pure function of the marked block.
"""
import copy
import hashlib
import os
import threading
import types

import osaca.osaca as real
import osaca.semantics as real_sem
import osaca.parser as real_parser
from osaca.semantics.marker_utils import reduce_to_section

_cache = {}
ARCHS = set(f[:-4] for f in os.listdir(os.path.join(os.path.dirname(real.__file__), 'data')) if f.endswith('.yml'))
PORTS = ['0', '0DV', '1', '2', '2D', '3', '3D', '4', '5']
_parsers = {}


class MemoParser(object):
    """Real OSACA parser; parsing the same text twice is answered from a table."""

    def __init__(self, key, parser):
        self.__dict__['_k'], self.__dict__['_p'] = key, parser

    def __getattr__(self, n):
        return getattr(self._p, n)

    def _parse(self, box, code, a, k):
        try:
            box.append(('ok', self._p.parse_file(code, *a, **k)))
        except Exception as e:  # noqa
            box.append(('err', type(e), e.args))

    def parse_file(self, code, *a, **k):
        key = (self._k, code)
        hit = _cache.get(key)
        if hit is None:
            # pyparsing leaves exceptions behind that keep all frames below alive (and with them
            # open files): parse in a thread that has no others
            box = []
            t = threading.Thread(target=self._parse, args=(box, code, a, k))
            t.start()
            t.join()
            hit = box.pop()
            if len(_cache) > 4000:
                _cache.clear()
            _cache[key] = hit
        if hit[0] == 'err':
            raise hit[1](*hit[2])
        return [copy.copy(i) for i in hit[1]]


class LazyIntel(object):
    """Building OSACA's Intel-syntax grammar takes 9 s.  AT&T text (which it rejects, and which is
    all the simulated compilers emit) is rejected here; anything else gets the real parser."""
    _real = None

    def parse_file(self, code, *a, **k):
        if '%r' in code or '%x' in code or '%y' in code or '%e' in code:
            raise ValueError('not Intel syntax')
        return self._get().parse_file(code, *a, **k)

    def _get(self):
        if LazyIntel._real is None:
            LazyIntel._real = MemoParser(('x86', 'INTEL'), real_parser.get_parser('x86', syntax='INTEL'))
        return LazyIntel._real

    def __getattr__(self, n):
        return getattr(self._get(), n)


def get_parser(isa, syntax='ATT'):
    key = (isa.lower(), (syntax or '').upper())
    p = _parsers.get(key)
    if p is None and key == ('x86', 'INTEL'):
        p = _parsers[key] = LazyIntel()
    if p is None:
        p = _parsers[key] = MemoParser(key, real_parser.get_parser(isa, syntax=syntax) if isa.lower() == 'x86'
                                       else real_parser.get_parser(isa))
    return p


class MachineModel(object):
    def __init__(self, arch=None, *a, **k):
        self.arch = arch
        if arch is None:
            raise ValueError('One of arch, path_to_yaml and isa must be specified')
        if arch.lower() not in ARCHS:
            raise FileNotFoundError('Could not find %r in the data of OSACA.' % (arch.lower() + '.yml'))
        self._d = {'ports': PORTS}

    def __getitem__(self, k):
        return self._d[k]

    @staticmethod
    def get_isa_for_arch(arch):
        return 'aarch64' if str(arch).lower() in ('a64fx', 'tx2', 'n1') else 'x86'


class ArchSemantics(object):
    def __init__(self, parser=None, machine_model=None, *a, **k):
        self.mm = machine_model

    def normalize_instruction_forms(self, forms):
        for i in forms:
            i.normalized = True

    def add_semantics(self, forms):
        pass

    def assign_optimal_throughput(self, forms, *a, **k):
        pass

    def get_throughput_sum(self, forms):
        h = hashlib.sha256(('%s\n' % self.mm.arch).encode())
        for i in forms:
            h.update(i.line.strip().encode() + b'\n')
        d = h.digest()
        return [d[i] / 8.0 for i in range(len(PORTS))]


class ISASemantics(object):
    def __init__(self, *a, **k):
        pass

    def process(self, forms):
        """AT&T convention: the last operand is written, all others are read."""
        for f in forms:
            so = {'source': [], 'destination': [], 'src_dst': []}
            ops = list(f.operands or [])
            m = (f.mnemonic or '').lower()
            if ops and m and not m.startswith(('j', 'cmp', 'test', 'prefetch', 'call', 'ret', 'nop')):
                so['source'], so['destination'] = ops[:-1], ops[-1:]
                if m.startswith(('add', 'sub', 'inc', 'dec')):
                    so['destination'], so['src_dst'] = [], ops[-1:]
            else:
                so['source'] = ops
            f.semantic_operands = so


class KernelDG(object):
    def __init__(self, kernel, parser, mm, sem, *a, **k):
        self.kernel = kernel

    def get_loopcarried_dependencies(self):
        return {}

    def get_critical_path(self):
        return []


class Frontend(object):
    def __init__(self, filename='', arch=None, *a, **k):
        self.arch = arch

    def full_analysis(self, kernel, graph, *a, **k):
        return 'OSACA report (simulated) arch=%s\n%s\n' % (
            self.arch, '\n'.join(i.line for i in kernel))


def build_osaca(box):
    m = types.ModuleType('osaca.osaca')
    m.get_version = lambda: '0.7.1'
    m.MachineModel, m.ArchSemantics, m.KernelDG, m.Frontend = \
        MachineModel, ArchSemantics, KernelDG, Frontend
    m.reduce_to_section = reduce_to_section
    m.get_unmatched_instruction_ratio = lambda kernel: 0.0
    m.get_asm_parser = lambda arch, syntax='ATT': get_parser(MachineModel.get_isa_for_arch(arch), syntax)
    return m


def build_semantics(box):
    m = types.ModuleType('osaca.semantics')
    for k in dir(real_sem):
        setattr(m, k, getattr(real_sem, k))
    m.MachineModel, m.ISASemantics, m.ArchSemantics, m.KernelDG = \
        MachineModel, ISASemantics, ArchSemantics, KernelDG
    m.__path__ = real_sem.__path__
    return m


def build_parser(box):
    m = types.ModuleType('osaca.parser')
    for k in dir(real_parser):
        setattr(m, k, getattr(real_parser, k))
    m.get_parser = get_parser
    m.__path__ = real_parser.__path__
    return m


EXTRA = {'osaca.osaca': build_osaca, 'osaca.semantics': build_semantics, 'osaca.parser': build_parser}
