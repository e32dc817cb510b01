"""Stand-ins for the file libraries, as source text bound into the project.

They state the documented contract of ``netCDF4`` and ``h5py`` that the writers
and readers rely on: a variable holds what was assigned to it in the shape of
its dimensions, attributes are kept by name, a file opened for reading has what
was written to it.  The interpretation follows the calls of the package into
this text; nothing is executed.
"""
import ast
from .project import Module, Func, Class, AnalysisError

TEXT = '''
import io
import vfs
import re
import numpy as np

class Path(object):
    def __init__(self, name):
        self.stem = name
        self.name = name
        self.content = None
        self.lines = []
        self.packed = None
    def open(self, mode='r', encoding=None):
        return textfile(self, mode)
    def read(self):
        raise AttributeError(self)
    def relative_to(self, other):
        raise ValueError(other)
    def home(self):
        return self
    @property
    def parent(self):
        return Path('.')
    def joinpath(self, *names):
        for n in names:
            if n is None:
                raise TypeError(n)
        return located(names[-1])
    def __truediv__(self, name):
        return self.joinpath(name)
    def expanduser(self):
        return self
    def absolute(self):
        return self
    def resolve(self):
        return self
    def exists(self):
        return True
    def is_file(self):
        return self.exists()
    def read_text(self, encoding=None):
        return self.open(mode='r').read()
    def write_text(self, text, encoding=None):
        f = self.open(mode='w')
        f.write(text)
        f.close()
        return None

class Folder(Path):
    """a directory: what is written under a name is found under the name"""
    def __init__(self, name, given, known, inside=None):
        self.name = name
        self.inside = inside
        self.given = given
        self.known = known
        self.content = None
        self.lines = []
        self.packed = None
        self.there = name in given
        if name in given:
            self.lines = given[name]
    @property
    def stem(self):
        return '.'.join(self.name.split('.')[:-1])
    @property
    def parent(self):
        return self.inside
    def with_name(self, name):
        return self.inside.joinpath(name)
    def joinpath(self, *names):
        at = self
        for name in names:
            if name is None:
                raise TypeError(name)
            if name not in at.known:
                at.known[name] = Folder(name, at.given, {}, at)
            at = at.known[name]
        return at
    def exists(self):
        return self.there
    def mkdir(self, mode=None, parents=False, exist_ok=False):
        self.there = True
    def open(self, mode='r', encoding=None):
        if mode == 'w':
            self.there = True
        if not self.there:
            raise FileNotFoundError(self)
        return textfile(self, mode)
    def chmod(self, mode):
        if mode is None:
            raise TypeError(mode)
    def __str__(self):
        return self.name

def folder(given):
    return Folder('.', given, {})

class Dtype(object):
    def __init__(self, names):
        self.names = names

def typed(kind):
    if isinstance(kind, dict):
        return Dtype(kind['names'])
    if isinstance(kind, list):
        return Dtype(tuple([k[0] for k in kind]))
    return kind

class Frame(object):
    def __init__(self):
        self.filename = 'module.py'

def here(frame=None):
    return Frame()

# files of the package
FILES = {}

def located(name):
    f = Path(name)
    if name in FILES:
        kept = FILES[name]
        if isinstance(kept, dict):
            f.content = Dataset()
            for key, values in kept.items():
                v = np.array(values)
                f.content.variables[key] = Variable(v.shape, None)
                f.content.variables[key][:] = v
        else:
            f.lines = kept
    return f

class Dims(object):
    def __init__(self):
        self.label = ''
        self.scale = None
    def attach_scale(self, scale):
        self.scale = scale

class Attributes(object):
    def __init__(self):
        self.table = {}
    def __setitem__(self, name, value):
        self.table[name] = value
    def __getitem__(self, name):
        if name not in self.table:
            raise KeyError(name)
        return self.table[name]
    def items(self):
        return self.table.items()
    def keys(self):
        return self.table.keys()

class Variable(object):
    def __init__(self, shape, dims):
        self.shape = shape
        self.ndim = len(shape)
        self.dimensions = dims
        self.data = np.zeros(shape)
        self.attrs = Attributes()
        self.dims = [Dims(), Dims(), Dims()]
    def __getitem__(self, key):
        return self.data[key]
    def __setitem__(self, key, value):
        self.data[key] = value
    def setncattr(self, name, value):
        self.attrs[name] = value
        setattr(self, name, value)
    def getncattr(self, name):
        return self.attrs[name]

class Dataset(object):
    def __init__(self):
        self.variables = {}
        self.groups = {}
        self.sizes = {}
        self.attrs = Attributes()
        self.opened = True
        self.filename = 'file'
    def filepath(self):
        return 'file'
    def createDimension(self, name, size):
        if name in self.sizes:
            raise RuntimeError(name)
        self.sizes[name] = size
    def createVariable(self, name, dtype, dims, fill_value=None, zlib=False):
        shape = tuple([self.sizes[d] for d in dims])
        self.variables[name] = Variable(shape, dims)
        if fill_value is not None:
            self.variables[name].setncattr('_FillValue', fill_value)
        return self.variables[name]
    def set_auto_mask(self, flag):
        return None
    def setncattr(self, name, value):
        self.attrs[name] = value
    def getncattr(self, name):
        return self.attrs.table[name]
    def ncattrs(self):
        return self.attrs.keys()
    def keys(self):
        return self.variables.keys()
    def __getitem__(self, key):
        if key not in self.variables:
            raise KeyError(key)
        return self.variables[key]
    def create_dataset(self, name, shape, data=None, dtype=None, compression=None):
        if name in self.variables:
            raise ValueError(name)
        self.variables[name] = Variable(shape, None)
        self.variables[name][:] = data
        return self.variables[name]
    def close(self):
        self.opened = False

class Bytes(bytes):
    def __init__(self, content, lines):
        self.content = content
        self.lines = lines
    def decode(self, encoding='utf8'):
        return Lines(self.lines)
    def splitlines(self):
        raise TypeError(self)

class Blob(io.IOBase):
    def __init__(self, content, lines=[]):
        self.content = content
        self.lines = lines
    def seek(self, at):
        return at
    def read(self, name=None):
        return Bytes(self.content, self.lines)

class Archive(object):
    def __init__(self, path):
        self.content = path.content
        self.lines = path.lines
        self.member = path.stem
    def namelist(self):
        return [self.member]
    def read(self, name=None):
        return Bytes(self.content, self.lines)

class Lines(object):
    def __init__(self, lines):
        self.lines = lines
    def splitlines(self, keepends=False):
        return [x + '\\n' for x in self.lines] if keepends else self.lines
    def split(self, sep=None):
        if sep == '\\n':
            return self.lines + ['']
        return [w for x in self.lines for w in x.split()]
    def strip(self):
        return self
    def rstrip(self):
        return self
    def replace(self, old, new):
        return Lines([x.replace(old, new) for x in self.lines])
    def decode(self, encoding):
        return self

class TextFile(object):
    def __init__(self, path, mode='r'):
        self.path = path
        self.name = path.name
        self.at = 0
        self.rest = ''
        self.closed = False
    def read(self):
        at = self.at
        self.at = len(self.path.lines)
        return Lines(self.path.lines[at:])
    def readlines(self):
        return [x + '\\n' for x in self.read().lines]
    def readline(self):
        if self.at >= len(self.path.lines):
            return ''
        self.at = self.at + 1
        return self.path.lines[self.at - 1] + '\\n'
    def __iter__(self):
        return self.readlines()
    def __next__(self):
        if self.at >= len(self.path.lines):
            raise StopIteration
        return self.readline()
    def left(self):
        return len(self.path.lines) - self.at
    def seek(self, at):
        self.at = at
    def write(self, text):
        new = vfs.lines(self.rest, text)
        self.path.lines.extend(new[:-1])
        self.rest = new[-1]
    def writelines(self, lines):
        for x in lines:
            self.write(x)
    def flush(self):
        return None
    def close(self):
        if self.rest != '':
            self.path.lines.append(self.rest)
            self.rest = ''
        self.closed = True
    def __enter__(self):
        return self
    def __exit__(self, kind=None, value=None, trace=None):
        self.close()

class Pattern(object):
    def __init__(self, text, flags):
        self.text = text
        self.flags = flags
    def match(self, line):
        return re.matching(self.text, line, self.flags, 'match')
    def search(self, line):
        return re.matching(self.text, line, self.flags, 'search')
    def fullmatch(self, line):
        return re.matching('(?:' + self.text + ')\\\\Z', line, self.flags, 'match')
    def findall(self, line):
        return re.findall(self.text, line, self.flags)
    def finditer(self, line):
        return re.matches(self.text, line, self.flags)
    def split(self, line, maxsplit=0):
        return re.split(self.text, line, maxsplit, self.flags)
    def sub(self, new, line, count=0):
        return re.sub(self.text, new, line, count=count, flags=self.flags)

class Match(object):
    """what was found and its groups"""
    def __init__(self, found, names):
        self.found = found
        self.names = names
    def __getitem__(self, key):
        return self.found[self.names[key] if key in self.names else key]
    def group(self, *keys):
        if len(keys) == 0:
            return self.found[0]
        if len(keys) == 1:
            return self[keys[0]]
        return tuple([self[k] for k in keys])
    def groups(self, default=None):
        return self.found[1:]
    def groupdict(self, default=None):
        return {k: self.found[n] for k, n in self.names.items()}

def textfile(path, mode='r', encoding=None):
    if mode == 'w':
        path.lines = []
        path.packed = None
        path.there = True
    plain(path, None)
    return TextFile(path, mode)

def plain(path, kind):
    if path.packed != kind:
        raise OSError(path)


def write(line='', file=None, sep=' ', end='\\n', flush=False):
    if end == '\\n' and file.rest == '':
        file.path.lines.append(line)
    else:
        file.write(line)
        file.write(end)

def pattern(text, flags=None):
    return Pattern(text, flags)

def match(text, line, flags=None):
    return re.matching(text, line, flags, 'match')

def search(text, line, flags=None):
    return re.matching(text, line, flags, 'search')

def fullmatch(text, line, flags=None):
    return re.matching('(?:' + text + ')\\\\Z', line, flags, 'match')

def finditer(text, line, flags=None):
    return re.matches(text, line, flags)

def member(path, mode='r'):
    plain(path, 'zip')
    return Archive(path)

def unzipped(path, mode='r'):
    plain(path, 'gzip')
    return Blob(path.content, path.lines)

def blob(content):
    return Blob(content.content, content.lines)

def dataset(filename, mode='r', format=None, memory=None):
    if memory is not None:
        return memory.content
    if not isinstance(filename, Path):
        raise FileNotFoundError(filename)
    if mode == 'w':
        filename.content = Dataset()
        filename.packed = None
        filename.there = True
    plain(filename, None)
    if mode == 'w':
        return filename.content
    if filename.content is None:
        if mode == 'r':
            raise FileNotFoundError(filename)
        filename.content = Dataset()
    return filename.content

def h5file(filename, mode='r'):
    if isinstance(filename, Blob):
        return filename.content
    return dataset(filename, mode)

class Uuid(object):
    def __init__(self):
        self.hex = 'u'

def icgem(path, TIDE=None, FLAG='gfc', ZIP=False):
    # the reader of an optional package
    return {'tide': TIDE, 'flag': FLAG, 'zip': ZIP, 'file': path.name, 'clm': 'clm'}

class Columns(object):
    def __init__(self, table, size):
        self.table = table
        self.size = size
        self.shape = (size,)
        self.dtype = Dtype(tuple(table.keys()))
    def __getitem__(self, key):
        if isinstance(key, str):
            return self.table[key]
        found = {n: self.table[n][key] for n in self.dtype.names}
        return Columns(found, np.size(found[self.dtype.names[0]]))
    def __len__(self):
        return self.size
    def __iter__(self):
        return [self[k] for k in range(self.size)]

def loadtxt(path, dtype=None, comments='#', delimiter=None, skiprows=0, usecols=None, unpack=False, ndmin=0):
    # rows of numbers; named columns for a structured type
    rows = []
    for line in path.lines[skiprows:]:
        if re.matching('[^#]*(?![Nn][Aa][Nn]|[Ii][Nn][Ff])[A-Za-z]{3}', line, 0, 'match'):
            raise ValueError(line)
        if not re.matching('\\s*(#|$)', line, 0, 'match'):
            rows.append([np.float64(x) for x in re.findall('[^\\s]+', line, 0)])
    dtype = typed(dtype)
    if isinstance(dtype, Dtype):
        names = dtype.names
        if len(rows) == 1 and ndmin == 0:
            return Columns({names[k]: rows[0][k] for k in range(len(names))}, 1)
        return Columns({names[k]: np.array([r[k] for r in rows]) for k in range(len(names))}, len(rows))
    wide, first = 0, []
    for r in rows:
        first.append(r[0])
        if len(r) > wide:
            wide = len(r)
    if wide == 1:
        return np.array(first)
    return np.array(rows)

class Clock(object):
    def __init__(self, year, month, day):
        self.tm_year = year
        self.tm_mon = month
        self.tm_mday = day

def strptime(text, form):
    if form == '%Y%m':
        return Clock(int(text[:4]), int(text[4:6]), 1)
    if form == '%Y%m%d':
        return Clock(int(text[:4]), int(text[4:6]), int(text[6:8]))
    if form == '%Y-%m-%dT%H:%M:%S':
        return Clock(int(text[:4]), int(text[5:7]), int(text[8:10]))
    raise ValueError(form)

def loaded(text, Loader):
    # a document of one level
    return {'header': text}

def uuid4():
    return Uuid()

def path(name='.'):
    if isinstance(name, Path):
        return name
    return located(name)
'''


def bind(project, files=None, more=''):
    made = project.__dict__.setdefault('_store', {})
    key = repr(files) + more
    m = made.get(key)
    if m is None:
        text = TEXT.replace('FILES = {}', f'FILES = {files!r}', 1) if files else TEXT
        text += more
        m = Module('store', '<store>', '<store>', ast.parse(text), text)
        project._bind(m)
        made[key] = m
    return m


def stands(project, files=None, more=''):
    """meanings of the file libraries; files: lines of named files that exist"""
    m = bind(project, files, more)
    f = {x.name: x for x in m.functions}
    return {'netCDF4.Dataset': f['dataset'], 'h5py.File': f['h5file'], 'pathlib.Path': f['path'], 'open': f['textfile'],
        'print': f['write'], 're.compile': f['pattern'], 're.match': f['match'], 're.search': f['search'], 're.fullmatch': f['fullmatch'], 're.finditer': f['finditer'], 'gzip.open': f['unzipped'],
        'zipfile.ZipFile': f['member'], 'io.BytesIO': f['blob'], 'uuid.uuid4': f['uuid4'], 'yaml.load': f['loaded'], 'geoid_toolkit.read_ICGEM_harmonics': f['icgem'],
        'numpy.loadtxt': f['loadtxt'], 'numpy.dtype': f['typed'], 'vfs.folder': f['folder'], 'time.strptime': f['strptime'],
        'inspect.currentframe': f['here'], 'inspect.getframeinfo': f['here']}


def cls(project, name):
    return next(c for c in bind(project).classes if c.name == name)
