"""Stand-ins of the network and of binary files, for interpretation only."""
from . import store

TEXT = '''
import vfs
import ftplib
import urllib.request
class Document(object):
    """decoded json"""
    def __init__(self, table):
        self.table = table
    def decode(self, encoding='utf8'):
        return self

class Buffer(io.IOBase):
    def __init__(self, content=''):
        self.content = content
        self.at = 0
        self.filename = None
    def write(self, more):
        self.content = self.content[:self.at] + more
        self.at = len(self.content)
        return len(more)
    def read(self, n=-1):
        got = self.content[self.at:]
        self.at = len(self.content)
        return got
    def seek(self, at, whence=0):
        self.at = at
        return at
    def tell(self):
        return self.at
    def getvalue(self):
        return self.content

class Binary(object):
    """a file on disk that is open"""
    def __init__(self, path, mode):
        self.path = path
        self.name = path.name
        self.at = 0
    def write(self, more):
        self.path.content = self.path.content + more
        return len(more)
    def read(self, n=-1):
        got = self.path.content[self.at:]
        self.at = len(self.path.content)
        return got
    def close(self):
        return None

class Stat(object):
    def __init__(self, path):
        self.st_atime = path.atime
        self.st_mtime = path.mtime

class Disk(Folder):
    """a directory of files with contents and times"""
    def __init__(self, name, given, known, inside=None):
        self.name = name
        self.inside = inside
        self.given = given
        self.known = known
        self.content = None
        self.lines = []
        self.packed = None
        self.there = False
        self.mode = None
        self.atime = 1
        self.mtime = 2
        if name in given:
            self.there = True
            self.content = given[name]
            self.mtime = 3
            self.atime = 4
            self.mode = 5
    @property
    def suffix(self):
        return '.' + self.name.split('.')[-1] if '.' in self.name else ''
    def joinpath(self, *names):
        at = self
        for name in names:
            if name is None:
                raise TypeError(name)
            if name not in at.known:
                at.known[name] = Disk(name, at.given, {}, at)
            at = at.known[name]
        return at
    def __truediv__(self, name):
        return self.joinpath(name)
    @property
    def parent(self):
        return self.inside if self.inside is not None else self
    def with_suffix(self, suffix):
        return self.inside.joinpath(self.stem + suffix)
    def replace(self, target):
        target.content = self.content
        target.there = True
        target.mode = self.mode
        target.mtime = self.mtime
        target.atime = self.atime
        self.there = False
        self.content = None
        return target
    def rename(self, target):
        return self.replace(target)
    def mkdir(self, mode=None, parents=False, exist_ok=False):
        if self.there and not exist_ok:
            raise FileExistsError(self)
        if self.inside is not None and not self.inside.there:
            if not parents:
                raise FileNotFoundError(self)
            self.inside.mkdir(mode=mode, parents=True, exist_ok=True)
        self.there = True
        self.mode = mode
    def open(self, mode='r', encoding=None):
        if 'x' in mode and self.there:
            raise OSError(self)
        if 'w' in mode or 'x' in mode:
            if not self.inside.there:
                raise FileNotFoundError(self)
            self.there = True
            self.content = ''
        if not self.there:
            raise FileNotFoundError(self)
        return Binary(self, mode)
    def read_bytes(self):
        return self.open(mode='rb').read()
    def write_bytes(self, content):
        return self.open(mode='wb').write(content)
    def chmod(self, mode=None):
        if not self.there:
            raise FileNotFoundError(self)
        self.mode = mode
    def stat(self):
        if not self.there:
            raise FileNotFoundError(self)
        return Stat(self)
    def unlink(self, missing_ok=False):
        if not self.there:
            raise FileNotFoundError(self)
        self.there = False
        self.content = None
    def exists(self):
        return self.there
    def with_name(self, name):
        return self.inside.joinpath(name)
    @property
    def stem(self):
        return '.'.join(self.name.split('.')[:-1]) if '.' in self.name else self.name
    def is_dir(self):
        return self.there and self.content is None
    def iterdir(self):
        return [self.joinpath(name) for name in self.given.keys()]
    def touch(self, mode=None, exist_ok=True):
        self.there = True
        if self.content is None:
            self.content = ''
    def is_file(self):
        return self.there and self.content is not None

def disk(given):
    d = Disk('.', given, {})
    d.there = True
    return d

def files(folder):
    """name, content, mode, time and directory of the files in a directory and those below"""
    got = []
    here = [folder]
    for level in range(6):
        below = []
        for at in here:
            for name in at.known.keys():
                f = at.known[name]
                below.append(f)
                if f.content is not None:
                    got.append((name, f.content, f.mode, f.mtime, at.name))
        here = below
    return got

class Clock(object):
    def __init__(self, parts):
        self.parts = parts

class Moment(object):
    def __init__(self, parts, zone=None):
        self.parts = parts
        self.tzinfo = 'zone' if parts[2] else zone
    def timestamp(self):
        # of the place where the program runs, without a time zone
        return self.parts[0] if self.tzinfo is not None else 'local'
    def replace(self, tzinfo=None):
        return Moment(self.parts, tzinfo)
    def isoformat(self):
        return self.parts[1]
    def utctimetuple(self):
        return Clock(self.parts[3:])

def clock(text, form):
    parts = vfs.strptime(text, form)
    if len(parts) == 0:
        raise ValueError(text)
    return Clock(parts)

def strftime(form, clock):
    return vfs.strftime(form, '{0:d} {1:d} {2:d} {3:d} {4:d} {5:d}'.format(*clock.parts))

def timegm(clock):
    return vfs.timegm('{0:d} {1:d} {2:d} {3:d} {4:d} {5:d}'.format(*clock.parts))

def moment(text):
    parts = vfs.parsed(text)
    if len(parts) == 0:
        raise ValueError(text)
    return Moment(parts)

class Digest(object):
    def __init__(self, kind, content=''):
        self.kind = kind
        self.content = content
    def update(self, more):
        self.content = self.content + more
    def hexdigest(self):
        return self.kind + ':' + self.content

def md5(content=''):
    return Digest('md5', content)

def digest(kind, content=''):
    if kind not in ('md5', 'sha1', 'sha256', 'sha512'):
        raise ValueError(kind)
    return Digest(kind, content)

def copyfileobj(source, target, length=0):
    target.write(source.read())

def copyfile(source, target):
    target.open(mode='wb').write(source.open(mode='rb').read())

def copystat(source, target):
    target.mtime = source.mtime
    target.atime = source.atime
    target.mode = source.mode

def utime(path, times):
    path.atime = times[0]
    path.mtime = times[1]

# -- servers ---------------------------------------------------------------------------

NET = {}

class Request(object):
    def __init__(self, url, data=None, headers=None, method=None):
        self.url = url
        self.method = method
        self.headers = {}
    def add_header(self, key, value):
        self.headers[key] = value

class Response(object):
    def __init__(self, content, headers):
        self.content = content
        self.headers = headers
        self.at = 0
    def info(self):
        return self.headers
    def getheader(self, name, default=None):
        return self.headers.get(name, default)
    def read(self, n=-1):
        if isinstance(self.content, dict):
            return Document(self.content)
        got = self.content[self.at:]
        self.at = len(self.content)
        return got

def urlopen(request, data=None, timeout=None, context=None):
    url = request.url if isinstance(request, Request) else request
    if isinstance(request, Request):
        if request.method is not None:
            url = request.method + ' ' + url
    if url not in NET:
        raise urllib.request.HTTPError(url)
    if 's3credentials' in url:
        if LOGIN['opener'].addheaders not in NET[url]:
            raise urllib.request.HTTPError(url)
    return Response(NET[url], {})

class Opener(object):
    def __init__(self):
        self.addheaders = []
    def open(self, request, data=None, timeout=None):
        url = request.url if isinstance(request, Request) else request
        after = request.headers.get('CMR-Search-After', None) if isinstance(request, Request) else None
        host, query = url.split('?', 1)
        key = host + '?' + '&'.join(sorted(query.split('&')))
        if key not in NET:
            raise FileNotFoundError(key)
        for page in NET[key]:
            if page[0] == after:
                return Response(page[1], page[2])
        raise ValueError(after)

def build_opener(*handlers):
    return Opener()

class Tree(object):
    def __init__(self, content):
        self.content = content
    def xpath(self, query):
        if '//a' in query or '@href' in query:
            return [r[0] for r in self.content]
        return [r[1] for r in self.content]

def b64encode(content):
    return content

LOGIN = {}

def install_opener(opener):
    LOGIN['opener'] = opener

def prompted(prompt=''):
    for kind in ('Username', 'Password'):
        if prompt.startswith(kind):
            answers = NET[kind]
    at = LOGIN.get(prompt[:8], 0)
    LOGIN[prompt[:8]] = at + 1
    return answers[at]

class Netrc(object):
    def __init__(self, path=None):
        self.path = path
        if path is not None and not path.exists():
            raise FileNotFoundError(path)
    def authenticators(self, host):
        for h in NET['netrc']:
            if h[0] == host:
                return (h[1], None, h[2])
        return None

def environ(name, default=None):
    return NET['environ'].get(name, default)

def home():
    return disk({'.netrc': 'inside'} if 'home' in NET else {})

def parse(response, parser=None):
    return Tree(response.content)

def loads(document):
    return document.table

class Ftp(object):
    def __init__(self, host='', timeout=None):
        self.host = host
        self.opened = True
    def login(self, user=None, passwd=None, acct=None):
        return '230'
    def nlst(self, path):
        return [path + '/' + n[0] for n in NET[self.host + '/' + path]]
    def sendcmd(self, command):
        kind, path = command.split(' ')
        folder = self.host + '/' + '/'.join(path.split('/')[:-1])
        for n in NET[folder]:
            if n[0] == path.split('/')[-1]:
                if n[1] is None:
                    raise ftplib.error_perm(path)
                return '213 ' + n[1]
        raise ftplib.error_perm(path)
    def retrbinary(self, command, callback, blocksize=8192, rest=None):
        kind, path = command.split(' ')
        content = NET[self.host + '/' + path]
        callback(content[:3])
        callback(content[3:])
        return '226'
    def close(self):
        self.opened = False
    def quit(self):
        self.opened = False
'''


def stands(project, net, more=None):
    text = TEXT.replace('NET = {}', f'NET = {net!r}', 1)
    m = store.bind(project, None, text)
    f = {x.name: x for x in m.functions}
    c = {x.name: x for x in m.classes}
    return {**store.stands(project, None, text), 'vfs.disk': f['disk'], 'vfs.files': f['files'], 'hashlib.md5': f['md5'], 'hashlib.new': f['digest'], 'io.BytesIO': c['Buffer'],
        'shutil.copyfileobj': f['copyfileobj'], 'shutil.copyfile': f['copyfile'], 'shutil.copystat': f['copystat'], 'os.utime': f['utime'],
        'urllib.request.Request': c['Request'], 'urllib.request.urlopen': f['urlopen'], 'urllib.request.build_opener': f['build_opener'],
        'time.strptime': f['clock'], 'time.strftime': f['strftime'], 'calendar.timegm': f['timegm'], 'dateutil.parser.parse': f['moment'], 'lxml.etree.parse': f['parse'], 'json.loads': f['loads'], 'urllib.request.install_opener': f['install_opener'], 'builtins.input': f['prompted'], 'getpass.getpass': f['prompted'], 'netrc.netrc': c['Netrc'], 'os.environ.get': f['environ'], 'pathlib.Path.home': f['home'], 'base64.b64encode': f['b64encode'], 'ftplib.FTP': c['Ftp'], **(more or {})}
