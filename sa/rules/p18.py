"""Remote listings, catalogues and downloads."""
import math
import re
from .. import net, num, spec

MODULES = ('utilities',)


def case(project, rep, rule, qual, label, body, want, remote=None, leaves=None, stand=None, **kw):
    f = project.require(qual)
    rep.unit(f.short)
    num.check(project, rep, rule, qual, leaves or (lambda r: {}), want if callable(want) else (lambda L: want), func=spec.ref_func(project, body), stand=net.stands(project, remote or {}, stand), depth=9,
        budget=2000000, kwargs_open=False, models=1, where=f'{f.module.rel}:{f.node.lineno}', tag=f'{f.short}[{label}]', fold=True, **kw)


SAVE = '''
from gravity_toolkit.utilities import {name}
import vfs
def ref():
    d = vfs.disk({given!r})
    local = d.joinpath('more').joinpath('remote.txt')
    out = {name}({host!r}{opts})
    return [out.read(), out.filename, out.getvalue(), vfs.files(d)]
'''
CONTENT = 'CONTENT of the file'


def saved(project, rep):
    rep.rule('saved', 'the remote file is saved exactly when the local one differs, and is returned', floor=6)
    for name, hosts, remote in (('from_http', ('https://host/dir/remote.txt', ['https://host', 'dir', 'remote.txt']), {'https://host/dir/remote.txt': CONTENT}),
            ('from_drive', ('https://host/dir/remote.txt', ['https://host', 'dir', 'remote.txt']), {'https://host/dir/remote.txt': CONTENT}),
            ('from_ftp', (['host', 'dir', 'remote.txt'],), {'host/dir/remote.txt': CONTENT, 'host/dir': [('remote.txt', '20200102030405')]})):
        build = ', build=False' if name == 'from_drive' else ''
        for host in hosts:
            for label, given, opts, new in (('none', {}, '', False), ('new', {}, ', local=local', True), ('changed', {'remote.txt': 'other'}, ", local=local, hash='md5:other'", True),
                    ('same', {'remote.txt': CONTENT}, f", local=local, hash='md5:{CONTENT}'", False), ('mode', {}, ', local=local, mode=7', True), ('only hash', {}, f", hash='md5:other'", False)):
                body = SAVE.format(name=name, given=given, host=host, opts=opts + build)
                time = 1577934245 if name == 'from_ftp' else (3 if given else 2)
                mode = 7 if 'mode' in opts else 0o775
                there = [('remote.txt', CONTENT, mode, time, 'more')] if new else [('remote.txt', given['remote.txt'], 5, 3, 'more')] if given else []
                case(project, rep, 'saved', f'utilities.{name}', f'{label},{type(host).__name__}', body, {'return': [CONTENT, 'remote.txt', CONTENT, there]}, remote)


LIST = """
from gravity_toolkit.utilities import {name}
def ref():
    return {name}({host!r}{opts})
"""
ICGEM = """
from gravity_toolkit.utilities import icgem_list
def ref():
    out = icgem_list('http://host/tom')
    return [(k, out[k]) for k in sorted(out.keys())]
"""
FILES = [('b_2.gz', '2020-01-02 03:04', 1577934240), ('a_1.gz', '2019-03-01 00:00', 1551398400), ('other.txt', '2021-12-31 23:59', 1640995140), ('c_3.gz', 'never', None), ('a_4.gz', '2000-02-29 12:30', 951827400)]


def chosen(rows, pattern, order):
    rows = [r for r in rows if re.search(pattern, r[0])] if pattern else list(rows)
    rows = sorted(rows, key=lambda r: r[0]) if order else rows
    return [[r[0] for r in rows], [r[2] for r in rows]]


def listed(project, rep):
    rep.rule('listed', 'remote listings hold the files that fit the pattern, each with its own time, sorted on request', floor=12)
    full = [(n, t + ':07' if t != 'never' else t, s + 7 if s else s) for n, t, s in FILES]
    ftp = [(n, None if s is None else t.replace('-', '').replace(' ', '').replace(':', '') + '07', None if s is None else s + 7) for n, t, s in FILES]
    for label, opts, pattern, order in (('all', '', '', False), ('pattern', ", pattern='gz$'", 'gz$', False), ('sorted', ', sort=True', '', True), ('both', ", pattern='[ac]_', sort=True", '[ac]_', True)):
        for host in ('https://host/dir', ['https://host', 'dir']):
            case(project, rep, 'listed', 'utilities.http_list', f'{label},{type(host).__name__}', LIST.format(name='http_list', host=host, opts=opts),
                {'return': chosen(FILES, pattern, order)}, {'https://host/dir': [r[:2] for r in FILES]})
            case(project, rep, 'listed', 'utilities.drive_list', f'{label},{type(host).__name__}', LIST.format(name='drive_list', host=host, opts=opts + ', build=False'),
                {'return': chosen(full, pattern, order)}, {'https://host/dir': [r[:2] for r in full]})
            case(project, rep, 'listed', 'utilities.gsfc_list', f'{label},{type(host).__name__}', LIST.format(name='gsfc_list', host=host, opts=opts),
                {'return': chosen([('https://host/files/' + r[0], r[1], r[2]) for r in FILES], pattern, order)[0]}, {'https://host/dir': [('/files/' + r[0], r[1]) for r in FILES]})
        for base in (False, True):
            rows = [(n if base else 'dir/' + n, t, s) for n, t, s in ftp]
            case(project, rep, 'listed', 'utilities.ftp_list', f'{label},{base}', LIST.format(name='ftp_list', host=['host', 'dir'], opts=opts + f', basename={base}'),
                {'return': chosen(rows, pattern, order)}, {'host/dir': [r[:2] for r in ftp]})
    case(project, rep, 'listed', 'utilities.icgem_list', 'models', ICGEM, {'return': [('one', ['get', 'one.gfc']), ('two_2.5', ['get', 'more', 'two_2.5.gfc'])]}, {'http://host/tom': [('/get/one.gfc', ''), ('/get/more/two_2.5.gfc', ''), ('/get/three.zip', '')]})


ENTRY = {'one': ('2021-05-06T07:08:09.250Z', 1620284889), 'two': ('2020-01-01T00:00:00.000Z', 1577836800), 'three': ('2019-02-03T04:05:06.000Z', 1549166706), 'four': ('2022-02-03T04:05:06.000Z', 1643861106)}
REL = 'http://esipfed.org/ns/fedsearch/1.1/'


def entry(name, *kinds):
    return {'title': name, 'updated': ENTRY[name][0], 'links': [{'rel': REL + k.split(':')[0] + '#', 'href': f'{k}/{name}'} for k in kinds]}


def page(*entries):
    return {'feed': {'entry': list(entries)}}


def want(endpoint, *names):
    return [list(names), [f'{endpoint}/{n}' for n in names], [ENTRY[n][1] for n in names]]


CMR = """
from gravity_toolkit.utilities import {name}
def ref():
    return {name}({args})
"""


def catalogue(project, rep):
    rep.rule('catalogue', 'queries of the catalogue name the documented collections and granules, and every result is returned with its own address and time', floor=20)
    both = [entry('one', 'documentation', 's3', 'data', 'data:2'), entry('two', 'data', 's3'), entry('three', 'metadata', 'data', 's3')]
    for endpoint in ('data', 's3'):
        case(project, rep, 'catalogue', 'utilities.cmr_filter_json', endpoint, CMR.format(name='cmr_filter_json', args=f'{page(*both)!r}, endpoint={endpoint!r}'),
            {'return': want(endpoint, 'one', 'two', 'three')})
        part = [entry('one', 'data', 's3'), entry('two', 's3' if endpoint == 'data' else 'data'), entry('three', 's3', 'data')]
        case(project, rep, 'catalogue', 'utilities.cmr_filter_json', endpoint + ' lacking', CMR.format(name='cmr_filter_json', args=f'{page(*part)!r}, endpoint={endpoint!r}'),
            {'return': want(endpoint, 'one', 'three')})
    for label, empty in (('no feed', {}), ('no entry', {'feed': {}}), ('none', page())):
        case(project, rep, 'catalogue', 'utilities.cmr_filter_json', label, CMR.format(name='cmr_filter_json', args=repr(empty)), {'return': [[], [], []]})
        case(project, rep, 'catalogue', 'utilities.cmr_metadata_json', label, CMR.format(name='cmr_metadata_json', args=repr(empty)), {'return': []})
    for endpoint, hrefs in (('data', ['data/one', 'data:2/one', 'data/two', 'data/three']), ('s3', ['s3/one', 's3/two', 's3/three']), ('documentation', ['documentation/one'])):
        case(project, rep, 'catalogue', 'utilities.cmr_metadata_json', endpoint, CMR.format(name='cmr_metadata_json', args=f'{page(*both)!r}, endpoint={endpoint!r}'), {'return': hrefs})
    for args, names in SHORT:
        case(project, rep, 'catalogue', 'utilities.cmr_product_shortname', args, CMR.format(name='cmr_product_shortname', args=args), {'return': names})
    for args, name in GRANULE:
        case(project, rep, 'catalogue', 'utilities.cmr_readable_granules', args, CMR.format(name='cmr_readable_granules', args=args), {'return': name})
    pages = [[None, page(both[0]), {'CMR-Search-After': 'A'}], ['A', page(both[1], both[2]), {'cmr-search-after': 'B'}], ['B', page(entry('four', 's3', 'data')), {'CMR-Search-After': 'C'}], ['C', page(), {}]]
    fixed = ['sort_key[]=start_date', 'sort_key[]=producer_granule_id', 'page_size=2000', 'options[readable_granule_name][pattern]=true', 'options[spatial][or]=true']
    for args, query in (("mission='grace', center='JPL', release='RL06', product='GSM'", ['provider=POCLOUD', 'temporal=,'] + [f'short_name=GRACE_{p}_L2_GRAV_JPL_RL06' for p in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM')] +
                ['readable_granule_name[]=GSM-2_???????-???????_????_?????_BA01_???0*']),
            ("mission='grace-fo', center='CSR', release='RL06', product='GAD', version='2', start_date='2020-01-02', end_date='2020-05-06T01:02:03', provider='OTHER'", ['provider=OTHER', 'temporal=2020-01-02T00:00:00,2020-05-06T01:02:03',
                'short_name=GRACEFO_L2_CSR_MONTHLY_0062', 'readable_granule_name[]=GAD-2_???????-???????_????_?????_BC01_???2*']),
            ("mission='grace-fo', center='JPL', release='RL04', level='L1B'", ['provider=POCLOUD', 'temporal=,', 'short_name=GRACEFO_L1B_ASCII_GRAV_JPL_RL04', 'readable_granule_name[]=grace*'])):
        url = 'https://cmr.earthdata.nasa.gov/search/granules.json?' + '&'.join(sorted(fixed + query))
        for endpoint in ('data', 's3'):
            case(project, rep, 'catalogue', 'utilities.cmr', f'{args[:40]},{endpoint}', CMR.format(name='cmr', args=args + f', endpoint={endpoint!r}'), {'return': want(endpoint, 'one', 'two', 'three', 'four')}, {url: pages})
    url = 'https://cmr.earthdata.nasa.gov/search/collections.json?' + '&'.join(sorted(['provider=POCLOUD', 'short_name=GRACEFO_L2_CSR_MONTHLY_0062']))
    for pattern, hrefs in (('', ['data/one', 'data:2/one', 'data/two', 'data/three']), ('t[wh]', ['data/two', 'data/three'])):
        case(project, rep, 'catalogue', 'utilities.cmr_metadata', pattern, CMR.format(name='cmr_metadata', args=f"mission='grace-fo', center='CSR', release='RL06', version='2', pattern={pattern!r}"),
            {'return': hrefs}, {url: [[None, page(*both), {}]]})


SHORT = [("'grace', 'GFZ', 'RL06', level='L1B'", ['GRACE_AOD1B_GRAV_GFZ_RL06'])] + \
    [(f"'grace', 'JPL', {r!r}, level='L1B'", [f'GRACE_L1B_GRAV_JPL_{r}']) for r in ('RL02', 'RL03')] + \
    [(f"'grace', {c!r}, 'RL06'", [f'GRACE_{p}_L2_GRAV_{c}_RL06' for p in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM') if c != 'CSR' or p not in ('GAA', 'GAB')]) for c in ('CSR', 'GFZ', 'JPL')] + \
    [("'grace', 'CSR', 'RL06', product='GSM'", ['GRACE_GSM_L2_GRAV_CSR_RL06']), ("'grace', 'GFZ', 'RL06', product=['GAB', 'GSM']", ['GRACE_GAB_L2_GRAV_GFZ_RL06', 'GRACE_GSM_L2_GRAV_GFZ_RL06'])] + \
    [(f"'grace-fo', 'JPL', 'RL04', level={lev!r}", [f'GRACEFO_{lev}_ASCII_GRAV_JPL_RL04']) for lev in ('L1A', 'L1B')] + \
    [(f"'grace-fo', {c!r}, 'RL06', version={v!r}", [f'GRACEFO_L2_{c}_MONTHLY_006{v}']) for c, v in (('CSR', '0'), ('GFZ', '1'), ('JPL', '3'))]
GRANULE = [("'AOD1B', level='L1B'", 'AOD1B_*'), ("'KBR', level='L1B'", 'grace*'), ("'AOD1B', level='L1A'", 'grace*'), ("'GSM'", 'GSM-2_???????-???????_????_?????_BA01_???0*'),
    ("'GSM', solution='BB01', version='3'", 'GSM-2_???????-???????_????_?????_BB01_???3*'), ("'GAC', solution='BB01', version='1'", 'GAC-2_???????-???????_????_?????_BC01_???1*'), ("'GSM', level='L3'", '*')]


HASH = """
import io
from gravity_toolkit.utilities import get_hash
import vfs
def ref():
    d = vfs.disk({given!r})
    b = io.BytesIO('buffered')
    return get_hash({what})
"""
URL = """
from gravity_toolkit.utilities import {name}
def ref():
    return {name}({args})
"""


def names(project, rep):
    rep.rule('names', 'checksums, addresses and times are those of the given content, address and text', floor=20)
    for what, value in (("d.joinpath('f')", 'md5:inside'), ("d.joinpath('f'), 'sha1'", 'sha1:inside'), ("d.joinpath('none')", ''), ('b', 'md5:buffered'), ("b, algorithm='sha256'", 'sha256:buffered'), ('None', '')):
        case(project, rep, 'names', 'utilities.get_hash', what, HASH.format(given={'f': 'inside'}, what=what), {'return': value})
    for name, args, value in (('url_split', "'https://host/a/b.txt'", ['https://host', 'a', 'b.txt']), ('url_split', "'ftp://host/a'", ['ftp://host', 'a']), ('url_split', "'s3://bucket/a/b/c.nc'", ['s3://bucket', 'a', 'b', 'c.nc']),
            ('url_split', "'http://host'", ['http://host']), ('url_split', "'/a/b/c'", ['a', 'b', 'c']), ('url_split', "'a/b'", ['a', 'b']), ('url_split', "'a'", ['a']),
            ('s3_bucket', "'s3://bucket/a/b.nc'", 'bucket'), ('s3_key', "'s3://bucket/a/b.nc'", 'a/b.nc'), ('s3_bucket', "'s3://podaac-ops/x'", 'podaac-ops'), ('s3_key', "'s3://podaac-ops/x'", 'x'),
            ('get_unix_time', "'2018-01-01 00:00:00'", 1514764800), ('get_unix_time', "'2018-01-01 00:00:00  '", 1514764800), ('get_unix_time', "'20200102030405', format='%Y%m%d%H%M%S'", 1577934245),
            ('get_unix_time', "'2020-01-02T03:04:05+02:00'", 1577927045), ('get_unix_time', "'2020-01-02T03:04:05'", 1577934245), ('get_unix_time', "'never'", None),
            ('isoformat', "'2020-01-02 03:04:05'", '2020-01-02T03:04:05'), ('isoformat', "'2020-01-02 '", '2020-01-02T00:00:00'), ('isoformat', "'never'", None)):
        case(project, rep, 'names', f'utilities.{name}', args, URL.format(name=name, args=args), {'return': value})
    for name in ('even', 'ceil'):
        for x in (-3.5, -2.0, -0.25, 0.0, 0.5, 3.0, 4.75, 7.0):
            case(project, rep, 'names', f'utilities.{name}', str(x), URL.format(name=name, args=x), {'return': 2*math.floor(x/2) if name == 'even' else math.ceil(x)})


SYNC = """
from gravity_toolkit.utilities import {name}
import vfs
def ref():
    d = vfs.disk({given!r})
    {name}(d{opts})
    return vfs.files(d)
"""
GUARD = """
from gravity_toolkit.utilities import {name}
import vfs
def ref():
    d = vfs.disk({given!r})
    try:
        {name}(d{opts})
    except Exception:
        return 'error'
    return vfs.files(d)
"""
CSR = 'http://download.csr.utexas.edu/'
GFZ = 'isdcftp.gfz-potsdam.de/grace/'


def kept(rows, given, time=2, mode=0o775):
    """files of the directories: those that are new or have changed are saved"""
    return [(n, c, 5, 3, d) if given.get(n) == c else (n, c, mode, time if time != 2 else 3 if n in given else 2, d) for n, c, d in rows]


def synced(project, rep):
    rep.rule('synced', 'every documented file of an archive is saved under its directory when it is missing or has changed', floor=8)
    slr = [(p.split('/')[-1], 'content of ' + p, '.') for p in ('slr/degree_5/CSR_Monthly_5x5_Gravity_Harmonics.txt', 'slr/degree_2/C20_RL06.txt', 'slr/degree_2/C21_S21_RL06.txt', 'slr/degree_2/C22_S22_RL06.txt', 'slr/TN11E/TN11E.txt')]
    geo = [(p.split('/')[-1], 'content of ' + p, 'geocenter') for p in ('pub/slr/geocenter/GCN_L1_L2_30d_CF-CM.txt', 'outgoing/cheng/gct2est.220_5s')]
    remote = {CSR + 'pub/' + r[1][11:]: r[1] for r in slr}
    remote.update({CSR + r[1][11:]: r[1] for r in geo})
    lri = []
    for version in ('RL06.1LRI', 'RL06.2LRI'):
        top = CSR + 'outgoing/gracefo/' + version
        remote[top] = [('2018', 'never'), ('2019', 'never'), ('readme', 'never')]
        for year in ('2018', '2019'):
            remote[f'{top}/{year}'] = [(f'{p}-2_{year}_{k}.gz', '2020-01-02 03:04') for p in ('GSM', 'GAC', 'GAD') for k in 'ab']
            for n, _ in remote[f'{top}/{year}']:
                remote[f'{top}/{year}/{n}'] = f'{version}:{n}'
    for label, given in (('new', {}), ('some', {'C20_RL06.txt': slr[1][1], 'TN11E.txt': 'old', 'gct2est.220_5s': geo[1][1], 'GAC-2_2018_a.gz': 'old', 'GAD-2_2019_b.gz': 'RL06.1LRI:GAD-2_2019_b.gz', **dict.fromkeys(('geocenter', 'GSM', 'GAC', 'GAD'))})):
        for opts, rows in ((", 'SLR'", slr), (", variable='geocenter'", geo), (", ['SLR', 'geocenter']", slr + geo), (", ('geocenter', 'other')", geo)):
            case(project, rep, 'synced', 'utilities.from_csr', label + opts, SYNC.format(name='from_csr', given=given, opts=opts), {'return': kept(rows, given)}, remote)
        for version in ('RL06.1LRI', 'RL06.2LRI'):
            rows = [(f'{p}-2_{year}_{k}.gz', f'{version}:{p}-2_{year}_{k}.gz', p) for p in ('GAC', 'GAD', 'GSM') for year in ('2018', '2019') for k in 'ab']
            case(project, rep, 'synced', 'utilities.from_csr', f'{label},{version}', SYNC.format(name='from_csr', given=given, opts=f", 'LRI'" + (f', version={version!r}' if version != 'RL06.1LRI' else '')), {'return': kept(rows, given)}, remote)
    names = ['Level-2/GFZ/RL06_SLR_C20/GFZ_RL06_C20_SLR.dat', 'GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', 'GravIS/GFZ/Level-2B/aux_data/GRAVIS-2B_GFZOP_GEOCENTER_0003.dat']
    rows = [(p.split('/')[-1], 'content of ' + p, 'geocenter' if 'GEOCENTER' in p else '.') for p in names]
    remote = {GFZ + p: 'content of ' + p for p in names}
    for p in names:
        remote.setdefault(GFZ + '/'.join(p.split('/')[:-1]), []).append((p.split('/')[-1], '20200102030405'))
    for label, given in (('new', {}), ('some', {rows[0][0]: rows[0][1], rows[1][0]: 'old'}), ('others', {rows[1][0]: rows[1][1], rows[2][0]: rows[2][1], 'geocenter': None})):
        case(project, rep, 'synced', 'utilities.from_gfz', label, SYNC.format(name='from_gfz', given=given, opts=''), {'return': kept(sorted(rows, key=lambda r: r[2]), given, 1577934245)}, remote)
    text = 'Title\nData span: 03 Jan 1993 - 28 Dec 2020\nmore'
    name = 'gsfc_slr_5x5c61s61.txt'
    for host in ('https://earth.gsfc.nasa.gov/sites/default/files/geo/slr-weekly', 'https://host/dir'):
        opts = '' if 'earth' in host else f', host={host!r}'
        for label, given in (('new', {}), ('same', {name: text}), ('changed', {name: 'old'})):
            rows = kept([(name, text, '.')], given)
            case(project, rep, 'synced', 'utilities.from_gsfc', f'{label},{host[8:12]}', SYNC.format(name='from_gsfc', given=given, opts=opts), {'return': rows}, {f'{host}/{name}': text})
            case(project, rep, 'synced', 'utilities.from_gsfc', f'{label},{host[8:12]},copy', SYNC.format(name='from_gsfc', given=given, opts=opts + ', copy=True'),
                {'return': rows + [('GSFC_SLR_5x5c61s61_199301_202012.txt',) + rows[0][1:]]}, {f'{host}/{name}': text})
    files = ['CSR_RL06_one_SLF_iter.txt', 'other.txt', 'GFZ_RL05_two_SLF_iter.txt', 'readme_CSR_RL06_one_SLF_iter.txt', 'JPL_RL06_SLF_iter.txt']
    for article in ('7388540', '123'):
        api = {'files': [{'name': n, 'download_url': f'https://fig/{k}', 'supplied_md5': f'md5:content {n}'} for k, n in enumerate(files)]}
        remote = {f'https://api.figshare.com/v2/articles/{article}': api, **{f'https://fig/{k}': f'content {n}' for k, n in enumerate(files)}}
        rows = [(n, 'content ' + n, 'geocenter') for n in files if re.match(r'(CSR|GFZ|JPL)_(RL\d+)_(.*?)_SLF_iter.txt$', n)]
        opts = '' if article == '7388540' else f', article={article!r}'
        for label, given in (('new', {}), ('some', {files[0]: 'content ' + files[0], files[2]: 'old', 'geocenter': None})):
            case(project, rep, 'synced', 'utilities.from_figshare', f'{label},{article}', SYNC.format(name='from_figshare', given=given, opts=opts), {'return': kept(rows, given)}, remote)
        case(project, rep, 'synced', 'utilities.from_figshare', f'damaged,{article}', GUARD.format(name='from_figshare', given={}, opts=opts), {'return': 'error'}, {**remote, 'https://fig/2': 'damaged'})
        case(project, rep, 'synced', 'utilities.from_figshare', f'pattern,{article}', SYNC.format(name='from_figshare', given={}, opts=opts + ", pattern='other', mode=7"), {'return': kept([('other.txt', 'content other.txt', 'geocenter')], {}, mode=7)}, remote)


COPY = """
from gravity_toolkit.utilities import copy
import vfs
def ref():
    d = vfs.disk({{'one': 'first', 'two': 'second'}})
    one = d.joinpath('one')
    two = d.joinpath({name!r})
    copy(one, two{opts})
    return vfs.files(d)
"""
UNIQUE = """
from gravity_toolkit.utilities import create_unique_file
import vfs
def ref():
    d = vfs.disk({given!r})
    f = create_unique_file(d.joinpath('log.file.txt'))
    f.write('new')
    f.close()
    return vfs.files(d)
"""


def kinds(project, rep):
    rep.rule('unique', 'copies have the content and the times of the original, and a unique file never replaces one that is there', floor=4)
    for name, opts in (('two', ''), ('three', ''), ('three', ', move=True'), ('two', ', move=False')):
        new = (name, 'first', 5, 3, '.')
        case(project, rep, 'unique', 'utilities.copy', name + opts, COPY.format(name=name, opts=opts), {'return': [new] if 'True' in opts else [('one', 'first', 5, 3, '.'), new]})
    there = ['log.file.txt', 'log.file_1.txt', 'log.file_2.txt', 'log.file_3.txt']
    for k in range(4):
        given = {n: f'content {n}' for n in there[:k]}
        case(project, rep, 'unique', 'utilities.create_unique_file', str(k), UNIQUE.format(given=given), {'return': [(n, c, 5, 3, '.') for n, c in given.items()] + [(there[k], 'new', None, 2, '.')]})


LOGIN = """
from gravity_toolkit.utilities import attempt_login
import vfs
import pathlib
def ref():
    d = vfs.disk({given!r})
    try:
        opener = attempt_login('urs.host'{opts})
    except RuntimeError:
        return 'refused'
    return [opener.addheaders, vfs.files(d)]
"""


def logins(project, rep):
    rep.rule('logins', 'credentials come from the arguments, the netrc file, the environment or the prompt, and are asked for again until they are accepted', floor=6)
    where = 'https://archive.podaac.earthdata.nasa.gov/s3credentials'
    good, bad = ('one', 'first'), ('two', 'second')

    def remote(accepted, netrc=(), environ=(), users=(), words=()):
        return {where: [[('Authorization', 'Basic {0}:{1}'.format(*a))] for a in accepted], 'netrc': [[h, u, w] for h, u, w in netrc], 'environ': dict(environ), 'Username': list(users), 'Password': list(words)}
    file = {'.netrc': 'inside'}
    own, other = ('urs.host',) + good, ('other.host',) + bad
    env = (('EARTHDATA_USERNAME', 'two'), ('EARTHDATA_PASSWORD', 'second'))
    at = ", netrc=d.joinpath('.netrc')"
    for label, given, opts, net_, want in (
            ('netrc', file, at, remote([good], [other, own], env), good),
            ('not in netrc', file, at, remote([bad], [other], env), bad),
            ('no netrc', {}, at, remote([bad], [own], env), bad),
            ('arguments', {}, at + ", username='one', password='first'", remote([good], [own], env), good),
            ('prompt', {}, at, remote([good], users=['one'], words=['first']), good),
            ('password', {}, at + ", username='one'", remote([good], words=['first']), good),
            ('again', file, at, remote([good], [('urs.host', 'x', 'y')], users=['two', 'one'], words=['none', 'first']), good),
            ('again from prompt', {}, at, remote([good], users=['x', 'one'], words=['y', 'first']), good),
            ('never', {}, at + ", retries=3", remote([], users=['x', 'y', 'z', 'one'], words=['x', 'y', 'z', 'first']), None),
            ('last', {}, at + ", retries=3", remote([good], users=['x', 'y', 'one'], words=['x', 'y', 'first']), good)):
        mode = [('.netrc', 'inside', 0o600, 3, '.')] if given else []
        case(project, rep, 'logins', 'utilities.attempt_login', label, LOGIN.format(given=given, opts=opts),
            {'return': 'refused' if want is None else [[('Authorization', 'Basic {0}:{1}'.format(*want))], mode]}, net_)


TOKEN = """
from gravity_toolkit.utilities import {name}
def ref():
    return {name}({args})
"""


def tokens(project, rep):
    rep.rule('tokens', 'documents of a server are those of the given address', floor=4)
    where, urs = 'https://archive.podaac.earthdata.nasa.gov/s3credentials', 'urs.earthdata.nasa.gov'
    login = {where: [[('Authorization', 'Basic one:first')]], 'netrc': [[urs, 'one', 'first']], 'environ': {}, 'home': True}
    for name, address, method in (('get_token', 'token', 'POST '), ('list_tokens', 'tokens', '')):
        for host in (None, 'https://other/' + address):
            at = host or f'https://{urs}/api/users/{address}'
            for build in (True, False):
                args = ', '.join(([f'HOST={host!r}'] if host else []) + (['build=False'] if not build else []))
                case(project, rep, 'tokens', f'utilities.{name}', args, TOKEN.format(name=name, args=args), {'[token]': 'abc', '[number]': 2}, {**login, method + at: {'token': 'abc', 'number': 2}})
    for host in ('https://host/dir/x.json', ['https://host', 'dir', 'x.json']):
        case(project, rep, 'tokens', 'utilities.from_json', type(host).__name__, TOKEN.format(name='from_json', args=repr(host)), {'[token]': 'abc'}, {'https://host/dir/x.json': {'token': 'abc'}})
    for host in (None, 'https://other/revoke'):
        at = host or f'https://{urs}/api/users/revoke_token'
        body = GUARD2.format(args="'abc'" + (f', HOST={host!r}' if host else '') + ', build=False')
        case(project, rep, 'tokens', 'utilities.revoke_token', str(bool(host)), body, {'return': 'done'}, {f'POST {at}?token=abc': {}})


GUARD2 = """
from gravity_toolkit.utilities import revoke_token
def ref():
    try:
        revoke_token({args})
    except Exception:
        return 'error'
    return 'done'
"""


def run(project, rep):
    saved(project, rep)
    listed(project, rep)
    catalogue(project, rep)
    names(project, rep)
    synced(project, rep)
    kinds(project, rep)
    logins(project, rep)
    tokens(project, rep)
