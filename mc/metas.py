"""Values of PathMeta fields shared by the metadata checks."""
from datetime import datetime, timezone, timedelta

FIELDS = ('name', 'size', 'created', 'updated', 'checksum', 'checksum_cypher', 'etag', 'chunksize', 'multi',
          'parent_id', 'id', 'file_id', 'old_id', 'gid', 'user_id', 'mode', 'errors')

T1 = datetime(2020, 1, 2, 3, 4, 5, 678901, tzinfo=timezone.utc)
T2 = datetime(2021, 6, 7, 8, 9, 10, tzinfo=timezone.utc)
T3 = datetime(2020, 1, 2, 3, 4, 5, 1000, tzinfo=timezone(timedelta(hours=5, minutes=30)))
T4 = datetime(1999, 12, 31, 23, 59, 59, 999999, tzinfo=timezone(-timedelta(hours=8)))
NAIVE = datetime(2020, 1, 2, 3, 4, 5)

VALUES = {
    'name': ('file.txt', 'a name with spaces', 'x', 'é.ü', '.hidden', 'a,b-c_d', '  spaced '),
    'size': (0, 1, 1024, 5 * 2 ** 40),
    'created': (T1, T2, T3, T4, NAIVE),
    'updated': (T2, T1, T4, T3, NAIVE),
    'checksum': (b'\x00', b'..//||##', bytes(range(64)), b'#'),
    'checksum_cypher': ('blake2b', 'sha256'),
    'etag': ((b'\x01\x02', 1), (bytes(16), 300), (b'--', 0)),
    'chunksize': (1, 4096, 2 ** 40),
    'multi': (1, 0, 7),
    'parent_id': ('N:dataset:1', 'p/q.r', '0'),
    'id': ('N:package:1', '0', 'host:/some/path.d/file.txt', 'x', ' i '),
    'file_id': (1, 2 ** 60, 12345),
    'old_id': ('N:package:0', 'o/p.q'),
    'gid': (0, 1000),
    'user_id': (0, 1000, 'N:user:1', 'some.user/x', ' spaced  user '),
    'mode': ('0o100644', 'rw', ' r '),
    'errors': (('e1',), ('checksum-mismatch', 'other error'), ('a.b/c',), (' e ', 'f ')),
}


def equal_value(k, a, b):
    if k == 'errors':
        return tuple(a or ()) == tuple(b or ())
    return a == b


def mismatch(meta, want):
    """fields of meta that differ from the dict want (missing means None)"""
    out = {}
    for k in FIELDS:
        a, b = getattr(meta, k), want.get(k)
        if not equal_value(k, a, b):
            out[k] = (a, b)
    return out
