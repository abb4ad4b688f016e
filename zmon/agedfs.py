"""File systems whose creation times the harness decides."""
import datetime
from fsspec.implementations.local import LocalFileSystem

TIMES = {}      # directory of a partition -> creation time (POSIX)


def lookup(path):
    best = None
    for p, t in TIMES.items():
        if path == p or path.startswith(p + '/'):
            if best is None or len(p) > len(best[0]):
                best = (p, t)
    return None if best is None else best[1]


class AgedFS(LocalFileSystem):
    """Local files, creation times from the table."""

    def info(self, path, **kwargs):
        out = super().info(path, **kwargs)
        t = lookup(out['name'].rstrip('/'))
        return out if t is None else dict(out, created=t)


class NaiveFS(AgedFS):
    """Creation times in UTC without time zone, as some file systems give them."""

    def created(self, path):
        return super().created(path).replace(tzinfo=None)


class EastFS(AgedFS):
    """Creation times given in another time zone."""

    def created(self, path):
        return super().created(path).astimezone(datetime.timezone(datetime.timedelta(hours=9, minutes=30)))
