"""Access to the code under test and small helpers shared by the checks."""
import io

from . import env  # noqa: F401
from pyulog.core import ULog


def load(raw, **kw):
    return ULog(io.BytesIO(raw), **kw)


def written(ulog):
    """bytes of write_ulog"""
    buf = io.BytesIO()
    ulog.write_ulog(buf)
    return buf.getvalue()
