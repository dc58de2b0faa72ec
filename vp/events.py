"""Stand-in for the event parser (the libevents submodule is not part of the
repository): shows which definitions, id and arguments it was given."""
import contextlib
import email.message
import io
import sys
import types
import urllib.error
import urllib.request
import urllib.response


class StubEvent:
    def __init__(self, group, message):
        self._group, self._message = group, message

    def group(self):
        return self._group

    def message(self):
        return self._message


class StubParser:
    def __init__(self):
        self.defs, self.profile = None, None

    def load_definitions(self, definitions):
        assert self.defs is None
        self.defs = definitions

    def set_profile(self, profile):
        self.profile = profile

    def parse(self, event_id, args):
        assert isinstance(args, bytes)
        d = self.defs["events"].get(str(int(event_id)))
        if d is None:
            return None
        return StubEvent(d[0], "%s %s %s %s" % (self.defs["source"], d[1], self.profile, args.hex()))


def install():
    if sys.modules.get("pyulog.libevents_parse.parser"):
        return
    pkg = types.ModuleType("pyulog.libevents_parse")
    pkg.__path__ = []
    parser = types.ModuleType("pyulog.libevents_parse.parser")
    parser.Parser = StubParser
    sys.modules["pyulog.libevents_parse"] = pkg
    sys.modules["pyulog.libevents_parse.parser"] = parser


class Web(urllib.request.BaseHandler):
    """answers downloads: with body, or not at all"""
    handler_order = 1

    def __init__(self, body):
        self.body = body
        self.asked = []

    def http_open(self, req):
        self.asked.append(req.full_url)
        if self.body is None:
            raise urllib.error.URLError("no network")
        r = urllib.response.addinfourl(io.BytesIO(self.body), email.message.Message(), req.full_url, 200)
        r.msg = "OK"
        return r

    https_open = ftp_open = http_open


@contextlib.contextmanager
def web(body):
    """all downloads inside are answered by the Web object that this gives"""
    old = urllib.request._opener
    handler = Web(body)
    opener = urllib.request.OpenerDirector()
    opener.add_handler(handler)
    urllib.request.install_opener(opener)
    try:
        yield handler
    finally:
        urllib.request.install_opener(old)
