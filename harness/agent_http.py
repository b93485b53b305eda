"""tornado's HTTP client with the network cut off: requests are recorded and answered by the driver."""
import io
import urllib.parse

from tornado import httpclient
from .codec_driver import cps

REQS = []


class FakeHTTP(httpclient.AsyncHTTPClient):
    now = staticmethod(lambda: 0)

    def initialize(self, defaults=None, **kw):
        super(FakeHTTP, self).initialize(defaults=defaults)

    def fetch_impl(self, request, callback):
        REQS.append(Req(request, callback, FakeHTTP.now()))


class Req(object):
    def __init__(self, request, callback, t):
        self.request, self.callback, self.t, self.done = request, callback, t, False

    def view(self):
        u = urllib.parse.urlsplit(self.request.url)
        host, _, port = u.netloc.rpartition(':')
        return dict(scheme=u.scheme, host=cps(host), port=int(port) if port.isdigit() else -1, path=cps(u.path), query=cps(u.query),
                    method=self.request.method, timeout=int(self.request.request_timeout or 0), t=self.t)

    def answer(self, body=None, code=200):
        if self.done:
            return
        self.done = True
        if body is None:
            self.callback(httpclient.HTTPResponse(self.request, 599, error=httpclient.HTTPError(599, 'Timeout')))
        else:
            self.callback(httpclient.HTTPResponse(self.request, code, buffer=io.BytesIO(body)))


class fake_http(object):
    def __init__(self, now):
        FakeHTTP.now = staticmethod(now)
        del REQS[:]

    def __enter__(self):
        self.old = httpclient.AsyncHTTPClient._save_configuration()
        httpclient.AsyncHTTPClient.configure(FakeHTTP)
        return REQS

    def __exit__(self, *a):
        httpclient.AsyncHTTPClient._restore_configuration(self.old)
