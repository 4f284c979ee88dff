"""A stand-in for the network under urllib: every http(s) request is answered
by a function of the harness, so nothing leaves the process."""
import email.message
import io
import urllib.request
import urllib.response


class Handler(urllib.request.BaseHandler):
    handler_order = 100

    def __init__(self, answer):
        self.answer = answer

    def reply(self, req):
        a = self.answer(req.full_url)
        if isinstance(a, bytes):
            a = (io.BytesIO(a), len(a))
        body, size = a
        h = email.message.Message()
        if size is not None:
            h["Content-Length"] = str(size)
        r = urllib.response.addinfourl(body, h, req.full_url, 200)
        r.msg = "OK"
        return r

    http_open = https_open = reply


def install(answer):
    o = urllib.request.OpenerDirector()
    o.add_handler(Handler(answer))
    o.add_handler(urllib.request.HTTPErrorProcessor())
    o.add_handler(urllib.request.HTTPDefaultErrorHandler())
    urllib.request.install_opener(o)
