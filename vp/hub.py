"""A small model hub on the loopback network, standing in for huggingface.co.

Serves directories registered with `Hub.put(repo, {revision: directory})` over
the parts of the Hub's HTTP protocol that model loading uses, and points the
client libraries of this process at itself.  Every request is logged.
"""
import hashlib
import http.server
import json
import os
import threading
import urllib.parse

_HUB = None


def sha_of(directory):
    h = hashlib.sha1(directory.encode())
    return h.hexdigest()


class _Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    disable_nagle_algorithm = True

    def log_message(self, *a):
        pass

    def _reply(self, code, body=b"", headers=(), head=False):
        self.send_response(code)
        for k, v in headers:
            self.send_header(k, v)
        if "Content-Length" not in dict(headers):
            self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        if not head and body:
            self.wfile.write(body)

    def _json(self, obj, head=False):
        self._reply(200, json.dumps(obj).encode(), [("Content-Type", "application/json")], head)

    def _error(self, code, kind, head=False):
        self._reply(code, b"", [("X-Error-Code", kind), ("X-Error-Message", kind)], head)

    def do_HEAD(self):
        self._serve(head=True)

    def do_GET(self):
        self._serve(head=False)

    def do_POST(self):
        n = int(self.headers.get("Content-Length") or 0)
        self.rfile.read(n)
        self._reply(200, b"[]", [("Content-Type", "application/json")])

    def _serve(self, head):
        hub = self.server.hub
        path = urllib.parse.unquote(urllib.parse.urlparse(self.path).path).strip("/")
        hub.log.append(path)
        if hub.down:
            return self._reply(503, b"", [], head)
        if path.startswith("api/models/"):
            return self._api(hub, path[len("api/models/"):], head)
        if "/resolve/" in path:
            repo, rest = path.split("/resolve/", 1)
            rev, _, fn = rest.partition("/")
            d, sha, err = hub.find(repo, rev)
            if err:
                return self._error(404, err, head)
            fp = os.path.join(d, fn)
            if not os.path.isfile(fp):
                return self._error(404, "EntryNotFound", head)
            with open(fp, "rb") as f:
                data = f.read()
            hub.files.append((repo, rev, fn))
            tag = hashlib.sha256(data).hexdigest()
            return self._reply(200, data, [("ETag", f'"{tag}"'), ("X-Repo-Commit", sha), ("Content-Length", str(len(data))),
                                           ("Accept-Ranges", "none")], head)
        return self._error(404, "RepoNotFound", head)

    def _api(self, hub, rest, head):
        for marker in ("/revision/", "/tree/"):
            if marker in rest:
                repo, rev = rest.split(marker, 1)
                rev, _, sub = rev.partition("/")
                break
        else:
            repo, rev, marker, sub = rest, "main", "", ""
        d, sha, err = hub.find(repo, rev)
        if err:
            return self._error(404, err, head)
        files = []
        for base, _, names in os.walk(d):
            files += [os.path.relpath(os.path.join(base, n), d) for n in names]
        files.sort()
        if marker == "/tree/":
            items = [{"type": "file", "path": f, "size": os.path.getsize(os.path.join(d, f)), "oid": sha} for f in files
                     if not sub or f.startswith(sub + "/")]
            return self._json(items, head)
        self._json({"id": repo, "modelId": repo, "sha": sha, "private": False, "siblings": [{"rfilename": f} for f in files],
                    "tags": [], "downloads": 0, "likes": 0}, head)


class Hub:
    def __init__(self):
        self.repos, self.log, self.files, self.down = {}, [], [], False
        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), _Handler)
        self.server.daemon_threads = True
        self.server.hub = self
        self.url = f"http://127.0.0.1:{self.server.server_port}"
        threading.Thread(target=self.server.serve_forever, daemon=True).start()

    def put(self, repo, revisions):
        """revisions: {name: directory}; "main" is the default one."""
        self.repos[repo] = dict(revisions)

    def find(self, repo, rev):
        if repo not in self.repos:
            return None, None, "RepoNotFound"
        revs = self.repos[repo]
        for name, d in revs.items():
            if rev in (name, sha_of(d)):
                return d, sha_of(d), None
        return None, None, "RevisionNotFound"

    def reset(self, cache):
        """Forget all repositories and use another (empty) download cache."""
        import huggingface_hub.constants as c

        self.repos.clear()
        self.log.clear()
        self.files.clear()
        self.down = False
        os.makedirs(cache, exist_ok=True)
        c.HF_HUB_CACHE = cache


def hub():
    """The hub of this process, started on first use."""
    global _HUB
    if _HUB is not None and _HUB.pid == os.getpid():
        return _HUB
    import huggingface_hub
    import huggingface_hub.constants as c
    import huggingface_hub.hf_api

    _HUB = Hub()
    _HUB.pid = os.getpid()
    c.HF_HUB_OFFLINE = False
    c.ENDPOINT = _HUB.url
    c.HUGGINGFACE_CO_URL_TEMPLATE = _HUB.url + "/{repo_id}/resolve/{revision}/{filename}"
    huggingface_hub.hf_api.api.endpoint = _HUB.url
    for k in ("HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "http_proxy", "https_proxy", "all_proxy"):
        os.environ.pop(k, None)
    try:
        huggingface_hub.close_session()
    except Exception:  # noqa: BLE001
        pass
    return _HUB
