"""R01, R02: recipient names resolved by the code in a small world of aliases, files and web pages."""
import base64
import http.server
import json
import os
import shutil
import socket
import struct
import sys
import threading
import urllib.parse

import world

KEYS = ["x%d" % i for i in range(1, 5)] + ["e1", "e2", "r1", "r2", "r3"]
_blob = {}


def literal(n):
    """text of a public key"""
    if n not in _blob:
        if n[0] == "x":
            import refage
            _blob[n] = refage.bech32_encode("age", world.ident(n).pub)
        else:
            _blob[n] = sshtext(n)
    return _blob[n]


def sshtext(n):
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ed25519
    k = ed25519.Ed25519PrivateKey.from_private_bytes(world.ident(n).secret) if n[0] == "e" else world.rsa_private(int(n[1:]))[1]
    return k.public_key().public_bytes(ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH).decode()


def name_of(k):
    """abstract name of a key object of the code"""
    from age.keys.agekey import AgePublicKey
    if isinstance(k, AgePublicKey):
        raw = bytes(k.public_bytes())
        for n in KEYS:
            if n[0] == "x" and world.ident(n).pub == raw:
                return n
        return "?age"
    raw = bytes(k.binary_encoding())
    for n in KEYS:
        if n[0] != "x" and base64.b64decode(literal(n).split()[1]) == raw:
            return n
    return "?ssh"


def swap(t, i, c):
    return t[:i] + c + t[i + 1:]


def bad(form):
    x, e, r = literal("x1"), literal("e1"), literal("r1")
    eb, rb = e.split()[1], r.split()[1]
    return {
        "agechar": swap(x, 30, "q" if x[30] != "q" else "p"), "ageshort": x[:-1], "ageword": "age", "age1": "age1",
        "agetrailing": x + " work", "ageprivate": "age-secret-key-1" + "q" * 58, "rsaword": "ssh-rsa", "rsashort": "ssh-rsa AAAA",
        "rsagarbage": "ssh-rsa ***", "rsaed": "ssh-rsa " + eb, "edrsa": "ssh-ed25519 " + rb, "edshort": "ssh-ed25519 AAAA",
        "edword": "ssh-ed25519", "edcut": "ssh-ed25519 " + base64.b64encode(base64.b64decode(eb)[:-1]).decode(),
        "agebyte": x[:30] + "\udcff" + x[30:], "agebytes": x[:40] + "\udcc3" + x[41:], "agebytetail": x + "\udcff",
        "rsacut": "ssh-rsa " + base64.b64encode(base64.b64decode(rb)[:-5]).decode(),
    }[form]


def ecdsa():
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ec
    return ec.derive_private_key(77, ec.SECP256R1()).public_key().public_bytes(
        ser.Encoding.OpenSSH, ser.PublicFormat.OpenSSH).decode()


def nothing(form, base):
    x, e = literal("x4"), literal("e2")
    return {
        "longcomment": "# " + "page " * 60000, "longerword": "word" * 40000, "blank": "", "spaces": "   \t ", "comment": "# my keys", "commentkey": "# " + x, "commentssh": "#" + e,
        "commentnel": "# " + chr(0xC5) + x, "commentls": "# \u2028" + x, "commentvt": "# \x0b" + x, "commentff": "# \x0c" + x,
        "commentfs": "# \x1c" + x + "\x1e" + e, "word": "somebody", "ecdsa": ecdsa(), "dss": "ssh-dss AAAAB3NzaC1kc3M= me",
        "sk": "sk-ssh-ed25519@openssh.com AAAA me", "dirname": "folder", "dangling": "gone", "unicode": "jür\u2713gen",
        "optionkey": 'from="*.example.org" ' + e, "missingpath": os.path.join(base, "nowhere.txt"), "ftp": "ftp://example.org/keys",
        "wordkey": "key " + x, "githubword": "github.com/octo", "nul": "a\0b",
        "homepath": "~/list.pub", "fileurl": "file://" + os.path.join(base, "rec.txt"), "upperurl": "HTTPS://example.org/a.keys",
        "include": "include rec.txt", "atfile": "@rec.txt", "hash": "#", "hashword": "#" + x, "slashes": "//", "semi": ";", "envpath": "$HOME/list.pub", "uppergithub": "GitHub:octo",
        "angle": "<rec.txt>", "angleurl": "<https://example.org/a.keys>", "dquote": '"rec.txt"', "squote": "'rec.txt'", "paren": "(rec.txt)",
        "bracket": "[rec.txt]", "comma": "rec.txt,", "semicolon": "rec.txt;", "colon": "rec.txt:", "mdlink": "[keys](https://example.org/a.keys)",
        "subst": "$(cat rec.txt)", "backtick": "`cat rec.txt`", "pipe": "|cat rec.txt", "globstar": "*.txt", "globq": "re?.txt",
        "globset": "[r]ec.txt", "globall": "*", "percent": "%72ec.txt", "fragment": "rec.txt#x", "input": "<rec.txt", "dash": "-", "dquoteurl": '"https://example.org/a.keys"',
        "octoat": "@octo", "gh": "gh:octo", "githubspace": "github: octo", "githubslash": "github:/octo", "gitlab": "gitlab:octo", "urlis": "url=https://example.org/a.keys",
        "recipient": "recipient: rec.txt", "dashr": "-r rec.txt", "dashi": "-i rec.txt", "fileis": "file:rec.txt", "source": "source rec.txt", "slashed": "rec.txt/",
        "sshurl": "ssh://example.org/a.keys", "protorel": "//example.org/a.keys", "tildeuser": "~root/list.pub", "winenv": "%HOME%\\list.pub", "braces": "${HOME}/list.pub",
        "labelat": "@bob", "labelgroup": "group:bob", "labelalias": "alias:bob", "labelstar": "*bob", "labelvar": "$bob", "labelamp": "&bob", "labelplus": "+bob",
        "labelnot": "!bob", "labelminus": "-bob", "labelmail": "bob@example.org", "labelparen": "(bob)", "labelangle": "<bob>", "labelpercent": "%bob",
        "labelcomma": "bob,", "labelcolon": "bob:", "labelbrace": "{bob}", "labelbracket": "[bob]", "labelquote": "'bob'", "labelequal": "=bob", "labeltilde": "~bob",
        "labeldot": ".bob", "labels": "bob,team", "backslash": "\\", "commentbackslash": "# mine \\", "wordbackslash": "word\\", "commentquote": "# don't", "commenttriple": '# """',
        "bareurl": "example.org/a.keys", "keycomma": "rec.txt, bob",
    }[form]


def text(x, base):
    k, n = x["k"], x["n"]
    t = (literal(n) if k == "key" else bad(n) if k == "bad" else nothing(n, base) if k == "nothing" else
         "github:" + n if k == "github" else n)
    d = x.get("d", "")
    return {"": t, "abs": os.path.join(base, t), "dot": "./" + t, "lead": "  " + t, "trail": t + "  ", "tab": "\t" + t + "\t", "both": " " + t + "\t ",
            "comment": t + " me@host.example", "commentu": t + " j\u00fcrgen \u2713", "commentnel": t + " " + chr(0xC5) + "age Hansen",
            "commentls": t + " a\u2028age"}[d]


def listing(f, base):
    nl = {"lf": "\n", "crlf": "\r\n"}[f["nl"]]
    ls = [text(x, base) for x in f["lines"]]
    return (nl.join(ls) + (nl if ls and f["term"] else "")).encode("utf-8", "surrogateescape")


# ---------------------------------------------------------------------------
# the web
NET = {"pages": {}, "log": [], "port": 0, "foreign": []}


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *a):
        pass

    def do_GET(self):
        url = urllib.parse.unquote(self.path[1:])
        page = NET["pages"].get(url)
        self.close_connection = True
        if page is None:
            body, status = b"not found", 404
            return self.answer(status, body, len(body))
        st, body = page["status"], page["body"]
        if st == "reset":
            self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.connection.close()
            return
        if st == "truncated":
            return self.answer(200, body, len(body) + 100, page)
        if st == "redirect":
            self.send_response(302)
            self.send_header("Location", page["to"])
            self.send_header("Content-Length", str(len(body)))
            self.send_header("Connection", "close")
            self.end_headers()
            self.wfile.write(body)
            return
        self.answer(200 if st == "ok" else int(st), body, len(body), page)

    def answer(self, status, body, n, page=None):
        self.send_response(status)
        if page and page["type"]:
            self.send_header("Content-Type", page["type"])
        self.send_header("Connection", "close")
        if page and page["chunked"] and page["status"] == "ok":
            self.send_header("Transfer-Encoding", "chunked")
            self.end_headers()
            for i in range(0, len(body), 97):
                self.wfile.write(b"%x\r\n%s\r\n" % (len(body[i:i + 97]), body[i:i + 97]))
            self.wfile.write(b"0\r\n\r\n")
            return
        self.send_header("Content-Length", str(n))
        self.end_headers()
        self.wfile.write(body)


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    timeout = 2

    def handle_error(self, *a):
        pass


def install_net(apart=False):
    parent = os.getpid()
    import requests.adapters as ra
    srv = Server(("127.0.0.1", 0), Handler)
    NET["port"] = srv.server_address[1]
    if apart:
        # a process of its own, so that this one stays single-threaded
        if os.fork() == 0:
            try:
                while os.getppid() == parent:
                    srv.handle_request()
            finally:
                os._exit(0)
    else:
        threading.Thread(target=srv.serve_forever, daemon=True).start()
    orig = ra.HTTPAdapter.send

    def send(self, request, **kw):
        url = request.url
        NET["log"].append(url)
        page = NET["pages"].get(url)
        port = 1 if page and page["status"] == "refused" else NET["port"]
        request = request.copy()
        request.url = "http://127.0.0.1:%d/%s" % (port, urllib.parse.quote(url, safe=""))
        r = orig(self, request, **kw)
        r.url = url
        return r

    ra.HTTPAdapter.send = send


AREA = [None]
OPENED = []


def hook(event, args):
    if AREA[0] is None:
        return
    if event == "open":
        try:
            p = os.path.realpath(os.path.join(AREA[0], os.fsdecode(args[0])))
        except (TypeError, ValueError):
            return
        if p.startswith(AREA[0] + os.sep):
            OPENED.append(os.path.relpath(p, AREA[0]))
    elif event == "socket.connect":
        if args[1][:1] != ("127.0.0.1",):
            NET["log"].append("socket:" + repr(args[1]))
    elif event == "socket.getaddrinfo":
        if args[0] not in ("127.0.0.1", b"127.0.0.1"):
            NET["log"].append("lookup:" + str(args[0]))
    elif event in ("subprocess.Popen", "os.system", "os.exec"):
        NET["log"].append(event)


def decoys(sc, cwd):
    """files with the names of texts that name no file where they stand"""
    if sum(map(ord, sc["id"])) % 3 == 0:
        return
    names = [sc["x"]] + [v for a in sc["aliases"] for v in a["values"]]
    lines = [x for f in sc["files"] for x in f["lines"]] + [x for u in sc["urls"] for x in u["lines"]]
    used = {t.strip() for x in names for t in text(x, cwd).split() + [text(x, cwd)]}
    made = 0
    for x in lines:
        for t in {text(x, cwd), text(x, cwd).strip()} if x["k"] in ("key", "bad", "nothing", "url", "github") else ():
            p = os.path.join(cwd, t)
            if (not t or t.strip() in used or "\0" in t or len(t) > 200 or "/" in t or os.path.lexists(p) or made > 20):
                continue
            made += 1
            with open(p.encode("utf-8", "surrogateescape"), "w") as h:
                h.write(literal("r2") + "\n" + literal("x2") + "\n")


COMMENTS = ["# nothing: age1", "# mine \\", "#!alice: bob", "# don't", '# """', "#\tteam:", "#", "# bob: {", "# [", "# <<EOF", "# end;", "# \u2028alice: age1", "#include bob"]


def case(sc):
    from age.keyloader import load_aliases, resolve_public_key

    base = os.path.realpath(os.path.join(os.environ["HOME"], sc["id"]))
    home, cwd = os.path.join(base, "home"), os.path.join(base, "cwd")
    os.makedirs(os.path.join(home, ".config", "age"))
    os.makedirs(os.path.join(cwd, "sub"))
    os.mkdir(os.path.join(cwd, "folder"))
    os.symlink("nowhere at all", os.path.join(cwd, "gone"))
    with open(os.path.join(home, "list.pub"), "w") as h:
        h.write(literal("x2") + "\n")
    for f in sc["files"]:
        p = os.path.join(cwd, f["name"])
        if f["as"] != "plain":
            q = os.path.join(base, "store", f["name"])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if f["as"] == "hard":
                open(q, "x").close()
                os.link(q, p)
            else:
                os.symlink(q if f["as"] == "link" else os.path.relpath(q, os.path.dirname(p)), p)
            p = q
        with open(p, "wb") as h:
            h.write(listing(f, cwd))
    decoys(sc, cwd)
    apath = os.path.join(home, ".config", "age", "aliases.txt") if sc["how"] == "home" else os.path.join(base, "my aliases")
    if sc["aliases"] or sc["how"] == "path":
        with open(apath, "w", encoding="utf-8") as h:
            salt = sum(map(ord, sc["id"]))
            h.write("# aliases\n\n%s\n" % COMMENTS[(salt + 5) % len(COMMENTS)])
            for i, a in enumerate(sc["aliases"]):
                gap = "\t" if a["gap"] == "tab" else a["gap"]
                h.write("%s%s:%s%s\n" % ("  " if i % 3 == 2 else "", a["label"], gap,
                                         (gap or " ").join(text(v, cwd) for v in a["values"])))
                if i % 2:
                    h.write("\n  %s\n" % COMMENTS[(i + salt) % len(COMMENTS)])
    NET["pages"] = {u["name"]: dict(u, body=listing(u, cwd)) for u in sc["urls"]}
    NET["log"].clear()
    OPENED.clear()
    ev = dict(sc, r="ok", keys=[], touched=[])
    old, oldcwd = os.environ["HOME"], os.getcwd()
    os.environ["HOME"] = home
    os.chdir(cwd)
    try:
        with world.limit(30):
            aliases = load_aliases() if sc["how"] == "home" else load_aliases(apath)
            AREA[0] = base
            ev["keys"] = [name_of(k) for k in resolve_public_key(text(sc["x"], cwd), aliases=aliases)]
    except Exception as e:
        ev.update(r="error", err=repr(e)[:200])
    except world.CaseTimeout:
        ev["r"] = "hang"
    AREA[0] = None
    os.environ["HOME"] = old
    os.chdir(oldcwd)
    ev["touched"] = list(dict.fromkeys(
        ["file:" + (p[4:] if p.startswith("cwd/") else p[6:] if p.startswith("store/") else p) for p in OPENED if not p.endswith("aliases.txt")] + NET["log"]))
    shutil.rmtree(base, ignore_errors=True)
    return ev


def main():
    with open(sys.argv[1]) as f:
        cases = json.load(f)
    out = open(sys.argv[2], "w")
    import encodings.idna  # noqa: F401

    import age.keyloader  # noqa: F401
    install_net()
    for k in KEYS:
        literal(k)
    sys.addaudithook(hook)
    world.quiet()
    json.dump([case(c) for c in cases], out)
    out.close()


if __name__ == "__main__":
    main()
