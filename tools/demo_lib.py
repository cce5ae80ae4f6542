"""Helpers of the demonstrations: builds the program in the current directory (./src) with its fixed
installation path replaced by a scratch directory, runs it on loopback and talks to it."""
import os, sys, shutil, subprocess, tempfile, socket, ssl, json, time, struct, threading, signal, atexit, glob

S = tempfile.mkdtemp(prefix="demo")
PROCS = []
def _end():
    for p in PROCS:
        try: p.kill(); p.wait()
        except Exception: pass
    shutil.rmtree(S, ignore_errors=True)
atexit.register(_end)
signal.alarm(280)

def sources():
    out = []
    for root, dirs, files in os.walk(S + "/src"):
        if os.path.basename(root) == "test": continue
        out += [os.path.join(root, f) for f in files if f.endswith(".c")]
    return sorted(out)

def build(driver=None, out="s5", flags=(), edit=()):
    """builds the program, or a driver with its own main() linked to the program's sources"""
    if not os.path.exists(S + "/src"):
        shutil.copytree("src", S + "/src", ignore=shutil.ignore_patterns("*.o"))
        h = S + "/src/common/macro.h"
        t = open(h, "rb").read().replace(b'"/usr/local/s5/"', b'"' + S.encode() + b'/"')
        open(h, "wb").write(t)
    for f, a, b in edit:
        p = S + "/src/" + f; t = open(p, "rb").read(); assert a in t; open(p, "wb").write(t.replace(a, b))
    inc = ["-I" + S + "/src/" + d for d in (".", "common/util", "common", "dns", "http", "app", "test")]
    cmd = ["gcc", "-w", "-O1", "-g", *flags, *inc, "-o", S + "/" + out]
    if driver:
        cmd += ["-c", "-Dmain=s5_main"]
        objs = []
        for i, s in enumerate(sources()):
            o = S + "/%s_%d.o" % (out, i); objs.append(o)
            subprocess.run(["gcc", "-w", "-O1", "-g", *flags, *inc, "-Dmain=s5_main", "-c", "-o", o, s], check=True)
        subprocess.run(["gcc", "-w", "-O1", "-g", *flags, *inc, "-o", S + "/" + out, driver, *objs, "-lssl", "-lcrypto", "-lpthread", "-lm", "-ldl"], check=True)
    else:
        subprocess.run(cmd + sources() + ["-lssl", "-lcrypto", "-lpthread", "-lm", "-ldl"], check=True)
    return S + "/" + out

def run_driver(c, flags=(), args=(), timeout=120):
    d = os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), c)
    b = build(d, "driver", flags)
    os.makedirs(S + "/logs", exist_ok=True); os.makedirs(S + "/config", exist_ok=True)
    r = subprocess.run([b, *args], cwd=S, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(r.stdout[-3000:])
    return r.returncode

TUN, LOCAL, HTTP, HTTPS = 22345, 22080, 22081, 22443

def serve(mode=2, keys=("key1", "auth_for_tanx"), extra=None, workers=0, binary=None, wrap=(), prefix="", port=None, args=()):
    b = binary or build()
    os.makedirs(S + "/logs", exist_ok=True); os.makedirs(S + "/config", exist_ok=True); os.makedirs(S + "/www", exist_ok=True)
    if not os.path.exists(S + "/crt"):
        subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", S + "/key", "-out", S + "/crt", "-days", "9", "-subj", "/CN=x"], check=True, stderr=subprocess.DEVNULL)
    json.dump(list(keys), open(S + "/auth.json", "w"))
    c = {"sys_daemon": 0, "sys_process": workers, "sys_log_level": 0, "ssl_crt_path": S + "/crt", "ssl_key_path": S + "/key",
         "s5_mode": mode, "s5_serv_port": TUN, "s5_serv_auth_path": S + "/auth.json", "s5_serv_gw": "127.0.0.1",
         "s5_local_port": LOCAL, "s5_local_serv_port": TUN, "s5_local_serv_ip": "127.0.0.1", "s5_local_auth": "key1",
         "http_arr": [HTTP], "https_arr": [HTTPS], "http_home": S + "/www", "http_index": "index.html"}
    c.update(extra or {})
    json.dump(c, open(S + "/config/config.json", "w"))
    p = subprocess.Popen([*wrap, b, *args], cwd=S, stdout=open(S + "/out", "ab"), stderr=subprocess.STDOUT)
    PROCS.append(p)
    want = port or (LOCAL if mode == 1 else HTTP)
    for i in range(100):
        try: socket.create_connection(("127.0.0.1", want), 1).close(); break
        except OSError: time.sleep(0.05)
    time.sleep(0.1)
    return p

def ctx():
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); x.check_hostname = False; x.verify_mode = ssl.CERT_NONE
    return x

def tcp(port, t=8):
    s = socket.create_connection(("127.0.0.1", port), t); s.settimeout(t); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return s

def tls(port, t=8):
    return ctx().wrap_socket(tcp(port, t))

def auth(key, magic=0xa001beef, secret=b""):
    return struct.pack(">I", magic) + key.ljust(16, b"\0") + secret.ljust(16, b"\0")

def rd(s, n, t=8):
    """n bytes, fewer at the end of the stream or after t seconds of silence"""
    b = b""; s.settimeout(t)
    try:
        while len(b) < n:
            d = s.recv(n - len(b))
            if not d: break
            b += d
    except (OSError, ssl.SSLError): pass
    return b

def rdall(s, t=8): return rd(s, 1 << 30, t)

def listener():
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("127.0.0.1", 0)); s.listen(8); s.settimeout(8)
    return s

def tunnel(dst_port, key=b"key1", port=None, addr=None, t=8):
    """an authorised tunnel session to 127.0.0.1:dst_port; returns the socket after the ten-byte reply, or None"""
    s = tls(port or TUN, t)
    s.sendall(auth(key)); time.sleep(0.05)
    s.sendall(b"\5\1\0")
    if rd(s, 2, t) != b"\5\0": return None
    s.sendall(b"\5\1\0" + (addr or b"\1\x7f\0\0\1") + struct.pack(">H", dst_port))
    r = rd(s, 10, t)
    return s if len(r) == 10 and r[1] == 0 else None

def dns(answer):
    """DNS server on 127.0.0.1:53; answer(name, query) -> datagram or None; returns the list of names asked for"""
    asked = []
    u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); u.bind(("127.0.0.1", 53))
    def loop():
        while True:
            q, a = u.recvfrom(2000)
            i, n = 12, []
            while q[i]: n.append(q[i + 1:i + 1 + q[i]]); i += q[i] + 1
            name = b".".join(n); asked.append(name)
            r = answer(name, q)
            if r: u.sendto(r, a)
    threading.Thread(target=loop, daemon=True).start()
    return asked

def reply(q, records, flags=0x8180):
    """records: (name bytes, type, ttl, data)"""
    r = q[:2] + struct.pack(">HHHHH", flags, 1, len(records), 0, 0) + q[12:]
    for n, t, ttl, d in records: r += n + struct.pack(">HHIH", t, 1, ttl, len(d)) + d
    return r

def http(s, req, t=8):
    """sends one request and reads one response: (status, headers, body)"""
    s.sendall(req)
    return http_read(s, t)

def http_read(s, t=8):
    h = b""
    while not h.endswith(b"\r\n\r\n"):
        d = rd(s, 1, t)
        if not d: return (None, {}, h)
        h += d
    l = h.decode("latin1").split("\r\n"); H = {}
    for x in l[1:]:
        if ":" in x: k, v = x.split(":", 1); H[k.strip().lower()] = v.strip()
    b = rd(s, int(H.get("content-length", 0)), t)
    return (int(l[0].split()[1]), H, b)

def check(ok, what):
    print(("ok    " if ok else "WRONG ") + what)
    if not ok: sys.stdout.flush(); os._exit_code = 1; sys.exit(1)
