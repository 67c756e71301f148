"""Runs the built cargo-call-stack on artifacts made up here, with stand-ins for cargo and rustc.

Everything happens in a scratch directory that is removed at the end. A copy of this file lies
beside each demonstration."""
import atexit, os, re, shutil, struct, subprocess, sys, tempfile

TOOL = os.path.join(os.getcwd(), "target/debug/cargo-call-stack")
HASH = "2b603f95a48f10f931a61dd208fe3e5ffd64e491"
RLIB = "@CARGO_CALL_STACK:compiler_builtins_rlib_path@"
LL = "@CARGO_CALL_STACK:compiler_builtins_ll_path@"
TARGETS = {  # 64 bit, e_machine, os
    "thumbv6m-none-eabi": (0, 40, "none"), "thumbv7m-none-eabi": (0, 40, "none"),
    "thumbv7em-none-eabihf": (0, 40, "none"), "armv7r-none-eabi": (0, 40, "none"),
    "riscv32imac-unknown-none-elf": (0, 243, "none"),
    "x86_64-unknown-linux-gnu": (1, 62, "linux"),
}


def uleb(v):
    out = b""
    while True:
        b = v & 0x7F
        v >>= 7
        out += bytes([b | (0x80 if v else 0)])
        if not v:
            return out


class Elf:
    def __init__(self, is64, machine, kind):
        self.is64, self.machine, self.kind = is64, machine, kind
        self.secs, self.syms = [], []

    def section(self, name, ty, flags, addr, data, link=0, info=0, ent=0):
        self.secs.append([name, ty, flags, addr, data, link, info, ent])
        return len(self.secs)  # its index in the file

    def symbol(self, name, value, size, ty, shndx, glob=True):
        self.syms.append((name, value, size, ty, shndx, glob))

    def build(self):
        strtab, symtab = b"\0", b"\0" * (24 if self.is64 else 16)
        syms = sorted(self.syms, key=lambda s: s[5])
        for name, value, size, ty, shndx, glob in syms:
            n = len(strtab)
            strtab += name.encode() + b"\0"
            info = ty | (16 if glob else 0)
            if self.is64:
                symtab += struct.pack("<IBBHQQ", n, info, 0, shndx, value, size)
            else:
                symtab += struct.pack("<IIIBBH", n, value, size, info, 0, shndx)
        nlocal = sum(not s[5] for s in syms) + 1
        secs = [s[:] for s in self.secs]
        secs.append([".symtab", 2, 0, 0, symtab, len(secs) + 2, nlocal, 24 if self.is64 else 16])
        secs.append([".strtab", 3, 0, 0, strtab, 0, 0, 0])
        shstr = b"\0"
        names = []
        for s in secs + [[".shstrtab"]]:
            names.append(len(shstr))
            shstr += s[0].encode() + b"\0"
        secs.append([".shstrtab", 3, 0, 0, shstr, 0, 0, 0])
        eh, sh = (64, 64) if self.is64 else (52, 40)
        body, heads = b"", [b"\0" * sh]
        for n, (name, ty, flags, addr, data, link, info, ent) in zip(names, secs):
            body += b"\0" * (-(eh + len(body)) % 16)
            heads.append(struct.pack("<IIQQQQIIQQ" if self.is64 else "<IIIIIIIIII", n, ty, flags,
                                     addr, eh + len(body), len(data), link, info, 1, ent))
            body += data
        body += b"\0" * (-(eh + len(body)) % 16)
        head = b"\x7fELF" + bytes([2 if self.is64 else 1, 1, 1, 0]) + b"\0" * 8
        w = "Q" if self.is64 else "I"
        head += struct.pack("<HHI" + w * 3 + "IHHHHHH", self.kind, self.machine, 1, 0, 0,
                            eh + len(body), 0, eh, 0, 0, sh, len(heads), len(heads) - 1)
        return head + body + b"".join(heads)


def ar(members):
    out = b"!<arch>\n"
    long = b"".join(n.encode() + b"/\n" for n, _ in members)

    def member(name, data):
        h = "%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (name, 0, 0, 0, "644", len(data))
        return h.encode() + data + (b"\n" if len(data) % 2 else b"")

    out += member("//", long)
    pos = 0
    for n, d in members:
        out += member("/%d" % pos, d)
        pos += len(n) + 2
    return out


def obj(target, sizes):
    """object file that records stack sizes: {symbol: bytes}"""
    is64, machine, _ = TARGETS[target]
    e = Elf(is64, machine, 1)
    data, rel = b"", b""
    # symbols are sorted with locals first, all of these are global: symbol i is entry i + 1
    for i, (name, size) in enumerate(sizes.items()):
        if is64:
            rel += struct.pack("<QQQ", len(data), ((i + 1) << 32) | 1, 0)
        else:
            rel += struct.pack("<II", len(data), ((i + 1) << 8) | 2)
        data += b"\0" * (8 if is64 else 4) + uleb(size)
        e.symbol(name, 0, 4, 2, e.section(".text." + name, 1, 6, 0, b"\0" * 4))
    if sizes:
        n = e.section(".stack_sizes", 1, 0, 0, data)
        # the symbol table comes after the relocations
        if is64:
            e.section(".rela.stack_sizes", 4, 0x40, 0, rel, n + 2, n, 24)
        else:
            e.section(".rel.stack_sizes", 9, 0x40, 0, rel, n + 2, n, 8)
    return e.build()


class Graph:
    def __init__(self, text):
        self.text = text
        self.nodes, self.edges, self.cycles = {}, [], []
        for line in text.split("\n"):
            m = re.fullmatch(r'    (\d+) \[label="((?:[^"\\]|\\.)*)"( style=dashed)?\]', line)
            if m:
                name, _, rest = m[2].partition("\\nmax ")
                mx, _, local = rest.partition("\\nlocal = ") if rest else (None, "", name.partition("\\nlocal = ")[2])
                name = name.partition("\\nlocal = ")[0]
                self.nodes[int(m[1])] = (name, mx, local, bool(m[3]))
            m = re.fullmatch(r"    (\d+) -> (\d+)", line)
            if m:
                self.edges.append((int(m[1]), int(m[2])))
            if line.startswith("    subgraph"):
                self.cycles.append(set())
            m = re.fullmatch(r"        (\d+)", line)
            if m:
                self.cycles[-1].add(int(m[1]))
        self.by_name = {}
        for i, n in self.nodes.items():
            self.by_name.setdefault(n[0], []).append(i)

    def one(self, name):
        assert len(self.by_name.get(name, [])) == 1, "node %s: %s" % (name, self.by_name)
        return self.by_name[name][0]

    def max(self, name):
        return self.nodes[self.one(name)][1]

    def local(self, name):
        return self.nodes[self.one(name)][2]

    def callees(self, name):
        return sorted(self.nodes[b][0] for a, b in self.edges if a == self.one(name))

    def cycle_names(self):
        return sorted(sorted(self.nodes[i][0] for i in c) for c in self.cycles)


class Fake:
    def __init__(self, target="riscv32imac-unknown-none-elf"):
        self.dir = tempfile.mkdtemp(prefix="ccs-demo-")
        atexit.register(shutil.rmtree, self.dir, True)
        self.target = target
        self.bin = self.dir + "/bin"
        self.project = self.dir + "/p"
        for d in [self.bin, self.project + "/src", self.project + "/.cargo"]:
            os.makedirs(d)
        self.write("p/Cargo.toml", '[package]\nname = "app"\nversion = "0.1.0"\n')
        self.write("p/src/main.rs", "fn main() {}\n")
        self.commit, self.env, self.name = HASH, {}, "app"
        self.cargo_script = "exit 0"
        self.markers = True

    def write(self, name, data):
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return path

    def elf(self, funcs, undefined=(), base=0x20000, syms=()):
        """funcs: [(names, code, {extra})]; placed one after the other from `base`, unless
        {"at": address}; extra symbols: [(name, address, size, type)] in .text"""
        is64, machine, _ = TARGETS[self.target]
        thumb = self.target.startswith("thumb")
        e = Elf(is64, machine, 2)
        text, placed, end = bytearray(), [], base
        for names, code, *extra in funcs:
            x = extra[0] if extra else {}
            at = x.get("at", end)
            assert at >= base
            need = at - base + len(code)
            if len(text) < need:
                text += b"\0" * (need - len(text))
            text[at - base:at - base + len(code)] = code
            placed.append((names, at, x.get("size", len(code))))
            end = (at + len(code) + 3) & ~3
        e.section(".text", 1, 6, base, bytes(text))
        for names, at, size in placed:
            for n in names.split():
                e.symbol(n, at | (1 if thumb else 0), size, 2, 1)
            if thumb:
                e.symbol("$t", at, 0, 0, 1, False)
        for name, at, size, ty in syms:
            e.symbol(name, at, size, ty, 1, False)
        for n in undefined:
            e.symbol(n, 0, 0, 2, 0)
        return e.build()

    def artifacts(self, ll, sizes, elf, cb_ll="", cb_members=None):
        self.rel = self.project + "/target/%s/release" % self.target
        stem = "deps/%s-0123456789abcdef" % self.name.replace("-", "_")
        self.write(self.rel + "/" + self.name, elf)
        self.write(self.rel + "/" + stem + ".ll", ll)
        self.write(self.rel + "/" + stem + ".o", obj(self.target, sizes))
        self.cb_ll = self.write("cb.ll", cb_ll or "; ModuleID = 'cb'\nsource_filename = \"cb\"\n")
        members = cb_members or [{}]
        self.rlib = self.write("libcb.rlib", ar(
            [("compiler_builtins-1.compiler_builtins.%d-cgu.%d.rcgu.o" % (i, i), obj(self.target, m))
             for i, m in enumerate(members)]))

    def tools(self):
        is64, _, osname = TARGETS[self.target]
        arch = "arm" if "arm" in self.target or "thumb" in self.target else self.target.split("-")[0]
        self.write("bin/rustc", """#!/bin/sh
case "$*" in
*cfg*) cat <<END
panic="unwind"
target_arch="%s"
target_endian="little"
target_env=""
target_os="%s"
target_pointer_width="%s"
target_vendor="unknown"
END
;;
*) cat <<END
rustc 1.76.0-nightly (2b603f95a 2023-11-12)
binary: rustc
commit-hash: %s
commit-date: 2023-11-12
host: x86_64-unknown-linux-gnu
release: 1.76.0-nightly
LLVM version: 17.0.5
END
esac
""" % (arch, osname, 64 if is64 else 32, self.commit))
        marks = "printf '%%s\\n' '%s%s' '%s%s' >&2" % (LL, getattr(self, "cb_ll", ""), RLIB, getattr(self, "rlib", ""))
        self.write("bin/cargo", "#!/bin/sh\nfor a; do printf '%%s\\n' \"$a\"; done >%s/cargo.args\n%s\n%s\n"
                   % (self.dir, marks if self.markers else ":", self.cargo_script))
        for n in ["rustc", "cargo"]:
            os.chmod(self.bin + "/" + n, 0o755)

    def tool(self, *args, timeout=60):
        self.tools()
        env = {"PATH": self.bin + ":/usr/bin:/bin", "HOME": self.dir}
        env.update(self.env)
        return subprocess.run([TOOL, *args], cwd=self.project, env=env, timeout=timeout,
                              stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")

    def graph(self, *args):
        r = self.tool("--target", self.target, "--bin", self.name, *args)
        assert r.returncode == 0, r.stderr
        return Graph(r.stdout)


def define(name, *calls, sig="void ()", ret="void"):
    """IR of a function; calls: IR statements or @names"""
    out, _, ins = sig.partition(" ")
    args = ins.strip()[1:-1]
    body = "".join("  call void %s()\n" % c if c.startswith("@") else "  %s\n" % c for c in calls)
    val = "" if out == "void" else " undef"
    q = name if re.fullmatch(r"[-a-zA-Z$._0-9]+", name) else '"%s"' % name
    return "define %s @%s(%s) unnamed_addr #0 {\nstart:\n%s  ret %s%s\n}\n\n" % (out, q, args, body, out, val)


def check(cond, what):
    if not cond:
        print("FAIL:", what)
        sys.exit(1)


RET = b"\x70\x47"  # Thumb: bx lr
