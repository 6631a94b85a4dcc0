"""Runs the program against a modem made of two sockets and a pseudo terminal for a rig."""
import os, pty, select, socket, subprocess, sys, termios, time, tty

class Session:
    def __init__(self, program, log="off", cwd=None, baud=38400):
        self.lc = socket.create_server(("127.0.0.1", 0))
        self.ld = socket.create_server(("127.0.0.1", 0))
        self.master, self.slave = pty.openpty()
        tty.setraw(self.slave)
        env = dict(os.environ)
        env.pop("RUST_LOG", None)
        self.p = subprocess.Popen(
            [program, "W1AW", "-d", "K1ABC", "--modem-control-port", str(self.lc.getsockname()[1]),
             "--modem-data-port", str(self.ld.getsockname()[1]), "--rig-control", os.ttyname(self.slave),
             "--rig-baud", str(baud)] + (["--log", log] if log else []), cwd=cwd,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        for s in (self.lc, self.ld):
            s.settimeout(20)
        self.ctl = self.lc.accept()[0]
        self.data = self.ld.accept()[0]
        self.ctl.settimeout(20)
        self.out = b""

    def line(self):
        b = b""
        while not b.endswith(b"\r"):
            c = self.ctl.recv(1)
            assert c, "control connection ended"
            b += c
        return b[:-1].decode()

    def expect(self, want, reply="OK"):
        got = self.line()
        assert got == want, (got, want)
        self.say(reply)

    def say(self, what):
        self.ctl.sendall(what.encode() + b"\r")

    def set_up(self):
        self.expect("MYCALL K1ABC")
        self.expect("COMPRESSION TEXT")
        self.expect("BW2300")
        self.expect("CONNECT K1ABC W1AW")

    def read_out(self, want, secs=10):
        """Reads the program's output until `want` is in it."""
        end = time.time() + secs
        while want not in self.out and time.time() < end:
            if select.select([self.p.stdout], [], [], 0.1)[0]:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    break
                self.out += d
        return want in self.out

    def read_data(self, secs):
        """What arrives on the data connection within `secs`."""
        got, end = b"", time.time() + secs
        while time.time() < end:
            if select.select([self.data], [], [], 0.1)[0]:
                d = self.data.recv(65536)
                if not d:
                    break
                got += d
        return got

    def read_rig(self, count, secs=10):
        got, end = b"", time.time() + secs
        while len(got) < count and time.time() < end:
            if select.select([self.master], [], [], 0.1)[0]:
                got += os.read(self.master, 65536)
        return got

    def type(self, what):
        self.p.stdin.write(what)
        self.p.stdin.flush()

    def end(self):
        self.p.kill()
        self.p.wait()
