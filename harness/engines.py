"""Database servers and raw connections used by the checks.

Everything lives in a scratch directory that is removed at the end.  sqlite
databases are files; PostgreSQL and MySQL run as the unprivileged user
`subsetter-test` when it exists (they refuse to run as root)."""
import atexit
import glob
import os
import pwd
import shutil
import signal
import socket
import sqlite3
import subprocess
import tempfile
import time

USER = "subsetter-test"


def _base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def scratch(prefix="sbsv"):
    d = tempfile.mkdtemp(prefix=prefix + ".", dir=_base())
    os.chmod(d, 0o755)
    return d


def _as_user(cmd):
    try:
        pwd.getpwnam(USER)
    except KeyError:
        return cmd
    if os.getuid() != 0:
        return cmd
    return ["setpriv", "--reuid", USER, "--regid", USER, "--clear-groups"] + cmd


def _own(path):
    try:
        pw = pwd.getpwnam(USER)
        if os.getuid() == 0:
            os.chown(path, pw.pw_uid, pw.pw_gid)
    except KeyError:
        pass


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Postgres:
    def __init__(self, root, extra=()):
        self.dir = os.path.join(root, "pg")
        os.mkdir(self.dir)
        _own(self.dir)
        self.port = free_port()
        self.bin = sorted(glob.glob("/usr/lib/postgresql/*/bin"))[-1]
        env = {"PATH": self.bin + ":/usr/bin:/bin", "LANG": "C.UTF-8", "HOME": self.dir, "TZ": "UTC"}
        subprocess.run(
            _as_user([self.bin + "/initdb", "-D", self.dir + "/d", "--locale=C", "-E", "UTF8",
                      "-U", "postgres", "-A", "trust", "--no-sync"]),
            check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=self.dir, env=env)
        self.log = open(self.dir + "/log", "wb")
        args = ["-D", self.dir + "/d", "-p", str(self.port), "-k", self.dir, "-c", "listen_addresses=127.0.0.1",
                "-c", "fsync=off", "-c", "synchronous_commit=off", "-c", "full_page_writes=off",
                "-c", "max_connections=300", "-c", "shared_buffers=32MB", "-c", "autovacuum=off",
                "-c", "timezone=UTC"]
        for e in extra:
            args += ["-c", e]
        self.proc = subprocess.Popen(_as_user([self.bin + "/postgres"] + args), stdout=self.log, stderr=self.log,
                                     cwd=self.dir, env=env)
        deadline = time.time() + 60
        while True:
            try:
                self.connect("postgres").close()
                break
            except Exception:
                if time.time() > deadline or self.proc.poll() is not None:
                    raise
                time.sleep(0.05)

    def connect(self, db):
        import psycopg2
        c = psycopg2.connect(host="127.0.0.1", port=self.port, user="postgres", dbname=db)
        c.autocommit = True
        import psycopg2.extras
        psycopg2.extras.register_default_json(c, loads=lambda x: x)      # (as text: the harness decodes it)
        psycopg2.extras.register_default_jsonb(c, loads=lambda x: x)
        c.cursor().execute("SET lock_timeout = '400ms'")
        return c

    def createdb(self, name):
        c = self.connect("postgres")
        c.cursor().execute(f'CREATE DATABASE "{name}"')
        c.close()

    def stop(self):
        if self.proc.poll() is None:
            self.proc.send_signal(signal.SIGQUIT)
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
                self.proc.wait()
        self.log.close()


class MySQL:
    def __init__(self, root):
        self.dir = os.path.join(root, "my")
        os.mkdir(self.dir)
        _own(self.dir)
        self.port = free_port()
        self.bin = shutil.which("mysqld") or "/usr/sbin/mysqld"
        data = self.dir + "/d"
        opts = ["--no-defaults", "--datadir=" + data, "--innodb-flush-log-at-trx-commit=0", "--innodb-doublewrite=0",
                "--innodb-buffer-pool-size=64M", "--skip-log-bin", "--mysqlx=OFF", "--performance-schema=OFF",
                "--log-error=" + self.dir + "/err", "--default-time-zone=+00:00"]
        subprocess.run(_as_user([self.bin] + opts + ["--initialize-insecure"]), check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=self.dir)
        self.log = open(self.dir + "/log", "wb")
        self.proc = subprocess.Popen(
            _as_user([self.bin] + opts + ["--socket=" + self.dir + "/s", f"--port={self.port}",
                                          "--bind-address=127.0.0.1", "--pid-file=" + self.dir + "/pid"]),
            stdout=self.log, stderr=self.log, cwd=self.dir)
        deadline = time.time() + 90
        while True:
            try:
                c = self.connect(user="root")
                break
            except Exception:
                if time.time() > deadline or self.proc.poll() is not None:
                    raise
                time.sleep(0.1)
        cur = c.cursor()
        for i in range(8):              # one account per worker, which sees only that worker's schemas
            cur.execute(f"CREATE USER 'sub{i}'@'%' IDENTIFIED WITH mysql_native_password BY ''")
            cur.execute(f"GRANT ALL ON `s\\_w{i}%`.* TO 'sub{i}'@'%'")
            cur.execute(f"GRANT SELECT ON performance_schema.* TO 'sub{i}'@'%'")
        c.close()

    def connect(self, user="sub0", db=None):
        import pymysql
        return pymysql.connect(host="127.0.0.1", port=self.port, user=user, password="", database=db, charset="utf8mb4",
                               autocommit=True, init_command="SET lock_wait_timeout=1, innodb_lock_wait_timeout=1, sql_mode=CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')")

    def stop(self):
        if self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()
        self.log.close()


class Servers:
    """Lazily started servers, shared by the worker processes of one check."""

    def __init__(self, want_pg=0, want_mysql=0):
        self.root = scratch()
        self.pg = None
        self.mysql = []
        self.owner = os.getpid()
        atexit.register(self.close)
        try:
            if want_pg:
                self.pg = Postgres(self.root)
                for i in range(want_pg):
                    self.pg.createdb(f"src{i}")
                    self.pg.createdb(f"dst{i}")
            if want_mysql:
                from concurrent.futures import ThreadPoolExecutor

                def mk(i):
                    r = os.path.join(self.root, f"m{i}")
                    os.mkdir(r)
                    os.chmod(r, 0o755)
                    return MySQL(r)
                with ThreadPoolExecutor(want_mysql) as ex:
                    self.mysql = list(ex.map(mk, range(want_mysql)))
        except BaseException:
            self.close()
            raise

    def close(self):
        if os.getpid() != self.owner or self.root is None:
            return
        if self.pg:
            self.pg.stop()
        for m in self.mysql:
            m.stop()
        shutil.rmtree(self.root, ignore_errors=True)
        self.root = None
