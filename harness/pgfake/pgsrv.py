# A stand-in for PostgreSQL: databases of the schema of the logs metadata storage. One JSON request per
# line, one JSON response per line. The statements are run by SQLite, what differs in PostgreSQL for the
# statements of the storage is replaced or checked here.
import datetime, json, re, sqlite3, sys, warnings

warnings.simplefilter("ignore")

SCHEMA = """
create table log (id text not null primary key check (length(id) <= 32), tags text not null default '{}',
  records integer not null default 0, deleted integer not null default 0,
  created_at text not null default (now()), updated_at text not null default (now()));
create table chunk (id text not null check (length(id) <= 32), log_id text not null references log (id) on delete cascade,
  min text not null default '' check (length(min) <= 32), max text not null default '' check (length(max) <= 32),
  records integer not null default 0 check (records between -2147483648 and 2147483647), primary key (log_id, id));
create trigger log_ins after insert on log begin update log set tags = pgjson(new.tags) where id = new.id; end;
create trigger log_upd after update of tags on log begin update log set tags = pgjson(new.tags) where id = new.id; end;
"""
# type of the columns of the results
TYPES = {"tags": "bytes", "deleted": "bool", "created_at": "time", "updated_at": "time", "applied_at": "time"}


class Err(Exception):
    def __init__(self, code, msg):
        self.code, self.msg = code, msg


def like(pat, s, esc="\\"):
    # % is any sequence, _ is any character, the escape character makes the next one literal
    if pat is None or s is None:
        return None
    items, i = [], 0
    while i < len(pat):
        c = pat[i]
        if esc and c == esc:
            if i + 1 >= len(pat):
                raise ValueError("LIKE pattern must not end with escape character")
            items.append((0, pat[i + 1]))
            i += 2
            continue
        items.append((2, "") if c == "%" else (1, "") if c == "_" else (0, c))
        i += 1
    st = {0}
    for k, c in items:
        if k == 2:
            st = set(range(min(st), len(s) + 1)) if st else st
        elif k == 1:
            st = {x + 1 for x in st if x < len(s)}
        else:
            st = {x + 1 for x in st if x < len(s) and s[x] == c}
    return 1 if len(s) in st else 0


def arrow(tags, name):
    v = json.loads(tags).get(name)
    return v if v is None or isinstance(v, str) else json.dumps(v)


def pgarray(s):
    # the text form of an array of strings -> a JSON array
    if s is None:
        return None
    if s[:1] != "{" or s[-1:] != "}":
        raise ValueError("malformed array literal")
    out, i, s = [], 0, s[1:-1]
    while i < len(s):
        if s[i] == '"':
            i, cur = i + 1, ""
            while s[i] != '"':
                if s[i] == "\\":
                    i += 1
                cur += s[i]
                i += 1
            i += 1
        else:
            j = s.find(",", i)
            j = len(s) if j < 0 else j
            cur, i = s[i:j], j
        out.append(cur)
        i += 1
    return json.dumps(out)


def rewrite(sql):
    # outside of the strings: parameters, casts and locks
    parts = re.split(r"('(?:[^']|'')*')", sql)
    for i in range(0, len(parts), 2):
        p = parts[i]
        p = re.sub(r"\$(\d+)", r"?\1", p)
        p = re.sub(r"::\s*[a-z]+(\s*\[\s*\])?", "", p, flags=re.I)
        p = re.sub(r"=\s*any\s*\(\s*(\?\d+)\s*\)", r"in (select value from json_each(pgarray(\1)))", p, flags=re.I)
        p = re.sub(r"\bfor\s+(no\s+key\s+update|key\s+share|update|share)\b(\s+of\s+\w+)?", "", p, flags=re.I)
        parts[i] = p
    return "".join(parts)


def norm_time(s):
    # RFC 3339 with nanoseconds -> microseconds, rounded to even, UTC
    m = re.fullmatch(r"(\d+-\d+-\d+)T(\d+:\d+:\d+)(?:\.(\d+))?(Z|[+-]\d+:\d+)", s)
    if not m:
        raise Err("22007", "invalid time %r" % s)
    t = datetime.datetime.fromisoformat(m[1] + "T" + m[2] + m[4].replace("Z", "+00:00")).astimezone(datetime.timezone.utc)
    ns = int((m[3] or "0").ljust(9, "0")[:9])
    us, r = divmod(ns, 1000)
    us += 1 if r > 500 or r == 500 and us % 2 else 0
    t += datetime.timedelta(microseconds=us)
    return t.strftime("%Y-%m-%dT%H:%M:%S.%f") + "Z"


def no_constant(c):
    raise ValueError(c)


def norm_json(s):
    try:
        v = json.loads(s, parse_constant=no_constant)
    except ValueError as e:
        raise Err("22P02", "invalid input syntax for type json: %s" % e)

    def chk(x):
        if isinstance(x, str):
            if "\0" in x:
                raise Err("22P05", "unsupported Unicode escape sequence")
            try:
                x.encode()
            except UnicodeError:
                raise Err("22P02", "invalid input syntax for type json")
        elif isinstance(x, dict):
            for k, w in x.items():
                chk(k)
                chk(w)
        elif isinstance(x, list):
            for w in x:
                chk(w)
    chk(v)
    return json.dumps(v)


json_err = []


def pgjson(s):
    try:
        return norm_json(s)
    except Err as e:
        json_err.append(e)
        raise


def connect(no):
    con = sqlite3.connect(":memory:", isolation_level=None)
    con.create_function("like", 2, like)
    con.create_function("like", 3, like)
    con.create_function("->>", 2, arrow)
    con.create_function("pgarray", 1, pgarray)
    con.create_function("pgjson", 1, pgjson)
    con.create_function("now", 0, lambda: datetime.datetime.now(datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S.%fZ"))
    con.executescript(SCHEMA)
    con.execute("pragma foreign_keys = on")
    con.execute("pragma case_sensitive_like = on")
    con.create_function("like", 2, like)
    con.create_function("like", 3, like)
    return con


def bind(args):
    res = []
    for kind, v in args:
        if kind == "time":
            v = norm_time(v)
        elif kind == "str" and "\0" in v:
            raise Err("22021", "invalid byte sequence for encoding \"UTF8\": 0x00")
        res.append(v)
    return res


def check_dup(sql, args):
    # one command cannot change the same row twice
    m = re.match(r"\s*insert\s+into\s+chunk\s*\(([^)]*)\)\s*values(.*?)on\s+conflict", sql, re.I | re.S)
    if not m:
        return
    cols = [c.strip() for c in m[1].split(",")]
    seen = set()
    for row in re.findall(r"\(([^)]*)\)", m[2]):
        vals = [v.strip() for v in row.split(",")]
        key = []
        for c in ("id", "log_id"):
            v = vals[cols.index(c)]
            key.append(args[int(v[1:]) - 1] if v.startswith("$") else v)
        if tuple(key) in seen:
            raise Err("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time")
        seen.add(tuple(key))


def run(con, rq):
    args = bind(rq["args"])
    sql = rq["sql"]
    check_dup(sql, args)
    cur = con.cursor()
    own = not con.in_transaction
    if own:
        cur.execute("begin")
    try:
        cur.execute("savepoint st")
        cur.execute(rewrite(sql), args)
        rows = cur.fetchall()
        cols = [d[0] for d in cur.description] if cur.description else []
        n = con.execute("select changes()").fetchone()[0]
        if rq.get("fail"):
            con.execute("rollback to st")
        cur.execute("release st")
        if own:
            cur.execute("commit")
    except BaseException as e:
        if json_err:
            e = json_err.pop()
        if con.in_transaction:
            con.execute("rollback to st")
            con.execute("release st")
            if own:
                con.execute("rollback")
        raise e
    return {"cols": cols, "types": [TYPES.get(c, "") for c in cols], "rows": rows, "affected": n}


WTIME = re.compile(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d(:\d\d)?)")


def from_wire(sql, vals):
    # the parameters are texts there
    bools = {int(n) for n in re.findall(r"\bdeleted\s*(?:=|<>|!=)\s*\$(\d+)", sql, re.I)}
    args = []
    for i, v in enumerate(vals):
        if v is None:
            args.append(["nil", None])
        elif i + 1 in bools:
            args.append(["val", int(v in ("true", "t", "1"))])
        elif WTIME.fullmatch(v):
            v = v.replace(" ", "T", 1)
            args.append(["time", v if re.search(r"Z|:\d\d$", v[19:]) else v + ":00"])
        else:
            args.append(["str", v])
    return args


def describe(con, sql):
    m = re.search(r"\breturning\s+(.*?);?\s*$", sql, re.I | re.S)
    if m:
        if m[1].strip() != "*":
            return [c.strip().strip('"') for c in m[1].split(",")]
        t = re.search(r"\b(?:update|into|from)\s+\"?(\w+)", sql, re.I)[1]
        return [r[1] for r in con.execute("pragma table_info(%s)" % t)]
    if not re.match(r"\s*(select|with)\b", sql, re.I):
        return []
    q = rewrite(sql.rstrip().rstrip(";"))
    n = max([int(x) for x in re.findall(r"\?(\d+)", q)] or [0])
    err = None
    for dummy in ("0", "{}", 0, None):
        try:
            return [d[0] for d in con.execute("select * from (%s) limit 0" % q, [dummy] * n).description]
        except sqlite3.Error as e:
            err = e
    raise err


def wire(con, rq):
    sql = rq["sql"]
    if re.match(r'\s*create\s+table\s+if\s+not\s+exists\s+"?log"?', sql, re.I):
        return {"affected": 0}  # the schema is there
    rq["args"] = from_wire(sql, rq["args"])
    return run(con, rq)


dbs = {}
for line in sys.stdin:
    rq = json.loads(line)
    try:
        op = rq["op"]
        if op == "new":
            dbs[rq["db"]] = connect(rq["db"])
            rs = {}
        elif op == "drop":
            dbs.pop(rq["db"]).close()
            rs = {}
        elif op in ("begin", "commit", "rollback"):
            dbs[rq["db"]].execute(op)
            rs = {}
        elif op == "describe":
            cols = describe(dbs[rq["db"]], rq["sql"])
            rs = {"cols": cols, "types": [TYPES.get(c, "") for c in cols]}
        elif op == "wire":
            rs = wire(dbs[rq["db"]], rq)
        else:
            rs = run(dbs[rq["db"]], rq)
    except Err as e:
        rs = {"code": e.code, "error": e.msg}
    except sqlite3.IntegrityError as e:
        msg = str(e)
        code = "23503" if "FOREIGN KEY" in msg else "23505" if "UNIQUE" in msg else "23502" if "NOT NULL" in msg else "22001"
        rs = {"code": code, "error": msg}
    except Exception as e:
        rs = {"code": "42601", "error": "%s: %s" % (type(e).__name__, e)}
    print(json.dumps(rs), flush=True)
