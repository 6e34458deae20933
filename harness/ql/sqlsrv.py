# Evaluates SQL conditions over rows (id, tags): one JSON request per line, one JSON response per line.
# The operators with engine specific semantics are replaced by the ones of PostgreSQL
import json, sqlite3, sys


def like(pat, s, esc="\\"):
    # PostgreSQL: % is any sequence, _ is any character, the escape character makes the next one literal
    if pat is None or s is None:
        return None
    items, i = [], 0
    while i < len(pat):
        c = pat[i]
        if esc and c == esc:
            if i + 1 >= len(pat):
                raise ValueError("LIKE pattern must not end with escape character")
            items.append((0, pat[i + 1]))
            i += 2
            continue
        items.append((2, "") if c == "%" else (1, "") if c == "_" else (0, c))
        i += 1
    st = {0}
    for k, c in items:
        if k == 2:
            st = set(range(min(st), len(s) + 1)) if st else st
        elif k == 1:
            st = {x + 1 for x in st if x < len(s)}
        else:
            st = {x + 1 for x in st if x < len(s) and s[x] == c}
    return 1 if len(s) in st else 0


def get(tags, name):
    return json.loads(tags).get(name)


con = sqlite3.connect(":memory:", isolation_level=None)
con.create_function("like", 2, like)
con.create_function("like", 3, like)
con.create_function("->>", 2, get)
con.execute("create table log (id text, tags text, n integer, deleted integer)")
for line in sys.stdin:
    rq = json.loads(line)
    con.execute("delete from log")
    for n, (i, t) in enumerate(rq["rows"]):
        con.execute("insert into log values (?,?,?,0)", (i, json.dumps(t), n))
    rs = {}
    try:
        rs["rows"] = [r[0] for r in con.execute("select n from log where (" + rq["cond"] + ") and deleted = 0 order by n")]
    except Exception as e:
        rs["error"] = "%s: %s" % (type(e).__name__, e)
    print(json.dumps(rs), flush=True)
