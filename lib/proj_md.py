"""Markdown change reports: `# title`, two version lines, `## table` sections of `* change` items."""
import re


class Bad(Exception): pass


N = "`([^`]*)`"
L = r"\[([^\[\]]*)\]"
RULES = [
    (r"create table", lambda: ("create table",)),
    (r"drop table", lambda: ("drop table",)),
    (r"rename table %s \u2192 %s" % (N, N), lambda a, b: ("rename table", a, b)),
    (r"update PK: %s \u2192 %s" % (L, L), lambda a, b: ("pk", names(a), names(b))),
    (r"create unique constraint: " + L, lambda a: ("unique", names(a))),
    (r"drop unique constraint: " + L, lambda a: ("no unique", names(a))),
    (r"update table comment: `(.*)`", lambda a: ("table comment", a)),
    (r"add column: " + N, lambda a: ("add", a)),
    (r"drop column: " + N, lambda a: ("drop", a)),
    (r"update column comment: %s :`(.*)`" % N, lambda a, b: ("column comment", a, b)),
    (r"change column type: %s :%s \u2192 %s" % (N, N, N), lambda a, b, c: ("type", a, b, c)),
    (r"rename column: %s \u2192 %s" % (N, N), lambda a, b: ("rename", a, b)),
    (r"set not null: " + N, lambda a: ("not null", a)),
    (r"set nullable: " + N, lambda a: ("nullable", a)),
    (r"set auto incremental: " + N, lambda a: ("auto", a)),
    (r"remove auto incremental: " + N, lambda a: ("no auto", a)),
    (r"remove default value: " + N, lambda a: ("no default", a)),
    (r"update default value: %s : `(.*)`" % N, lambda a, b: ("default", a, b)),
]


def names(s): return ", ".join(sorted(x for x in s.split(", ") if x))


def item(s):
    for rx, f in RULES:
        m = re.fullmatch(rx, s)
        if m:
            r = list(f(*m.groups())) + ["", "", ""]
            return dict(k=r[0], a=r[1], b=r[2], c=r[3])
    raise Bad("unknown item %r" % s)


def parse(text):
    lines = [l for l in text.split("\n") if l.strip()]
    if len(lines) < 3 or not lines[0].startswith("# "): raise Bad("no title")
    out = dict(sections=[])
    for i, k in ((1, "from"), (2, "to")):
        m = re.fullmatch(r"\* %s: `(.*)`" % k, lines[i])
        if not m: raise Bad("no %s line" % k)
        out[k] = m.group(1)
    for l in lines[3:]:
        if l.startswith("## "): out["sections"].append(dict(name=l[3:], items=[]))
        elif l.startswith("* ") and out["sections"]: out["sections"][-1]["items"].append(item(l[2:]))
        else: raise Bad("unexpected line %r" % l)
    return out
