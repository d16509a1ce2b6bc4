"""Reading and writing .xlsx workbooks: sheets of text cells."""
import io, re, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

M = "{http://schemas.openxmlformats.org/spreadsheetml/2006/main}"
R = "{http://schemas.openxmlformats.org/officeDocument/2006/relationships}"


class Bad(Exception): pass


def colnum(ref):
    n = 0
    for ch in re.match("[A-Z]+", ref).group(0): n = n * 26 + ord(ch) - 64
    return n - 1


def unesc(s): return re.sub("_x([0-9A-Fa-f]{4})_", lambda m: chr(int(m.group(1), 16)), s)


def texts(e): return unesc("".join(t.text or "" for t in e.iter(M + "t")))


def read(path):
    with zipfile.ZipFile(path) as z:
        if z.testzip() is not None: raise Bad("corrupt zip")
        names = set(z.namelist())
        if len(names) != len(z.namelist()): raise Bad("repeated part")
        shared = []
        if "xl/sharedStrings.xml" in names:
            shared = [texts(si) for si in ET.fromstring(z.read("xl/sharedStrings.xml")).findall(M + "si")]
        rels = {r.get("Id"): r.get("Target") for r in ET.fromstring(z.read("xl/_rels/workbook.xml.rels"))}
        out = []
        for sh in ET.fromstring(z.read("xl/workbook.xml")).find(M + "sheets"):
            target = rels[sh.get(R + "id")]
            target = target[1:] if target.startswith("/") else "xl/" + target
            rows = []
            for row in ET.fromstring(z.read(target)).find(M + "sheetData"):
                while len(rows) < int(row.get("r", len(rows) + 1)) - 1: rows.append([])
                cells = []
                for c in row:
                    k = colnum(c.get("r")) if c.get("r") else len(cells)
                    while len(cells) < k: cells.append("")
                    v = c.find(M + "v")
                    if c.get("t") == "inlineStr": x = texts(c)
                    elif c.get("t") == "s": x = shared[int(v.text)] if v is not None and v.text else ""
                    else: x = (v.text or "") if v is not None else ""
                    cells.append(x)
                while cells and cells[-1] == "": cells.pop()
                rows.append(cells)
            while rows and rows[-1] == []: rows.pop()
            out.append(dict(name=sh.get("name"), rows=rows))
        return out


def letter(k): return chr(65 + k)


def write(wb, rng):
    """-> bytes of a workbook with those sheets; cells are shared or inline strings, empty ones mostly absent"""
    shared, index = [], {}
    parts = {}
    for n, sh in enumerate(wb):
        rows = []
        for i, row in enumerate(sh["rows"]):
            cs = []
            for k, v in enumerate(row):
                ref = "%s%d" % (letter(k), i + 1)
                if v == "":
                    if rng.random() < 0.2: cs.append('<c r="%s"/>' % ref)
                    continue
                if rng.random() < 0.3: cs.append('<c r="%s" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>' % (ref, escape(v)))
                else:
                    if v not in index: index[v] = len(shared); shared.append(v)
                    cs.append('<c r="%s" t="s"><v>%d</v></c>' % (ref, index[v]))
            if cs or rng.random() < 0.5: rows.append('<row r="%d">%s</row>' % (i + 1, "".join(cs)))
        parts["xl/worksheets/sheet%d.xml" % (n + 1)] = (
            '<worksheet xmlns="%s"><sheetData>%s</sheetData></worksheet>' % (M[1:-1], "".join(rows)))
    ns = 'xmlns="%s" xmlns:r="%s"' % (M[1:-1], R[1:-1])
    parts["xl/workbook.xml"] = "<workbook %s><sheets>%s</sheets></workbook>" % (ns, "".join(
        '<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (escape(sh["name"], {'"': "&quot;"}), n + 1, n + 1) for n, sh in enumerate(wb)))
    o = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
    rel = "".join('<Relationship Id="rId%d" Type="%s/worksheet" Target="worksheets/sheet%d.xml"/>' % (n + 1, o, n + 1) for n in range(len(wb)))
    rel += '<Relationship Id="rIdS" Type="%s/sharedStrings" Target="sharedStrings.xml"/>' % o
    p = "http://schemas.openxmlformats.org/package/2006/"
    parts["xl/_rels/workbook.xml.rels"] = '<Relationships xmlns="%srelationships">%s</Relationships>' % (p, rel)
    parts["_rels/.rels"] = '<Relationships xmlns="%srelationships"><Relationship Id="rId1" Type="%s/officeDocument" Target="xl/workbook.xml"/></Relationships>' % (p, o)
    parts["xl/sharedStrings.xml"] = '<sst xmlns="%s" count="%d" uniqueCount="%d">%s</sst>' % (
        M[1:-1], len(shared), len(shared), "".join('<si><t xml:space="preserve">%s</t></si>' % escape(x) for x in shared))
    c = "application/vnd.openxmlformats-officedocument.spreadsheetml."
    parts["[Content_Types].xml"] = ('<Types xmlns="%scontent-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>'
        '<Default Extension="xml" ContentType="application/xml"/><Override PartName="/xl/workbook.xml" ContentType="%ssheet.main+xml"/>'
        '<Override PartName="/xl/sharedStrings.xml" ContentType="%ssharedStrings+xml"/>%s</Types>' % (p, c, c, "".join(
        '<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="%sworksheet+xml"/>' % (n + 1, c) for n in range(len(wb)))))
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        for k in sorted(parts): z.writestr(k, '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>' + parts[k])
    return b.getvalue()
