"""Projections of output files to the abstract values of the specification."""
import json, os
import octgen, proj_mysql, proj_liquibase, proj_md, proj_xlsx, proj_go, proj_py, proj_proto, proj_gql, proj_kt, proj_diagram


def text(path):
    with open(path, "rb") as f: return f.read().decode("utf-8")


def p_schema(path, st):
    doc = json.loads(text(path))
    return "schema", octgen.from_octopus(doc)


def p_mysql(path, st):
    return "ddl", proj_mysql.parse_script(text(path))


def p_lq(path, st):
    return st["run"], proj_liquibase.parse_changelog(text(path))


def p_flyway(path, st):
    return st["run"], proj_mysql.parse_script(text(path))


def p_md(path, st):
    return st["run"], proj_md.parse(text(path))


PROJ = {"diff-flyway": p_flyway, "diff-md": p_md,
        "import-mysql": p_schema, "import-xlsx": p_schema, "import-ojson": p_schema, "import-staruml": p_schema, "init": p_schema,
        "export-mysql": p_mysql, "export-xlsx": lambda path, st: ("xlsx", proj_xlsx.read(path)),
        "generate-liquibase": p_lq, "diff-liquibase": p_lq}
for _cmd, _fn in {"generate-gorm": proj_go.read, "generate-sqlalchemy": proj_py.read, "generate-pb": proj_proto.read, "generate-graphql": proj_gql.read,
                  "generate-kt": proj_kt.read, "export-dbml": proj_diagram.dbml, "export-quickdbd": proj_diagram.quickdbd,
                  "generate-plantuml": proj_diagram.plantuml}.items():
    PROJ[_cmd] = lambda path, st, fn=_fn: (st["run"], fn(path))


def project(cmd, path, st):
    if not st.get("judge", True) or cmd not in PROJ:
        return st.get("okind", cmd), ""
    return PROJ[cmd](path, st)
