"""The command line of oct: which options each command has and how model-level options are spelled."""

# option name in the model -> (long flag, alias or None, environment variable, kind)
S, B = "str", "bool"
IN = ("input", "i", "OCTOPUS_INPUT", S)
OUT = ("output", "o", "OCTOPUS_OUTPUT", S)
GROUPS = ("groups", "g", "OCTOPUS_GROUPS", S)
SUFFIX = ("uniqueNameSuffix", "u", "OCTOPUS_UNIQUE_NAME_SUFFIX", S)
COMMENTS = ("comments", "c", "OCTOPUS_COMMENTS", B)
DIFFOPTS = dict(author=("author", "a", "OCTOPUS_AUTHOR", S), groups=GROUPS, suffix=SUFFIX, comments=COMMENTS)
FROMTO = [("from", "f", "OCTOPUS_FROM", S), ("to", "t", "OCTOPUS_TO", S)]

COMMANDS = {
    "init": dict(path=["init"], ins=[], opts={}),
    "import-mysql": dict(path=["import", "mysql"], ins=[IN], opts=dict(
        author=("author", "a", "OCTOPUS_AUTHOR", S), excludes=("excludes", "x", "OCTOPUS_EXCLUDES", S),
        version=("version", "v", "OCTOPUS_VERSION", S))),
    "import-ojson": dict(path=["import", "ojson"], ins=[IN], opts={}),
    "import-staruml": dict(path=["import", "staruml"], ins=[IN], opts={}),
    "import-xlsx": dict(path=["import", "xlsx"], ins=[IN], opts={}),
    "export-dbml": dict(path=["export", "dbml"], ins=[IN], opts=dict(groups=GROUPS)),
    "export-quickdbd": dict(path=["export", "quickdbd"], ins=[IN], opts={}),
    "export-mysql": dict(path=["export", "mysql"], ins=[IN], opts=dict(groups=GROUPS, suffix=SUFFIX)),
    "export-xlsx": dict(path=["export", "xlsx"], ins=[IN], opts=dict(
        nullcol=("useNullColumn", None, "OCTOPUS_USE_NULL_COLUMN", B))),
    "generate-gorm": dict(path=["generate", "gorm"], ins=[IN], opts=dict(
        groups=GROUPS, suffix=SUFFIX, pointer=("pointerAssociation", "a", "OCTOPUS_POINTER_ASSOCIATION", B),
        embed=("embed", "e", "OCTOPUS_EMBED", S), package=("package", "k", "OCTOPUS_PACKAGE", S),
        prefix=("prefix", "p", "OCTOPUS_PREFIX", S), removePrefix=("removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", S))),
    "generate-graphql": dict(path=["generate", "graphql"], ins=[IN], opts=dict(
        gqlpackage=("graphqlPackage", "p", "OCTOPUS_GRAPHQL_PACKAGE", S))),
    "generate-kt": dict(path=["generate", "kt"], ins=[IN], opts=dict(
        groups=GROUPS, annotation=("annotation", "a", "OCTOPUS_ANNOTATION", S), idEntity=("idEntity", "e", "OCTOPUS_ID_ENTITY", S),
        package=("package", "p", "OCTOPUS_PACKAGE", S), prefix=("prefix", "f", "OCTOPUS_PREFIX", S),
        relation=("relation", "l", "OCTOPUS_RELATION", S), removePrefix=("removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", S),
        reposPackage=("reposPackage", "r", "OCTOPUS_REPOS_PACKAGE", S), suffix=("uniqueNameSuffix", "q", "OCTOPUS_UNIQUE_NAME_SUFFIX", S),
        useUTC=("useUTC", "u", "OCTOPUS_USE_UTC", B))),
    "generate-liquibase": dict(path=["generate", "liquibase"], ins=[IN], opts=dict(groups=GROUPS, suffix=SUFFIX, comments=COMMENTS)),
    "generate-plantuml": dict(path=["generate", "plantuml"], ins=[IN], opts={}),
    "generate-pb": dict(path=["generate", "pb"], ins=[IN], opts=dict(
        groups=GROUPS, goPackage=("goPackage", None, "OCTOPUS_GO_PACKAGE", S), package=("package", "p", "OCTOPUS_PACKAGE", S),
        prefix=("prefix", "f", "OCTOPUS_PREFIX", S), removePrefix=("removePrefix", "d", "OCTOPUS_REMOVE_PREFIX", S),
        tagDecr=("relationTagDecr", None, "OCTOPUS_RELATION_TAG_DECR", B), tagStart=("relationTagStart", "s", "OCTOPUS_RELATION_TAG_START", S))),
    "generate-sqlalchemy": dict(path=["generate", "sqlalchemy"], ins=[IN], opts=dict(
        groups=GROUPS, prefix=("prefix", "p", "OCTOPUS_PREFIX", S), removePrefix=("removePrefix", "r", "OCTOPUS_REMOVE_PREFIX", S),
        suffix=SUFFIX, useUTC=("useUTC", "t", "OCTOPUS_USE_UTC", B))),
    "diff-flyway": dict(path=["diff", "flyway"], ins=FROMTO, opts=DIFFOPTS),
    "diff-liquibase": dict(path=["diff", "liquibase"], ins=FROMTO, opts=DIFFOPTS),
    "diff-md": dict(path=["diff", "md"], ins=FROMTO, opts=DIFFOPTS),
}
SCHEMA_READERS = [c for c in COMMANDS if c != "init" and not c.startswith("import-")]
GROUP_COMMANDS = [c for c in COMMANDS if "groups" in COMMANDS[c]["opts"]]


def full_opts(cmd, opts):
    """all model-level options of cmd, defaults filled in"""
    out = {}
    for k, o in COMMANDS[cmd]["opts"].items():
        out[k] = opts.get(k, "" if o[3] == S else False)
    for k in opts: assert k in out, (cmd, k)
    if not out: out["none"] = True
    return out


def invocation(cmd, ins, out, opts, rng=None):
    """-> (argv, env) spelling the invocation; with rng, flags, aliases and environment variables are mixed"""
    c = COMMANDS[cmd]
    items = [(c["ins"][i], f) for i, f in enumerate(ins)]
    if out is not None: items.append((OUT, out))
    for k, v in opts.items():
        if isinstance(v, list): v = ",".join(v)
        o = c["opts"][k]
        if v == "" or v is False: continue
        items.append((o, v))
    if rng is not None: rng.shuffle(items)
    argv, env = list(c["path"]), {}
    for (flag, alias, var, kind), v in items:
        way = 0 if rng is None else rng.choices([0, 1, 2, 3], [5, 3, 1, 2])[0]
        if way == 1 and alias is None: way = 0
        if kind == B:
            if way in (0, 3): argv.append("--" + flag)
            elif way == 1: argv.append("-" + alias)
            else: env[var] = "true"
        else:
            if way == 0: argv += ["--" + flag, v]
            elif way == 1: argv += ["-" + alias, v]
            elif way == 2: env[var] = v
            else: argv.append("--%s=%s" % (flag, v))
    return argv, env
