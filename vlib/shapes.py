"""Plan shapes larger than the exhaustively explored sizes: (name, kinds, edges)."""


def hub(m, n, kind="C", last="C", mid="L"):
    """m calls -> literal -> n calls, plain dependencies through a literal."""
    kinds = kind * m + mid + last * n
    edges = {(i, m): "d" for i in range(m)}
    edges.update({(m, m + 1 + j): "d" for j in range(n)})
    return (f"hub{m}{n}{kind}{mid}{last}", kinds, edges)


def chain(kinds, code="a"):
    return (f"chain-{kinds}-{code}", kinds, {(i, i + 1): code for i in range(len(kinds) - 1)})


def edges(text):
    """'0>1a 1>2d' -> dict"""
    out = {}
    for part in text.split():
        ij, c = part.rstrip("adgk"), part[len(part.rstrip("adgk")) :]
        i, j = ij.split(">")
        out[int(i), int(j)] = c
    return out


# Plans without a registry.
PLAIN = [
    hub(1, 1),
    hub(1, 2),
    hub(2, 1),
    hub(2, 2),
    hub(2, 3),
    hub(3, 2),
    hub(1, 3),
    hub(3, 1),
    hub(3, 3),
    ("lit-chain", "CLLC", edges("0>1d 1>2d 2>3d")),
    ("lit-arg", "CLC", edges("0>1d 1>2a")),
    ("lit-arg-dep", "CLCC", edges("0>1d 1>2a 1>3d")),
    ("lit-two", "CCLLCC", edges("0>2d 1>3d 2>4d 3>4d 2>5d 3>5d")),
    ("lit-lit-hub", "CCLLCC", edges("0>2d 1>2d 2>3d 3>4d 3>5d")),
    ("diamond", "CCCC", edges("0>1a 0>2a 1>3a 2>3k")),
    ("diamond-dep", "CCCC", edges("0>1d 0>2d 1>3d 2>3d")),
    ("parallel", "CCC", edges("0>1ad 0>2aka 1>2ad")),
    ("parallel2", "CCCC", edges("0>2aad 1>2ad 2>3aak 0>3d")),
    ("fan-in", "CCCCC", edges("0>4a 1>4a 2>4d 3>4k")),
    ("fan-out", "CCCCC", edges("0>1a 0>2a 0>3d 0>4k")),
    ("gathered", "CCCC", edges("0>2g 1>2ga 2>3g 0>3gd")),
    ("ladder", "CCCCCC", edges("0>2a 1>2a 1>3a 2>4a 3>4d 3>5a 4>5a")),
    ("unneeded", "CCCCC", edges("0>1a 1>2a 0>3a 3>4d")),
]

# Plans with stored values and sources.
STORED = [
    chain("SCRC"),
    chain("SRCR"),
    chain("RCRC"),
    chain("SRRR"),
    chain("CRCR"),
    chain("SRCR", "d"),
    chain("RLRC", "d"),
    chain("RLLR", "d"),
    ("dep-through-call", "SCRC", edges("0>1d 1>2d 2>3d")),
    ("src-two", "SSCR", edges("0>2a 1>2a 2>3a")),
    ("src-shared", "SRRC", edges("0>1a 0>2a 1>3a 2>3a")),
    ("diamond-R", "SRRR", edges("0>1a 0>2d 1>3a 2>3d")),
    ("diamond-C", "SCCR", edges("0>1a 0>2a 1>3a 2>3a")),
    ("skip", "SCRCR", edges("0>1a 1>2a 2>3a 3>4a 0>4d")),
    ("hub-R", "RRLRR", edges("0>2d 1>2d 2>3d 2>4d")),
    hub(2, 3, "R", "R"),
    hub(3, 2, "R", "C"),
    ("dsource", "SCDR", edges("0>1a 1>2d 2>3a")),
    ("dsource-call", "RCDCR", edges("0>1a 1>2d 2>3a 3>4a")),
    ("dsource-chain", "RCDCD", edges("0>1a 1>2d 2>3a 3>4d")),
    ("dsource-2", "SRCDR", edges("0>1a 1>2a 2>3d 1>4a 3>4a")),
    ("dsource-lit", "SCDLR", edges("0>1a 1>2d 2>3d 3>4d")),
    ("dsource-dep", "RCDC", edges("0>1a 1>2d 2>3d")),
    ("dsource-three", "CCCDC", edges("0>3d 1>3d 2>3d 3>4a")),
    ("dsource-lit-up", "CLDC", edges("0>1d 1>2d 2>3a")),
    ("dsource-lit-up2", "RCLDR", edges("0>1a 1>2d 2>3d 3>4a")),
    ("stored-lit", "RMCR", edges("0>1d 1>2a 2>3a")),
    ("stored-lit-dep", "RMR", edges("0>1d 1>2d")),
    ("parallel-R", "SRC", edges("0>1ad 0>2aa 1>2akd")),
    ("gathered-R", "SRRC", edges("0>1g 0>2ga 1>3g 2>3gd")),
    ("unneeded", "SRCCR", edges("0>1a 1>2a 1>3d 1>4a")),
    ("mid-unneeded", "RCCR", edges("0>1a 1>2a 0>3a")),
    ("long", "SCRCCR", edges("0>1a 1>2a 2>3a 3>4d 4>5a")),
    ("deep-dep", "RCCCR", edges("0>1d 1>2d 2>3d 3>4d")),
]
