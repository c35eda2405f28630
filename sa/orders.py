"""Orders of effects that do not matter."""
SETTERS = {"set_source_rgb", "set_source_rgba", "set_line_width", "set_dash", "set_line_cap", "set_line_join"}
WRITERS = {"set_paint_style", "set_font_from_style"}  # write the attributes of a start tag
MOVES = {"save", "translate", "rotate", "scale", "set_width"}
PATH = {"move_to", "line_to", "curve_to", "rel_line_to", "rel_curve_to", "arc", "close_path", "rectangle", "new_path", "new_sub_path"}


def method(e):
    return e.a[2] if e.kind == "call" and e.a[0] == "m" else None


def attributes(events):
    """Attributes of one start tag, sorted by their names (different attributes may be written in any order)."""
    out, run = [], []

    def flush():
        names = [repr(first(e)) for e in run]
        if len(set(names)) == len(names):
            run.sort(key=lambda e: repr(first(e)))
        out.extend(run)
        run.clear()

    def first(e):
        if e.a[0] == "f":
            return "style"
        args, kw = e.fargs
        return args[0] if args else dict(kw).get("name")

    def writes(e):
        if method(e) == "set":
            return e.a[1]
        if e.kind == "call" and e.a[0] == "f" and e.a[1].split(".")[-1] in WRITERS and e.fargs[0]:
            return e.fargs[0][0]
        return None

    for e in events:
        w = writes(e)
        if run and writes(run[-1]) != w:
            flush()
        (run if w is not None else out).append(e)
    flush()
    return out


FLUSH = {"fill", "stroke"}


def early(events):
    """Questions to other objects, as early as the object allows."""
    out = []
    for e in events:
        i = len(out)
        if (method(e) or "").startswith("get_") or e.kind == "call" and e.a[0] == "ext" and e.a[1].startswith("pangocffi.units_"):
            while i and method(out[i - 1]) in MOVES and (method(e) is None or out[i - 1].a[1] != e.a[1]):
                i -= 1
        out.insert(i, e)
    return out


def cairo(events):
    """Cairo calls in a normal order: colours and pens before the outline, absolute coordinates, no superfluous new_path."""
    from engine import C, ev
    out, point, start, open_path = [], None, None, False

    def call(e, name, args):
        return e._replace(a=("m", e.a[1], name) + tuple(e.a[3:]), b=tuple(args), c=(), fargs=(tuple(args), ()))

    def plus(p, q):
        return ("add", p, q)

    def points(args):
        """Splats of points, coordinate by coordinate."""
        res = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                res += [("idx", a[1], C(0)), ("idx", a[1], C(1))]
            else:
                res.append(a)
        return tuple(res)

    for e in early(events):
        m = method(e)
        if m in PATH and e.fargs and not e.fargs[1] and any(isinstance(a, tuple) and a and a[0] == "*" for a in e.fargs[0]):
            e = call(e, m, points(e.fargs[0]))
        args = e.fargs[0] if m and e.fargs and not e.fargs[1] else None
        if m in SETTERS:
            i = len(out)
            while i and method(out[i - 1]) in PATH and out[i - 1].a[1] == e.a[1]:
                i -= 1
            j = i
            while j and method(out[j - 1]) in SETTERS and out[j - 1].a[1] == e.a[1] and method(out[j - 1]) > m:
                j -= 1
            out.insert(j, e)
            continue
        if m == "new_path":
            if open_path:
                out.append(e)
            open_path, point, start = False, None, None
            continue
        if m in PATH:
            open_path = True
            if m in ("rel_line_to", "rel_curve_to"):
                if point is None or args is None or len(args) % 2:
                    point = None
                    out.append(e)
                    continue
                args = tuple(plus(point[i % 2], a) for i, a in enumerate(args))
                e = call(e, m[4:], args)
                m = m[4:]
            if m == "rectangle" and args is not None and len(args) == 4:
                x, y, w, h = args
                out.append(call(e, "move_to", (x, y)))
                for px, py in ((plus(x, w), y), (plus(x, w), plus(y, h)), (x, plus(y, h))):
                    out.append(call(e, "line_to", (px, py)))
                out.append(call(e, "close_path", ()))
                point = start = (x, y)
                continue
            if m == "close_path":
                point = start
            elif m in ("move_to", "line_to", "curve_to") and args and len(args) % 2 == 0:
                point = args[-2:]
                if m == "move_to":
                    start = point
            else:
                point = start = None
            out.append(e)
            continue
        if m in FLUSH:
            open_path, point, start = False, None, None
        elif m in ("translate", "rotate", "scale", "save", "restore") or e.kind == "loop" or e.kind == "call" and m is None:
            point = start = None
            if e.kind != "call" or m is None:
                open_path = True
        out.append(e)
    return out
