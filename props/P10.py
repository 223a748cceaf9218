from vp.core import Job, Loop, Native, FAULTS
from props.P09 import HDR, WHAT
OB = ["--object-bits", "12"]
GV = ("G", "C", "E", "L", "Z", "h_h", "h_c", "h_pathlen")
FIELDS = ("method", "version", "path", "host", "payload", "cookies", "ws_upgrade", "ws_connection", "ws_origin", "ws_key", "ws_key1", "ws_key2", "ws_key3")
def INC(p): return "(__CPROVER_same_object(%s, C) && (unsigned long)%s - (unsigned long)C <= L)" % (p, p)
def INE(p): return "(__CPROVER_same_object(%s, E) && (unsigned long)%s - (unsigned long)E < G.exn)" % (p, p)
def INT(p): return "(__CPROVER_same_object(%s, C) && (unsigned long)%s - (unsigned long)C <= G.te)" % (p, p)
def OPT(p, f=INC): return "(%s == (void*)0 || %s)" % (p, f(p))
BASE = "header == h_h && config == h_c && C[L] == 0 && h_h->content == C && h_h->ws_extensions == (void*)0 && h_h->ws_extensions_count == 0 && G.names == 0 && G.m_ok && !G.m_no && G.v_ok && !G.v_no && h_h->method != (void*)0 && h_h->version != (void*)0 && h_h->path != (void*)0 && h_pathlen <= h_c->size_uri"
def keep(fs): return " && ".join(OPT("h_h->" + f, INC if f in ("payload", "ws_key3") else INT) for f in fs)
EXT = "(G.exlive ? (exts == E && G.exn > 1 && G.exn <= Z && (E[G.exn - 1] == 0 || E[G.exn - 2] == 0) && extensions_length <= G.exn - 1) : (exts == (void*)0 && extensions_length == 0))"
PAY = "(double_clrf ==> token == (void*)0 && h_h->payload != (void*)0 && (unsigned long)h_h->payload - (unsigned long)C == G.hi && G.te < G.hi && G.hin <= h_c->size_payload)"
CORE = " && " + EXT + " && " + INC("tokenptr") + " && " + OPT("token", INT) + " && G.te <= (unsigned long)tokenptr - (unsigned long)C"
LIMITS = BASE + CORE + " && " + keep(("path", "ws_upgrade", "ws_connection")) + " && " + PAY + " && (token != (void*)0 ==> token == G.tok) && header_size + (token != (void*)0 ? G.toklen : 0) == G.sum && G.hi <= (unsigned long)tokenptr - (unsigned long)C && G.sum <= (unsigned long)tokenptr - (unsigned long)C && (token == (void*)0 ==> header_size <= h_c->size_header)"
FRAME = "header == h_h && config == h_c && C[L] == 0 && h_h->content == C && h_h->ws_extensions == (void*)0 && h_h->ws_extensions_count == 0 && G.names == 0"
FLD = FRAME + CORE + " && " + keep(FIELDS)
OBJ = "__CPROVER_object_whole(E), __CPROVER_object_whole(h_h)"
SEPL = "C[L] == 0 && header == h_h && " + OPT("sep", INT) + " && " + INT("sepptr") + " && G.te <= L"
EXTL = "header == h_h && C[L] == 0 && G.exlive && exts == E && G.exn > 1 && G.exn <= Z && (E[G.exn - 1] == 0 || E[G.exn - 2] == 0) && G.names == 0 && h_h->ws_extensions_count == 0 && " + OPT("sep", INE) + " && " + INE("sepptr")
def left(p, base, end, s): return "%s - ((unsigned long)%s - (unsigned long)%s)" % (end, p, base) + (" + (%s != (void*)0 ? 1 : 0)" % s if s else "")
def loops(main):
    return ([Loop("WSS_parse_header", SEPL, "sep, sepptr, h_h->ws_version, h_h->ws_type", left("sepptr", "C", "G.te", "sep"), locals_=("sep", "sepptr"), params=("header",), globals_=GV, idx=0, nloops=6)] +
        [Loop("WSS_parse_header", SEPL, "sep, sepptr, proto, h_h->ws_protocol", left("sepptr", "C", "G.te", None), locals_=("sep", "sepptr", "proto"), params=("header",), globals_=GV, idx=i, nloops=6) for i in (1, 2)] +
        [Loop("WSS_parse_header", main, "token, temp, line, line_length, sep, lineptr, tokenptr, sepptr, header_size, exts, extensions_length, double_clrf, proto, G, " + OBJ, left("tokenptr", "C", "L", "token"),
          locals_=("token", "temp", "line", "line_length", "sep", "lineptr", "tokenptr", "sepptr", "header_size", "exts", "extensions_length", "double_clrf", "proto"), params=("header", "config"), globals_=GV, idx=3, nloops=6),
        Loop("WSS_parse_header", "1 == 1", "i, in_use", None, locals_=("i", "in_use"), params=("header",), globals_=GV, idx=4, nloops=6),
        Loop("WSS_parse_header", EXTL, "sep, sepptr, paramptr, in_use, name, ext, G.names, G.exlive", left("sepptr", "E", "G.exn", "sep"), locals_=("sep", "sepptr", "paramptr", "in_use", "name", "ext", "exts"), params=("header",), globals_=GV, idx=5, nloops=6)])
JOBS = [Job("limits", "header_parse.c", "h_parse", dfcc=False, replace=["trim"], defs=["-DPARSE", "-DLIMITS"], functions=["WSS_parse_header", "header_set_version", "header_value"], loops=loops(LIMITS), flags=OB, timeout=780, split=4, backend="cadical"),
        Job("fields", "header_parse.c", "h_parse", dfcc=False, replace=["trim"], defs=["-DPARSE", "-DFIELDS"], functions=["WSS_parse_header"], loops=loops(FLD), flags=OB, timeout=780, split=6, backend="cadical")]
FEW = [Job("extensions", "header_parse.c", "h_parse", dfcc=False, replace=["trim"], defs=["-DPARSE", "-DFEW=2"], functions=["WSS_parse_header"], loops=[Loop(l.fn, l.inv, l.assigns, None, l.locals_, l.params, l.globals_, l.idx, 4) for l in loops("G.accs == 0 && G.asks == 0 && " + FRAME + CORE + " && " + keep(("path", "ws_upgrade", "ws_connection")))[:4]],
            preunwind=["WSS_parse_header.4:3", "WSS_parse_header.5:4"], flags=OB, timeout=780, split=4, backend="cadical", bounded="at most two entries in the list of extensions, two extensions loaded")]
SP = "(str[start] == 32 || (str[start] >= 9 && str[start] <= 13))"
TG = ("C", "L", "h_o")
JOBS += [Job("trim", "header_parse.c", "h_trim", enforce="trim", defs=["-DTRIM"], functions=["trim"], flags=OB, loops=[
    Loop("trim", "str == C + h_o && 0 <= start && start <= end && (unsigned long)end <= L - h_o && str[end] == 0 && C[L] == 0", "start", "end - start", locals_=("start", "end"), params=("str",), globals_=TG, idx=0, nloops=2),
    Loop("trim", "str == C + h_o && 0 <= start && start < end && (unsigned long)end <= L - h_o && C[L] == 0 && str[start] != 0 && !" + SP, "end", "end", locals_=("start", "end"), params=("str",), globals_=TG, idx=1, nloops=2)])]
NATIVE = [Native("header.c", HDR, defs=FAULTS, what=WHAT)]
TECHNIQUE = "CBMC loop contracts (goto-instrument --apply-loop-contracts) with pre- and postconditions asserted around WSS_parse_header over requests of any length; function and loop contracts (--dfcc) on trim"
NOTE = ("All obligations of WSS_parse_header and trim are discharged for every request up to 256 MiB, every content, any number of header lines, list entries and configured limits, with decreasing measures (termination) for every loop that depends on the request. "
        "Extensions are taken as unknown to the server in this proof (their handling is P21). That a request over a limit is never accepted is proved; that another fault of the same request may be reported first is allowed.")
EXPLAIN = ("Every string the parser handles lies in the received bytes (or the collected extension list) and ends inside them, as an obligation at each string function; every field of the request is NULL or points into the received bytes; a request is accepted only if the method and version are in their lists and the target, "
           "the sum of the header lines and the payload are within their limits, and each limit's status is given only if that limit is exceeded; the extension list is released on every path; every loop makes progress. trim stays inside its string and returns it.")
TRUSTED = ["strtok_r, strlen, strncasecmp, strncmp, strtol by stubs: strtok_r cuts only between where it stands and the end of its string, nothing behind the tokenizer's position changes (contracts/header_parse.c)", "strinarray (P19) and the allocator (P18) by their contracts", "memmove by its range in the proof of trim"]
ASSUME = ["the request is terminated (WSS_connect adds the terminator: native part)", "a request is shorter than 2^28 bytes", "isspace in the C locale"]
