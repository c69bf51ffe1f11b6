"""C26: equation text is parsed to the equation it states.

Every string up to a length over the characters that matter, and every token sequence up to a length, is split and compared
with an independent scanner. All function-call definitions of a grammar are split into head and arguments, and the lambda
text built from them is evaluated."""
import itertools

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all strings up to a length over the relevant characters and tokens, run on the implementation against an independent scanner"
NOTE = "All strings over the chosen alphabets up to the bound are decided; characters outside the alphabet are all treated alike by the parser (the alphabet has one representative, 'a')."
BOUND = {"quick": "all strings of at most 7 characters from 9, all sequences of at most 5 tokens from 13, all call definitions with at most 3 arguments",
         "thorough": "all strings of at most 8 characters, all sequences of at most 6 tokens"}
ASSUMPTIONS = ["quoted strings inside equations are not considered"]
TIMEOUT = 800
CHARS = "a=()[]<! "
TOKENS = ["a", "f(", "(", ")", "[", "]", "{", "}", "=", "==", ">=", ",", "lambda k: "]

def cases(tier, seed):
    n, k = (7, 5) if tier == "quick" else (8, 6)
    out = [dict(t="call")]
    out += [dict(t="chars", n=n, first=c) for c in CHARS]
    out += [dict(t="tokens", n=k, first=i) for i in range(len(TOKENS))]
    return out

OPS = ["==", "<=", ">=", "!=", ":="]
OPEN, CLOSE = "([{", ")]}"

def scan(s):
    """Positions of top-level equality signs; None if brackets close before they open at some point before the last sign."""
    i, depth, pos, bad = 0, 0, [], False
    while i < len(s):
        if s[i:i+2] in OPS: i += 2; continue
        c = s[i]
        if c in OPEN: depth += 1
        elif c in CLOSE:
            depth -= 1
            if depth < 0: bad = True
        elif c == "=" and depth == 0: pos.append(i)
        i += 1
    if not balanced(s): bad = True
    return pos, bad

def test(s, rec, split, Err):
    rec.trace()
    pos, bad = scan(s)
    try: got = split(s)
    except Err: got = None
    except Exception as e:
        rec.violate("exception", f"{s!r}: {type(e).__name__}: {e}"); return
    if bad:
        # unbalanced text is not an equation: whatever is returned must not be two complete expressions
        if got is not None: rec.check(not all(balanced(x) for x in got), "unbalanced", f"{s!r} -> {got!r}")
        return
    if len(pos) == 1:
        want = (s[:pos[0]].strip(), s[pos[0]+1:].strip())
        rec.check(got is not None and tuple(got) == want, "split", f"{s!r} -> {got!r}, expected {want!r}")
        rec.nontriv()
    else:
        rec.check(got is None, "accept", f"{s!r} has {len(pos)} top-level equality signs but gave {got!r}")

def balanced(s):
    st = []
    for c in s:
        if c in OPEN: st.append(c)
        elif c in CLOSE:
            if not st or OPEN.index(st.pop()) != CLOSE.index(c): return False
    return not st

def run_case(case, rec):
    from dedalus.tools import parsing
    from dedalus.tools.exceptions import SymbolicParsingError as Err
    if case["t"] == "chars":
        for n in range(1, case["n"] + 1):
            for t in itertools.product(CHARS, repeat=n - 1):
                s = case["first"] + "".join(t)
                test(s, rec, parsing.split_equation, Err); rec.step()
            rec.state((n,))
        if case["first"] == "a": test("", rec, parsing.split_equation, Err)
    elif case["t"] == "tokens":
        for n in range(1, case["n"] + 1):
            for t in itertools.product(TOKENS, repeat=n - 1):
                s = TOKENS[case["first"]] + "".join(t)
                test(s, rec, parsing.split_equation, Err); rec.step()
            rec.state((n,))
        for a in ("u", " dt(u) - lap(u) + lift(tau, -1)", "f(x=1)(y=2)", "A[i==1]"):
            for b in ("0", "f(x=L) ", "[1, 2]@u", "(a >= b)*u"):
                s = a + TOKENS[case["first"]] + b
                test(s, rec, parsing.split_equation, Err)
    else:
        calls(rec, parsing)
    rec.sample(str(case))

def calls(rec, parsing):
    """Function-call definitions and plain names, with spaces anywhere they may stand."""
    import keyword
    names = ["f", "nu", "x_1", "_a"]
    sp = ["", " ", "  "]
    for head in names:
        for args in [c for k in range(1, 4) for c in itertools.permutations(names, k)]:
            for s1, s2, s3 in itertools.product(sp, repeat=3):
                call = head + "(" + s1 + (s2 + "," + s3).join(args) + s1 + ")"
                rec.step(); rec.trace()
                rec.check(parsing.split_call(call) == (head, args), "call", f"{call!r} -> {parsing.split_call(call)!r}")
                rec.state(call)
            body = "+".join(f"{i+1}*{a}" for i, a in enumerate(args))
            h, text = parsing.lambdify_functions(head + "(" + ", ".join(args) + ")", body)
            vals = [10**(2*i) for i in range(len(args))]
            rec.check(h == head and eval(text)(*vals) == sum((i+1)*v for i, v in enumerate(vals)), "lambda", f"{head}{args} -> {h!r}, {text!r}")
        for body in ("a*b", "f(x)=2", "g(x)", "a*(b)"):
            rec.check(parsing.lambdify_functions(head, body) == (head, body), "name", head)
        rec.check(parsing.split_call(head) == (head, ()), "name", f"{head} -> {parsing.split_call(head)!r}")
        for s in (head + "(", head + ")", head + "(x"):
            rec.check(parsing.split_call(s) == (s, ()), "not-call", f"{s} -> {parsing.split_call(s)!r}")
