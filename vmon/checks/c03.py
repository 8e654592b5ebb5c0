"""C03: the parsers accept exactly the documented language."""
import itertools

from .. import bridge as B
from .. import gen, ref, refparse


def verdict(logic, text):
    try:
        refparse.parse(logic, text)
        return "accept"
    except refparse.Reject:
        return "reject"
    except refparse.Unspecified:
        return "unspecified"


def case_text(ctx, logic, text):
    want = verdict(logic, text)
    status, res = B.try_parse(logic, text)
    if status == "ok" and not isinstance(res, B.base.Formula):
        ctx.fail("parser returned a non-formula", "parse_%s(%r) returned %r" % (logic, text, res))
    ctx.ev("%s: %s" % (logic, want))
    if want == "unspecified":
        return
    if want == "accept":
        ctx.distinct((logic, text))
        ctx.check(status == "ok", "text of the language refused", lambda: "parse_%s(%r) raised %s: %s" % (logic, text, type(res).__name__, str(res)[:200]))
    else:
        if status == "ok":
            ctx.fail("text outside the language accepted", "parse_%s(%r) returned %r" % (logic, text, res))
        elif isinstance(res, (RecursionError, MemoryError)):
            ctx.fail("parser broke down", "parse_%s(%r) raised %s" % (logic, text, type(res).__name__))


SMALL = {
    "pl": ["a", "true", "(", ")", "&", "|", "->", "<->", "!"],
    "ltl": ["a", "tt", "(", ")", "&", "->", "!", "U ", "M ", "G ", "X[!] ", "last"],
    "pltl": ["a", "ff", "(", ")", "|", "->", "~", "S ", "T ", "Y ", "O ", "start"],
    "ldl": ["a", "tt", "(", ")", "&", "!", "<", ">", "[", "]", "+", ";", "?", "*", "->", "end"],
}


FOREIGN = [".", ",", ";", ":", "#", "%", "$", "@", "=", "==", "\\", "/", "'", "`", "^", "_", "-", "--", "+", "*", "?", "{", "}", "{}", "[", "]", "[]", "<", ">", "<>", "(", ")", "()", '"', '""', "&", "&&&", "|", "|||", "!", "~", "->", "<-", "-->", "<->", "=>", "<=>", "/\\", "\\/",
           "0", "1", "00", "A", "Z", "EOF", "$END", "\0", "\x1a", "\x7f", "\ufeff", "\u200b", "\u2192", "\u2227", "\u2228", "\u00ac", "\u22a4", "\u25a1", "\u25cb", "\U0001d538", "\u0430", "\u00e9", "\u0661", ".a", "..", "...", "\n.", ". ", ";;", "; a", "# x", "#", "// x", "/* x */", "-- x", "% x", "(* x *)", "<!-- -->", "'a'", "'", "\\n", "\\", "a", "tt", "false",
           "and", "or", "not", "AND", "OR", "NOT", "implies", "iff", "xor", "until", "next", "always", "eventually"]


def run_shard(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(24000, 300000)):
        logic = rng.choice(ref.LOGICS)
        k = rng.random()
        if k < 0.4:
            t = gen.any_tree(rng, logic, top=25)
            text = gen.text_of(rng, logic, t, extra=rng.choice((0.0, 0.1, 0.5)))
            ctx.sample("%s: %s" % (logic, text))
        elif k < 0.8:
            t = gen.any_tree(rng, logic, top=rng.choice((4, 12, 20)))
            text = gen.mutate_text(rng, logic, gen.Render(rng, logic).tokens(t))
        elif k < 0.97:
            text = gen.random_token_text(rng, logic, rng.randint(1, 8))
        else:
            text = gen.random_char_text(rng, rng.randint(0, 8))
        if len(text) > 1500:
            continue
        ctx.run("text", logic=logic, text=text)
    # every sequence of up to three (thorough: four) tokens of a small alphabet
    i = 0
    for logic in ref.LOGICS:
        for n in range(0, 5):
            if n == 4 and ctx.tier == "quick":
                continue
            for toks in itertools.product(SMALL[logic], repeat=n):
                i += 1
                if ctx.mine(i):
                    text = " ".join(toks) if i % 2 else "".join(x + " " if x.isalpha() else x for x in toks)
                    ctx.run("text", logic=logic, text=text)
                    ctx.ev("enumerated token sequences")
    # characters and words that are not of the language (or only elsewhere) next to and inside correct texts
    for k, x in enumerate(FOREIGN):
        for logic in ref.LOGICS:
            if not ctx.mine(k + ref.LOGICS.index(logic)):
                continue
            for _ in range(2 if ctx.tier == "quick" else 12):
                t = gen.any_tree(rng, logic, top=rng.choice((2, 5, 9)))
                toks = gen.Render(rng, logic).tokens(t)
                text = gen.text_of(rng, logic, t)
                j = rng.randint(0, len(toks))
                texts = [text + x, x + text, text + " " + x, x + " " + text, "(" + text + ")" + x, "(" + text + x + ")", "(" + x + text + ")", text + x + " a", "(%s) %s (%s)" % (text, x, text),
                         " ".join(toks[:j] + [x] + toks[j:]), text + x + x, text + "\n" + x, text + "\n" + x + "\n" + text, x + text + x]
                for text in texts:
                    ctx.run("text", logic=logic, text=text)
                    ctx.ev("foreign characters")
    # white space and operator letters glued to their neighbours
    for logic, letters in (("ltl", "URWMFGX"), ("pltl", "STHOYZ")):
        for c in letters:
            for after in [" a", "a", "(a)", '"q"', "\ta", "\na", "!a", " !a", "1", "", " ", "[a]", "~a", "-a", "  a", "\r a", " \ta", "true", "G a", " (a)"]:
                for before in ["", "a ", "a", "(a)", '"q"', "a\t", "a\n", "!", "(", "a-", "a ->"]:
                    i += 1
                    if ctx.mine(i):
                        ctx.run("text", logic=logic, text=before + c + after)
                        ctx.ev("operator letter contexts")
    words = sorted(refparse.ALL_RESERVED - {"first"}) + ["true1", "truea", "true-a", "true-", "true--b", "tt_", "ttT", "lasts", "last-", "last1", "ends", "end-x", "starts", "start0", "fff", "ff-", "falsehood", "nottrue", "attt", "TRUE", "Last", "tt tt", "tt&tt", "true->true", "true-true", "true-->a", "tt->tt", "ff<->tt"]
    for logic in ref.LOGICS:
        for w in words:
            if w == "end" and logic == "ltl":
                continue  # reserved by the grammar file but not used by the logic
            for tpl in ("%s", "(%s)", "!%s", "%s & a", "%s&a", "a | %s", "a->%s", "<%s>tt", "[%s]ff", "<%s?>tt", "<a>%s", "<%s*>tt", "<%s;a>tt", "<a+%s>tt", "<!%s>tt", "<(%s)?>tt", "%s->a"):
                i += 1
                if ctx.mine(i):
                    ctx.run("text", logic=logic, text=tpl % w)
                    ctx.ev("reserved word contexts")
