// Tokens of map files, entity lumps and settings files (common/parser.cc): data of any size, not terminated.
#include "vf.hh"
#include "common/parser.cc"

namespace
{
const size_t MAXDATA = 1 << 30;
// Ghost state.  k and m are arbitrary indices into the data.
struct {
    const char *buf;
    size_t n, p0; // the data, and where the parser stands
    bool oneline; // only this line counts
    parser_t *p;
    size_t k, m;
    size_t start; // where the last token or comment started
    bool covered; // k lies in a comment ...
    size_t cstart, cend; // ... which is this one
    bool unit0, unit1, unit2; // a character or escape of the quoted token starts at m, m + 1, m + 2
} g;
inline bool space(size_t i) { return g.buf[i] <= 32; } // control characters, blanks, and (char is signed) bytes of 128 and up
inline bool comment_at(size_t i)
{
    return g.buf[i] == ';' || (g.buf[i] == '/' && i + 1 < g.n && g.buf[i + 1] == '/');
}
// buf[p0, to) is white space and comments only
inline bool skipped(size_t to)
{
    return g.k < g.p0 || g.k >= to || (space(g.k) && g.buf[g.k] && !(g.oneline && g.buf[g.k] == '\n')) ||
           (!g.oneline && g.covered && g.cstart <= g.k && g.k < g.cend && g.cend <= to);
}
inline bool comment_ok()
{
    return !g.covered || (g.p0 <= g.cstart && g.cstart < g.cend && g.cend <= g.n && comment_at(g.cstart) &&
                             g.buf[g.cend - 1] == '\n' && (g.m < g.cstart || g.m >= g.cend - 1 || g.buf[g.m] != '\n'));
}
// the token is what the data holds from `from` on
inline bool same(size_t from, size_t size)
{
    return g.k < from || g.k >= from + size || g.p->token[g.k - from] == g.buf[g.k];
}
// how many characters the character or escape at i takes
inline size_t unit(size_t i)
{
    if (g.buf[i] != '\\' || i + 1 >= g.n)
        return 1;
    char c = g.buf[i + 1];
    if (c == 'n' || c == '\'' || c == 'r' || c == 't' || c == '\\' || c == 'b')
        return 2;
    if (c == '"')
        return i + 2 < g.n && (g.buf[i + 2] == '\r' || g.buf[i + 2] == '\n') ? 1 : 2;
    return 1;
}
// quotes inside the token are escaped: the units follow one another from the opening quote to i
inline bool units(size_t i)
{
    bool u0 = g.unit0 || g.m == i, u1 = g.unit1 || g.m + 1 == i, u2 = g.unit2 || g.m + 2 == i;
    return (!g.unit0 || g.m < i) && (!g.unit1 || g.m + 1 < i) && (!g.unit2 || g.m + 2 < i) &&
           (g.m != g.start + 1 || u0) &&
           (!u0 || g.m >= i || (g.buf[g.m] != '"' && (unit(g.m) == 2 ? u2 && !u1 : u1)));
}
} // namespace

#ifdef VERIF_SPEC
__attribute__((noinline)) bool vf_pred(int id, uint64_t pos, uint64_t end) noexcept
{
    if (!g.p)
        return true;
    const parser_t *p = *(const parser_t *volatile *)&g.p;
    // registers and memory agree
    if (pos != (uint64_t)p->pos || end != (uint64_t)p->end || p->end != g.buf + g.n || p->pos < g.buf + g.p0 ||
        p->pos > g.buf + g.n)
        return false;
    size_t i = p->pos - g.buf, size = p->token.size();
    bool base = skipped(id == 1 ? i : g.start) && comment_ok() && g.start <= i && size <= i - g.p0 &&
                p->token.capacity() == MAXDATA + 64;
    switch (id) {
        case 1: return base && size == 0; // between tokens
        case 2: return base && size == i - g.start; // a comment being returned
        case 3: return base && size == 0 && i > g.start; // a comment being skipped: i is behind the character just looked at
        case 4: return base && i > g.start && size == i - g.start - 1; // inside quotes
        case 5: return base && size == i - g.start; // an unquoted token
        case 12:
        case 15: return same(g.start, size);
        case 14: return same(g.start + 1, size);
        case 22:
        case 23: return g.m < g.start || g.m >= i || (g.buf[g.m] != '\n' && (id == 23 || g.buf[g.m]));
        case 24: return units(i);
        case 25: return g.m < g.start || g.m >= i || g.buf[g.m] > 32;
    }
    return true;
}
void vf_ghost(int id, uint64_t left, uint64_t) noexcept
{
    size_t i = g.n - left;
    if (id == 1)
        g.start = i;
    if (id == 2 && g.k >= g.start && g.k < i) {
        g.covered = true;
        g.cstart = g.start;
        g.cend = i;
    }
    if (id == 3) {
        g.unit0 |= g.m == i;
        g.unit1 |= g.m + 1 == i;
        g.unit2 |= g.m + 2 == i;
    }
}
#endif

// The specification as a program: where the token starts (n if there is none), where it ends, and where the parser stops.
// Used when the contracts are replayed on the native code (ghost state exists for the verifier only).
static void reference(int flags, bool &fail, bool &ok, size_t &start, size_t &size, size_t &stop)
{
    size_t i = g.p0;
    fail = ok = false;
    start = size = 0;
    for (;;) {
        while (i < g.n && space(i) && g.buf[i] && !(g.buf[i] == '\n' && (flags & (PARSE_OPTIONAL | PARSE_SAMELINE))))
            i++;
        stop = i;
        if (i == g.n || !g.buf[i] || g.buf[i] == '\n') {
            fail = (flags & PARSE_SAMELINE) && !(flags & PARSE_OPTIONAL);
            return;
        }
        if (!comment_at(i))
            break;
        if (flags & PARSE_COMMENT) {
            start = i;
            while (i < g.n && g.buf[i] && g.buf[i] != '\n')
                i++;
            size = i - start;
            stop = i;
            ok = true;
            return;
        }
        if (flags & PARSE_OPTIONAL)
            return;
        if (flags & PARSE_SAMELINE) {
            fail = true;
            return;
        }
        while (i < g.n && g.buf[i] && g.buf[i] != '\n')
            i++;
        stop = i;
        if (i == g.n || !g.buf[i])
            return;
        i++;
    }
    if (flags & PARSE_COMMENT)
        return;
    if (g.buf[i] == '"') {
        start = ++i;
        while (i < g.n && g.buf[i] != '"') {
            if (!g.buf[i]) {
                fail = true;
                return;
            }
            i += unit(i);
        }
        if (i >= g.n) {
            fail = true;
            return;
        }
        size = i - start;
        stop = i + 1;
    } else {
        start = i;
        while (i < g.n && !space(i))
            i++;
        size = i - start;
        stop = i;
    }
    ok = true;
}

static void run(int flags)
{
    g.n = vf::any_in<size_t>("n", 1, MAXDATA);
    g.p0 = vf::any_in<size_t>("p0", 0, g.n);
    g.buf = (const char *)vf_bytes("data", g.n);
#ifdef VERIF_SPEC
    g.k = vf::any<size_t>("k");
    g.m = vf::any<size_t>("m");
    vf_require(g.k < g.n && g.m < g.n);
#endif
    parser_t p(g.buf, g.n, {});
    p.pos = g.buf + g.p0;
    size_t line = p.location.line_number.value();
#ifdef VERIF_SPEC
    p.token.reserve(MAXDATA + 64); // the string need not grow: its contents do not depend on that
#endif
    g.p = &p;
    g.start = g.p0;
    g.oneline = flags & (PARSE_SAMELINE | PARSE_OPTIONAL);
    g.covered = g.unit0 = g.unit1 = g.unit2 = false;
    bool r, thrown = false;
    try {
        r = p.parse_token(flags);
    } catch (const ericwtools_error &) {
        thrown = true;
    }
#ifndef VERIF_SPEC
    bool fail, ok;
    size_t start, size, stop;
    reference(flags, fail, ok, start, size, stop);
    vf_ensure(thrown == fail, "only a missing token and an open quote are refused");
    if (thrown)
        return;
    vf_ensure(r == ok, "a token is returned if there is one");
    if (flags & PARSE_PEEK)
        vf_ensure(p.pos == g.buf + g.p0 && p.location.line_number.value() == line, "looking ahead does not move the parser");
    else
        vf_ensure(p.pos >= g.buf + g.p0 && p.pos <= g.buf + g.n && (!ok || p.pos == g.buf + stop),
            "the parser moves forward and stays inside the data");
    if (ok)
        vf_ensure(p.token == std::string(g.buf + start, size) && p.was_quoted == (start > 0 && g.buf[start - 1] == '"' && !(flags & PARSE_COMMENT)),
            "the token is exactly what the data holds");
#else
    vf_cover("returns or throws");
    if (thrown) {
        vf_ensure((flags & PARSE_SAMELINE) || g.buf[g.start] == '"', "only a missing token and an open quote are refused");
        return;
    }
    size_t i = p.pos - g.buf, size = p.token.size();
    if (flags & PARSE_PEEK) {
        vf_ensure(p.pos == g.buf + g.p0 && p.location.line_number.value() == line, "looking ahead does not move the parser");
        i = g.start + size + (p.was_quoted ? 2 : 0); // where the token ends
    }
    vf_ensure(i >= g.p0 && i <= g.n, "the parser moves forward and stays inside the data");
    if (!r) {
        if (flags == PARSE_NORMAL) {
            vf_ensure(i == g.n || !g.buf[i], "no token only at the end of the data");
            vf_ensure(skipped(i) || (comment_at(g.start) && g.start <= g.k), "no token: everything that is left is white space and comments");
        }
        if ((flags & PARSE_OPTIONAL) && !(flags & PARSE_PEEK))
            vf_ensure(skipped(i) && (i == g.n || !g.buf[i] || g.buf[i] == '\n' || comment_at(i) || (flags & PARSE_COMMENT)),
                "no token on this line: everything up to its end or the next comment is white space");
        if ((flags & (PARSE_SAMELINE | PARSE_OPTIONAL | PARSE_COMMENT)) == PARSE_SAMELINE)
            vf_ensure(false, "a token on the same line is returned or refused");
        return;
    }
    vf_cover("token");
    vf_ensure(skipped(g.start) && comment_ok(), g.oneline ? "only white space of the same line is skipped" : "only white space and comments are skipped");
    if (flags & PARSE_COMMENT) {
        vf_ensure(comment_at(g.start) && size == i - g.start, "a comment is returned from its first character");
        vf_ensure(same(g.start, size), "a comment is returned as it is");
        vf_ensure((g.m < g.start || g.m >= i || (g.buf[g.m] != '\n' && g.buf[g.m])) &&
                      (i == g.n || g.buf[i] == '\n' || !g.buf[i]),
            "a comment is returned to the end of its line");
        return;
    }
    vf_ensure(!comment_at(g.start) && !space(g.start), "a token starts at the first character that is no white space or comment");
    vf_ensure(p.was_quoted == (g.buf[g.start] == '"'), "quoted tokens are marked");
    if (p.was_quoted) {
        vf_ensure(i > g.start + 1 && g.buf[i - 1] == '"' && size == i - g.start - 2, "a quoted token ends at a quote");
        vf_ensure(same(g.start + 1, size), "a quoted token is the text between the quotes");
        vf_ensure(units(i - 1), "quotes inside a quoted token are escaped, and an unescaped one ends it");
    } else {
        vf_ensure(size == i - g.start, "an unquoted token ends where the parser stops");
        vf_ensure(same(g.start, size), "an unquoted token is the text of the data");
        vf_ensure((g.m < g.start || g.m >= i || g.buf[g.m] > 32) && (i == g.n || space(i)), "an unquoted token runs up to the next white space");
    }
#endif
}

//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_token)
{
    run(PARSE_NORMAL);
}
//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_sameline)
{
    run(PARSE_SAMELINE);
}
//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_optional)
{
    run(PARSE_OPTIONAL);
}
//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_comment)
{
    run(PARSE_COMMENT | PARSE_OPTIONAL);
}
//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_peek)
{
    run(PARSE_PEEK);
}
//@ contract prop=S02 allow_exit par=3
CONTRACT(s02_peek_sameline)
{
    run(PARSE_PEEK | PARSE_SAMELINE);
}
