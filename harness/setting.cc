// Precedence, ranges and parsing of settings (common/settings.cc, common/settings.hh).
#include "vf.hh"
#include "vf_lib.hh"
#include "common/settings.cc"
#include "common/cmdlib.cc"
#undef VERIF_SPEC // settings are parsed from given text here: the tokenizer runs as it is
#include "common/parser.cc"

using namespace settings;

static source any_source(const char *name) { return (source)vf::any_in<int>(name, 0, 3); }
static std::string any_string(const char *name, size_t n)
{
    std::string s(n, ' ');
    for (size_t i = 0; i < n; i++)
        s[i] = vf::any<char>(name);
    return s;
}

// After any history of assignments, the value is the last one made with the highest source so far: each assignment takes
// effect exactly when its source is no lower than the present one.
template<class S, class T, class V>
static void assign(S &s, const T &old, const V &v, const T &stored)
{
    source before = any_source("before"), src = any_source("src");
    s._source = before;
    s._value = old;
    T deflt = s._default;
    s.set_value(v, src);
    bool taken = (int)src >= (int)before;
    vf_ensure(s.get_source() == (taken ? src : before), "the source is the highest so far");
    vf_ensure(s.value() == (taken ? stored : old), "an assignment takes effect exactly when its source is no lower");
    vf_ensure(s.is_changed() == (s.get_source() != source::DEFAULT), "changed means set by something");
    vf_ensure(s.default_value() == deflt, "the default stays");
    s.reset();
    vf_ensure(s.value() == deflt && s.get_source() == source::DEFAULT && !s.is_changed(), "reset gives back the default");
}

//@ contract prop=S01
CONTRACT(s01_int)
{
    int lo = vf::any<int>("lo"), hi = vf::any<int>("hi"), def = vf::any<int>("def"), old = vf::any<int>("old"), v = vf::any<int>("v");
    vf_require(lo < hi && lo <= def && def <= hi);
    setting_int32 s(nullptr, "x", def, lo, hi);
    vf_ensure(s.value() == def && !s.is_changed(), "a new setting has its default");
    assign(s, old, v, v < lo ? lo : v > hi ? hi : v);
}
//@ contract prop=S01
CONTRACT(s01_float)
{
    float lo = vf::any<float>("lo"), hi = vf::any<float>("hi"), def = vf::any<float>("def"), old = vf::any<float>("old"),
          v = vf::any<float>("v");
    vf_require(lo < hi && lo <= def && def <= hi && old == old && v == v);
    setting_scalar s(nullptr, "x", def, lo, hi);
    vf_ensure(s.value() == def && !s.is_changed(), "a new setting has its default");
    assign(s, old, v, v < lo ? lo : v > hi ? hi : v);
}
//@ contract prop=S01
CONTRACT(s01_bool)
{
    bool old = vf::any<bool>("old"), v = vf::any<bool>("v");
    setting_bool s(nullptr, "x", vf::any<bool>("def"));
    assign(s, old, v, v);
}
//@ contract prop=S01
CONTRACT(s01_vec3)
{
    qvec3f old, v;
    for (int i = 0; i < 3; i++) {
        old[i] = vf::any_finite<float>("old");
        v[i] = vf::any_finite<float>("v");
    }
    setting_vec3 s(nullptr, "x", 1, 2, 3);
    assign(s, old, v, v);
}
template<size_t N, size_t M>
static void strings()
{
    std::string old = any_string("old", N), v = any_string("v", M);
    setting_string s(nullptr, "x", "deflt");
    assign(s, old, v, v);
}
// (contents symbolic; lengths one short, one beyond the in-object buffer)
//@ contract prop=S01
CONTRACT(s01_string)
{
    strings<3, 7>();
}
//@ contract prop=S01
CONTRACT(s01_long_string)
{
    strings<7, 20>();
}

enum class kind_t
{
    FIRST = 3,
    SECOND = 7
};
struct container_t : setting_container
{
    setting_invertible_bool flag;
    setting_int32 number;
    setting_int32 omit;
    setting_enum<kind_t> kind;
    setting_redirect both;
    container_t()
        : flag(this, {"flag", "flg"}, vf::any<bool>("flag default")),
          number(this, "number", 5, 0, 100),
          omit(this, "omit", 1, 0, 9, can_omit_argument_tag(), 8),
          kind(this, "kind", kind_t::FIRST, {{"first", kind_t::FIRST}, {"second", kind_t::SECOND}}),
          both(this, "both", {&number, &omit})
    {
    }
    void any_state()
    {
        flag._source = any_source("flag before");
        flag._value = vf::any<bool>("flag");
        number._source = any_source("number before");
        number._value = vf::any_in<int>("number", 0, 100);
        omit._source = any_source("omit before");
        omit._value = vf::any_in<int>("omit", 0, 9);
        kind._source = any_source("kind before");
        kind._value = vf::any<bool>("kind") ? kind_t::FIRST : kind_t::SECOND;
    }
};

// A flag set by any of its names (leading underscores do not matter), with or without a value
static void flag(const char *name, const char *value, bool plain, bool found)
{
    container_t c;
    c.any_state();
    source before = c.flag.get_source(), src = any_source("src");
    bool old = c.flag.value(), taken = (int)src >= (int)before;
    int number = c.number.value();
    source number_src = c.number.get_source();
    vf_require(found || src != source::COMMANDLINE);
    setting_error e = c.set_setting(name, value, src);
    if (found) {
        vf_ensure(e == setting_error::NONE, "a flag is always accepted");
        vf_ensure(c.flag.value() == (taken ? plain : old), "the flag has the value given where its source is no lower");
        vf_ensure(c.flag.get_source() == (taken ? src : before), "the source of the flag is the highest so far");
    } else {
        vf_ensure(e == setting_error::MISSING, "a key that is no setting is reported");
        vf_ensure(c.flag.value() == old && c.flag.get_source() == before, "a key that is no setting sets nothing");
    }
    vf_ensure(c.number.value() == number && c.number.get_source() == number_src, "other settings stay");
}
//@ contract prop=S01
CONTRACT(s01_flag_names)
{
    flag("flag", "1", true, true);
    flag("flg", "1", true, true);
    flag("_flag", "1", true, true);
    flag("__flg", "1", true, true);
    flag("fla", "1", true, false);
    flag("flags", "1", true, false);
    flag("_", "1", true, false);
    flag("FLAG", "1", true, false);
}
//@ contract prop=S01
CONTRACT(s01_flag_values)
{
    flag("flag", "0", false, true);
    flag("flag", "-1", false, true);
    flag("flag", "1", true, true);
    flag("flag", "", true, true);
    flag("flag", "x", true, true);
}
//@ contract prop=S01
CONTRACT(s01_flag_inverted)
{
    flag("noflag", "1", false, true);
    flag("noflg", "", false, true);
    flag("noflag", "0", true, true);
    flag("noflag", "-1", true, true);
}
//@ contract prop=S01
CONTRACT(s01_flag_inverted_key)
{
    flag("_noflag", "1", false, true);
    flag("_noflag", "0", true, true);
    flag("__noflg", "1", false, true);
}

// a key with a value for one of the settings of type int
template<class S>
static void value(S container_t::*m, const char *name, const char *text, bool ok, int v)
{
    container_t c;
    c.any_state();
    S &s = c.*m;
    source before = s.get_source(), src = any_source("src"), flag_src = c.flag.get_source();
    int old = (int)s.value();
    bool taken = ok && (int)src >= (int)before, flag_old = c.flag.value();
    setting_error e = c.set_setting(name, text, src);
    vf_ensure(e == (ok ? setting_error::NONE : setting_error::INVALID), "a value that does not fit the setting is reported");
    vf_ensure((int)s.value() == (taken ? v : old), "the value is the one given, moved into its range, where the source is no lower");
    vf_ensure(s.get_source() == (taken ? src : before), "the source is the highest so far");
    vf_ensure(c.flag.value() == flag_old && c.flag.get_source() == flag_src, "other settings stay");
}
//@ contract prop=S01
CONTRACT(s01_number_values)
{
    value(&container_t::number, "number", "42", true, 42);
    value(&container_t::number, "_number", "0", true, 0);
    value(&container_t::number, "number", "150", true, 100);
    value(&container_t::number, "number", "-3", true, 0);
    value(&container_t::number, "number", "big", false, 0);
    value(&container_t::number, "number", "", false, 0);
}
//@ contract prop=S01
CONTRACT(s01_optional_values)
{
    value(&container_t::omit, "omit", "", true, 8);
    value(&container_t::omit, "omit", "3", true, 3);
    value(&container_t::omit, "omit", "12", true, 9);
    value(&container_t::omit, "omit", "x", true, 8);
}
//@ contract prop=S01
CONTRACT(s01_enum_values)
{
    value(&container_t::kind, "kind", "first", true, 3);
    value(&container_t::kind, "kind", "SECOND", true, 7);
    value(&container_t::kind, "_kind", "7", true, 7);
    value(&container_t::kind, "kind", "third", false, 0);
    value(&container_t::kind, "kind", "", false, 0);
}
// a setting that stands for several gives its value to each of them
//@ contract prop=S01
CONTRACT(s01_redirect)
{
    container_t c;
    c.any_state();
    source src = any_source("src"), s1 = c.number.get_source(), s2 = c.omit.get_source();
    int v1 = c.number.value(), v2 = c.omit.value();
    setting_error e = c.set_setting("both", "7", src);
    vf_ensure(e == setting_error::NONE, "accepted");
    vf_ensure(c.number.value() == (src >= s1 ? 7 : v1) && c.number.get_source() == (src >= s1 ? src : s1), "the first is set");
    vf_ensure(c.omit.value() == (src >= s2 ? 7 : v2) && c.omit.get_source() == (src >= s2 ? src : s2), "the second is set");
}
//@ contract prop=S01
CONTRACT(s01_reset_all)
{
    container_t c;
    c.any_state();
    bool deflt = c.flag.default_value();
    c.reset();
    vf_ensure(c.flag.value() == deflt && c.number.value() == 5 && c.omit.value() == 1 && c.kind.value() == kind_t::FIRST,
        "every setting has its default again");
    vf_ensure(!c.flag.is_changed() && !c.number.is_changed() && !c.omit.is_changed() && !c.kind.is_changed(), "nothing is changed");
}
// settings copied from another set of settings have its values and sources
//@ contract prop=S01
CONTRACT(s01_copy)
{
    container_t a, b;
    a.any_state();
    b.any_state();
    b.copy_from(a);
    vf_ensure(b.flag.value() == a.flag.value() && b.flag.get_source() == a.flag.get_source(), "the flag is copied");
    vf_ensure(b.number.value() == a.number.value() && b.number.get_source() == a.number.get_source(), "the number is copied");
    vf_ensure(b.kind.value() == a.kind.value() && b.kind.get_source() == a.kind.get_source(), "the enumeration is copied");
}
// The command line: options with their values up to the first argument that is none; the others are handed back
template<size_t N>
static void line(const char *const (&args)[N], bool ok, int flag, int number, int omit, size_t rest)
{
    container_t c;
    c.any_state();
    bool f0 = c.flag.value(), rejected = false;
    int n0 = c.number.value(), o0 = c.omit.value();
    source fs = c.flag.get_source(), ns = c.number.get_source(), os = c.omit.get_source();
    token_parser_t p(N, (const char **)args, {});
    std::vector<std::string> r;
    try {
        r = c.parse(p);
    } catch (parse_exception &) {
        rejected = true;
    }
    vf_ensure(rejected == !ok, "a command line is refused exactly when an option is unknown or has no proper value");
    if (ok) {
        vf_ensure(c.flag.value() == (flag < 0 ? f0 : flag > 0), "the flag is as the command line says");
        vf_ensure(c.flag.get_source() == (flag < 0 ? fs : source::COMMANDLINE), "the command line has the last word on the flag");
        vf_ensure(c.number.value() == (number < 0 ? n0 : number), "the number is as the command line says");
        vf_ensure(c.number.get_source() == (number < 0 ? ns : source::COMMANDLINE), "the command line has the last word on the number");
        vf_ensure(c.omit.value() == (omit < 0 ? o0 : omit), "the optional number is as the command line says");
        vf_ensure(c.omit.get_source() == (omit < 0 ? os : source::COMMANDLINE), "the command line has the last word on the optional number");
        vf_ensure(r.size() == rest, "the other arguments are handed back");
        for (size_t i = 0; i < rest && i < r.size(); i++)
            vf_ensure(r[i] == args[N - rest + i], "the other arguments are handed back as they are");
    }
}
//@ contract prop=S01
CONTRACT(s01_command_line)
{
    line({"-flag", "-number", "7", "a.map"}, true, 1, 7, -1, 1);
    line({"--noflag", "a.map", "-flag"}, true, 0, -1, -1, 2);
    line({"-flag", "0", "-omit", "a.map", "b"}, true, 0, -1, 8, 2);
    line({"-omit", "-number", "500"}, true, -1, 100, 8, 0);
    line({"-number", "1", "-number", "2", "x"}, true, -1, 2, -1, 1);
    line({"a.map", "-unknown"}, true, -1, -1, -1, 2);
}
//@ contract prop=S01
CONTRACT(s01_command_line_refused)
{
    line({"-unknown", "a.map"}, false, 0, 0, 0, 0);
    line({"-number", "a.map"}, false, 0, 0, 0, 0);
    line({"-flag", "-number"}, false, 0, 0, 0, 0);
    line({"-", "a.map"}, false, 0, 0, 0, 0);
    line({"-kind", "third"}, false, 0, 0, 0, 0);
}
