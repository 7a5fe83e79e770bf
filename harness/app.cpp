// The command line application: pattern expressions, options and parameters.
#include <milo/app/app.h>
#include <milo/app/pattern.h>
#include <milo/app/parameter.h>

using args = milo::app::detail::app_args;
using view = std::string_view;

// code: 0 done, 1 error reported, 2 error while reading the commands before
template<typename F>
int reading(char** argv, int argc, int skip, F f)
{
    int code = 2;
    try
    {
        args a(argc, argv);
        for (; skip; --skip) a.command();
        code = 1;
        f(a);
        return 0;
    }
    catch (...)
    {
        return code;
    }
}

struct config_t
{
    uint64_t value[2]{};
    uint64_t& operator [](view n) { return value[n.size() & 1]; }
};

namespace mp = milo::app::parameter;
struct twice { uint64_t v = 0; twice() = default; explicit twice(uint64_t x): v(x * 2 + 1) {} };

extern "C" {
bool app_match(const char* p, size_t pn, const char* m, size_t mn)
{
    return milo::app::pattern_match_star(view(p, pn), view(m, mn));
}

bool app_match_string(const char* p, size_t pn, const char* m, size_t mn)
{
    return milo::app::pattern_match_star(std::string(p, pn), std::string(m, mn));
}

int app_number(char** argv, int argc, int skip, const char* name, size_t n, uint64_t, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a) { *out = a.template parameter<uint64_t>(view(name, n)); });
}

int app_default(char** argv, int argc, int skip, const char* name, size_t n, uint64_t other, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a) { *out = a.template parameter<uint64_t>(view(name, n), other); });
}

int app_option(char** argv, int argc, int skip, const char* name, size_t n, uint64_t, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a) { *out = a.option(view(name, n)); });
}

int app_text(char** argv, int argc, int skip, const char* name, size_t n, uint64_t, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a)
    {
        auto v = a.template parameter<view>(view(name, n));
        out[0] = (uint64_t) v.data();
        out[1] = v.size();
    });
}

int app_command(char** argv, int argc, int skip, const char*, size_t, uint64_t, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a)
    {
        auto p = a.peek();
        auto v = a.command();
        out[0] = (uint64_t) v.data();
        out[1] = v.size();
        out[2] = p.data() == v.data() && p.size() == v.size();
    });
}

// the parameters of a benchmark: two names, one of which is a prefix of the other
int app_group(char** argv, int argc, int skip, const char*, size_t, uint64_t, uint64_t* out)
{
    return reading(argv, argc, skip, [=](auto& a)
    {
        config_t c;
        new (&milo::app::app::args) args(a);
        auto r = mp::parse(mp::group<mp::parameter<"ab", uint64_t>, mp::parameter<"a", uint64_t, mp::convert<twice>>>{}, c);
        out[0] = std::get<0>(r);
        out[1] = std::get<1>(r).v;
        out[2] = c.value[0];
        out[3] = c.value[1];
    });
}

size_t app_dump(char** argv, int argc, char* out)
{
    args a(argc, argv);
    auto s = a.dump();
    return s.copy(out, 1000);
}
}
