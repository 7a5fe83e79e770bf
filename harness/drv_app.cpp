// Replays of application counterexamples: one line per case.
#include "app.cpp"
#include "drv.h"

static std::string text(const std::string& s)
{
    std::string r;
    for (size_t i = 2; i + 1 < s.size(); i += 2)
        r.push_back((char) strtoul(s.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

static void show(const char* p, size_t n)
{
    printf(" h:");
    for (size_t i = 0; i < n; i++) printf("%02x", (uint8_t) p[i]);
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string f;
        in >> f;
        if (f == "match" || f == "match_string")
        {
            std::string p, m;
            in >> p >> m;
            auto a = get(p), b = get(m);
            printf("%d\n", (int) (f == "match" ? app_match : app_match_string)((const char*) a.p, a.n, (const char*) b.p, b.n));
            continue;
        }
        int skip;
        std::string name, w;
        uint64_t other;
        in >> skip >> name >> other;
        std::vector<std::string> ts{"prog"};
        while (in >> w) ts.push_back(text(w));
        std::vector<char*> argv;
        for (auto& t: ts) argv.push_back(strdup(t.c_str()));
        int argc = argv.size();
        argv.push_back(nullptr);
        name = text(name);
        uint64_t out[8] = {77, 77, 77, 77};
        int code;
#define F(x) if (f == #x) code = app_##x(argv.data(), argc, skip, name.data(), name.size(), other, out);
        F(number) F(default) F(option) F(text) F(command) F(group)
        if (f == "dump")
        {
            static char b[1001];
            auto n = app_dump(argv.data(), argc, b);
            printf("0");
            show(b, n);
            printf("\n");
            continue;
        }
        printf("%d", code);
        if (code == 0)
        {
            if (f == "text" || f == "command") show((const char*) out[0], out[1]);
            else for (int i = 0; i < (f == "group" ? 4 : 1); i++) printf(" %llu", (unsigned long long) (f == "option" ? (uint8_t) out[0] : out[i]));
        }
        printf("\n");
    }
}
