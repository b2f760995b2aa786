// Log messages in step with specs/Log.tla.
#define DOTS_ENABLE_LOG_DATA
#define DOTS_ENABLE_LOG_DEBUG
#include "common.h"
#include <dots/tools/logging.h>
using namespace vt;
using namespace dots::tools;

static std::vector<std::string> got;
static int made, line;
static const std::string Long(9000, 'x');

struct Backend : LogBackend
{
    std::string name;
    explicit Backend(std::string n) : name(std::move(n)) {}
    void log_p(Level l, const Flf& f, const char* t) override { log(l, f, t); }
    void log(Level l, const Flf& f, const std::string& t) override
    {
        got.push_back(Obj().str("b", name).str("l", level2string(l)).str("t", t == Long ? "long" : t)
            .boolean("place", f.file == "h_log.cpp" && f.line == line && f.func == "write").done());
    }
};

static const char* text(const std::string& t) { ++made; return t.c_str(); }

static void write(const std::string& l, bool p, const std::string& t)
{
#define BOTH(name, NAME) if (l == #name) { if (p) { line = __LINE__; LOG_##NAME##_P("%s", text(t)) } else { line = __LINE__; LOG_##NAME##_S(text(t)) } }
    BOTH(data, DATA)
    BOTH(debug, DEBUG)
    BOTH(info, INFO)
    BOTH(notice, NOTICE)
    BOTH(warn, WARN)
    BOTH(error, ERROR)
    BOTH(crit, CRIT)
    BOTH(emerg, EMERG)
}

int main()
{
    return vt::run([&](const J& c) -> std::string
    {
        std::string op = c["op"].GetString();
        got.clear();
        made = 0;
        Obj o;
        auto& front = loggingFrontend();
        auto s = [&](const char* k) { return std::string(c[k].GetString()); };
        if (op == "reset") return "{}";
        if (op == "Bind")
        {
            front.setLogLevel(Level::info);
            g_loggingBackend = std::make_shared<Backend>(s("b"));
            return "{}";
        }
        if (op == "Number")
        {
            bool refused = false;
            try { front.setLogLevel(c["n"].GetInt()); }
            catch (const std::exception&) { refused = true; }
            o.boolean("refused", refused);
        }
        else if (op == "Set")
        {
            for (int i = 1; i < 9; ++i) if (s("l") == level2string(Level(i))) front.setLogLevel(Level(i));
            o.boolean("refused", false);
        }
        else if (op == "Use") { g_loggingBackend = std::make_shared<Backend>(s("b")); o.boolean("refused", false); }
        else if (op == "Write") { write(s("l"), s("form") == "p", s("t") == "long" ? Long : s("t")); o.num("made", made); }
        else if (op == "Fresh")
        {
            auto env = [&](const char* name, int n) { if (n) setenv(name, std::to_string(n).c_str(), 1); else unsetenv(name); };
            env("DOTS_LOG_LEVEL", c["e"].GetInt());
            env("DOTS_LOG_DEFAULT_LEVEL", c["d"].GetInt());
            LogFrontend fresh;
            env("DOTS_LOG_LEVEL", 0);
            env("DOTS_LOG_DEFAULT_LEVEL", 0);
            o.str("fresh", level2string(fresh.getLogLevel()));
            for (int i = 1; i < 9; ++i)
                if (fresh.shouldLog(Level(i)) != (Level(i) >= fresh.getLogLevel())) o.str("exception", "level " + std::to_string(i));
        }
        else throw std::logic_error("harness: " + op);
        return o.str("level", level2string(front.getLogLevel())).raw("got", arr(got)).done();
    });
}
