// The registry of loggers under histories of requests and level settings.
#include "vtrace.h"
#include <spdlog/sinks/ostream_sink.h>
using namespace PROPOSAL;
static std::ostringstream out;
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed());
    Logging::sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(out); Logging::sink->set_pattern("%v");
    std::map<std::string, int> num; std::vector<std::string> name { "", "proposal.a", "proposal.b", "", "proposal.decay", "A", "proposal" };
    for (int i = 1; i <= 6; ++i) num[name[i]] = i;
    auto id = [](spdlog::logger* p) { return std::to_string((uintptr_t)p); };
    auto state = [&] {
        json s = json::array();
        for (auto& p : Logging::logger) {
            json em = json::array();
            for (int v = 0; v < 6; ++v) { out.str(""); p.second->log((spdlog::level::level_enum)v, "x"); p.second->flush(); em.push_back(!out.str().empty()); }
            s.push_back({ { "n", num.at(p.first) }, { "v", (int)p.second->level() }, { "id", id(p.second.get()) }, { "emits", em }, { "name", p.second->name() == p.first } });
        }
        return s;
    };
    std::vector<logger_ptr> keep; // addresses are not used again
    auto fresh = [&](int v) { for (auto& p : Logging::logger) keep.push_back(p.second); Logging::logger.clear(); Logging::SetGlobalLoglevel((spdlog::level::level_enum)v); t({ { "op", { { "k", "new" }, { "v", v } } }, { "state", state() }, { "got", "0" } }); };
    auto run = [&](json const& o) {
        std::string got = "0", k = o["k"];
        if (k == "get") got = id(Logging::Get(name[o["n"]]).get());
        else if (k == "all") Logging::SetGlobalLoglevel((spdlog::level::level_enum)o["v"].get<int>());
        else { auto p = Logging::Get(name[o["n"]]); p->set_level((spdlog::level::level_enum)o["v"].get<int>()); got = id(p.get()); }
        t({ { "op", o }, { "state", state() }, { "got", got } });
    };
    // the very first one: nothing was set yet
    run({ { "k", "get" }, { "n", 4 } });
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { fresh(3); for (auto& o : json::parse(l)) run(o); }
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        fresh(g.i(0, 6));
        for (int i = g.i(5, 25); i > 0; --i) { int k = g.i(0, 3); json o; if (k < 2) o = { { "k", "get" }, { "n", g.i(1, 6) } }; else if (k == 2) o = { { "k", "all" }, { "v", g.i(0, 6) } }; else o = { { "k", "one" }, { "n", g.i(1, 6) }, { "v", g.i(0, 6) } }; run(o); }
    }
}
