// Choosing the process and component of an interaction.   LIB=full
//   inter TRACE GEN N
#include "world.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
static json calls;
struct X : MockCross {
    int id; using MockCross::MockCross;
    double f(double E) { return E / 1000; }
    double CalculatedNdx(double E) override { return total() * f(E); }
    double CalculatedNdx(double E, size_t h) override { return MockCross::CalculatedNdx(E, h) * f(E); }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double E) override { auto r = rates; for (auto& x : r) x.second *= f(E); return r; }
    double CalculateStochasticLoss(size_t h, double E, double rate) override {
        double v = std::fmod(rate * 12.345 + id * .1 + h * .01, 1.); calls.push_back({ { "c", id }, { "h", std::to_string(h) }, { "E", D(E) }, { "rate", D(rate) }, { "v", D(v) } }); return v;
    }
};
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off);
    std::vector<InteractionType> types { InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::Compton, InteractionType::WeakInt };
    auto world = [&](std::vector<std::vector<double>> const& R, bool fine) {
        std::vector<std::shared_ptr<CrossSectionBase>> x; std::vector<X*> xs; json w = json::array(); int first = g.i(0, 5);
        for (size_t i = 0; i < R.size(); ++i) {
            std::vector<std::pair<size_t, double>> r; json jr = json::array();
            size_t h0 = g.i(0, 1) ? 1 : 5 * i; for (size_t k = 0; k < R[i].size(); ++k) { r.emplace_back(h0 + k, R[i][k]); jr.push_back({ { "h", std::to_string(h0 + k) }, { "r", D(R[i][k]) } }); }
            auto ty = types[(first + (g.i(0, 3) ? i : 0)) % 6];
            auto p = std::make_shared<X>(ty, r, 0, 1); p->id = i + 1; x.push_back(p); xs.push_back(p.get()); w.push_back({ { "t", ity(ty) }, { "rates", jr } });
        }
        auto disp = std::make_shared<MockDisp>(1, 1e-4, 1); std::shared_ptr<Interaction> in = make_interaction(disp, x, false);
        t({ { "k", "world" }, { "w", { { "cross", w } } } });
        PropagationUtility::Collection col; col.interaction_calc = in; col.displacement_calc = disp; col.time_calc = std::make_shared<ApproximateTimeBuilder>(); PropagationUtility util(col);
        auto list = [&](std::vector<Interaction::Rate> const& v) { json a = json::array(); for (auto& r : v) { int id = 0; for (auto* p : xs) if (r.crosssection.get() == p) id = p->id; a.push_back({ { "c", id }, { "h", std::to_string(r.comp_hash) }, { "r", D(r.rate) } }); } return a; };
        double E = g.i(0, 1) ? 1000 : g.lu(1, 1e8); auto rates = in->Rates(E);
        t({ { "k", "rates" }, { "E", D(E) }, { "rates", list(rates) }, { "f", D(in->FunctionToIntegral(E)) }, { "disp", D(disp->FunctionToIntegral(E)) }, { "free", D(in->MeanFreePath(E)) } });
        std::vector<double> rnd { 0, 0x1p-53, 1 - 0x1p-53 }; double tot = 0, c = 0; for (auto& r : rates) tot += r.rate;
        if (tot > 0) for (auto& r : rates) { double a = c / tot; c += r.rate; double b = c / tot; for (double v : { b, std::nextafter(b, 0.), std::nextafter(b, 1.), (a + b) / 2, a + (b - a) * g.u() }) if (fine || g.i(0, 1)) rnd.push_back(v); }
        for (double r : rnd) {
            if (!(r >= 0 && r < 1)) continue;
            auto ask = [&](char const* k, std::vector<Interaction::Rate> const& rs, std::function<Interaction::Loss()> f) {
                calls = json::array(); Interaction::Loss l { InteractionType::Undefined, 0, 0 }; std::string th = thrown([&] { l = f(); });
                t({ { "k", k }, { "E", D(E) }, { "rnd", D(r) }, { "rates", list(rs) }, { "thrown", th }, { "t", ity(l.type) }, { "h", std::to_string(l.comp_hash) }, { "v", D(l.v_loss) }, { "calls", calls } });
            };
            if (g.i(0, 1)) ask("sample", rates, [&] { return in->SampleLoss(E, rates, r); }); else ask("loss", rates, [&] { return util.EnergyStochasticloss(E, r); });
            // rates of another order or origin
            if (g.i(0, 4) == 0) { auto rs = rates; std::shuffle(rs.begin(), rs.end(), g.g); if (g.i(0, 1)) for (auto& q : rs) if (g.i(0, 1)) q.rate *= g.lu(1e-6, 1e6); ask("sample", rs, [&] { return in->SampleLoss(E, rs, r); }); }
        }
    };
    t({ { "k", "empty" }, { "thrown", thrown([&] { make_interaction(std::make_shared<MockDisp>(1, 0, 1), {}, false); }) } });
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { std::vector<std::vector<double>> R; double s = g.i(0, 1) ? 1 : g.lu(1e-12, 1e6); for (auto& p : json::parse(l)) { R.emplace_back(); for (int v : p) R.back().push_back(v * s); } world(R, false); }
    for (int n = std::atoi(argv[3]); n > 0; --n) { std::vector<std::vector<double>> R(g.i(1, 6)); double s = g.lu(1e-12, 1e6); for (auto& r : R) { r.resize(g.i(0, 5)); for (auto& v : r) v = g.i(0, 4) ? s * g.lu(1e-9, 1) : 0; } world(R, true); }
}
