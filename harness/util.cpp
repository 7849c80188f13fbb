// Integrals along a track with processes of known physics.   LIB=full
//   util TRACE N tables(0/1)
#include "world.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
struct Known : MockCross {
    double a, b, n0, n1, w0, w1, low; bool cr; size_t h;
    Known(double a, double b, double n0, double n1, double w0, double w1, double low, bool cr, size_t h) : MockCross(InteractionType::Brems, {}, 0, 1), a(a), b(b), n0(n0), n1(n1), w0(w0), w1(w1), low(low), cr(cr), h(h) {}
    double CalculatedEdx(double E) override { return a + b * E; }
    double CalculatedE2dx(double E) override { return w0 * E + w1 * E * E; }
    double CalculatedNdx(double E) override { return n0 + n1 * E / (E + 1000); }
    double GetLowerEnergyLim() const override { return low; }
    size_t GetHash() const noexcept override { return h; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cr ? std::make_shared<EnergyCutSettings>(500, .05, true) : nullptr; }
    json js() const { return { { "a", D(a) }, { "b", D(b) }, { "n0", D(n0) }, { "n1", D(n1) }, { "v0", D(w0) }, { "v1", D(w1) }, { "low", D(low) } }; }
};
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed() * 2 + std::atoi(argv[3])); Logging::SetGlobalLoglevel(spdlog::level::off); bool tab = std::atoi(argv[3]); size_t hash = 1;
    if (tab) InterpolationSettings::UPPER_ENERGY_LIM = 1e9; // denser tables
    for (int n = std::atoi(argv[2]); n > 0; --n) {
        double mass = n % 5 == 0 ? 0 : g.lu(.5, 2000), low = mass * (g.i(0, 2) ? 1 : g.lu(1, 3)) + (mass == 0 ? 1 : 0), life = g.lu(1e-8, 1e-3); if (mass > 0 && n % 3 && low < mass * 1.001) low = mass * 1.001;
        std::vector<std::shared_ptr<CrossSectionBase>> x; json xs = json::array(); int nc = g.i(1, 3); int main = g.i(0, nc - 1);
        for (int i = 0; i < nc; ++i) {
            bool zero = i != main && g.i(0, 2) == 0;
            auto k = std::make_shared<Known>(zero ? 0 : g.lu(.1, 10), zero || g.i(0, 3) == 0 ? 0 : g.lu(1e-7, 1e-4), i == main || g.i(0, 2) ? g.lu(1e-6, 1e-2) : 0, g.i(0, 1) ? g.lu(1e-6, 1e-2) : 0, g.i(0, 1) ? g.lu(1e-5, 1e-1) : 0, g.i(0, 2) ? 0 : g.lu(1e-9, 1e-7), i == main ? low : low * (g.i(0, 1) ? 1 : g.u(1, 2)), i == main || g.i(0, 1), hash++);
            x.push_back(k); xs.push_back(k->js());
        }
        json w { { "cross", xs }, { "mass", D(mass) }, { "life", D(life) }, { "table", tab } };
        ParticleDef p("u" + std::to_string(n), mass, mass, life, 1, HardComponentTables::EmptyTable, DecayTable(), 50000 + n, 0);
        auto disp = std::shared_ptr<Displacement>(make_displacement(x, tab)); auto time = make_time(disp, p, tab); auto inter = make_interaction(disp, x, tab, tab && g.i(0, 1)); auto cont = make_contrand(disp, x, tab);
        std::unique_ptr<Decay> dec; if (mass > 0) dec = make_decay(disp, p, tab);
        ApproximateTimeBuilder light;
        t({ { "k", "world" }, { "w", w }, { "low", D(disp->GetLowerLim()) } }); low = disp->GetLowerLim();
        double top = tab ? 1e8 : 1e11;
        for (int q = g.i(10, 25); q > 0; --q) {
            double Ei = low * g.lu(1.0001, g.i(0, 1) ? 5 : top / low), Ef = low * g.lu(1, Ei / low), Em = Ef * g.lu(1, Ei / Ef); if (g.i(0, 4) == 0) Ef = low; if (g.i(0, 6) == 0) Em = g.i(0, 1) ? Ef : Ei;
            if (Em < Ef) Em = Ef; if (Em > Ei) Em = Ei; if (tab && (Em > Ef && Em < Ef * 2)) Em = Ef; if (tab && Em < Ei && Em > Ei / 2) Em = Ei; if (tab && Ei < Ef * 2) continue;
            double rho = g.lu(1e-3, 20);
            switch (g.i(0, 8)) {
            case 0: t({ { "k", "track" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "whole", D(disp->SolveTrackIntegral(Ei, Ef)) }, { "first", D(disp->SolveTrackIntegral(Ei, Em)) }, { "second", D(disp->SolveTrackIntegral(Em, Ef)) }, { "none", D(disp->SolveTrackIntegral(Em, Em)) } }); break;
            case 1: { double all = disp->SolveTrackIntegral(Ei, low), X = g.i(0, 1) ? all * g.u() : g.i(0, 1) ? all * g.lu(1e-4, 1) : all * g.u(1, 2), got = 0; std::string th = thrown([&] { got = disp->UpperLimitTrackIntegral(Ei, X); }); t({ { "k", "end" }, { "Ei", D(Ei) }, { "X", D(X) }, { "thrown", th }, { "got", D(got) } }); break; }
            case 2: { double X = disp->SolveTrackIntegral(Ei, Ef); t({ { "k", "time" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rho", D(rho) }, { "X", D(X) }, { "t", D(time->TimeElapsed(Ei, Ef, X, rho)) }, { "first", D(time->TimeElapsed(Ei, Em, 1, rho)) }, { "second", D(time->TimeElapsed(Em, Ef, 1, rho)) }, { "none", D(time->TimeElapsed(Em, Em, 0, rho)) }, { "light", D(light.TimeElapsed(Ei, Ef, X, rho)) } }); break; }
            case 3: t({ { "k", "rate" }, { "E", D(Ei) }, { "f", D(inter->MeanFreePath(Ei)) } }); break;
            case 4: t({ { "k", "depth" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "whole", D(inter->EnergyIntegral(Ei, Ef)) }, { "first", D(inter->EnergyIntegral(Ei, Em)) }, { "second", D(inter->EnergyIntegral(Em, Ef)) }, { "none", D(inter->EnergyIntegral(Em, Em)) } }); break;
            case 5: { double r = g.i(0, 2) ? g.u() : g.i(0, 1) ? g.lu(1e-12, 1e-3) : 1 - g.lu(1e-6, 1e-2); t({ { "k", "interaction" }, { "E", D(Ei) }, { "rnd", D(r) }, { "got", D(inter->EnergyInteraction(Ei, r)) } }); break; }
            case 6: if (dec) { double r = g.i(0, 2) ? g.u() : g.i(0, 1) ? g.lu(1e-12, 1e-3) : 1 - g.lu(1e-6, 1e-2); t({ { "k", "decay" }, { "E", D(Ei) }, { "rnd", D(r) }, { "rho", D(rho) }, { "got", D(dec->EnergyDecay(Ei, r, rho)) } }); } break;
            case 7: t({ { "k", "variance" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "v", D(cont->Variance(Ei, Ef)) }, { "none", D(cont->Variance(Em, Em)) } }); break;
            case 8: { double r = g.u(1e-3, .999), mn = g.i(0, 1) ? 0 : Ef * g.u(.9, 1); t({ { "k", "random" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", D(r) }, { "min", D(mn) }, { "got", D(cont->EnergyRandomize(Ei, Ef, r, mn)) } }); break; }
            }
        }
    }
}
