#include "unit.h"
#include "IceContainer.h"
using namespace hb;

static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }

struct EtLaw { const char* type; const char* par; double lo, hi; bool cap; };
static const EtLaw kEt[] = {{"et:linear", nullptr, 0, 0, true}, {"et:power_law", "exponent", 0, 3, true}, {"et:socont", nullptr, 0, 0, true},
                            {"et:exponential", "alpha", 0, 8, true}, {"et:hbv", "lp", 0, 1.2, true}, {"et:open_water", nullptr, 0, 0, false}, {"et:gr4j", nullptr, 0, 0, true}};

static double infilGR(double S, double Pn, double X) { if (Pn <= 0 || X <= 0) return 0; double t = std::tanh(std::min(Pn / X, 13.0)), r = S / X; return X * (1 - r * r) * t / (1 + r * t); }
static double evapGR(double S, double En, double X) { if (En <= 0 || X <= 0) return 0; double t = std::tanh(std::min(En / X, 13.0)), r = S / X; return S * (2 - r) * t / (1 + (1 - r) * t); }

HB_CASE(evapotranspiration, 4) {
    int k = c.pick("law", 7);
    const EtLaw& L = kEt[k];
    std::string type = L.type;
    double cap = fl(c.num("capacity", 0.5, 600)), x = c.num("content", 0, 700), pet = c.num("demand", 0, 12);
    if (c.chance(0.1)) x = cap;
    if (L.cap && c.chance(0.7)) x = std::min(x, cap);
    if (type == "et:gr4j") x = std::min(x, cap);
    double par = L.par ? fl(c.num(L.par, L.lo, L.hi)) : 0, cf = fl(c.num("cf", 0, 2));
    bool timer = c.flag("timer", 0.7);
    double dt = c.chance(0.2) ? 2 : 1;
    Lab l(dt);
    c.note("content", x); c.note("dt", dt);
    Brick* b = l.store("store", "storage", L.cap ? cap : -1);
    std::vector<std::pair<std::string, double>> p;
    if (L.par) p.push_back({L.par, par});
    if (type == "et:hbv") p.push_back({"et_correction_factor", cf});
    l.process("store", type, "", p, timer);
    try { l.make(); } catch (const std::exception& e) { c.cover("refused"); return; }
    l.set(VariableType::PET, pet);
    double pending = type == "et:gr4j" ? c.num("rain", 0, 60) : 0;
    WaterContainer* w = b->GetWaterContainer();
    w->UpdateContent(x);
    if (pending > 0) w->AddAmountToStaticContentChange(pending);
    else if (c.chance(0.5)) { double q = c.num("pending", 0, 20); w->AddAmountToDynamicContentChange(q); if (type != "et:gr4j") x += q; else w->_contentChangeDynamic = 0; }
    double r = l.rate(), f = clamp01(x / cap);
    double total = x + pending;
    if (total <= 1e-8) { if (total < 0.99e-8) c.eq(r, 0, "C05 nothing evaporates from an empty store: " + type, 0, 0); return; }
    double want = 0, dem = pet;
    if (type == "et:linear") want = pet * f;
    if (type == "et:power_law") want = pet * std::pow(f, par);
    if (type == "et:socont") want = pet * std::sqrt(f);
    if (type == "et:exponential") want = pet * (1 - std::exp(-par * f));
    if (type == "et:hbv") { dem = pet * cf; double th = par * cap; want = th <= 0 ? dem : dem * std::min(1.0, x / th); }
    if (type == "et:open_water") want = timer ? std::min(pet, x / dt) : pet;
    if (type == "et:gr4j") want = evapGR(x + infilGR(x, pending, cap), pet, cap);
    c.eq(r, want, "C05 law: " + type, 1e-7, 1e-10);
    c.check(r >= -1e-12 && r <= dem * (1 + 1e-9) + 1e-12, "C05 between zero and the demand: " + type);
    if (type == "et:linear" || type == "et:power_law" || type == "et:socont") if (x >= cap) c.eq(r, pet, "C05 full store: full demand: " + type);
    if (type == "et:open_water" && timer) c.le(r * dt, x, "C05 no more than the store holds: " + type);
    c.cover(type + (x >= cap ? "/full" : "/part") + (pet == 0 ? "/nodemand" : ""));
    // a fuller store never evaporates less
    if (type != "et:gr4j") {
        double more = c.num("more", 0, 50);
        w->AddAmountToDynamicContentChange(more);
        double r2 = l.rate();
        c.check(r2 >= r - 1e-9 * (1 + r), "C05 evaporation increases with filling: " + type);
    }
}

HB_CASE(interception, 1) {
    Lab l(1);
    double P = c.num("rain", 0, 60), E = c.num("demand", 0, 12);
    if (c.chance(0.1)) E = P;
    Brick* b = l.store("store", "storage");
    l.process("store", "interception:gr4j", "", {});
    l.make();
    l.set(VariableType::PET, E);
    b->GetWaterContainer()->UpdateContent(P);
    double r = l.rate();
    if (P <= 1e-8) { c.check(r <= 1e-8, "C05 interception: nothing from an empty store"); return; }
    c.eq(r, std::min(P, E), "C05 interception consumes equal parts of rain and demand");
    c.eq(l.get(VariableType::PET)->GetValue(), E - std::min(P, E), "C05 interception passes on the remaining demand", 1e-12, 1e-12);
    c.cover(P > E ? "rain" : "demand");
}

HB_CASE(sublimation, 2) {
    Lab l(1);
    bool pet = c.flag("pet"), shield = false;
    double x = c.num("snow", 0, 500), E = c.num("demand", 0, 10), par = fl(c.num("parameter", 0, 3));
    auto* sp = dynamic_cast<Snowpack*>(l.store("pack", "snowpack"));
    l.process("pack", pet ? "sublimation:pet" : "sublimation:constant", "", {{pet ? "sublimation_pet_factor" : "sublimation_rate", par}});
    l.make();
    l.set(VariableType::PET, E);
    sp->GetSnowContainer()->UpdateContent(x);
    (void)shield;
    double r = l.rate();
    c.check(l.proc->GetWaterContainer() == sp->GetSnowContainer(), "C05 sublimation takes from the snow");
    if (x <= 1e-8) { if (x < 0.99e-8) c.eq(r, 0, "C05 no sublimation without snow", 0, 0); return; }
    c.eq(r, pet ? E * par : par, pet ? "C05 sublimation is the configured fraction of the demand" : "C05 sublimation is the configured rate", 1e-9, 1e-12);
    c.cover(pet ? "pet" : "constant");
}

// over whole steps: what goes to the atmosphere never exceeds the demand, and the demand seen by the stores of a unit
HB_CASE(model_demand, 2) {
    Mdl d;
    Opt o;
    int k = c.pick("kind", 3);
    o.kind = k == 0 ? K_SOCONT : k == 1 ? K_HBV : K_GR4J;
    // the exponential Euler scheme extrapolates a linearised outflow: a claim of C11, not of the process laws
    o.solver = kSolvers[c.integer(0, 5)];
    if (!build(c, d, o)) return;
    randomStates(c, d);
    d.m->SaveAsInitialState();
    if (!d.m->InitializeTimeSeries()) return;
    for (int i = 0; i < d.nSteps; i++) {
        try { if (!d.m->GetProcessor()->ProcessTimeStep(1.0)) return; } catch (const std::exception&) { return; }
        for (int u = 0; u < d.nUnits; u++) {
            HydroUnit* hu = d.sb.GetHydroUnit(u);
            double et = 0;
            for (int b = 0; b < hu->GetBrickCount(); b++) {
                Brick* br = hu->GetBrick((size_t)b);
                if (br->IsNull()) continue;
                for (int q = 0; q < br->GetProcessCount(); q++) {
                    Process* pr = br->GetProcess(q);
                    if (!pr->ToAtmosphere()) continue;
                    double a = *pr->GetOutputFlux(0)->GetAmountPointer();
                    c.check(a >= 0 && a <= d.E(i, u) * (1 + 1e-9) + 1e-9, "C05 a step evaporates no more than the demand: " + pr->GetName());
                    et += a;
                }
            }
            if (d.kind == "gr4j" || d.kind == "gr6j")
                c.check(et <= d.E(i, u) * (1 + 1e-9) + 1e-9, "C05 interception and soil share one demand");
            c.cover("step/" + d.kind);
        }
        d.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < d.nSteps && !d.m->UpdateForcing()) return;
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
