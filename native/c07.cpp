#include "unit.h"
#include "ProcessInfiltration.h"
#include "ProcessCapillaryHBV.h"
#include "ProcessOutflowRest.h"
using namespace hb;

static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double percGR(double S, double X) { if (X <= 0) return 0; double r = S / X; return S * (1 - std::pow(1 + r * r * r * r / std::pow(9.0 / 4, 4), -0.25)); }
static double infilGR(double S, double Pn, double X) { if (Pn <= 0 || X <= 0) return 0; double t = std::tanh(std::min(Pn / X, 13.0)), r = S / X; return X * (1 - r * r) * t / (1 + r * t); }

HB_CASE(release, 3) {
    static const char* kinds[] = {"outflow:direct", "outflow:linear", "outflow:threshold", "outflow:overflow", "percolation:constant", "percolation:gr4j", "runoff:hbv", "runoff:socont"};
    std::string type = kinds[c.pick("law", 8)];
    double x = c.num("content", 0, 500), cap = fl(c.num("capacity", 0.5, 400)), dt = c.chance(0.3) ? c.inum("dt", 2, 4) : 1;
    if (c.chance(0.2)) x = cap;
    double k = fl(c.num("factor", 0, 1)), al = fl(c.num("alpha", 0, 2)), th = fl(c.num("threshold", 0, 50)), rt = fl(c.num("rate", 0, 20)), be = fl(c.num("beta", 0.01, 20000));
    double slope = c.num("slope", 0, 1), area = c.num("area", 100, 1e6), frac = fl(c.num("fraction", 0.05, 1));
    bool timer = c.flag("timer", 0.8), cover = c.flag("landcover", 0.5), pend = c.flag("pend", 0.3);
    if (c.chance(0.15)) x = th;
    Lab l(dt);
    l.unit = std::make_unique<HydroUnit>(area);
    l.unit->AddProperty(std::make_unique<HydroUnitProperty>("slope", slope, "m/m"));
    Brick* b = l.store("store", type == "runoff:socont" && cover ? "generic_land_cover" : "storage", type == "percolation:gr4j" ? cap : -1);
    if (auto* lc = dynamic_cast<LandCover*>(b)) lc->SetAreaFraction(frac);
    std::vector<std::pair<std::string, double>> p;
    if (type == "outflow:linear") p = {{"response_factor", k}};
    if (type == "outflow:threshold") p = {{"capacity", th}};
    if (type == "percolation:constant") p = {{"percolation_rate", rt}};
    if (type == "runoff:hbv") p = {{"response_factor", k}, {"alpha", al}};
    if (type == "runoff:socont") p = {{"beta", be}};
    l.process("store", type, "", p, timer);
    l.make();
    l.proc->AttachFluxOut(std::make_unique<FluxToOutlet>());
    WaterContainer* w = b->GetWaterContainer();
    if (pend) { double q = c.num("pending", 0, x); w->UpdateContent(x - q); w->AddAmountToDynamicContentChange(q); x = (x - q) + q; }
    else w->UpdateContent(x);
    double r = l.rate();
    c.cover(type + (x <= 1e-8 ? "/empty" : ""));
    if (x <= 1.01e-8) { if (x < 0.99e-8) c.eq(r, 0, "C07 nothing leaves an empty store: " + type, 0, 0); return; }
    c.check(r >= 0, "C07 never negative: " + type);
    double want = 0;
    if (type == "outflow:direct") want = x;
    if (type == "outflow:linear") want = k * x;
    if (type == "outflow:threshold") want = std::max(0.0, x - th) / (timer ? dt : 1);
    if (type == "percolation:constant") want = rt;
    if (type == "percolation:gr4j") want = percGR(x, cap);
    if (type == "runoff:hbv") want = k * std::pow(x, 1 + al);
    if (type == "runoff:socont") {
        double h = 2 * x / 1000, q = be * std::sqrt(fl(slope)) * std::pow(h, 5.0 / 3) / (cover ? area * frac : area);
        want = std::min(x, q * 86400 * 1000);
        c.le(r, x, "C07 no more than the store holds: " + type);
    }
    c.eq(r, want, "C07 law: " + type, 1e-6, 1e-9 * (1 + (type == "percolation:gr4j" ? x : 0)));
    if (type == "outflow:threshold" && x <= th) c.eq(r, 0, "C07 nothing below the threshold", 0, 0);
}

HB_CASE(infiltration, 3) {
    static const char* kinds[] = {"infiltration:socont", "infiltration:hbv", "infiltration:gr4j"};
    int k = c.pick("law", 3);
    std::string type = kinds[k];
    double in = c.num("available", 0, 120), cap = c.chance(0.08) ? 0 : fl(c.num("capacity", 0.5, 400)), x = c.num("soil", 0, 500), be = fl(c.num("beta", 0, 6));
    if (c.chance(0.15)) x = cap;
    if (k == 2) x = std::min(x, cap);
    bool withRest = c.flag("rest", 0.5), solver = c.flag("solver", 0.5), pend = c.flag("pend", 0.3);
    Lab l(1);
    Brick* b = l.store("ground", "storage");
    Brick* soil = l.store("soil", "storage", cap);
    std::vector<std::pair<std::string, double>> p;
    if (k == 1) p = {{"beta", be}};
    l.process("ground", type, "", p);
    if (withRest) l.process("ground", "outflow:rest", "", {});
    l.make();
    auto* inf = dynamic_cast<ProcessInfiltration*>(l.made["p0"]);
    inf->SetTargetBrick(soil);
    WaterContainer *w = b->GetWaterContainer(), *sw = soil->GetWaterContainer();
    w->UpdateContent(in);
    if (pend) { sw->UpdateContent(x / 2); sw->AddAmountToDynamicContentChange(x / 2); }
    else sw->UpdateContent(x);
    double r = l.rate(inf);
    c.cover(type + (cap <= 0 ? "/nocap" : x >= cap ? "/full" : x <= 0 ? "/empty" : "/part"));
    if (in <= 1.01e-8) { if (in < 0.99e-8) c.eq(r, 0, "C07 nothing infiltrates without water: " + type, 0, 0); return; }
    double f = cap > 0 ? clamp01(x / cap) : 0, want = 0;
    if (cap > 0) want = k == 0 ? in * (1 - f * f) : k == 1 ? in * (1 - std::pow(f, be)) : infilGR(x, in, cap);
    c.eq(r, want, "C07 law: " + type, 1e-7, 1e-9);
    c.check(r >= -1e-9 && r <= in * (1 + 1e-9), "C07 a share of the available water: " + type);
    if (k < 2 && f >= 1 && (k == 0 || be > 0)) c.eq(r, 0, "C07 a full soil takes nothing: " + type, 0, 1e-12);
    if (withRest) {
        Process* rest = l.made["p1"];
        b->_needsSolver = solver;
        double link = r;
        inf->AttachFluxOut(std::make_unique<FluxToOutlet>());
        double got;
        if (solver) { inf->StoreInOutgoingFlux(&link, 0); got = l.rate(rest); c.eq(got + r, in, "C07 infiltration and rest add up to the water shared", 1e-9, 1e-9); }
        else {
            // applied one after the other: the withdrawal is already in the content
            w->SubtractAmountFromDynamicContentChange(std::min(r, in));
            double left = in - std::min(r, in);
            got = l.rate(rest);
            if (left > 1.1e-8) c.eq(got, left, "C07 infiltration and rest add up to the water shared", 1e-9, 1e-9);
        }
        c.cover(solver ? "rest/solver" : "rest/direct");
    }
}

HB_CASE(rest, 2) {
    Lab l(1);
    bool solver = c.flag("solver", 0.7);
    int n = c.inum("siblings", 0, 3), pos = c.inum("position", 0, n);
    double x = c.num("content", 0, 200);
    Brick* b = l.store("ground", "storage");
    for (int i = 0; i <= n; i++) l.process("ground", i == pos ? "outflow:rest" : "outflow:linear", "", {});
    l.make();
    b->_needsSolver = solver;
    WaterContainer* w = b->GetWaterContainer();
    w->UpdateContent(x);
    std::vector<double> rates(2 * (n + 1), 0.0);
    double sum = 0;
    for (int i = 0; i <= n; i++) {
        Process* q = l.made["p" + std::to_string(i)];
        int outs = i == pos ? 1 : c.inum("outs", 1, 2);
        for (int j = 0; j < outs; j++) {
            q->AttachFluxOut(std::make_unique<FluxToOutlet>());
            if (i == pos || c.chance(0.1)) continue;
            rates[2 * i + j] = c.num("sibling", 0, 120);
            double v = rates[2 * i + j];
            q->StoreInOutgoingFlux(&rates[2 * i + j], j);
            rates[2 * i + j] = v;
            sum += v;
        }
    }
    double r = l.rate(l.made["p" + std::to_string(pos)]);
    if (x <= 1.01e-8) { if (x < 0.99e-8) c.eq(r, 0, "C07 nothing leaves an empty store: outflow:rest", 0, 0); return; }
    c.eq(r, solver ? std::max(0.0, x - sum) : x, "C07 law: outflow:rest", 1e-9, 1e-9);
    c.cover(solver ? (sum > x ? "exhausted" : "shared") : "direct");
}

HB_CASE(capillary, 2) {
    Lab l(1);
    int n = c.inum("soils", 1, 3);
    double up = c.num("upper", 0, 60), cf = fl(c.num("max_flux", 0, 5));
    Brick* ub = l.store("upper", "storage");
    std::vector<Brick*> soils, covers;
    std::vector<double> cap, x, wt;
    std::vector<std::vector<Brick*>> src;
    for (int i = 0; i < n; i++) {
        cap.push_back(c.chance(0.1) ? 0 : fl(c.num("capacity", 0.5, 400)));
        x.push_back(c.num("soil", 0, 500));
        soils.push_back(l.store("soil" + std::to_string(i), "storage", cap.back()));
        int m = n == 1 ? c.inum("sources", 0, 2) : c.inum("sources", 1, 2);
        double tot = m ? 0 : 1;
        src.push_back({});
        for (int j = 0; j < m; j++) {
            Brick* lc = l.store("cover" + std::to_string(i) + "_" + std::to_string(j), "generic_land_cover");
            double f = fl(c.num("fraction", 0, 1));
            dynamic_cast<LandCover*>(lc)->SetAreaFraction(f);
            tot += f;
            src.back().push_back(lc);
        }
        wt.push_back(tot);
    }
    l.process("upper", "capillary:hbv", "", {{"max_capillary_flux", cf}});
    l.make();
    auto* q = dynamic_cast<ProcessCapillaryHBV*>(l.proc);
    for (int i = 0; i < n; i++) q->AddTargetBrickWithWeights(soils[i], src[i]);
    ub->GetWaterContainer()->UpdateContent(up);
    for (int i = 0; i < n; i++) soils[i]->GetWaterContainer()->UpdateContent(x[i]);
    for (int i = 0; i < n; i++) q->AttachFluxOut(std::make_unique<FluxToOutlet>());
    const vecDouble& r = q->GetChangeRates();
    if (!c.check((int)r.size() == n, "C07 one capillary rate per soil")) return;
    for (int i = 0; i < n; i++) {
        if (up <= 1.01e-8) { if (up < 0.99e-8) c.eq(r[i], 0, "C07 nothing leaves an empty store: capillary:hbv", 0, 0); continue; }
        c.eq(r[i], cap[i] > 0 ? cf * wt[i] * (1 - clamp01(x[i] / cap[i])) : 0, "C07 law: capillary:hbv", 1e-6, 1e-9);
        if (x[i] >= cap[i]) c.eq(r[i], 0, "C07 no capillary rise into a full soil", 0, 1e-12);
    }
    c.cover(up <= 1e-8 ? "empty" : n > 1 ? "several" : "one");
}

int main(int argc, char** argv) { return Main(argc, argv); }
