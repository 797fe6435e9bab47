#include "unit.h"
using namespace hb;

static double tanhc(double x) { return std::tanh(std::min(x, 13.0)); }
static double percGR(double S, double X) { if (X <= 0) return 0; double r = S / X; return S * (1 - std::pow(1 + r * r * r * r / std::pow(9.0 / 4, 4), -0.25)); }
static double infilGR(double S, double Pn, double X) { if (Pn <= 0 || X <= 0) return 0; double t = tanhc(Pn / X), r = S / X; return X * (1 - r * r) * t / (1 + r * t); }
static double evapGR(double S, double En, double X) { if (En <= 0 || X <= 0) return 0; double t = tanhc(En / X), r = S / X; return S * (2 - r) * t / (1 + (1 - r) * t); }

HB_CASE(production, 2) {
    double x1 = fl(c.num("X1", 5, 1200)), s0 = x1 * c.num("filling", 0, 1), pn = c.num("Pn", 0, 150), pet = c.num("pet", 0, 12);
    bool dyn = c.flag("dynamic", 0.3);
    Lab l(1);
    Brick* b = l.store("store", "storage", x1);
    l.set(VariableType::PET, pet);
    l.process("store", "production:gr4j", "", {});
    l.make();
    l.proc->AttachFluxOut(std::make_unique<FluxToOutlet>());
    WaterContainer* w = b->GetWaterContainer();
    w->UpdateContent(s0);
    w->AddAmountToStaticContentChange(pn);
    if (dyn) { /* nothing pending dynamically: the brick is computed directly */ }
    double r = l.rate();
    if (s0 + pn <= 1.01e-8) { if (s0 + pn < 0.99e-8) c.eq(r, 0, "C08 an empty production store gives nothing", 0, 0); return; }
    double ps = infilGR(s0, pn, x1), s1 = s0 + ps, s2 = s1 - evapGR(s1, fl(pet) == pet ? pet : pet, x1);
    c.check(r >= -1e-12, "C08 production never negative");
    c.eq(r, (pn - ps) + percGR(s2, x1), "C08 production: rain not taken in plus percolation", 1e-7, 1e-9);
    c.le(r, pn + s0, "C08 production gives no more than the rain and the store");
    double left = s0 + pn - r;   // what stays, before evapotranspiration
    c.le(left, x1 + evapGR(s1, pet, x1), "C08 production store stays within its capacity", 1e-7);
    c.cover(pn > 0 ? (pet > 0 ? "rain+pet" : "rain") : "dry");
}

HB_CASE(percolation, 1) {
    double x1 = fl(c.num("X1", 5, 1200)), s = x1 * c.num("filling", 0, 1.2);
    Lab l(1);
    Brick* b = l.store("store", "storage", x1);
    l.process("store", "percolation:gr4j", "", {});
    l.make();
    l.proc->AttachFluxOut(std::make_unique<FluxToOutlet>());
    b->GetWaterContainer()->UpdateContent(s);
    double r = l.rate();
    if (s <= 1.01e-8) return;
    c.eq(r, percGR(s, x1), "C08 percolation law", 1e-7, 1e-9);
    c.check(r >= 0 && r <= s, "C08 percolates no more than the store holds");
}

static double S1(double t, double x) { return t <= 0 ? 0 : t >= x ? 1 : std::pow(t / x, 2.5); }
static double S2(double t, double x) { return t <= 0 ? 0 : t >= 2 * x ? 1 : t < x ? 0.5 * std::pow(t / x, 2.5) : 1 - 0.5 * std::pow(2 - t / x, 2.5); }

struct Ref {   // routing, written from the published equations
    bool six;
    double x2, x3, x4, x5, x6, r = 0, e = 0;
    std::vector<double> o1, o2, b1, b2;   // b[0] is what is due next
    Ref(bool s, double a, double b, double c_, double d, double f) : six(s), x2(a), x3(b), x4(c_ <= 0 ? 0.5 : c_), x5(d), x6(f) {
        for (int j = 0; j < (int)std::ceil(x4); j++) o1.push_back(S1(j + 1, x4) - S1(j, x4));
        for (int j = 0; j < (int)std::ceil(2 * x4); j++) o2.push_back(S2(j + 1, x4) - S2(j, x4));
        b1.assign(o1.size() + 1, 0);
        b2.assign(o2.size() + 1, 0);
    }
    double xo(double v) const { if (x6 <= 0) return std::max(0.0, v); double a = std::max(-33.0, std::min(33.0, v / x6)); return a > 7 ? v + x6 / std::exp(a) : a < -7 ? x6 * std::exp(a) : x6 * std::log(std::exp(a) + 1); }
    double qr, qe, qd, ex;
    double step(double in) {
        for (size_t j = 0; j < o1.size(); j++) b1[j] += o1[j] * 0.9 * in;
        for (size_t j = 0; j < o2.size(); j++) b2[j] += o2[j] * 0.1 * in;
        double u1 = b1[0], u2 = b2[0];
        b1.erase(b1.begin()); b1.push_back(0);
        b2.erase(b2.begin()); b2.push_back(0);
        double F = x3 > 0 ? (six ? x2 * (r / x3 - x5) : x2 * std::pow(r / x3, 3.5)) : 0;
        double a = std::max(0.0, r + (six ? 0.6 : 1.0) * u1 + F), q4 = x3 > 0 ? std::pow(a / x3, 4) : 0;
        ex = a - (r + (six ? 0.6 : 1.0) * u1);
        qr = a * (1 - std::pow(1 + q4, -0.25));
        r = a - qr;
        qe = 0;
        if (six) { e += 0.4 * u1 + F; qe = xo(e); e -= qe; ex += F; }
        qd = std::max(0.0, u2 + F);
        ex += qd - u2;
        return qr + qe + qd;
    }
    double transit() const { double s = 0; for (double v : b1) s += v; for (double v : b2) s += v; return s; }
};

HB_CASE(routing, 4) {
    bool six = c.flag("gr6j");
    double x2 = c.chance(0.35) ? 0 : fl(c.num("X2", -6, 6)), x3 = fl(c.num("X3", 1, 400)), x4 = fl(c.num("X4", 0.3, 9)), x5 = fl(c.num("X5", -1, 1)), x6 = fl(c.num("X6", 0.5, 30));
    if (c.chance(0.1)) x4 = std::round(x4 * 2) / 2;
    if (c.chance(0.05)) x4 = -1;
    Lab l(1);
    Brick* b = l.store("uh", "storage");
    std::vector<std::pair<std::string, double>> p = {{"exchange_factor", x2}, {"routing_capacity", x3}, {"uh_base_time", x4}};
    if (six) p.push_back({"exchange_threshold", x5}), p.push_back({"exp_store_coeff", x6});
    l.process("uh", six ? "routing:gr6j" : "routing:gr4j", "", p);
    l.make();
    l.proc->AttachFluxOut(std::make_unique<FluxToOutlet>());
    int nin = c.inum("inputs", 1, 3);
    std::vector<std::unique_ptr<Flux>> in;
    for (int i = 0; i < nin; i++) { in.push_back(std::make_unique<FluxToBrick>(b)); b->AttachFluxIn(in.back().get()); }
    WaterContainer* w = b->GetWaterContainer();
    int n = c.inum("steps", 1, 24);
    bool again = c.flag("reset", 0.3);
    for (int pass = 0; pass < (again ? 2 : 1); pass++) {
        Ref ref(six, x2, x3, x4, x5, x6);
        double sumIn = 0, sumOut = 0, sumEx = 0;
        for (int t = 0; t < n; t++) {
            double tot = 0;
            for (auto& f : in) { double v = c.chance(0.3) ? 0 : c.num("in", 0, 60); f->UpdateFlux(v); tot += v; }
            w->Finalize();
            w->UpdateContent(1000);   // never empty: the guard on empty stores is not what is looked at here
            int calls = c.chance(0.2) ? 2 : 1;
            double r = 0;
            for (int k = 0; k < calls; k++) r = l.rate();   // the exchange of the step is added once
            double ch = w->GetContentWithChanges() - 1000;
            double want = ref.step(tot);
            c.eq(r, want, "C08 discharge of the step is the sum of the routing branches", 1e-6, 1e-9);
            if (!six) c.eq(ch, ref.ex, "C08 the exchange is added to the water routed", 1e-5, 1e-8);
            l.proc->Finalize();
            double* q = l.proc->GetValuePointer("q_routing");
            double* qd = l.proc->GetValuePointer("q_direct");
            double* rs = l.proc->GetValuePointer("routing_store");
            if (q && qd && rs) {
                c.eq(*q, ref.qr, "C08 release of the routing store", 1e-6, 1e-9);
                c.eq(*qd, ref.qd, "C08 direct branch", 1e-6, 1e-9);
                c.eq(*rs, ref.r, "C08 content of the routing store", 1e-6, 1e-8);
                c.check(*q >= 0 && *rs >= 0, "C08 the routing store releases no more than it holds");
            }
            sumIn += tot;
            sumOut += r;
            sumEx += ref.ex;
        }
        // empty the hydrographs: everything put in comes out
        for (int t = 0; t < 2 * (int)std::ceil(std::max(x4, 0.5)) + 2; t++) {
            for (auto& f : in) f->UpdateFlux(0);
            w->Finalize();
            w->UpdateContent(1000);
            sumOut += l.rate();
            l.proc->Finalize();
            ref.step(0);
            sumEx += ref.ex;
        }
        double* rs = l.proc->GetValuePointer("routing_store");
        double* es = six ? l.proc->GetValuePointer("exp_store") : nullptr;
        if (rs) c.eq(sumOut + *rs + (es ? *es : 0), sumIn + sumEx, "C08 routed water equals the water put in", 1e-7, 1e-6);
        c.cover(std::string(six ? "gr6j" : "gr4j") + (pass ? "/again" : "") + (x4 < 1 ? "/short" : "/long"));
        l.proc->Reset();
    }
}

// whole model: over any run the outlet receives what the routing committed
HB_CASE(model, 2) {
    Mdl d;
    Opt o;
    o.kind = c.chance(0.5) ? K_GR4J : K_GR6J;
    o.multiUnit = false;
    o.minSteps = 4;
    if (!build(c, d, o)) return;
    if (d.kind != "gr4j" && d.kind != "gr6j") return;
    Brick* uh = d.sb.GetHydroUnit(0)->GetBrick("uh_input");
    Process* p = uh->GetProcess((size_t)0);
    Processor* pr = &d.m->_processor;
    double* q = p->GetValuePointer("q_routing");
    double* qd = p->GetValuePointer("q_direct");
    double* qe = d.kind == "gr6j" ? p->GetValuePointer("q_exp") : nullptr;
    double* out = p->GetValuePointer("output");
    if (!q || !qd || !out) return;
    (void)d.m->InitializeTimeSeries();
    for (int t = 0; t < d.nSteps; t++) {
        (void)pr->ProcessTimeStep(1.0);
        double got = *out, want = *q + *qd + (qe ? *qe : 0);
        WaterContainer* w = uh->GetWaterContainer();
        if (w->GetContentWithoutChanges() > 1e-6 || d.kind == "gr6j")
            c.eq(got, want, "C08 the outlet receives the sum of the routing branches", 1e-6, 1e-7);
        if (t + 1 < d.nSteps) (void)d.m->UpdateForcing();
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
