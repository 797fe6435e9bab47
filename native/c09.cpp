#include "unit.h"
#include "ProcessRoutingHBV.h"
using namespace hb;

static double CW(double t, double m) { if (t <= 0) return 0; if (t >= m) return 1; double r = t / m; return r <= 0.5 ? 2 * r * r : 1 - 2 * (1 - r) * (1 - r); }
static std::vector<double> weights(double m) {
    m = std::max(m, 1.0);
    std::vector<double> w;
    for (int j = 1; j <= (int)std::ceil(m); j++) w.push_back(CW(j, m) - CW(j - 1, m));
    return w;
}
struct RefH {
    std::vector<double> w, due;   // due[0]: in this step
    explicit RefH(double m) { change(m); }
    void change(double m) {
        w = weights(m);
        if (due.size() > w.size()) { double s = 0; for (size_t j = w.size(); j < due.size(); j++) s += due[j]; due.resize(w.size()); due.back() += s; }
        due.resize(w.size(), 0.0);
    }
    double offered(double in) const { return std::max(0.0, due[0]) + w[0] * in; }
    void commit(double in, double delivered) {
        double carry = due[0] + w[0] * in - delivered;
        for (size_t j = 0; j + 1 < due.size(); j++) due[j] = due[j + 1] + w[j + 1] * in;
        due.back() = 0;
        due[0] += carry;
    }
    double transit() const { double s = 0; for (double v : due) s += v; return s; }
};

HB_CASE(routing, 4) {
    double m = c.chance(0.15) ? fl(c.num("base", 0, 1)) : c.chance(0.2) ? (double)c.inum("base", 1, 12) : fl(c.num("base", 1, 20));
    Lab l(1);
    Brick* b = l.store("routing", "storage");
    l.process("routing", "routing:hbv", "", {{"maxbas", m}});
    l.make();
    auto out = std::make_unique<FluxToOutlet>();
    Flux* fo = out.get();
    double frac = c.chance(0.4) ? 1 : c.num("unit share", 0.01, 1);
    fo->SetFractionUnitArea(frac);
    l.proc->AttachFluxOut(std::move(out));
    int nin = c.inum("inputs", 1, 3);
    std::vector<std::unique_ptr<Flux>> in;
    for (int i = 0; i < nin; i++) { in.push_back(std::make_unique<FluxToBrick>(b)); b->AttachFluxIn(in.back().get()); }
    WaterContainer* w = b->GetWaterContainer();
    bool partial = c.flag("partial delivery", 0.3), shorten = c.flag("base changes", 0.2), again = c.flag("reset", 0.25);
    int n = c.inum("steps", 1, 30);
    double* transit = l.proc->GetValuePointer("internal_storage");
    for (int pass = 0; pass < (again ? 2 : 1); pass++) {
        RefH ref(m);
        double sumIn = 0, sumOut = 0;
        for (int t = 0; t < n + (int)ref.w.size() + 1; t++) {
            double tot = 0;
            for (auto& f : in) { double v = (t >= n || c.chance(0.35)) ? 0 : c.num("in", 0, 80); f->UpdateFlux(v); tot += v; }
            if (shorten && t < n && c.chance(0.1)) {
                double m2 = fl(c.num("base", 0.5, 15));
                *const_cast<float*>(static_cast<ProcessRoutingHBV*>(l.proc)->_maxbas) = (float)m2;
                ref.change(m2);
            }
            b->UpdateContentFromInputs();
            double r = l.rate();
            if (c.chance(0.2)) r = l.rate();   // asking twice changes nothing
            c.eq(r, ref.offered(tot), "C09 released in the proportions of the triangle", 1e-6, 1e-6);
            double give = partial && t < n && c.chance(0.3) ? r * c.num("part", 0.2, 1) : r;
            if (give > w->GetContentWithChanges()) give = std::max(0.0, w->GetContentWithChanges());
            if (give <= 1e-8) give = 0;
            l.proc->ApplyChange(0, give, 1.0);
            c.eq(fo->GetAmount(), give * frac, "C09 delivered share", 1e-9, 1e-9);
            b->Finalize();
            ref.commit(tot, give);
            sumIn += tot;
            sumOut += give;
            if (transit) c.eq(*transit, ref.transit(), "C09 water in transit", 1e-7, 1e-6);
            if (transit) c.eq(*transit, sumIn - sumOut, "C09 to be released plus released equals what came in", 1e-7, 1e-6);
            c.eq(w->GetContentWithoutChanges(), sumIn - sumOut, "C09 the store holds what is in transit", 1e-7, 1e-6);
        }
        if (!partial) c.le(std::abs(sumIn - sumOut), 1e-5, "C09 everything is released within the base time");
        c.cover(std::string(partial ? "partial" : "full") + (shorten ? "/changing" : "") + (frac < 1 ? "/weighted" : "") + (pass ? "/again" : "") + (m <= 1 ? "/pass" : ""));
        if (again) {
            w->UpdateContent(0);
            l.proc->Reset();
            if (shorten) *const_cast<float*>(static_cast<ProcessRoutingHBV*>(l.proc)->_maxbas) = (float)m, l.proc->Reset();
        }
    }
}

// the routing inside whole models: the hydrograph of what entered the brick
HB_CASE(model, 2) {
    Mdl d;
    Opt o;
    o.kind = K_HBV;
    o.minSteps = 8;
    o.maxSteps = 30;
    if (!build(c, d, o)) return;
    std::vector<RefH> refs;
    std::vector<double> prev;
    double total = 0;
    std::vector<ProcessRoutingHBV*> ps;
    for (int u = 0; u < d.nUnits; u++) {
        Brick* b = d.sb.GetHydroUnit(u)->GetBrick("routing");
        auto p = dynamic_cast<ProcessRoutingHBV*>(b->GetProcess((size_t)0));
        if (!p || !p->_maxbas) return;
        ps.push_back(p);
        refs.emplace_back((double)*p->_maxbas);
        prev.push_back(b->GetContent(ContentType::Water));
        total += d.areas[u];
    }
    Processor* pr = &d.m->_processor;
    (void)d.m->InitializeTimeSeries();
    for (int t = 0; t < d.nSteps; t++) {
        (void)pr->ProcessTimeStep(1.0);
        for (int u = 0; u < d.nUnits; u++) {
            Brick* b = d.sb.GetHydroUnit(u)->GetBrick("routing");
            double delivered = b->GetProcess((size_t)0)->GetOutputFlux(0)->GetAmount() / (d.areas[u] / total), now = b->GetContent(ContentType::Water);
            double in = now - prev[u] + delivered;
            prev[u] = now;
            double sched = refs[u].offered(in);
            refs[u].commit(in, delivered);
            double* tr = ps[u]->GetValuePointer("internal_storage");
            if (tr) c.eq(*tr, refs[u].transit(), "C09 water in transit in the model", 1e-6, 1e-5);
            auto& st = ps[u]->_stuh;
            for (size_t j = 0; j < st.size() && j < refs[u].due.size(); j++) c.eq(st[j], refs[u].due[j], "C09 schedule of what came in", 1e-5, 1e-5);
            (void)sched;
        }
        if (t + 1 < d.nSteps) (void)d.m->UpdateForcing();
    }
    c.cover("model:" + d.solver + (d.nUnits > 1 ? "/units" : ""));
}

int main(int argc, char** argv) { return Main(argc, argv); }
