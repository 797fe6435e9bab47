#include "direct.h"
#include "Forcing.h"
#include "HydroUnit.h"
using namespace hb;

// ---- an independent explicit engine over the same bricks (own lists, own state, own weights) ----
struct Ref {
    Mdl& d;
    std::vector<Brick*> solved;
    std::vector<double*> state;
    std::vector<std::pair<Process*, int>> conn;
    std::vector<Brick*> owner;
    std::vector<double> live;     // the rates the fluxes are linked to
    bool unstable = false;
    Ref(Mdl& m) : d(m) {
        solved = solvedBricks(d);
        for (Brick* b : solved) {
            for (WaterContainer* w : containersOf(b)) state.push_back(&w->_contentChangeDynamic);
            for (auto& p : b->_processes)
                for (int j = 0; j < (int)p->_outputs.size(); j++) { conn.push_back({p.get(), j}); owner.push_back(b); }
        }
        live.assign(conn.size(), 0);
    }
    // A process may look at the rates of its brick's other processes: those of the same evaluation at the first
    // stage, those of the last constrained stage in the corrector stages (documented in ProcessOutflowRest).
    std::vector<double> evaluate(bool first = false) {
        std::vector<double> r;
        size_t k = 0;
        for (Brick* b : solved)
            for (auto& p : b->_processes) {
                vecDouble v = p->GetChangeRates();
                for (size_t j = 0; j < v.size(); j++) {
                    if (first) { live[k] = v[j]; p->StoreInOutgoingFlux(&live[k], (int)j); k++; }
                    else r.push_back(v[j]);
                }
            }
        return first ? live : r;
    }
    std::vector<double> constrain(const std::vector<double>& r, double h) {
        live = r;
        for (size_t k = 0; k < conn.size(); k++) conn[k].first->StoreInOutgoingFlux(&live[k], conn[k].second);
        for (int s = 0; s < 10; s++) {
            std::vector<double> before = live;
            for (Brick* b : solved) b->ApplyConstraints(h);
            bool same = true;
            for (size_t k = 0; k < live.size(); k++) if (!(std::abs(live[k] - before[k]) <= 1e-8)) same = false;
            if (same) return live;
        }
        unstable = true;
        return live;
    }
    void apply(const std::vector<double>& r, double h) {
        size_t k = 0;
        for (Brick* b : solved) {
            b->UpdateContentFromInputs();
            for (auto& p : b->_processes)
                for (int j = 0; j < (int)p->_outputs.size(); j++) p->ApplyChange(j, r[k++], h);
        }
    }
    std::vector<double> gather() { std::vector<double> v; for (double* x : state) v.push_back(*x); return v; }
    void scatter(const std::vector<double>& v, double f) { for (size_t i = 0; i < state.size(); i++) *state[i] = v[i] * f; }
    void reset() { for (double* x : state) *x = 0; }

    void step(double h) {
        directPhase(d, h);
        auto k1 = constrain(evaluate(true), h);
        if (d.solver == "euler_explicit") {
            apply(k1, h);
        } else if (d.solver == "heun_explicit") {
            apply(k1, h);
            auto k2 = evaluate();
            reset();
            std::vector<double> c(k1.size());
            for (size_t i = 0; i < c.size(); i++) c[i] = 0.5 * k1[i] + 0.5 * k2[i];
            c = constrain(c, h);
            apply(c, h);
        } else {
            apply(k1, h);
            auto s = gather();
            scatter(s, 0.5);
            auto k2 = evaluate();
            reset();
            k2 = constrain(k2, h);
            apply(k2, h);
            s = gather();
            scatter(s, 0.5);
            auto k3 = evaluate();
            reset();
            k3 = constrain(k3, h);
            apply(k3, h);
            auto k4 = evaluate();
            reset();
            std::vector<double> c(k1.size());
            for (size_t i = 0; i < c.size(); i++) c[i] = (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6;
            c = constrain(c, h);
            apply(c, h);
        }
        for (Brick* b : solved) b->Finalize();
    }
};

static const char* EXPL[] = {"euler_explicit", "heun_explicit", "runge_kutta"};

HB_CASE(scheme, 6) {
    Opt o;
    o.solver = EXPL[c.integer(0, 2)];
    o.infiniteGlacier = c.chance(0.2);
    Ctx c2 = c;
    Mdl a, b;
    if (!build(c, a, o)) return;
    randomStates(c, a);
    if (!build(c2, b, o)) return;
    randomStates(c2, b);
    if (!a.m->InitializeTimeSeries() || !b.m->InitializeTimeSeries()) return;
    Ref ref(b);
    Processor* p = a.m->GetProcessor();
    c.check(p->GetSolvableConnectionCount() == (int)ref.conn.size(), "C10 every connection of a solved brick is counted once");
    c.check((int)p->_stateVariableChanges.size() >= (int)ref.solved.size(), "C10 every solved brick has its state");
    c.check(p->_iterableBricks.size() == ref.solved.size(), "C10 every solved brick is handled once");
    double h = 1;
    auto ba = bricks(a), bb = bricks(b);
    bool drop = a.kind == "socont" && a.covers.size() > 1 && c.chance(0.5);
    for (int i = 0; i < a.nSteps; i++) {
        if (drop && i > 0 && c.chance(0.5)) {     // covers that vanish or come back in the middle of the run
            int u = c.integer(0, a.nUnits - 1);
            std::string nm = a.covers[c.integer(0, (int)a.covers.size() - 1)];
            double f = c.chance(0.6) ? 0 : 0.25;
            HydroUnit* hu = a.m->GetSubBasin()->GetHydroUnit(u);
            bool r1 = hu->ChangeLandCoverAreaFraction(nm, f), r2 = b.m->GetSubBasin()->GetHydroUnit(u)->ChangeLandCoverAreaFraction(nm, f);
            if (r1 != r2) return;
            c.note("vanish", nm);
        }
        bool ta = false, tb = false, ok = true;
        std::string ea, eb;
        try { ok = p->ProcessTimeStep(h); } catch (const std::exception& e) { ta = true; ea = e.what(); }
        try { ref.step(h); } catch (const std::exception& e) { tb = true; eb = e.what(); }
        if (ref.unstable) { c.cover("constraints not stable"); return; }
        if (ta || tb) { c.check(ta == tb, "C10 the step fails only where a rate or a constraint does", ea + " / " + eb); return; }
        if (!ok) return;
        for (size_t k = 0; k < ba.size(); k++) {
            auto wa = containersOf(ba[k]), wb = containersOf(bb[k]);
            for (size_t q = 0; q < wa.size(); q++) {
                double x = *wa[q]->GetContentPointer(), y = *wb[q]->GetContentPointer();
                if (std::isfinite(x) || std::isfinite(y)) c.eq(x, y, "C10 content after a step of the " + std::string(o.solver) + " scheme", 1e-7, 2e-7);
                c.check(wa[q]->_contentChangeDynamic == 0 || wa[q]->IsInfiniteStorage() || ba[k]->IsNull(), "C10 each stage starts from the saved state, the last is committed");
            }
            for (size_t q = 0; q < ba[k]->_processes.size(); q++)
                for (size_t j = 0; j < ba[k]->_processes[q]->_outputs.size(); j++) {
                    Flux* fa = ba[k]->_processes[q]->_outputs[j].get();
                    Flux* fb = bb[k]->_processes[q]->_outputs[j].get();
                    if (ba[k]->IsNull()) { c.check(fa->_amount == 0, "C10 bricks without area exchange nothing", ba[k]->GetName()); c.cover("null"); }
                    else c.eq(fa->_amount, fb->_amount, "C10 amount moved by each connection (" + std::string(o.solver) + ")", 1e-7, 2e-7);
                }
        }
        c.eq(a.sb._outletTotal, outletSum(b), "C10 discharge of the step", 1e-7, 2e-7);
        if (i + 1 < a.nSteps) {
            a.m->GetTimeMachine()->IncrementTime();
            b.m->GetTimeMachine()->IncrementTime();
            if (!a.m->UpdateForcing() || !b.m->UpdateForcing()) return;
        }
    }
    c.cover("scheme:" + std::string(o.solver) + "/" + a.kind);
}

// linear stores in series: the closed form of the three schemes, without any engine call
HB_CASE(closed, 3) {
    SettingsModel ms;
    SettingsBasin bs;
    SubBasin sb;
    int n = c.inum("stores", 1, 4), ns = c.inum("steps", 1, 8);
    std::string solver = EXPL[c.integer(0, 2)];
    c.note("solver", solver);
    std::vector<double> k(n), S(n);
    std::vector<int> to(n);
    ms.SetSolver(solver);
    ms.SetTimer(dayStr(0), dayStr(ns - 1), 1, "day");
    for (int i = 0; i < n; i++) {
        ms.AddHydroUnitBrick("store_" + std::to_string(i), "storage");
        if (i == 0) ms.AddBrickForcing("precipitation");
        to[i] = i + 1 < n && c.chance(0.8) ? c.integer(i + 1, n - 1) : -1;
        ms.AddBrickProcess("outflow", "outflow:linear", to[i] < 0 ? "outlet" : "store_" + std::to_string(to[i]));
        float kk = c.numf("k", 0.01, 0.9);
        k[i] = kk;
        ms.SetProcessParameterValue("response_factor", kk);
    }
    ms.AddLoggingToItem("outlet");
    bs.AddHydroUnit(1, 100);
    if (!sb.Initialize(bs)) return;
    ModelHydro m(&sb);
    if (!m.Initialize(ms, bs)) return;
    axd time(ns);
    axi ids(1);
    axxd P(ns, 1);
    ids(0) = 1;
    for (int i = 0; i < ns; i++) { time(i) = GetMJD(2020, 1, 1) + i; P(i, 0) = c.chance(0.3) ? 0 : c.u(0.1, 60); }
    if (!m.CreateTimeSeries("precipitation", time, ids, P) || !m.AttachTimeSeriesToHydroUnits()) { if (ns > 1) c.cover("series refused"); return; }
    HydroUnit* hu = sb.GetHydroUnit(0);
    for (int i = 0; i < n; i++) { S[i] = c.u(1, 100); hu->GetBrick((size_t)i)->UpdateContent(S[i], ContentType::Water); }
    if (!m.InitializeTimeSeries()) return;
    auto net = [&](const std::vector<double>& r, double in) {   // change over the step with the rates r
        std::vector<double> g(n, 0);
        g[0] += in;
        for (int i = 0; i < n; i++) { g[i] -= r[i]; if (to[i] >= 0) g[to[i]] += r[i]; }
        return g;
    };
    auto rates = [&](const std::vector<double>& s) {
        std::vector<double> r(n);
        for (int i = 0; i < n; i++) r[i] = s[i] > 1e-8 ? k[i] * s[i] : 0;
        return r;
    };
    auto plus = [&](const std::vector<double>& g, double f) { std::vector<double> s(n); for (int i = 0; i < n; i++) s[i] = S[i] + f * g[i]; return s; };
    for (int st = 0; st < ns; st++) {
        double in = P(st, 0);
        auto k1 = rates(S);
        std::vector<double> r = k1;
        if (solver == "heun_explicit") {
            auto k2 = rates(plus(net(k1, in), 1));
            for (int i = 0; i < n; i++) r[i] = (k1[i] + k2[i]) / 2;
        } else if (solver == "runge_kutta") {
            auto k2 = rates(plus(net(k1, in), 0.5));
            auto k3 = rates(plus(net(k2, in), 0.5));
            auto k4 = rates(plus(net(k3, in), 1));
            for (int i = 0; i < n; i++) r[i] = (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6;
        }
        S = plus(net(r, in), 1);
        for (double x : S) if (x < 1e-6) return;      // the constraints would come into play
        try { if (!m.GetProcessor()->ProcessTimeStep(1.0)) return; } catch (const std::exception& e) { c.check(false, "C10 a plain linear chain is computed", e.what()); return; }
        double q = 0;
        for (int i = 0; i < n; i++) {
            c.eq(hu->GetBrick((size_t)i)->GetContent(ContentType::Water), S[i], "C10 closed form of the " + solver + " scheme", 1e-9, 1e-9);
            if (to[i] < 0) q += r[i];
        }
        c.eq(sb._outletTotal, q, "C10 closed form of the discharge (" + solver + ")", 1e-9, 1e-9);
        m.GetTimeMachine()->IncrementTime();
        if (st + 1 < ns && !m.UpdateForcing()) return;
    }
    c.cover("closed:" + solver);
}

int main(int argc, char** argv) { return Main(argc, argv); }
