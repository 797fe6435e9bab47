#include "direct.h"
#include "ProcessOutflowRest.h"
using namespace hb;

static const char* SEQ[] = {"analytic", "implicit_euler", "crank_nicolson", "exponential_euler"};

// ---- an independent sequential engine over the same bricks ----
struct Ref {
    Mdl& d;
    std::vector<Brick*> solved;
    std::map<Brick*, std::vector<double>> live;
    bool jump = false;
    Ref(Mdl& m) : d(m), solved(solvedBricks(m)) {}

    static std::vector<double> ratesAt(Brick* b, double offset) {
        double& delta = b->GetWaterContainer()->_contentChangeDynamic;
        delta = offset;
        std::vector<double> r;
        for (auto& p : b->_processes) { vecDouble v = p->GetChangeRates(); r.insert(r.end(), v.begin(), v.end()); }
        delta = 0;
        return r;
    }
    static double sum(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }

    // a rate that jumps at the root has no well-defined solution: either side is as good
    void smooth(Brick* b, double offset) {
        double below = sum(ratesAt(b, offset - 1e-7)), above = sum(ratesAt(b, offset + 1e-7));
        if (std::abs(above - below) > 1e-5 * (1 + std::abs(above))) jump = true;
    }

    // end-of-step content of S = S0 + h (I - w0 Q0 - (1 - w0) Q(S))
    double root(Brick* b, double S0, double I, double h, double w0) {
        double q0 = w0 > 0 ? sum(ratesAt(b, 0)) : 0;
        double hi = S0 + h * std::max(I, 0.0), lo = S0 + h * (I - w0 * q0 - (1 - w0) * sum(ratesAt(b, hi - S0)));
        if (!b->GetWaterContainer()->AllowsNegativeContent()) lo = std::max(lo, 0.0);
        if (!(hi > lo)) return lo;
        for (int i = 0; i < 100 && hi - lo >= 1e-12; i++) {
            double m = lo + 0.5 * (hi - lo);
            double q = w0 * q0 + (1 - w0) * sum(ratesAt(b, m - S0));
            (m - S0 - h * (I - q) > 0 ? hi : lo) = m;
        }
        double r = lo + 0.5 * (hi - lo);
        smooth(b, r - S0);
        return r;
    }

    std::vector<double> solve(Brick* b, double S0, double I, double h) {
        const std::string& s = d.solver;
        // what outflow:rest leaves to its siblings within an implicit evaluation is not specified
        if (s == "implicit_euler" && b->_processes.size() > 1)
            for (auto& p : b->_processes) if (dynamic_cast<ProcessOutflowRest*>(p.get())) jump = true;
        if (s == "implicit_euler") return ratesAt(b, root(b, S0, I, h, 0) - S0);
        if (s == "crank_nicolson") {
            auto r0 = ratesAt(b, 0), r1 = ratesAt(b, root(b, S0, I, h, 0.5) - S0);
            for (size_t i = 0; i < r0.size(); i++) r0[i] = 0.5 * r0[i] + 0.5 * r1[i];
            return r0;
        }
        if (s == "exponential_euler") {
            auto r0 = ratesAt(b, 0);
            double q0 = sum(r0), eps = std::max(1e-3, 1e-3 * std::max(S0, S0 + h * I));
            double slope = (sum(ratesAt(b, eps)) - q0) / eps;
            if (std::abs(slope - 1e-10) < 2e-11) jump = true;
            if (slope <= 1e-10) return r0;
            double S1 = S0 + (I - q0) / slope * (1 - std::exp(-slope * h));
            if (!b->GetWaterContainer()->AllowsNegativeContent()) S1 = std::max(S1, 0.0);
            double Q = std::max(0.0, I - (S1 - S0) / h);
            smooth(b, 0);
            smooth(b, eps);
            smooth(b, S1 - S0);
            auto r1 = ratesAt(b, S1 - S0);
            double w = sum(r0) + sum(r1);
            for (size_t i = 0; i < r0.size(); i++) r0[i] = w > 0 ? Q * (r0[i] + r1[i]) / w : 0;
            return r0;
        }
        // exact solution for the linear responses, the others frozen. A frozen process may look at the rates of its
        // brick: they are evaluated one after the other, with the linear ones not known yet.
        std::vector<double>& r = live[b];
        double K = 0, frozen = 0;
        size_t n = 0;
        std::vector<double> kk(r.size(), 0);
        for (auto& p : b->_processes) {
            if (p->HasLinearResponse() && p->_outputs.size() == 1) { kk[n] = p->GetLinearResponseRate(); K += kk[n]; r[n++] = 0; continue; }
            vecDouble v = p->GetChangeRates();
            for (double x : v) { r[n++] = x; frozen += x; }
        }
        if (K <= 0) return r;
        double net = I - frozen, e = std::exp(-K * h);
        double Q = std::max(0.0, net - (S0 * e + net / K * (1 - e) - S0) / h);
        for (size_t i = 0; i < r.size(); i++) if (kk[i] != 0) r[i] = Q * kk[i] / K;
        return r;
    }

    void step(double h) {
        directPhase(d, h);
        for (Brick* b : solved) {
            size_t n = 0;
            for (auto& p : b->_processes) n += p->_outputs.size();
            auto& r = live[b];
            r.assign(n, 0);
            auto link = [&] { size_t k = 0; for (auto& p : b->_processes) for (size_t j = 0; j < p->_outputs.size(); j++) p->StoreInOutgoingFlux(&r[k++], (int)j); };
            link();
            WaterContainer* w = b->GetWaterContainer();
            double S0 = w->GetContentWithChanges(), I = w->SumIncomingFluxes() / h;
            auto x = solve(b, S0, I, h);
            for (size_t k = 0; k < n; k++) r[k] = x[k];
            b->ApplyConstraints(h);
            b->UpdateContentFromInputs();
            size_t k = 0;
            for (auto& p : b->_processes) for (size_t j = 0; j < p->_outputs.size(); j++) p->ApplyChange((int)j, r[k++], h);
        }
        for (Brick* b : solved) b->Finalize();
    }
};

HB_CASE(scheme, 6) {
    Opt o;
    o.solver = SEQ[c.integer(0, 3)];
    o.infiniteGlacier = c.chance(0.2);
    Ctx c2 = c;
    Mdl a, b;
    if (!build(c, a, o)) return;
    randomStates(c, a);
    if (!build(c2, b, o)) return;
    randomStates(c2, b);
    if (!a.m->InitializeTimeSeries() || !b.m->InitializeTimeSeries()) return;
    Ref ref(b);
    Processor* p = a.m->GetProcessor();
    double h = 1;
    auto ba = bricks(a), bb = bricks(b);
    for (int i = 0; i < a.nSteps; i++) {
        bool ta = false, tb = false, ok = true;
        std::string ea, eb;
        try { ok = p->ProcessTimeStep(h); } catch (const std::exception& e) { ta = true; ea = e.what(); }
        try { ref.step(h); } catch (const std::exception& e) { tb = true; eb = e.what(); }
        if (ta || tb) { c.check(ta == tb, "C11 the step fails only where a rate or a constraint does", ea + " / " + eb); return; }
        if (!ok) return;
        if (ref.jump) { c.cover("jump"); return; }
        for (size_t k = 0; k < ba.size(); k++) {
            auto wa = containersOf(ba[k]), wb = containersOf(bb[k]);
            for (size_t q = 0; q < wa.size(); q++) {
                double x = *wa[q]->GetContentPointer(), y = *wb[q]->GetContentPointer();
                if (std::isfinite(x) || std::isfinite(y)) c.eq(x, y, "C11 content after a step of the " + std::string(o.solver) + " scheme", 1e-7, 1e-6);
                c.check(wa[q]->_contentChangeDynamic == 0 || wa[q]->IsInfiniteStorage() || ba[k]->IsNull(), "C11 the step is committed");
            }
            for (size_t q = 0; q < ba[k]->_processes.size(); q++)
                for (size_t j = 0; j < ba[k]->_processes[q]->_outputs.size(); j++) {
                    Flux* fa = ba[k]->_processes[q]->_outputs[j].get();
                    Flux* fb = bb[k]->_processes[q]->_outputs[j].get();
                    if (ba[k]->IsNull()) continue;
                    c.eq(fa->_amount, fb->_amount, "C11 amount moved by each connection (" + std::string(o.solver) + ")", 1e-7, 1e-6);
                    c.le(0, fa->_amount, "C11 no negative amount", 1e-12);
                }
        }
        c.eq(a.sb._outletTotal, outletSum(b), "C11 discharge of the step", 1e-7, 1e-6);
        if (i + 1 < a.nSteps) {
            a.m->GetTimeMachine()->IncrementTime();
            b.m->GetTimeMachine()->IncrementTime();
            if (!a.m->UpdateForcing() || !b.m->UpdateForcing()) return;
        }
    }
    c.cover("scheme:" + std::string(o.solver) + "/" + a.kind);
}

// linear stores with several outflows: the closed form of each scheme, any step length, without any engine call
HB_CASE(closed, 4) {
    SettingsModel ms;
    SettingsBasin bs;
    SubBasin sb;
    int n = c.inum("stores", 1, 4), ns = c.inum("steps", 2, 8);
    std::string solver = SEQ[c.integer(0, 3)];
    c.note("solver", solver);
    double h = c.chance(0.5) ? 1 : c.num("h", 0.05, 2);
    struct P { double k; int to; };
    std::vector<std::vector<P>> ps(n);
    std::vector<double> S(n);
    ms.SetSolver(solver);
    ms.SetTimer(dayStr(0), dayStr(ns - 1), 1, "day");
    for (int i = 0; i < n; i++) {
        ms.AddHydroUnitBrick("store_" + std::to_string(i), "storage");
        if (i == 0) ms.AddBrickForcing("precipitation");
        int np = c.inum("outflows", 1, 3);
        for (int q = 0; q < np; q++) {
            int t = i + 1 < n && c.chance(0.7) ? c.integer(i + 1, n - 1) : -1;
            for (auto& x : ps[i]) if (x.to == t) t = -1;
            ms.AddBrickProcess("outflow_" + std::to_string(q), "outflow:linear", t < 0 ? "outlet" : "store_" + std::to_string(t));
            float kk = c.chance(0.05) ? 0.0f : c.numf("k", 0.01, 1.5);
            ms.SetProcessParameterValue("response_factor", kk);
            ps[i].push_back({kk, t});
        }
    }
    ms.AddLoggingToItem("outlet");
    bs.AddHydroUnit(1, 100);
    if (!sb.Initialize(bs)) return;
    ModelHydro m(&sb);
    if (!m.Initialize(ms, bs)) return;
    axd time(ns);
    axi ids(1);
    axxd F(ns, 1);
    ids(0) = 1;
    for (int i = 0; i < ns; i++) { time(i) = GetMJD(2020, 1, 1) + i; F(i, 0) = c.chance(0.3) ? 0 : c.u(0.1, 60); }
    if (!m.CreateTimeSeries("precipitation", time, ids, F) || !m.AttachTimeSeriesToHydroUnits()) return;
    HydroUnit* hu = sb.GetHydroUnit(0);
    for (int i = 0; i < n; i++) { S[i] = c.chance(0.1) ? 0 : c.u(0.5, 100); hu->GetBrick((size_t)i)->UpdateContent(S[i], ContentType::Water); }
    if (!m.InitializeTimeSeries()) return;
    for (int st = 0; st < ns; st++) {
        std::vector<double> in(n, 0);
        in[0] = F(st, 0);
        double q = 0;
        std::vector<std::vector<double>> sent(n);
        std::vector<double> S1(n);
        for (int i = 0; i < n; i++) {
            double K = 0, I = in[i] / h, Q, end = 0;
            for (auto& x : ps[i]) K += x.k;
            if (K == 0) end = S[i] + in[i], Q = 0;
            else if (solver == "implicit_euler") end = (S[i] + in[i]) / (1 + K * h), Q = K * end;
            else if (solver == "crank_nicolson") {
                end = std::max(0.0, (S[i] * (1 - K * h / 2) + in[i]) / (1 + K * h / 2));
                Q = K * (S[i] + end) / 2;
            } else end = S[i] * std::exp(-K * h) + I / K * (1 - std::exp(-K * h)), Q = I - (end - S[i]) / h;
            if (Q * h > S[i] + in[i] - 1e-9 && K > 0 && S[i] + in[i] > 0) { c.cover("drained"); return; }   // limited by the constraints
            for (auto& x : ps[i]) {
                double a = K > 0 ? Q * h * x.k / K : 0;
                sent[i].push_back(a);
                if (x.to < 0) q += a; else in[x.to] += a;
            }
            S1[i] = S[i] + in[i] - Q * h;
        }
        try { if (!m.GetProcessor()->ProcessTimeStep(h)) return; } catch (const std::exception& e) { c.check(false, "C11 a plain linear chain is computed", e.what()); return; }
        for (int i = 0; i < n; i++) {
            Brick* b = hu->GetBrick((size_t)i);
            for (size_t j = 0; j < sent[i].size(); j++) c.eq(b->_processes[j]->_outputs[0]->GetAmount(), sent[i][j], "C11 outflow of the closed form (" + solver + ")", 1e-7, 1e-6);
            c.eq(b->GetContent(ContentType::Water), S1[i], "C11 closed form of the " + solver + " scheme", 1e-7, 1e-6);
            S[i] = b->GetContent(ContentType::Water);
        }
        c.eq(sb._outletTotal, q, "C11 closed form of the discharge (" + solver + ")", 1e-7, 1e-6);
        m.GetTimeMachine()->IncrementTime();
        if (st + 1 < ns && !m.UpdateForcing()) return;
    }
    c.cover("closed:" + solver);
}

int main(int argc, char** argv) { return Main(argc, argv); }
