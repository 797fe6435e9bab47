#include "unit.h"
#include "FluxToOutlet.h"
#include "IceContainer.h"
#include "SolverSequential.h"
using namespace hb;

struct PlainProc : Process {   // a process whose rates are given
    explicit PlainProc(WaterContainer* w) : Process(w) {}
    void SetParameters(const ProcessSettings&) override {}
    bool IsValid() const override { return true; }
    int GetConnectionCount() const override { return (int)_outputs.size(); }
    double* GetValuePointer(std::string_view) override { return nullptr; }
    const vecDouble& GetRates() override { return StoreRates({0}); }
};

struct Bench {
    Lab l{1};
    Brick* b;
    WaterContainer* w;
    std::vector<std::unique_ptr<Flux>> in;
    std::vector<double> rates, before;
    std::vector<int> outIdx, inIdx;       // indices in rates
    std::vector<double> inFrac;
    std::vector<std::unique_ptr<Series>> ser;
    double dt = 1, content = 0, stat = 0;
    int overflow = -1;
};

static void bench(Ctx& c, Bench& B, bool credited, bool glacier) {
    bool cap = !glacier && c.flag("capacity", 0.45), ov = cap && c.flag("overflow", 0.6);
    double capv = cap ? fl(c.num("cap", 1, 200)) : -1;
    B.b = B.l.store("s", glacier ? "glacier" : "storage", capv);
    B.dt = c.chance(0.4) ? 1.0 : c.num("dt", 0.02, 3);
    B.l.make();
    B.w = glacier ? (WaterContainer*)dynamic_cast<Glacier*>(B.b)->GetIceContainer() : B.b->GetWaterContainer();
    if (cap) B.l.setCapacity(B.b, "s");
    int np = c.inum("processes", 0, 4);
    int nOut = 0;
    std::vector<int> cnt;
    for (int i = 0; i < np; i++) cnt.push_back(c.chance(0.75) ? 1 : c.inum("connections", 2, 3)), nOut += cnt.back();
    int nin = c.inum("inputs", 0, 4);
    B.rates.assign(nOut + nin + 1, 0.0);
    int k = 0;
    double hi = c.chance(0.5) ? 20 : 200;
    for (int i = 0; i < np; i++) {
        auto p = std::make_unique<PlainProc>(B.w);
        p->SetName("p" + std::to_string(i));
        for (int j = 0; j < cnt[i]; j++) {
            auto f = std::make_unique<FluxToOutlet>();
            if (c.chance(0.05)) { f->LinkChangeRate(nullptr); }   // originating brick without area
            else {
                double r = c.chance(0.15) ? 0 : c.chance(0.05) ? -c.num("negative", 1e-12, 1) : c.num("out", 0, hi);
                c.note("rate", r);
                B.rates[k] = r;
                f->LinkChangeRate(&B.rates[k]);
                B.outIdx.push_back(k);
                k++;
            }
            p->AttachFluxOut(std::move(f));
        }
        B.b->AddProcess(std::move(p));
    }
    if (ov) {
        auto p = std::make_unique<PlainProc>(B.w);
        auto f = std::make_unique<FluxToOutlet>();
        f->LinkChangeRate(&B.rates[k]);
        B.overflow = k++;
        p->AttachFluxOut(std::move(f));
        B.w->LinkOverflow(p.get());
        B.b->AddProcess(std::move(p));
    }
    B.content = c.num("content", 0, cap ? capv : 150);
    B.w->UpdateContent(B.content);
    if (c.chance(0.3)) { double x = c.num("pending", 0, 20); B.w->AddAmountToDynamicContentChange(x); B.content += x; }
    if (c.chance(0.15)) { double x = B.content * c.num("taken", 0, 1); B.w->SubtractAmountFromDynamicContentChange(x); B.content -= x; }
    if (c.chance(0.3)) { double x = c.num("static", 0, 20); B.w->AddAmountToStaticContentChange(x); B.content += x; }
    for (int i = 0; i < nin; i++) {
        switch (c.pick("in kind", 5)) {
            case 0: {   // forcing
                B.ser.push_back(std::make_unique<Series>(VariableType::Precipitation, c.num("forcing", 0, 40)));
                auto f = std::make_unique<FluxForcing>();
                f->AttachForcing(&B.ser.back()->f);
                double a = B.ser.back()->f.GetValue();
                if (!credited) B.stat += a; else B.w->AddAmountToDynamicContentChange(a), B.content += a;
                B.w->AttachFluxIn(f.get());
                B.in.push_back(std::move(f));
                break;
            }
            case 1: {   // static
                auto f = std::make_unique<FluxToBrick>(B.b);
                f->SetAsStatic();
                double a = c.num("static in", 0, 40);
                f->UpdateFlux(a);
                if (!credited) B.stat += a; else B.w->AddAmountToDynamicContentChange(a), B.content += a;
                B.w->AttachFluxIn(f.get());
                B.in.push_back(std::move(f));
                break;
            }
            case 2: {   // instantaneous: credited when it was sent
                if (glacier) break;
                auto f = std::make_unique<FluxToBrickInstantaneous>(B.b);
                double a = c.num("instant", 0, 40);
                f->UpdateFlux(a);
                B.content += a;
                B.w->AttachFluxIn(f.get());
                B.in.push_back(std::move(f));
                break;
            }
            default: {
                auto f = std::make_unique<FluxToBrick>(B.b);
                double fr = c.chance(0.6) ? 1 : c.num("fraction", 0, 1);
                f->SetFractionUnitArea(fr);
                if (credited) {
                    double a = c.num("amount", 0, 40);
                    f->UpdateFlux(a);
                    B.w->AddAmountToDynamicContentChange(a * fr);
                    B.content += a * fr;
                    if (c.chance(0.5)) { B.rates[k] = a; f->LinkChangeRate(&B.rates[k]); k++; }   // a left-over link
                } else if (!c.chance(0.08)) {
                    double r = c.chance(0.1) ? 0 : c.num("in rate", 0, 60);
                    B.rates[k] = r;
                    f->LinkChangeRate(&B.rates[k]);
                    B.inIdx.push_back(k);
                    B.inFrac.push_back(fr);
                    k++;
                }
                B.w->AttachFluxIn(f.get());
                B.in.push_back(std::move(f));
            }
        }
    }
    B.before = B.rates;
}

static void checkBench(Ctx& c, Bench& B, bool credited) {
    double dt = B.dt, out0 = 0, in0 = 0, out1 = 0, in1 = 0;
    for (int i : B.outIdx) out0 += std::max(0.0, B.before[i]);
    for (size_t i = 0; i < B.inIdx.size(); i++) in0 += B.before[B.inIdx[i]] * B.inFrac[i];
    bool cap = B.w->HasMaximumCapacity();
    double capv = cap ? B.w->GetMaximumCapacity() : 0;
    double ov0 = B.overflow >= 0 ? B.before[B.overflow] : 0;
    double avail = B.content + B.stat + in0 * dt;
    double unlimited = avail - (out0 + ov0) * dt;
    bool tooHigh = false;
    for (int i : B.outIdx) tooHigh = tooHigh || B.before[i] > 10000;
    bool refused = cap && unlimited > capv + 1e-9 * (1 + capv) && B.overflow < 0 && B.content + B.stat > capv + 1e-9 * (1 + capv);
    try {
        B.w->ApplyConstraints(dt, credited);
    } catch (const ModelConfigError&) {
        c.check(cap && B.overflow < 0 && B.content + B.stat > capv - 1e-9 * (1 + capv), "C02 a storage that can be filled is not refused");
        c.cover("refused");
        return;
    } catch (const RuntimeError&) {
        c.check(tooHigh, "C02 ordinary rates are not refused");
        return;
    }
    c.check(!refused, "C02 a storage without overflow nor reducible inflow is refused");
    for (int i : B.outIdx) {
        c.check(B.rates[i] >= -1e-12 * (1 + out0), "C02 limited rates are not negative");
        c.le(B.rates[i], std::max(0.0, B.before[i]), "C02 no outflow larger than requested", 1e-12);
        out1 += B.rates[i];
    }
    for (size_t i = 0; i < B.inIdx.size(); i++) {
        c.check(B.rates[B.inIdx[i]] * B.inFrac[i] >= -1e-9 * (1 + B.content), "C02 reduced inflows are not negative");
        c.le(B.rates[B.inIdx[i]], B.before[B.inIdx[i]], "C02 no inflow larger than sent", 1e-12);
        in1 += B.rates[B.inIdx[i]] * B.inFrac[i];
    }
    double ov1 = B.overflow >= 0 ? B.rates[B.overflow] : 0;
    c.check(ov1 >= 0, "C02 overflow not negative");
    double left = B.content + B.stat + (in1 - out1 - ov1) * dt;
    c.check(left >= -1e-7 * (1 + avail) * std::max(1.0, dt), "C02 the storage is not overdrawn");
    if (cap) c.check(left <= capv + 1e-7 * (1 + capv), "C02 capacity not exceeded");
    if (unlimited >= 1e-6 && (!cap || unlimited <= capv - 1e-6)) {
        for (int i : B.outIdx) c.eq(B.rates[i], std::max(0.0, B.before[i]), "C02 rates untouched when nothing limits", 1e-12, 0);
        for (int i : B.inIdx) c.eq(B.rates[i], B.before[i], "C02 inflows untouched when nothing limits", 1e-12, 0);
        c.eq(ov1, ov0, "C02 no overflow without excess", 1e-12, 0);
        c.cover("free");
    } else if (unlimited < -1e-6) {
        c.check(left <= 1e-6 * (1 + avail), "C02 limiting takes away only the deficit");
        c.cover(cap ? "overdraw/cap" : "overdraw");
    } else if (cap && unlimited > capv + 1e-6) {
        c.check(left >= capv - 1e-6 * (1 + capv), "C02 only the excess is turned away");
        c.cover(B.overflow >= 0 ? "overflow" : "inflow limited");
    }
    if (B.overflow >= 0 && c.chance(0.5)) {   // limiting again changes nothing
        auto r = B.rates;
        B.w->ApplyConstraints(dt, credited);
        for (size_t i = 0; i < r.size(); i++) c.eq(B.rates[i], r[i], "C02 limiting twice is limiting once", 1e-7, 1e-7);
    }
    // other rates of the system are not touched
}

HB_CASE(limits, 4) {
    Bench B;
    bool credited = c.flag("credited", 0.3);
    bench(c, B, credited, false);
    if (c.chance(0.1)) {
        B.w->SetAsInfiniteStorage();
        B.w->ApplyConstraints(B.dt, credited);
        for (size_t i = 0; i < B.rates.size(); i++) c.eq(B.rates[i], B.before[i], "C02 an infinite storage limits nothing", 0, 0);
        c.cover("infinite");
        return;
    }
    if (c.chance(0.1)) {
        B.w->SetAllowNegativeContent(true);
        if (B.w->HasMaximumCapacity()) return;
        B.w->ApplyConstraints(B.dt, credited);
        for (int i : B.outIdx) c.eq(B.rates[i], std::max(0.0, B.before[i]), "C02 a bottomless store is not limited", 0, 0);
        c.cover("bottomless");
        return;
    }
    checkBench(c, B, credited);
}

HB_CASE(shield, 2) {
    Bench B;
    bench(c, B, false, true);
    auto ice = dynamic_cast<IceContainer*>(B.w);
    float on = c.flag("no melt under snow") ? 1.f : 0.f;
    ice->SetNoMeltWhenSnowCover(&on);
    Brick* sb = B.l.store("pack", "snowpack");
    auto sp = dynamic_cast<Snowpack*>(sb);
    if (!sp) return;
    double swe = c.chance(0.5) ? 0 : c.num("swe", 0, 100), chg = c.chance(0.4) ? c.num("new snow", 0, 30) : 0;
    sp->GetSnowContainer()->UpdateContent(swe);
    sp->GetSnowContainer()->AddAmountToStaticContentChange(chg);
    ice->SetRelatedSnowpack(sp);
    bool blocked = on > 0 && swe + chg > 1e-6, open = on == 0 || swe + chg < 1e-8;
    if (c.chance(0.2) && on > 0) {
        ice->SetRelatedSnowpack(nullptr);
        bool threw = false;
        try { ice->ApplyConstraints(B.dt); } catch (const ModelConfigError&) { threw = true; }
        c.check(threw, "C02 a shielded glacier needs its snowpack");
        return;
    }
    if (blocked) {
        c.check(!ice->ContentAccessible(), "C02 ice under snow is not accessible");
        try { ice->ApplyConstraints(B.dt); } catch (const std::exception&) { return; }
        for (int i : B.outIdx) c.eq(B.rates[i], 0, "C02 nothing leaves the ice under snow", 0, 0);
        for (size_t i = 0; i < B.inIdx.size(); i++) c.eq(B.rates[B.inIdx[i]], B.before[B.inIdx[i]], "C02 the shield does not stop what arrives", 0, 0);
        c.cover("shielded");
    } else if (open) {
        if (B.content > 0) c.check(ice->ContentAccessible(), "C02 uncovered ice is accessible");
        checkBench(c, B, false);
    }
}

// real steps: no storage of a model is overdrawn, none exceeds its capacity
static void steps(Ctx& c, Mdl& d) {
    if (!d.m->InitializeTimeSeries()) return;
    struct W { WaterContainer* w; Brick* b; double x; };
    std::vector<W> ws;
    for (Brick* b : bricks(d)) for (auto* w : containersOf(b)) if (!w->IsInfiniteStorage() && !b->IsNull()) ws.push_back({w, b, 0});
    Processor* p = d.m->GetProcessor();
    bool sequential = dynamic_cast<SolverSequential*>(p->_solver.get()) != nullptr;
    for (int i = 0; i < d.nSteps; i++) {
        for (auto& x : ws) x.x = x.w->GetContentWithoutChanges();
        try { if (!p->ProcessTimeStep(1.0)) return; }
        catch (const ModelConfigError&) { c.cover("refused step"); return; }
        catch (const RuntimeError&) { c.cover("runtime error"); return; }
        for (auto& x : ws) {
            double now = x.w->GetContentWithoutChanges();
            // (the sequential solvers cannot give back what an upstream brick has sent: documented in SolverSequential)
            if (x.w->HasMaximumCapacity() && (x.w->HasOverflow() || !sequential)) c.check(now <= x.w->GetMaximumCapacity() * (1 + 1e-7) + 1e-6, "C02 no storage of a model above its capacity", x.b->GetName() + " " + std::to_string(now - x.w->GetMaximumCapacity()));
            if (x.w->AllowsNegativeContent()) continue;
            c.check(now >= 0, "C02 no storage of a model below zero", x.b->GetName());
            if (x.b->GetCategory() == BrickCategory::Unknown) continue;
            // what came in and what left: nothing may be created to fill a deficit
            double got = x.x, nOutStat = 0;
            bool known = true;
            for (Flux* f : x.w->_inputs) {
                if (auto* q = dynamic_cast<FluxToBrickInstantaneous*>(f)) got += q->GetRealAmount();
                else got += f->GetAmount();
            }
            (void)nOutStat;
            double left = got;
            for (int k = 0; k < x.b->GetProcessCount(); k++) {
                Process* q = x.b->GetProcess((size_t)k);
                if (q->GetName().find("routing") != std::string::npos && d.kind.find("gr") == 0) known = false;   // exchange
                if (q->GetWaterContainer() != x.w) continue;
                for (int j = 0; j < q->GetOutputFluxCount(); j++) {
                    Flux* f = q->GetOutputFlux(j);
                    double fr = f->_fractionTotal;
                    if (fr == 0) known = false;
                    else left -= *f->GetAmountPointer() / (fr < 1 || dynamic_cast<FluxToBrickInstantaneous*>(f) ? fr : 1.0);
                }
            }
            if (known) c.check(left >= -1e-5 * (1 + got), "C02 no storage of a model gives more than it has", x.b->GetName() + " " + std::to_string(left));
        }
        d.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < d.nSteps && !d.m->UpdateForcing()) return;
    }
}

HB_CASE(model, 3) {
    Mdl d;
    Opt o;
    if (!build(c, d, o)) return;
    randomStates(c, d);
    steps(c, d);
}

// chains of limited stores, with and without overflow, unit stores feeding basin stores
HB_CASE(chain, 4) {
    Mdl d;
    SettingsModel& s = d.ms;
    d.solver = kSolvers[c.integer(0, 6)];
    d.kind = "chain";
    c.note("solver", d.solver);
    d.nSteps = c.inum("steps", 2, 8);
    s.SetSolver(d.solver);
    s.SetTimer(dayStr(0), dayStr(d.nSteps - 1), 1, "day");
    int n = c.inum("stores", 2, 4), nsb = c.inum("basin stores", 0, 2);
    d.nUnits = nsb ? c.inum("units", 1, 3) : 1;
    for (int i = 0; i < n + nsb; i++) {
        std::string nm = "store_" + std::to_string(i), tgt = i + 1 < n + nsb ? "store_" + std::to_string(i + 1) : "outlet";
        if (i < n) s.AddHydroUnitBrick(nm, "storage"); else s.AddSubBasinBrick(nm, "storage");
        if (i == 0) s.AddBrickForcing("precipitation");
        bool cap = c.flag("cap", 0.5), ov = cap && (i == 0 || c.flag("ov", 0.5));
        if (cap) s.AddBrickParameter("capacity", c.numf("capacity", 2, 40));
        s.AddBrickProcess("outflow", "outflow:linear", tgt);
        s.SetProcessParameterValue("response_factor", c.numf("k", 0.01, 1.0));
        if (c.flag("perc", 0.5)) {
            s.AddBrickProcess("percolation", "percolation:constant", c.chance(0.5) ? tgt : "outlet");
            s.SetProcessParameterValue("percolation_rate", c.numf("rate", 0, 25));
        }
        if (ov) s.AddBrickProcess("overflow", "overflow", "outlet");
    }
    for (int u = 0; u < d.nUnits; u++) {
        d.ids.push_back(u + 1);
        d.areas.push_back(c.num("area", 10, 300));
        d.bs.AddHydroUnit(u + 1, d.areas[u]);
    }
    if (!d.sb.Initialize(d.bs)) return;
    d.m = std::make_unique<ModelHydro>(&d.sb);
    auto r = d.m->Initialize(d.ms, d.bs);
    if (!r) { c.cover("refused:" + r.error().substr(0, 60)); return; }
    axd time(d.nSteps);
    axi ids(d.nUnits);
    d.P.resize(d.nSteps, d.nUnits);
    for (int u = 0; u < d.nUnits; u++) ids(u) = d.ids[u];
    for (int i = 0; i < d.nSteps; i++) {
        time(i) = GetMJD(2020, 1, 1) + i;
        for (int u = 0; u < d.nUnits; u++) d.P(i, u) = c.chance(0.3) ? 0 : c.num("rain", 0, c.chance(0.3) ? 80 : 15);
    }
    if (!d.m->CreateTimeSeries("precipitation", time, ids, d.P) || !d.m->AttachTimeSeriesToHydroUnits()) return;
    randomStates(c, d);
    c.cover("chain:" + d.solver + (nsb ? "/basin" : ""));
    steps(c, d);
}

int main(int argc, char** argv) { return Main(argc, argv); }
