#include "models.h"
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "Splitter.h"
#include "ProcessLateralSnowRedistributionFrey.h"
#include "ProcessMeltCemaNeige.h"
#include "ProcessRoutingGR4J.h"
#include "ProcessRoutingGR6J.h"
#include "ProcessRoutingHBV.h"
using namespace hb;

static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

struct State {
    std::vector<std::pair<std::string, double>> v;
    void add(const std::string& k, double x) { v.push_back({k, x}); }
};

// every storage, pending change, cover fraction and process memory
static State stateOf(Mdl& d, bool flows) {
    State s;
    for (int u = 0; u < d.sb.GetHydroUnitCount(); u++)
        for (auto* lc : d.sb.GetHydroUnit(u)->_landCoverBricks) s.add("fraction of " + lc->GetName(), lc->GetAreaFraction());
    for (Brick* b : bricks(d)) {
        int n = 0;
        for (WaterContainer* w : containersOf(b)) {
            std::string k = b->GetName() + "/" + std::to_string(n++);
            s.add(k + " content", w->_content);
            s.add(k + " pending", w->_contentChangeDynamic);
            s.add(k + " pending static", w->_contentChangeStatic);
        }
        for (int i = 0; i < b->GetProcessCount(); i++) {
            Process* p = b->GetProcess(i);
            std::string k = b->GetName() + ":" + p->GetName();
            if (flows) for (int j = 0; j < p->GetOutputFluxCount(); j++) s.add(k + " flux", *p->GetOutputFlux(j)->GetAmountPointer());
            for (int j = 0; j < p->GetOutputFluxCount(); j++) s.add(k + " flux fraction", p->GetOutputFlux(j)->_fractionLandCover);
            if (!flows) continue;
            if (auto* q = dynamic_cast<ProcessMeltCemaNeige*>(p)) s.add(k + " cold content", q->_coldContent);
            if (auto* q = dynamic_cast<ProcessLateralSnowRedistributionFrey*>(p)) { s.add(k + " density", q->_density); s.add(k + " previous", q->_prevSwe); }
            if (auto* q = dynamic_cast<ProcessRoutingGR4J*>(p)) { for (double x : q->_stuh1) s.add(k + " uh1", x); for (double x : q->_stuh2) s.add(k + " uh2", x); s.add(k + " r", q->_r); s.add(k + " storage", q->_processStorage); }
            if (auto* q = dynamic_cast<ProcessRoutingGR6J*>(p)) { for (double x : q->_stuh1) s.add(k + " uh1", x); for (double x : q->_stuh2) s.add(k + " uh2", x); s.add(k + " r", q->_r); s.add(k + " rexp", q->_rexp); s.add(k + " storage", q->_processStorage); }
            if (auto* q = dynamic_cast<ProcessRoutingHBV*>(p)) { for (double x : q->_stuh) s.add(k + " uh", x); s.add(k + " storage", q->_processStorage); }
        }
    }
    return s;
}

static bool compare(Ctx& c, const State& a, const State& b, const std::string& clause) {
    if (a.v.size() != b.v.size()) { c.check(false, clause, "different shape"); return false; }
    for (size_t i = 0; i < a.v.size(); i++)
        if (!same(a.v[i].second, b.v[i].second)) {
            c.check(false, clause, a.v[i].first + ": " + std::to_string(a.v[i].second) + " -> " + std::to_string(b.v[i].second));
            return false;
        }
    return true;
}

static std::vector<std::string> gNames;

static std::vector<double> results(Mdl& d) {
    std::vector<double> r;
    Logger& l = d.m->_logger;
    gNames.clear();
    auto name = [&](const std::string& k, long n) { for (long i = 0; i < n; i++) gNames.push_back(k + " [" + std::to_string(i) + "]"); };
    for (size_t i = 0; i < l._subBasinValues.size(); i++) name(l._subBasinLabels[i], l._subBasinValues[i].size());
    for (size_t i = 0; i < l._hydroUnitValues.size(); i++) name(l._hydroUnitLabels[i], l._hydroUnitValues[i].size());
    for (size_t i = 0; i < l._hydroUnitFractions.size(); i++) name("fraction of " + l._hydroUnitFractionLabels[i], l._hydroUnitFractions[i].size());
    name("initial sub-basin value", l._subBasinInitialValues.size());
    for (size_t i = 0; i < l._hydroUnitInitialValues.size(); i++) name("initial " + l._hydroUnitLabels[i], l._hydroUnitInitialValues[i].size());
    for (auto& a : l._subBasinValues) for (int i = 0; i < a.size(); i++) r.push_back(a(i));
    for (auto& a : l._hydroUnitValues) for (int i = 0; i < a.size(); i++) r.push_back(a(i));
    for (auto& a : l._hydroUnitFractions) for (int i = 0; i < a.size(); i++) r.push_back(a(i));
    for (int i = 0; i < l._subBasinInitialValues.size(); i++) r.push_back(l._subBasinInitialValues(i));
    for (auto& a : l._hydroUnitInitialValues) for (int i = 0; i < a.size(); i++) r.push_back(a(i));
    for (int i = 0; i < l._time.size(); i++) r.push_back(l._time[i]);
    r.push_back(d.m->GetTotalOutletDischarge());
    r.push_back(d.m->GetTotalET());
    r.push_back(d.m->GetTotalWaterStorageChanges());
    r.push_back(d.m->GetTotalSnowStorageChanges());
    return r;
}

static void wipe(Mdl& d) {   // the results of the first run must not be taken for those of the second
    Logger& l = d.m->_logger;
    for (auto& a : l._subBasinValues) a.setConstant(-12345.0);
    for (auto& a : l._hydroUnitValues) for (int i = 0; i < a.size(); i++) if (!std::isnan(a(i))) a(i) = -12345.0;
    for (auto& a : l._hydroUnitFractions) for (int i = 0; i < a.size(); i++) if (!std::isnan(a(i))) a(i) = -12345.0;
}

static bool sameResults(Ctx& c, const std::vector<double>& a, const std::vector<double>& b, const std::string& clause) {
    if (a.size() != b.size()) { c.check(false, clause, "different shape"); return false; }
    for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], b[i])) { c.check(false, clause, (i < gNames.size() ? gNames[i] : "total") + ": " + std::to_string(a[i]) + " vs " + std::to_string(b[i])); return false; }
    return true;
}

struct Acts {
    ActionLandCoverChange change;
    ActionGlacierSnowToIceTransformation snow{1, 1, "glacier"};
    ActionGlacierEvolutionDeltaH delta;
    ActionGlacierEvolutionAreaScaling scaling;
    Action* evo = nullptr;
    bool useChange = false, useSnow = false, useDelta = false;
};

static void addActions(Ctx& c, Mdl& d, Acts& a) {
    if (d.covers.size() < 2) return;
    a.useChange = c.flag("changes");
    a.useSnow = c.flag("snow_to_ice");
    if (a.useChange) {
        int k = c.inum("n_changes", 1, 5);
        double room = 1.0 / (double)(d.covers.size() - 1);
        std::set<int> days;
        for (int i = 0; i < k; i++) {
            int day = d.offset + c.integer(-1, d.nSteps), u = c.integer(0, d.nUnits - 1);
            if (!days.insert(day).second) continue;
            double f = c.chance(0.25) ? 0 : room * c.u() * 0.9;
            bool fits = true;
            for (size_t v = 1; v < d.covers.size(); v++) if (d.fractions[u].size() > v && d.fractions[u][v] > room * 0.9) fits = false;
            if (!fits) continue;
            a.change.AddChange(GetMJD(2020, 1, 1) + day, d.ids[u], d.covers[1 + c.integer(0, (int)d.covers.size() - 2)], f * d.areas[u]);
        }
    }
    if (a.useSnow) {
        Time t = GetTimeStructFromMJD(GetMJD(2020, 1, 1) + d.offset + c.integer(1, d.nSteps));
        a.snow = ActionGlacierSnowToIceTransformation(t.month, t.day, "glacier");
    }
    a.useDelta = !a.useChange && c.flag("evolution");
    if (a.useDelta) {   // a glacier that shrinks along its lookup table
        std::vector<int> us;
        for (int u = 0; u < d.nUnits; u++) if (d.fractions[u][1] > 0) us.push_back(u);
        int n = (int)us.size(), rows = c.integer(2, 12);
        if (!n) a.useDelta = false;
        else {
            axi ids(n);
            axxd ar(rows, n), vo(rows, n);
            for (int i = 0; i < n; i++) {
                ids(i) = d.ids[us[i]];
                double a0 = d.sb.GetHydroUnit(us[i])->TryGetLandCover("glacier")->GetAreaFraction() * d.areas[us[i]];
                for (int r = 0; r < rows; r++) { double f = 1 - (double)r / (rows - 1); ar(r, i) = a0 * f; vo(r, i) = a0 * 0.02 * f; }
            }
            bool scaling = c.flag("area_scaling");
            if (scaling) { a.scaling.AddLookupTables(2, "glacier", ids, ar, vo); a.evo = &a.scaling; }
            else { a.delta.AddLookupTables(2, "glacier", ids, ar, vo); a.evo = &a.delta; }
            if (!d.m->AddAction(a.evo)) a.useDelta = false;
        }
    }
    if (a.useChange) d.m->AddAction(&a.change);
    if (a.useSnow) d.m->AddAction(&a.snow);
}

static Opt options(Ctx& c) {
    Opt o;
    o.extras = true;
    o.minSteps = 2;
    o.maxSteps = 12;
    if (c.chance(0.4)) o.startOffset = c.integer(22, 31);
    if (c.chance(0.3)) o.spinup = c.integer(1, 15);
    if (c.chance(0.5)) o.kind = K_SOCONT;
    return o;
}

static void disturb(Ctx& c, Mdl& d) {   // any history, not only whole runs
    switch (c.integer(0, 3)) {
        case 0: d.m->Run(); c.cover("after a run"); break;
        case 1: {
            d.m->Reset();
            c.check((bool)d.m->InitializeTimeSeries(), "C15 forcing");
            int k = c.integer(1, d.nSteps);
            for (int t = 0; t < k; t++) {
                d.m->GetProcessor()->ProcessTimeStep(1.0);
                d.m->GetTimeMachine()->IncrementTime();
                if (t + 1 < k) (void)d.m->UpdateForcing();
            }
            c.cover("after part of a run");
            break;
        }
        case 2: {
            d.m->Run();
            randomStates(c, d, 200);
            c.cover("after an edit of the storages");
            break;
        }
        default: {
            for (Brick* b : bricks(d)) for (WaterContainer* w : containersOf(b)) if (!w->IsInfiniteStorage() && c.chance(0.5)) { w->AddAmountToDynamicContentChange(c.u(0, 5)); w->AddAmountToStaticContentChange(c.u(0, 5)); }
            c.cover("with pending changes");
        }
    }
}

// reset after any history, then the same run again: the same results, bit for bit
HB_CASE(rerun, 6) {
    Opt o = options(c);
    Mdl d;
    if (!build(c, d, o)) return;
    Acts a;
    addActions(c, d, a);
    if (c.chance(0.7)) randomStates(c, d);
    d.m->SaveAsInitialState();
    State s0 = stateOf(d, false);
    d.m->Reset();
    State f0 = stateOf(d, true);
    if (!compare(c, s0, stateOf(d, false), "C15 saving and resetting straight after changes nothing")) return;
    if (!d.m->Run()) { c.cover("refused run"); return; }
    auto r1 = results(d);
    int n = c.integer(1, 3);
    for (int i = 0; i < n; i++) {
        if (c.chance(0.6)) disturb(c, d);
        d.m->Reset();
        c.check(d.m->GetTimeMachine()->GetDate() == d.m->GetTimeMachine()->GetStart(), "C15 the clock is back at the start");
        c.check(d.m->_logger._cursor == 0, "C15 the results start over");
        if (!compare(c, f0, stateOf(d, true), "C15 a reset restores the initial state")) return;
        wipe(d);
        if (!d.m->Run()) { c.check(false, "C15 the run works again"); return; }
        if (!sameResults(c, r1, results(d), "C15 running again gives the same results")) return;
    }
    c.cover(std::string("rerun:") + d.kind + (a.useChange ? "/changes" : "") + (a.useSnow ? "/snow" : "") + (a.useDelta ? "/evolution" : "") + (o.spinup ? "/spinup" : ""));
}

// a model that was run, saved and reset behaves like a fresh model given the same state
HB_CASE(twin, 3) {
    Opt o = options(c);
    o.spinup = 0;
    Ctx c2 = c;
    Mdl d, e;
    if (!build(c, d, o)) return;
    if (!build(c2, e, o)) return;
    bool random = c.chance(0.7);
    if (random) { c2 = c; randomStates(c, d); randomStates(c2, e); }
    // routings carry memory that is not part of a saved state: only the reset of the whole history is compared
    d.m->SaveAsInitialState();
    e.m->SaveAsInitialState();
    disturb(c, d);
    d.m->Reset();
    bool r1 = (bool)d.m->Run(), r2 = (bool)e.m->Run();
    c.check(r1 == r2, "C15 the run after a reset works like the first one");
    if (!r1 || !r2) return;
    if (!sameResults(c, results(e), results(d), "C15 a reset model runs like a fresh one")) return;
    c.cover("twin:" + d.kind);
}

// what is saved is the current state, whatever happened before
HB_CASE(save, 3) {
    Opt o = options(c);
    Mdl d;
    if (!build(c, d, o)) return;
    Acts a;
    addActions(c, d, a);
    randomStates(c, d);
    if (c.chance(0.5)) d.m->SaveAsInitialState();
    if (!d.m->Run()) return;
    State s = stateOf(d, false);
    d.m->SaveAsInitialState();
    if (!compare(c, s, stateOf(d, false), "C15 saving the state does not change it")) return;
    d.m->Reset();
    if (!compare(c, s, stateOf(d, false), "C15 a reset restores the saved state")) return;
    wipe(d);
    if (!d.m->Run()) return;
    auto r = results(d);
    d.m->Reset();
    if (!compare(c, s, stateOf(d, false), "C15 a reset restores the saved state")) return;
    wipe(d);
    if (!d.m->Run()) return;
    sameResults(c, r, results(d), "C15 running again from a saved state gives the same results");
    c.cover("save:" + d.kind + (a.useChange ? "/changes" : ""));
}

int main(int argc, char** argv) { return Main(argc, argv); }
