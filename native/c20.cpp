#include "models.h"
#include <functional>
#include "Parameter.h"
#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"
using namespace hb;

struct Slot { int structure; std::string kind, component, type; int process; Parameter* p; };   // kind: brick, process, splitter

static std::vector<Slot> slots(SettingsModel& s) {
    std::vector<Slot> v;
    int is = 0;
    for (auto& st : s._modelStructures) {
        for (auto* bs : {&st.hydroUnitBricks, &st.subBasinBricks})
            for (auto& b : *bs) {
                for (auto& p : b.parameters) v.push_back({is, "brick", b.name, b.type, -1, &p});
                for (size_t i = 0; i < b.processes.size(); i++)
                    for (auto& p : b.processes[i].parameters) v.push_back({is, "process", b.name, b.type, (int)i, &p});
            }
        for (auto* ss : {&st.hydroUnitSplitters, &st.subBasinSplitters})
            for (auto& sp : *ss)
                for (auto& p : sp.parameters) v.push_back({is, "splitter", sp.name, sp.type, -1, &p});
        is++;
    }
    return v;
}

static std::string trim(std::string s) {
    while (!s.empty() && s[0] == ' ') s = s.substr(1);
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}

// which parameters one component selector and name designate in a structure: 0 not found, 1 found, 2 found without the parameter
static int target(ModelStructure& st, const std::string& comp, const std::string& name, std::vector<Parameter*>& out) {
    auto brick = [&](BrickSettings& b) {
        for (auto& p : b.parameters) if (p.GetName() == name) { out.push_back(&p); return true; }
        for (auto& pr : b.processes)
            for (auto& p : pr.parameters) if (p.GetName() == name) { out.push_back(&p); return true; }
        return false;
    };
    for (auto* bs : {&st.hydroUnitBricks, &st.subBasinBricks})
        for (auto& b : *bs) if (b.name == comp) return brick(b) ? 1 : 2;
    for (auto* ss : {&st.hydroUnitSplitters, &st.subBasinSplitters})
        for (auto& sp : *ss)
            if (sp.name == comp) {
                for (auto& p : sp.parameters) if (p.GetName() == name) { out.push_back(&p); return 1; }
                return 2;
            }
    if (comp.rfind("type:", 0) == 0) {
        std::string t = comp.substr(5);
        int r = 1;
        for (auto* bs : {&st.hydroUnitBricks, &st.subBasinBricks})
            for (auto& b : *bs) {
                bool lc = b.type == "generic_land_cover" || b.type == "ground" || b.type == "generic" || b.type == "open" || b.type == "glacier";
                if (b.type == t || (t == "land_cover" && lc))
                    if (!brick(b)) r = 2;
            }
        return r;
    }
    return 0;
}

static void bareSettings(Ctx& c, SettingsModel& s) {
    int nst = c.inum("structures", 1, 3);
    s.SetLogAll(c.flag("log"));
    s.SetSolver("euler_explicit");
    for (int k = 0; k < nst; k++) {
        if (k) s.AddStructure();
        s.GeneratePrecipitationSplitters(true, c.chance(0.5) ? "snow_rain:linear" : "snow_rain:threshold");
        s.AddLandCoverBrick("ground", "generic_land_cover");
        bool gl = c.chance(0.6);
        if (gl) s.AddLandCoverBrick("glacier", "glacier");
        if (c.chance(0.8)) s.GenerateSnowpacks(c.chance(0.5) ? "melt:degree_day" : "melt:cemaneige");
        if (gl) {
            s.SelectHydroUnitBrick("glacier");
            s.AddBrickParameter("no_melt_when_snow_cover", 1.0f);
            s.AddBrickParameter("infinite_storage", 1.0f);
            s.AddBrickProcess("melt", "melt:degree_day", "outlet");
        }
        int nb = (int)c.integer(0, 3);
        for (int j = 0; j < nb; j++) {
            s.AddHydroUnitBrick("hu_store_" + std::to_string(j), "storage");
            if (c.chance(0.7)) s.AddBrickParameter("capacity", 100.0f);
            s.AddBrickProcess("outflow", "outflow:linear", "outlet");
            if (c.chance(0.4)) s.AddBrickProcess("outflow_2", "outflow:linear", "outlet");
            if (c.chance(0.5)) s.AddBrickProcess("percolation", "percolation:constant", "outlet");
        }
        int ns = (int)c.integer(0, 3);
        for (int j = 0; j < ns; j++) {
            s.AddSubBasinBrick(j == 2 ? "glacier_area_store" : "sb_store_" + std::to_string(j), "storage");
            if (c.chance(0.5)) s.AddBrickParameter("capacity", 50.0f);
            s.AddBrickProcess("outflow", "outflow:linear", "outlet");
        }
    }
    s.SelectStructure((int)c.integer(1, nst));
}

// any component selector, name and value: exactly the designated parameters change
HB_CASE(assign, 5) {
    SettingsModel s;
    bareSettings(c, s);
    std::vector<Slot> v = slots(s);
    // give every parameter a value of its own
    for (size_t i = 0; i < v.size(); i++) v[i].p->SetValue(1000.0f + (float)i);
    auto compName = [&]() -> std::string {
        if (c.chance(0.12)) return "unknown_" + std::to_string(c.integer(0, 3));
        if (c.chance(0.25)) { static const char* t[] = {"type:storage", "type:snowpack", "type:glacier", "type:land_cover", "type:generic_land_cover", "type:nothing"}; return t[c.integer(0, 5)]; }
        return v.empty() ? "ground" : v[c.integer(0, (int)v.size() - 1)].component;
    };
    int calls = c.inum("calls", 1, 4);
    for (int k = 0; k < calls; k++) {
        std::string comp = compName();
        std::vector<std::string> items{comp};
        if (c.chance(0.3)) {
            int n = (int)c.integer(1, 3);
            for (int j = 0; j < n; j++) { items.push_back(compName()); comp += (c.chance(0.5) ? "," : (c.chance(0.5) ? ", " : " ,")) + items.back(); }
        }
        std::string name;
        if (!v.empty() && c.chance(0.85)) {
            // prefer a name that the first component has
            std::vector<int> cand;
            for (size_t i = 0; i < v.size(); i++) if (v[i].component == items[0]) cand.push_back((int)i);
            name = cand.empty() ? v[c.integer(0, (int)v.size() - 1)].p->GetName() : v[cand[c.integer(0, (int)cand.size() - 1)]].p->GetName();
        } else name = c.chance(0.5) ? "no_such_parameter" : "response_factor";
        float value = c.numf("value", -50, 50);
        c.note("component", comp);
        c.note("name", name);
        // oracle
        std::vector<Parameter*> allowed, must;
        bool refused = false;
        for (auto& it : items) {
            bool found = false, missing = false;
            std::vector<Parameter*> mine;
            for (auto& st : s._modelStructures) {
                int r = target(st, trim(it), name, mine);
                if (r == 1) found = true;
                if (r == 2) missing = true;
            }
            allowed.insert(allowed.end(), mine.begin(), mine.end());
            if (missing || !found) refused = true;
        }
        if (!refused) must = allowed;
        std::vector<float> before;
        for (auto& sl : v) before.push_back(sl.p->GetValue());
        int id0 = s._selectedStructure->id;
        bool ok = false, threw = false;
        try { ok = s.SetParameterValue(comp, name, value); } catch (const std::exception&) { threw = true; }
        if (refused) c.check(threw || !ok, "an unknown component or parameter is refused", comp + " / " + name);
        else {
            c.check(ok && !threw, "a known parameter is accepted", comp + " / " + name);
            c.check(s._selectedStructure->id == id0, "the selected structure is kept", "");
        }
        for (size_t i = 0; i < v.size(); i++) {
            bool a = std::find(allowed.begin(), allowed.end(), v[i].p) != allowed.end();
            bool m = std::find(must.begin(), must.end(), v[i].p) != must.end();
            float now = v[i].p->GetValue();
            if (m) c.check(now == value, "the designated parameter takes the value", v[i].component + ":" + v[i].p->GetName());
            else if (!a) c.check(now == before[i], "no other parameter changes", v[i].component + ":" + v[i].p->GetName());
        }
        c.cover(std::string(refused ? "refused" : "set") + (items.size() > 1 ? "/list" : "") + (comp.find("type:") != std::string::npos ? "/type" : ""));
        if (refused) break;   // a refused call can leave another structure selected
    }
}

struct Pick { std::string component, name; float value; };

static float sensible(Ctx& c, const std::string& n, float old) {
    if (n == "capacity") return (float)(30 + 200 * c.u());
    if (n == "infinite_storage" || n == "no_melt_when_snow_cover" || n == "north_hemisphere") return c.chance(0.5) ? 1.0f : 0.0f;
    if (n == "uh_base_time" || n == "maxbas") return (float)(1 + 4 * c.u());
    if (n.find("temperature") != std::string::npos || n == "threshold") return (float)(c.u() * 3 - 1);
    if (n == "transition_start") return (float)(-c.u() * 2);
    if (n == "transition_end") return (float)(1 + c.u() * 2);
    if (old == 0) return (float)(0.2 * c.u());
    return old * (float)(0.6 + 0.7 * c.u());
}

static std::vector<double> snapshot(Mdl& d) {
    std::vector<double> v;
    for (Brick* b : bricks(d)) {
        for (WaterContainer* w : containersOf(b)) v.push_back(w->IsInfiniteStorage() ? -1.0 : w->_content);
        for (int i = 0; i < b->GetProcessCount(); i++)
            for (size_t j = 0; j < b->GetProcess(i)->_outputs.size(); j++) v.push_back(*b->GetProcess(i)->_outputs[j]->GetAmountPointer());
    }
    v.push_back(d.sb._outletTotal);
    return v;
}

static void compare(Ctx& c, Mdl& a, Mdl& b, const std::string& what, const std::string& clause) {
    std::vector<double> va = snapshot(a), vb = snapshot(b);
    bool same = va.size() == vb.size();
    std::string w = what;
    for (size_t i = 0; same && i < va.size(); i++)
        if (!(std::fabs(va[i] - vb[i]) <= 1e-9 * (1 + std::fabs(vb[i])))) { same = std::isnan(va[i]) && std::isnan(vb[i]); w += " " + std::to_string(va[i]) + " vs " + std::to_string(vb[i]); }
    c.check(same, clause, w);
}

static bool advance(Mdl& d, int i) {
    if (!d.m->GetProcessor()->ProcessTimeStep(1.0)) return false;
    d.m->_timer.IncrementTime();
    return i + 1 >= d.nSteps || (bool)d.m->UpdateForcing();
}

// parameters set on a built model act as parameters set before it was built
HB_CASE(effective, 4) {
    Opt o;
    o.maxSteps = 8;
    o.extras = c.flag("extras");
    if (o.extras) o.kind = K_SOCONT;
    o.infiniteGlacier = c.flag("infinite");
    Ctx c2 = c;
    Mdl a, b;
    if (!build(c, a, o)) return;
    std::vector<Slot> v = slots(a.ms);
    if (v.empty()) return;
    std::vector<Pick> picks;
    int n = c.inum("picks", 1, 4);
    std::set<std::string> used;
    for (int i = 0; i < n; i++) {
        Slot& s = v[c.integer(0, (int)v.size() - 1)];
        if (!used.insert(s.component + s.p->GetName()).second) continue;
        picks.push_back({s.component, s.p->GetName(), sensible(c, s.p->GetName(), s.p->GetValue())});
        c.note("set", s.component + ":" + s.p->GetName() + "=" + std::to_string(picks.back().value));
    }
    o.tweak = [&](SettingsModel& s) { for (auto& p : picks) s.SetParameterValue(p.component, p.name, p.value); };
    bool built = build(c2, b, o);
    for (auto& p : picks) c.check(a.ms.SetParameterValue(p.component, p.name, p.value), "a known parameter is accepted", p.component + ":" + p.name);
    if (!built) return;
    a.m->UpdateParameters(a.ms);
    bool ran = c.flag("ran_before");
    if (ran) {   // as in a calibration loop: run, reset, set, run
        Ctx c3 = c;
        a.m->Reset();
        if (!a.m->Run()) return;
        a.m->UpdateParameters(a.ms);
        a.m->Reset();
        b.m->Reset();
    } else {
        Ctx c3 = c;
        randomStates(c, a);
        randomStates(c3, b);
    }
    if (!a.m->InitializeTimeSeries() || !b.m->InitializeTimeSeries()) return;
    std::string w;
    for (auto& p : picks) w += p.component + ":" + p.name + "=" + std::to_string(p.value) + " ";
    for (int i = 0; i < a.nSteps; i++) {
        if (!advance(a, i) || !advance(b, i)) return;
        compare(c, a, b, w, "a parameter set on a built model is the one used");
    }
    for (auto& p : picks) c.cover("p:" + p.name);
}

static float find(const std::vector<double>& d, const std::vector<float>& v, double x, bool& ok) {
    for (size_t i = 0; i < d.size(); i++) if (d[i] == x) { ok = true; return v[i]; }
    ok = false;
    return 0;
}

struct Sched {
    int kind;                       // 0 yearly, 1 monthly, 2 dates
    std::vector<double> keys;       // years or dates
    std::vector<float> vals;
    Parameter* p = nullptr;
    float cur = 0;
    void expect(double date, int year, int month) {
        bool ok = false;
        float x = 0;
        if (kind == 0) x = find(keys, vals, year, ok);
        else if (kind == 1) { x = vals[month - 1]; ok = true; }
        else x = find(keys, vals, date, ok);
        if (ok) cur = x;
    }
};

static void calendar(long day, int& y, int& m) {   // days since 2015-01-01
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    y = 2015;
    while (day >= (y % 4 == 0 ? 366 : 365)) { day -= y % 4 == 0 ? 366 : 365; y++; }
    m = 0;
    while (day >= ml[m] + (m == 1 && y % 4 == 0 ? 1 : 0)) { day -= ml[m] + (m == 1 && y % 4 == 0 ? 1 : 0); m++; }
    m++;
}

static Sched randomSched(Ctx& c, Parameter* p, long day0, long span, double lo, double hi) {
    Sched s;
    s.p = p;
    s.cur = p->GetValue();
    s.kind = (int)c.integer(0, 2);
    auto val = [&] { return (float)(lo + (hi - lo) * c.u()); };
    if (s.kind == 0) {
        int y0 = 2014 + (int)c.integer(0, 3), n = (int)c.integer(1, 7);
        for (int i = 0; i < n; i++) { s.keys.push_back(y0 + i); s.vals.push_back(val()); }
        ParameterModifier m(ParameterModifierType::Yearly);
        m.SetYearlyValues(y0, y0 + n - 1, s.vals);
        p->SetModifier(m);
    } else if (s.kind == 1) {
        for (int i = 0; i < 12; i++) s.vals.push_back(val());
        ParameterModifier m(ParameterModifierType::Monthly);
        m.SetMonthlyValues(s.vals);
        p->SetModifier(m);
    } else {
        std::set<long> days;
        int n = (int)c.integer(1, 6);
        for (int i = 0; i < n; i++) days.insert(day0 - 2 + (long)c.integer(0, (int)span + 4));
        for (long d : days) { s.keys.push_back(GetMJD(2015, 1, 1) + (double)d); s.vals.push_back(val()); }
        ParameterModifier m(ParameterModifierType::Dates);
        m.SetDatesAndValues(s.keys, s.vals);
        p->SetModifier(m);
    }
    return s;
}

// any schedule and any advancing clock: the value of the current year, month or date, kept otherwise
HB_CASE(schedule, 5) {
    int np = c.inum("params", 1, 5);
    std::deque<Parameter> ps;
    std::vector<Sched> sc;
    ParametersUpdater up;
    long day = c.integer(0, 2000), span = 900;
    for (int i = 0; i < np; i++) {
        ps.emplace_back("p" + std::to_string(i), 500.0f + i);
        if (c.chance(0.12)) { Sched s; s.kind = -1; s.p = &ps.back(); s.cur = ps.back().GetValue(); up.AddParameter(&ps.back()); sc.push_back(s); continue; }
        sc.push_back(randomSched(c, &ps.back(), day, span, -5, 5));
        up.AddParameter(&ps.back());
    }
    long step = c.chance(0.5) ? 1 : (long)c.integer(1, 40);
    int n = c.inum("steps", 1, 120);
    for (int i = 0; i < n; i++) {
        int y, m;
        calendar(day, y, m);
        double date = GetMJD(2015, 1, 1) + (double)day;
        up.DateUpdate(date);
        for (auto& s : sc) {
            if (s.kind >= 0) s.expect(date, y, m);
            c.check(s.p->GetValue() == s.cur, s.kind == 0 ? "yearly value" : s.kind == 1 ? "monthly value" : s.kind == 2 ? "dated value" : "a parameter without schedule is constant",
                    std::to_string(s.p->GetValue()) + " instead of " + std::to_string(s.cur) + " on " + std::to_string(date));
        }
        day += step;
        if (c.chance(0.02)) day += c.integer(20, 400);
    }
    c.cover("step:" + std::to_string(step > 1));
}

// a scheduled parameter in a running model: the step is computed with the value of its date
HB_CASE(running, 2) {
    Opt o;
    o.minSteps = 5;
    o.maxSteps = 40;
    o.kind = c.chance(0.5) ? K_SOCONT : K_LINEAR;
    o.startOffset = c.inum("offset", 0, 400);
    Ctx c2 = c;
    Mdl a, b;
    if (!build(c, a, o) || !build(c2, b, o)) return;
    std::vector<Slot> va = slots(a.ms), vb = slots(b.ms);
    std::vector<int> cand;
    for (size_t i = 0; i < va.size(); i++) {
        const std::string& n = va[i].p->GetName();
        if (n == "response_factor" || n == "degree_day_factor" || n == "melting_temperature" || n == "percolation_rate") cand.push_back((int)i);
    }
    if (cand.empty()) return;
    randomStates(c, a);
    randomStates(c2, b);
    long day0 = 1826 + o.startOffset;   // 2020-01-01 is day 1826 of the 2015 calendar
    std::vector<Sched> sc;
    std::vector<int> idx;
    int n = (int)c.integer(1, std::min(3, (int)cand.size()));
    for (int i = 0; i < n; i++) {
        int k = cand[c.integer(0, (int)cand.size() - 1)];
        if (std::find(idx.begin(), idx.end(), k) != idx.end()) continue;
        idx.push_back(k);
        bool t = va[k].p->GetName() == "melting_temperature";
        sc.push_back(randomSched(c, va[k].p, day0, a.nSteps, t ? -1 : 0.01, t ? 2 : 0.6));
        a.m->_parametersUpdater.AddParameter(va[k].p);
    }
    if (!a.m->InitializeTimeSeries() || !b.m->InitializeTimeSeries()) return;
    for (int i = 0; i < a.nSteps; i++) {
        if (i) {
            int y, m;
            calendar(day0 + i, y, m);
            for (size_t k = 0; k < sc.size(); k++) { sc[k].expect(GetMJD(2015, 1, 1) + (double)(day0 + i), y, m); vb[idx[k]].p->SetValue(sc[k].cur); }
        }
        if (!advance(a, i) || !advance(b, i)) return;
        compare(c, a, b, "step " + std::to_string(i), "each step is computed with the scheduled value");
    }
}
int main(int argc, char** argv) { return Main(argc, argv); }
