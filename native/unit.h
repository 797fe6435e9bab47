// One process on one store of the real code, built through the public factories.
#ifndef VERIF_UNIT_H
#define VERIF_UNIT_H
#include "hb.h"
#include "models.h"
#include "Forcing.h"
#include "HydroUnit.h"
#include "HydroUnitProperty.h"
#include "Splitter.h"
#include "TimeMachine.h"

namespace hb {

struct Series {   // a forcing served by a one-value series
    std::unique_ptr<TimeSeriesDataRegular> ts;
    Forcing f;
    explicit Series(VariableType t, double v) : f(t) {
        double d = GetMJD(2020, 1, 1);
        ts = std::make_unique<TimeSeriesDataRegular>(d, d + 1, 1, TimeUnit::Day);
        (void)ts->SetValues({v, v});
        (void)ts->SetCursorToDate(d);
        f.AttachTimeSeriesData(ts.get());
    }
};

struct Lab {
    SettingsModel s;
    std::unique_ptr<HydroUnit> unit = std::make_unique<HydroUnit>(1000.0);
    std::vector<std::unique_ptr<Brick>> bricks;
    std::map<VariableType, std::unique_ptr<Series>> forcing;
    TimeMachine timer;
    Process* proc = nullptr;
    Brick* brick = nullptr;
    double dt = 1;

    explicit Lab(double stepDays = 1) : dt(stepDays) {
        timer.Initialize(GetMJD(2020, 1, 1), GetMJD(2021, 1, 1), (int)stepDays, TimeUnit::Day);
    }
    void set(VariableType t, double v) {
        auto& p = forcing[t];
        if (!p) p = std::make_unique<Series>(t, v);
        else { (void)p->ts->SetValues({v, v}); }
        p->f.ResetUpdate();
    }
    Forcing* get(VariableType t) {
        if (!forcing[t]) forcing[t] = std::make_unique<Series>(t, 0.0);
        return &forcing[t]->f;
    }
    void setCapacity(Brick* b, const std::string& name) {
        s.SelectHydroUnitBrick(name);
        b->SetParameters(s.GetHydroUnitBrickSettings(name));
    }
    // a store of the given type; capacity < 0: none
    Brick* store(const std::string& name, const std::string& type, double capacity = -1) {
        s.AddHydroUnitBrick(name, type);
        if (type == "glacier") s.AddBrickParameter("no_melt_when_snow_cover", 0.0f), s.AddBrickParameter("infinite_storage", 0.0f);
        if (capacity >= 0) s.AddBrickParameter("capacity", (float)capacity);
        bricks.push_back(Brick::Factory(s.GetHydroUnitBrickSettings(name)));
        Brick* b = bricks.back().get();
        b->SetName(name);
        names.push_back(name);
        return b;
    }
    std::vector<std::string> names;
    // the process of the given type on the store
    Process* process(const std::string& on, const std::string& type, const std::string& target, const std::vector<std::pair<std::string, double>>& pars, bool withTimer = true) {
        s.SelectHydroUnitBrick(on);
        std::string nm = "p" + std::to_string(count++);
        s.AddBrickProcess(nm, type, target);
        for (auto& p : pars) s.SetProcessParameterValue(p.first, (float)p.second);
        pending.push_back({on, nm, withTimer});
        return nullptr;
    }
    struct Pend { std::string on, nm; bool timer; };
    std::vector<Pend> pending;
    std::map<std::string, Process*> made;
    int count = 0;
    Brick* byName(const std::string& n) {
        for (size_t i = 0; i < names.size(); i++) if (names[i] == n) return bricks[i].get();
        return nullptr;
    }
    // settings are complete: create the objects (pointers into the settings stay valid from here)
    void make() {
        for (auto& b : names) byName(b)->SetParameters(s.GetHydroUnitBrickSettings(b));
        for (auto& p : pending) {
            Brick* b = byName(p.on);
            const ProcessSettings* ps = nullptr;
            for (auto& x : s.GetHydroUnitBrickSettings(p.on).processes) if (x.name == p.nm) ps = &x;
            auto q = Process::Factory(*ps, b);
            q->SetName(p.nm);
            if (p.timer) q->SetTimeMachine(&timer);
            q->SetHydroUnitProperties(unit.get(), b);
            q->SetParameters(*ps);
            for (auto f : ps->forcing) q->AttachForcing(get(f));
            made[p.nm] = q.get();
            b->AddProcess(std::move(q));
            brick = b;
            proc = made[p.nm];
        }
    }
    double rate(Process* p = nullptr, size_t i = 0) {
        const vecDouble& r = (p ? p : proc)->GetChangeRates();
        return i < r.size() ? r[i] : NAN;
    }
};

inline double fl(double x) { return (double)(float)x; }

}  // namespace hb
#endif
