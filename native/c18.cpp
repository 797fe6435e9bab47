#include "models.h"
#include "Forcing.h"
#include "TimeSeriesData.h"
using namespace hb;

static const TimeUnit U[] = {TimeUnit::Day, TimeUnit::Hour, TimeUnit::Minute};
static const long PER[] = {1440, 60, 1};
static const char* UN[] = {"day", "hour", "minute"};

static double mjdOf(long minutes) { return (double)(minutes / 1440) + (double)(minutes % 1440) / 1440.0; }
// the same moment, as a clock or a calendar conversion delivers it
static double asDate(Ctx& c, long minutes) {
    switch (c.integer(0, 2)) {
        case 0: return mjdOf(minutes);
        case 1: { Time t = GetTimeStructFromMJD(mjdOf(minutes)); return GetMJD(t.year, t.month, t.day, t.hour, t.min); }
        default: return (double)(minutes / 60) / 24.0 + (double)(minutes % 60) / 1440.0;
    }
}

HB_CASE(series, 5) {
    int u = c.integer(0, 2), step = c.chance(0.5) ? 1 : c.inum("step", 1, u == 2 ? 90 : 9);
    c.note("unit", UN[u]);
    int n = c.inum("values", 1, 60);
    long st = step * PER[u], m0 = (58000 + c.integer(0, 3000)) * 1440L + (c.chance(0.6) ? 0 : c.integer(0, 1439));
    c.note("start", (double)m0);
    double start = asDate(c, m0), end = asDate(c, m0 + (n - 1) * st);
    TimeSeriesDataRegular ts(start, end, step, U[u]);
    vecDouble v(n);
    for (int i = 0; i < n; i++) v[i] = 100 + i;
    c.check(ts.SetValues(v), "C18 a series with one value per step is accepted");
    vecDouble w = v;
    if (n > 1 && c.chance(0.5)) w.pop_back(); else w.push_back(0);
    TimeSeriesDataRegular other(start, end, step, U[u]);
    c.check(!other.SetValues(w), "C18 a series of another length is refused");
    c.check(ts.GetStart() == start && ts.GetEnd() == end, "C18 range of the series");
    if (ts._values.empty()) return;
    int last = -1;
    for (int k = 0; k < 8; k++) {
        int i = c.chance(0.2) ? n - 1 : c.integer(0, n - 1);
        long off = i == n - 1 || c.chance(0.6) ? 0 : c.integer(0, (int)st - 1);
        double date = asDate(c, m0 + i * st + off);
        if (date > end) date = end;
        if (date < start) date = start;
        c.note("at", i + (double)off / st);
        bool byValue = c.chance(0.4);
        if (byValue) c.eq(ts.GetValueFor(date), v[i], "C18 the value of the interval that holds the date", 0, 0);
        else if (c.check(ts.SetCursorToDate(date), "C18 a date of the series is accepted"), true) c.eq(ts.GetCurrentValue(), v[i], "C18 the value of the interval that holds the date", 0, 0);
        last = i;
        int adv = c.integer(0, 4);
        for (int a = 0; a < adv && last + 1 < n; a++) {
            c.check(ts.AdvanceOneTimeStep(), "C18 a step inside the series is accepted");
            last++;
            c.eq(ts.GetCurrentValue(), v[last], "C18 each step advances by one value", 0, 0);
        }
        // outside of the range
        double bad = c.chance(0.5) ? start - c.u(0.001, 500) : end + c.u(0.001, 500);
        bool threw = false, ok = true;
        double val = 0;
        try { if (c.chance(0.5)) ok = ts.SetCursorToDate(bad); else val = ts.GetValueFor(bad); } catch (const std::exception&) { threw = true; }
        c.check(threw || !ok, "C18 a date outside the series is refused", "answered " + std::to_string(val));
        if (last >= 0) c.eq(ts.GetCurrentValue(), v[last], "C18 a refused date leaves the position", 0, 0);
    }
    // past the end
    while (last + 1 < n) { c.check(ts.AdvanceOneTimeStep(), "C18 a step inside the series is accepted"); last++; }
    bool refused = !ts.AdvanceOneTimeStep();   // at the end of the run the cursor is moved once more
    if (!refused) {
        try { double x = ts.GetCurrentValue(); (void)x; } catch (const std::exception&) { refused = true; }
        c.check(refused, "C18 a read past the end is refused");
        c.check(!ts.AdvanceOneTimeStep(), "C18 a step past the end is refused");
    }
    c.cover(std::string(UN[u]) + (step > 1 ? "/multi" : ""));
}

// series of several units, through the model's own constructor
HB_CASE(distributed, 3) {
    int n = c.inum("values", 2, 30), nu = c.inum("units", 1, 6);
    bool hour = c.flag("hourly");
    int step = c.chance(0.6) ? 1 : c.inum("step", 1, hour ? 12 : 5);
    long st = step * (hour ? 60L : 1440L), m0 = (58000 + c.integer(0, 3000)) * 1440L + (hour ? 60 * c.integer(0, 23) : 0);
    axd time(n);
    axi ids(nu);
    axxd data(n, nu);
    std::vector<int> pool = {1, 2, 3, 4, 5, 6, 17, 999};
    for (int u = 0; u < nu; u++) { int k = c.integer(0, (int)pool.size() - 1); ids(u) = pool[k]; pool.erase(pool.begin() + k); }
    for (int i = 0; i < n; i++) {
        time(i) = asDate(c, m0 + i * st);
        for (int u = 0; u < nu; u++) data(i, u) = 1000 * ids(u) + i;
    }
    static const char* names[] = {"precipitation", "p", "temperature", "t", "pet", "etp", "temperature_min", "t_max", "r_solar"};
    int nm = c.integer(0, 8);
    c.note("name", names[nm]);
    static const VariableType types[] = {VariableType::Precipitation, VariableType::Precipitation, VariableType::Temperature, VariableType::Temperature, VariableType::PET, VariableType::PET, VariableType::TemperatureMin, VariableType::TemperatureMax, VariableType::Radiation};
    std::unique_ptr<TimeSeries> ts;
    try { ts = TimeSeries::Create(names[nm], time, ids, data); } catch (const std::exception& e) {
        c.check(hour && 24 % step != 0 && step > 24, "C18 regular data are accepted", e.what());
        return;
    }
    c.check(ts->IsValid(), "C18 regular data are accepted");
    c.check(ts->GetVariableType() == types[nm], "C18 the series has the type of its variable");
    int at = c.integer(0, n - 1);
    c.check(ts->SetCursorToDate(asDate(c, m0 + at * st)) || at == 0 || at == n - 1, "C18 a date of the series is accepted");
    if (!ts->SetCursorToDate(time(at))) { c.check(false, "C18 a date of the series is accepted"); return; }
    for (int i = at; i < n; i++) {
        for (int u = 0; u < nu; u++) c.eq(ts->GetDataPointer(ids(u))->GetCurrentValue(), data(i, u), "C18 each unit has its own values", 0, 0);
        if (i + 1 < n) c.check(ts->AdvanceOneTimeStep(), "C18 a step inside the series is accepted");
    }
    bool refused = false;
    try { (void)ts->GetDataPointer(12345); } catch (const std::exception&) { refused = true; }
    c.check(refused, "C18 a unit without data is refused");
    SettingsBasin sbn;
    double want = 0, tot = 0;
    std::vector<double> ar;
    for (int u = 0; u < nu; u++) { ar.push_back(c.num("area", 1, 100)); sbn.AddHydroUnit(ids(u), ar[u]); tot += ar[u]; }
    for (int u = 0; u < nu; u++) want += data.col(u).sum() * ar[u] / tot;
    c.eq(ts->GetTotal(&sbn), want, "C18 basin total of a series", 1e-9, 0);
    c.cover(hour ? "hourly" : "daily");
}

HB_CASE(override, 1) {
    double d = GetMJD(2021, 3, 1);
    TimeSeriesDataRegular ts(d, d + 9, 1, TimeUnit::Day);
    vecDouble v;
    for (int i = 0; i < 10; i++) v.push_back(c.u(0, 50));
    (void)ts.SetValues(v);
    (void)ts.SetCursorToDate(d);
    Forcing f(VariableType::PET);
    f.AttachTimeSeriesData(&ts);
    for (int i = 0; i < 9; i++) {
        c.check(f.GetValue() == v[i], "C18 the value of the day");
        if (c.chance(0.6)) {
            double x = c.u(-10, 10);
            f.UpdateValue(x);
            c.check(f.GetValue() == x, "C18 the overridden value is served");
            c.check(ts.GetCurrentValue() == v[i], "C18 overriding leaves the series");
        }
        (void)ts.AdvanceOneTimeStep();
        f.ResetUpdate();
    }
    c.cover("override");
}

// what the units of a running model are served
HB_CASE(model, 4) {
    Mdl d;
    Opt o;
    o.lateral = false;
    if (!build(c, d, o)) return;
    int runs = c.inum("runs", 1, 2);
    for (int r = 0; r < runs; r++) {
        if (r) d.m->Reset();
        if (!d.m->InitializeTimeSeries()) { c.check(false, "C18 the series are positioned at the start"); return; }
        int skip = c.chance(0.3) ? c.integer(0, d.nSteps - 1) : 0;
        for (int i = 0; i < d.nSteps; i++) {
            if (i >= skip) for (int u = 0; u < d.nUnits; u++) {
                HydroUnit* h = d.m->GetSubBasin()->GetHydroUnitById(d.ids[u]);
                auto look = [&](VariableType t, const axxd& data) { if (h->HasForcing(t) && data.rows() > i) c.eq(h->GetForcing(t)->GetValue(), data(i, u), "C18 the value served is the one of the date and the unit", 0, 0); };
                look(VariableType::Precipitation, d.P);
                look(VariableType::Temperature, d.T);
                look(VariableType::PET, d.E);
            }
            if (c.chance(0.3)) { HydroUnit* h = d.m->GetSubBasin()->GetHydroUnit(0); if (h->HasForcing(VariableType::PET)) h->GetForcing(VariableType::PET)->UpdateValue(77); }
            try { if (!d.m->GetProcessor()->ProcessTimeStep(1.0)) return; } catch (const std::exception&) { return; }
            d.m->GetTimeMachine()->IncrementTime();
            auto ok = d.m->UpdateForcing();
            c.check(ok || i + 1 == d.nSteps, "C18 the series last as long as the run");
            if (!ok) break;
        }
    }
    c.cover("served");
}

int main(int argc, char** argv) { return Main(argc, argv); }
