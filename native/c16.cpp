#include "models.h"
#include "Action.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "TimeMachine.h"
using namespace hb;

struct Rec { int action, item; long minute; };

static double dateOf(long minute) {   // minutes since 2019-01-01
    long day = minute >= 0 ? minute / 1440 : -((-minute + 1439) / 1440);
    long m = minute - day * 1440;
    Time t = GetTimeStructFromMJD(GetMJD(2019, 1, 1) + (double)day);
    return GetMJD(t.year, t.month, t.day, (int)(m / 60), (int)(m % 60));
}

static void monthDay(long day, int& month, int& dd) {   // day index since 2019-01-01 by counting
    static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int y = 2019;
    while (day < 0) { y--; day += (y % 4 == 0) ? 366 : 365; }
    while (day >= ((y % 4 == 0) ? 366 : 365)) { day -= (y % 4 == 0) ? 366 : 365; y++; }
    int m = 0;
    while (true) {
        int n = ml[m] + (m == 1 && y % 4 == 0 ? 1 : 0);
        if (day < n) break;
        day -= n;
        m++;
    }
    month = m + 1;
    dd = (int)day + 1;
}

static long gNow;

struct Probe : Action {
    int me = 0;
    std::vector<Rec>* log = nullptr;
    std::vector<int> items;
    std::vector<long> minutes;
    int failAt = -1;
    int resets = 0;
    bool initOk = true;
    void add(long minute, int item) {
        double date = dateOf(minute);
        int i = GetIndexForInsertion(date);
        _sporadicDates.insert(_sporadicDates.begin() + i, date);
        items.insert(items.begin() + i, item);
        minutes.insert(minutes.begin() + i, minute);
    }
    bool Init() override { return initOk; }
    void Reset() override { resets++; }
    bool Apply(double) override {
        int it = _recursive ? -1 : (_cursor >= 0 && _cursor < (int)items.size() ? items[_cursor] : -99);
        if (it == failAt && !_recursive) return false;
        log->push_back({me, it, gNow});
        return true;
    }
};

// any set of actions, any order of registration, any clock: exactly once, at the first step that reaches the date, in date order
HB_CASE(schedule, 6) {
    ModelHydro model;
    ActionsManager man;
    man.SetModel(&model);
    TimeMachine clock;
    long start = c.integer(0, 2000) * 1440L;
    int unit = c.pick("unit", 3), step = 1, n = c.inum("steps", 1, 40);
    long stepMin;
    if (unit == 0) { step = c.pick("days", 4) == 0 ? c.integer(2, 40) : 1; stepMin = 1440L * step; }
    else if (unit == 1) { step = c.integer(1, 30); stepMin = 60L * step; start += 60L * c.integer(0, 23); }
    else { step = c.integer(1, 2000); stepMin = step; start += c.integer(0, 1439); }
    long end = start + stepMin * n;
    c.note("start", std::to_string(start));
    c.note("step", std::to_string(stepMin));
    clock.Initialize(dateOf(start), dateOf(end), step, unit == 0 ? TimeUnit::Day : unit == 1 ? TimeUnit::Hour : TimeUnit::Minute);
    clock.SetActionsManager(&man);
    std::vector<Rec> log;
    int na = c.inum("actions", 1, 6);
    std::deque<Probe> acts;
    std::vector<Rec> items;
    std::vector<std::vector<std::pair<int, int>>> rec;   // per action, month/day
    std::vector<int> recAction;
    int next = 0;
    std::set<long> used;
    bool fails = false;
    for (int a = 0; a < na; a++) {
        acts.emplace_back();
        Probe& p = acts.back();
        p.me = a;
        p.log = &log;
        if (c.chance(0.3)) {
            int k = c.inum("recurrences", 1, 4);
            std::vector<std::pair<int, int>> md;
            for (int i = 0; i < k; i++) {
                int m, d;
                if (c.chance(0.7)) { monthDay((start + (long)(c.u() * (double)(end - start))) / 1440, m, d); }
                else { m = c.integer(1, 12); d = c.integer(1, 28); }
                if (m == 2 && d == 29) d = 28;
                bool dup = false;
                for (auto& x : md) if (x.first == m && x.second == d) dup = true;
                if (dup) continue;
                md.push_back({m, d});
                c.note("on", std::to_string(m) + "/" + std::to_string(d));
                p.AddRecursiveDate(m, d);
            }
            rec.push_back(md);
            recAction.push_back(a);
        } else {
            int k = c.inum("items", 0, 6);
            for (int i = 0; i < k; i++) {
                long at;
                switch (c.integer(0, 4)) {
                    case 0: at = start + stepMin * c.integer(0, n); break;             // exactly a step date
                    case 1: at = start - c.integer(1, 500000); break;                  // before the run
                    case 2: at = end + c.integer(0, 2000) - 1000; break;
                    default: at = start + (long)(c.u() * (double)(end - start));
                }
                bool dup = used.count(at) > 0;
                if (dup && !c.chance(0.3)) continue;
                used.insert(at);
                p.add(at, next);
                items.push_back({a, next, at});
                c.note("item", std::to_string(a) + "@" + std::to_string(at - start));
                next++;
            }
        }
        for (size_t i = 1; i < p._sporadicDates.size(); i++) c.check(p._sporadicDates[i - 1] <= p._sporadicDates[i], "C16 an action keeps its items in date order");
    }
    std::vector<int> order(na);
    for (int i = 0; i < na; i++) order[i] = i;
    for (int i = na - 1; i > 0; i--) std::swap(order[i], order[c.integer(0, i)]);
    for (int i : order) {
        acts[i].initOk = true;
        c.check(man.AddAction(&acts[i]), "C16 a valid action is accepted");
        if (c.chance(0.1)) {
            static Probe bad;
            bad.initOk = false;
            c.check(!man.AddAction(&bad), "C16 an action that cannot be initialised is refused");
        }
    }
    c.check(man.GetActionCount() == na, "C16 every action is registered once");
    c.check(man.GetSporadicActionItemCount() == (int)items.size(), "C16 every item is registered once");
    auto& sd = man.GetSporadicActionDates();
    c.check(sd.size() == items.size(), "C16 every item is scheduled once");
    for (size_t i = 1; i < sd.size(); i++) c.check(sd[i - 1] <= sd[i], "C16 the schedule is in date order");
    std::map<int, long> at;
    std::map<int, int> owner;
    for (auto& x : items) at[x.item] = x.minute, owner[x.item] = x.action;
    if (!items.empty() && c.chance(0.08)) {
        Rec x = items[c.integer(0, (int)items.size() - 1)];
        acts[x.action].failAt = x.item;
        fails = true;
    }
    int runs = c.integer(1, 3);
    for (int r = 0; r < runs; r++) {
        log.clear();
        long now = start;
        std::map<int, int> seen;
        for (int s = 0; s < n; s++) {
            size_t before = log.size();
            long prev = now;
            now += stepMin;
            gNow = now;
            bool thrown = false;
            try { clock.IncrementTime(); } catch (std::exception&) { thrown = true; }
            if (fails) {
                bool due = false;
                for (auto& x : items) if (acts[x.action].failAt == x.item && x.minute <= now) due = true;
                c.check(thrown == due, "C16 an action that fails is reported");
                if (thrown) { c.cover("failing action"); return; }
            } else c.check(!thrown, "C16 no error");
            long last = -1000000000L;
            std::map<int, int> recSeen;
            for (size_t i = before; i < log.size(); i++) {
                if (log[i].item == -1) { recSeen[log[i].action]++; continue; }
                c.check(log[i].item >= 0, "C16 items and cursor agree");
                c.check(owner[log[i].item] == log[i].action, "C16 the item is applied by its own action");
                c.check(at[log[i].item] >= last, "C16 items of a step are applied in date order");
                last = at[log[i].item];
                c.check(++seen[log[i].item] == 1, "C16 each item is applied once");
                c.check(at[log[i].item] <= now, "C16 no item before its date");
            }
            for (auto& x : items) {
                if (x.minute <= now) c.check(seen[x.item] == 1, "C16 each item is applied by the first step that reaches it", std::to_string(x.minute - start));
                if (x.minute > prev && x.minute <= now) c.cover(x.minute == now ? "on a step" : "between steps");
                if (x.minute < start) c.cover("before the run");
            }
            for (size_t k = 0; k < rec.size(); k++) {
                int want = 0;
                auto fl = [](long m) { return m / 1440; };
                for (long d = fl(prev) + 1; d <= fl(now); d++) {
                    int mo, dd;
                    monthDay(d, mo, dd);
                    for (auto& x : rec[k]) if (x.first == mo && x.second == dd) want++;
                }
                c.check(recSeen[recAction[k]] == want, "C16 recurrent actions on their dates only, once", std::to_string(recSeen[recAction[k]]) + " vs " + std::to_string(want));
                if (want) c.cover(stepMin > 1440 ? "recurrence/long step" : stepMin < 1440 ? "recurrence/sub-daily" : "recurrence/daily");
            }
        }
        for (auto& x : items) c.check(seen[x.item] == (x.minute <= now ? 1 : 0), "C16 every reached item exactly once");
        if (r + 1 < runs) {
            man.Reset();
            clock.Reset();
            for (auto& p : acts) c.check(p.resets == r + 1, "C16 a reset reaches every action");
            c.cover("re-run");
        }
    }
}

// land cover changes and snow to ice transformation in a real run
HB_CASE(model, 3) {
    Mdl d;
    Opt o;
    o.kind = K_SOCONT;
    o.minSteps = 4;
    o.maxSteps = 12;
    if (!build(c, d, o)) return;
    if (d.covers.size() < 2) return;
    for (auto& f : d.fractions) if (f.size() != d.covers.size()) return;
    ActionLandCoverChange a1, a2;
    ActionGlacierSnowToIceTransformation snow(1, 1, "glacier");
    struct Ch { int day; int unit; std::string cover; double frac; bool second; };
    std::vector<Ch> ch;
    std::set<std::pair<int, int>> used;
    int k = c.inum("changes", 1, 8);
    for (int i = 0; i < k; i++) {
        int day = c.integer(-5, d.nSteps + 1), u = c.integer(0, d.nUnits - 1);
        if (day <= 0) day = -i;                                // several dated before the run
        if (!used.insert({day, u}).second) continue;
        std::string cv = d.covers[1 + c.integer(0, (int)d.covers.size() - 2)];
        // the share of this cover stays within a fixed half/third of the unit so that no change is refused
        double room = 1.0 / (double)(d.covers.size() - 1);
        double f = c.chance(0.2) ? 0 : room * c.u() * 0.9;
        ch.push_back({day, u, cv, f, c.chance(0.4)});
        c.note("change", std::to_string(day) + "/" + std::to_string(u) + "/" + cv);
    }
    std::vector<std::map<std::string, double>> fr(d.nUnits);
    for (int u = 0; u < d.nUnits; u++) for (auto* lc : d.sb.GetHydroUnit(u)->_landCoverBricks) {
        double f = lc->GetAreaFraction();
        if (lc->GetName() != "ground" && f > 0.9 / (double)(d.covers.size() - 1)) return;
        fr[u][lc->GetName()] = f;
    }
    bool sub = c.chance(0.4);
    for (auto& x : ch) (x.second ? a2 : a1).AddChange(GetMJD(2020, 1, 1) + x.day + (sub ? 0.25 : 0.0), d.ids[x.unit], x.cover, x.frac * d.areas[x.unit]);
    int snowDay = c.integer(1, d.nSteps);
    { Time t = GetTimeStructFromMJD(GetMJD(2020, 1, 1) + snowDay); snow = ActionGlacierSnowToIceTransformation(t.month, t.day, "glacier"); }
    bool useSnow = c.chance(0.6);
    bool first = c.chance(0.5);
    auto add = [&](Action* a) { c.check(d.m->AddAction(a), "C16 the action is accepted"); };
    if (useSnow && first) add(&snow);
    if (c.chance(0.5)) { add(&a1); add(&a2); } else { add(&a2); add(&a1); }
    if (useSnow && !first) add(&snow);
    randomStates(c, d);
    d.m->SaveAsInitialState();
    int runs = c.integer(1, 2);
    auto fr0 = fr;
    for (int r = 0; r < runs; r++) {
        fr = fr0;
        if (r > 0 || c.chance(0.3)) d.m->Reset();
        c.check((bool)d.m->InitializeTimeSeries(), "C16 forcing");
        std::vector<char> done(ch.size(), 0);
        for (int t = 1; t <= d.nSteps; t++) {
            d.m->GetProcessor()->ProcessTimeStep(1.0);
            struct S { double snow, ice; };
            std::map<int, S> pre;
            for (int u = 0; u < d.nUnits; u++) {
                HydroUnit* h = d.sb.GetHydroUnit(u);
                if (Brick* b = h->TryGetBrick("glacier_snowpack")) pre[u] = {b->GetContent(ContentType::Snow), h->TryGetLandCover("glacier")->GetContent(ContentType::Ice)};
            }
            d.m->GetTimeMachine()->IncrementTime();
            bool changed = false;
            std::vector<size_t> due;
            for (size_t i = 0; i < ch.size(); i++) if (!done[i] && ch[i].day + (sub ? 0.25 : 0.0) <= t) due.push_back(i);
            std::sort(due.begin(), due.end(), [&](size_t a, size_t b) { return ch[a].day < ch[b].day; });
            for (size_t i : due) {
                done[i] = 1;
                changed = true;
                auto& m = fr[ch[i].unit];
                m["ground"] += m[ch[i].cover] - ch[i].frac;
                m[ch[i].cover] = ch[i].frac;
            }
            for (int u = 0; u < d.nUnits; u++) for (auto* lc : d.sb.GetHydroUnit(u)->_landCoverBricks)
                c.eq(lc->GetAreaFraction(), fr[u][lc->GetName()], "C16 the land covers follow the dated changes", 1e-6, 1e-6);
            if (changed) { c.cover(due.size() > 1 ? "several changes in a step" : "one change"); }
            for (int u = 0; u < d.nUnits && !changed; u++) {
                HydroUnit* h = d.sb.GetHydroUnit(u);
                auto* lc = h->TryGetLandCover("glacier");
                if (!pre.count(u)) continue;
                double s1 = h->TryGetBrick("glacier_snowpack")->GetContent(ContentType::Snow), i1 = lc->GetContent(ContentType::Ice);
                if (useSnow && t == snowDay && lc->GetAreaFraction() > 1e-6) {
                    c.eq(s1, 0, "C16 snow turned into ice on its date", 0, 1e-12);
                    c.eq(i1, pre[u].ice + pre[u].snow, "C16 all the snow is turned into ice", 1e-12, 1e-12);
                    c.cover("snow to ice");
                } else {
                    c.check(s1 == pre[u].snow && (i1 == pre[u].ice || std::isinf(i1)), "C16 snow is turned into ice on its date only");
                }
            }
            if (t < d.nSteps) c.check((bool)d.m->UpdateForcing(), "C16 forcing");
        }
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
