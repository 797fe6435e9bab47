#include "models.h"
#include "FluxToBrickInstantaneous.h"
#include "ProcessLateral.h"
#include "ProcessLateralSnowRedistributionFrey.h"
#include "ProcessLateralSnowSlide.h"
#include "TimeMachine.h"
using namespace hb;

enum { SLIDE, FREY, FREY_DYN };
struct Conn { int from, to; double w; };

struct Basin {
    SettingsModel ms;
    SettingsBasin bs;
    SubBasin sb;
    std::unique_ptr<ModelHydro> m;
    int nu = 2, nc = 1, ns = 4, kind = SLIDE;
    std::vector<std::string> covers;
    std::vector<bool> glacier;
    std::vector<double> area, slope;
    std::vector<std::vector<double>> fr;
    std::vector<Conn> conns;
    bool skipGlaciers = false;
    double p[12] = {0};
    axxd P, T;
    std::string solver;
    double f(int u, int k) { return fr[u][k]; }
    HydroUnit* unit(int u) { return sb.GetHydroUnit((size_t)u); }
    Snowpack* pack(int u, int k) { return dynamic_cast<Snowpack*>(unit(u)->GetBrick(covers[k] + "_snowpack")); }
    ProcessLateral* lat(int u, int k) {
        for (auto& q : pack(u, k)->_processes) if (auto* l = dynamic_cast<ProcessLateral*>(q.get())) return l;
        return nullptr;
    }
};

static bool make(Ctx& c, Basin& b, bool cold) {
    b.nu = c.inum("units", 2, 5);
    b.nc = c.inum("covers", 1, 3);
    b.ns = c.inum("steps", 1, 6);
    b.kind = c.pick("kind", 3);
    b.solver = kSolvers[c.pick("solver", 7)];
    for (int k = 0; k < b.nc; k++) { b.glacier.push_back(k > 0 && c.chance(0.3)); b.covers.push_back((b.glacier[k] ? "glacier" : "cover") + std::to_string(k)); }
    SettingsModel& s = b.ms;
    s.SetSolver(b.solver);
    s.SetTimer("2020-01-01", dayStr(b.ns - 1), 1, "day");
    s.SetLogAll(c.flag("log"));
    s.GeneratePrecipitationSplitters(true, "snow_rain:linear");
    for (int k = 0; k < b.nc; k++) s.AddLandCoverBrick(b.covers[k], b.glacier[k] ? "glacier" : "generic_land_cover");
    s.GenerateSnowpacks("melt:degree_day");
    b.skipGlaciers = c.chance(0.3);
    static const char* names[] = {"transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic"};
    s.AddSnowRedistribution(names[b.kind], b.skipGlaciers);
    for (int k = 0; k < b.nc; k++) {
        s.SelectHydroUnitBrick(b.covers[k]);
        s.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", "store");
        if (b.glacier[k]) { s.AddBrickParameter("infinite_storage", 1.0f); s.AddBrickParameter("no_melt_when_snow_cover", 1.0f); s.AddBrickProcess("melt", "melt:degree_day", "store"); }
    }
    s.AddSubBasinBrick("store", "storage");
    s.AddBrickProcess("outflow", "outflow:linear", "outlet");
    if (b.kind == SLIDE) {
        b.p[0] = c.numf("coeff", 0.5, 4000); b.p[1] = c.chance(0.7) ? -1.998f : c.numf("exp", -3, -0.5);
        b.p[2] = c.numf("min_slope", 1, 30); b.p[3] = c.numf("max_slope", 40, 80);
        b.p[4] = c.chance(0.2) ? 0 : c.numf("min_depth", 0.5, 300); b.p[5] = c.chance(0.15) ? 0 : c.numf("max_depth", 300, 20000);
    } else {
        b.p[0] = c.chance(0.3) ? 1.0 : c.numf("correction", 0.1, 3); b.p[1] = c.chance(0.15) ? 0 : c.numf("holding", 1, 600);
        b.p[2] = c.numf("rho_max", 200, 600); b.p[5] = c.chance(0.15) ? 0 : c.numf("max_depth", 300, 20000);
        b.p[3] = c.numf("rho", 100, 500);
        b.p[4] = c.numf("rho_min", 50, 150); b.p[6] = c.numf("rho_fresh_max", 150, 400); b.p[7] = c.chance(0.3) ? 0.1f : c.numf("settling", 0.001, 1.5);
        b.p[8] = c.numf("rho_scale", 0.3, 3); b.p[9] = c.numf("t_scale", -2, 2);
    }
    for (auto& x : b.p) x = (float)x;
    for (int k = 0; k < b.nc; k++) {
        if (b.skipGlaciers && b.glacier[k]) continue;
        s.SelectHydroUnitBrickByName(b.covers[k] + "_snowpack");
        s.SelectProcess("snow_redistribution");
        auto set = [&](const char* n, double v) { s.SetProcessParameterValue(n, (float)v); };
        set("max_snow_depth", b.p[5]);
        if (b.kind == SLIDE) { set("coeff", b.p[0]); set("exp", b.p[1]); set("min_slope", b.p[2]); set("max_slope", b.p[3]); set("min_snow_holding_depth", b.p[4]); }
        else {
            set("correction", b.p[0]); set("snow_holding_capacity", b.p[1]); set("rho_max", b.p[2]);
            if (b.kind == FREY) set("snow_density", b.p[3]);
            else { set("rho_min", b.p[4]); set("rho_fresh_max", b.p[6]); set("rho_settling", b.p[7]); set("rho_scale", b.p[8]); set("t_scale", b.p[9]); }
        }
    }
    for (int u = 0; u < b.nu; u++) {
        b.area.push_back(c.num("area", 1, 1000));
        b.slope.push_back(c.chance(0.1) ? 0 : (float)(c.u() * 88));
        c.note("slope", std::to_string(b.slope.back()));
        b.bs.AddHydroUnit(4 + 3 * u, b.area[u], 3000 - 100 * u);
        std::vector<double> f(b.nc, 0.0);
        double left = 1;
        for (int k = b.nc - 1; k > 0; k--) { f[k] = c.chance(0.2) ? 0 : left * std::round(c.u() * 16) / 16.0; left -= f[k]; }
        f[0] = left;
        for (int k = 0; k < b.nc; k++) { b.bs.AddLandCover(b.covers[k], b.glacier[k] ? "glacier" : "generic_land_cover", f[k]); c.note("fraction", std::to_string(f[k])); }
        b.fr.push_back(f);
        b.bs.AddHydroUnitPropertyDouble("slope", b.slope[u], "degrees");
    }
    for (int u = 0; u < b.nu; u++) {
        int left = b.nu - 1 - u;
        if (!left || c.chance(0.1)) continue;
        int n = (int)c.integer(1, std::min(3, left));
        std::vector<int> to;
        for (int j = u + 1; j < b.nu; j++) to.push_back(j);
        for (int i = (int)to.size() - 1; i > 0; i--) std::swap(to[i], to[c.integer(0, i)]);
        double w = 1;
        for (int i = 0; i < n; i++) {
            double x = i + 1 == n ? w : w * c.u();
            w -= x;
            b.conns.push_back({u, to[i], x});
        }
    }
    if (c.chance(0.15) && b.nu > 2) b.conns.push_back({b.nu - 1, 0, 1.0});     // back up: a loop
    for (auto& k : b.conns) { b.bs.AddLateralConnection(4 + 3 * k.from, 4 + 3 * k.to, k.w, "snow"); c.note("conn", std::to_string(k.from) + ">" + std::to_string(k.to) + "*" + std::to_string(k.w)); }
    if (!b.sb.Initialize(b.bs)) return false;
    b.m = std::make_unique<ModelHydro>(&b.sb);
    auto r = b.m->Initialize(b.ms, b.bs);
    if (!r) { c.cover("refused:" + r.error().substr(0, 60)); return false; }
    axd time(b.ns);
    axi ids(b.nu);
    b.P.resize(b.ns, b.nu);
    b.T.resize(b.ns, b.nu);
    for (int u = 0; u < b.nu; u++) ids(u) = 4 + 3 * u;
    for (int i = 0; i < b.ns; i++) {
        time(i) = GetMJD(2020, 1, 1) + i;
        for (int u = 0; u < b.nu; u++) { b.P(i, u) = c.chance(0.4) ? 0 : c.u(0.1, 60); b.T(i, u) = cold ? -25 + 15 * c.u() : -6 + 10 * c.u(); }
    }
    if (!b.m->CreateTimeSeries("precipitation", time, ids, b.P) || !b.m->CreateTimeSeries("temperature", time, ids, b.T)) return false;
    if (!b.m->AttachTimeSeriesToHydroUnits()) return false;
    for (int u = 0; u < b.nu; u++)
        for (int k = 0; k < b.nc; k++) if (b.f(u, k) > 0) b.pack(u, k)->_snow->_content = c.chance(0.15) ? 0 : (c.chance(0.15) ? c.u(0, 9000) : c.u(0, 700));
    return (bool)b.m->InitializeTimeSeries();
}

static double held(Snowpack* p) { return p->_snow->_content + p->_snow->_contentChangeStatic; }   // with what arrived for the next step

static double threshold(Basin& b, int u, double rho) {     // mm SWE that a pack keeps
    if (b.kind == SLIDE) {
        double d = b.p[0] * std::pow((float)std::max(b.slope[u], b.p[2]), b.p[1]) * 1000.0;
        if (b.slope[u] > b.p[3]) d = b.p[4];
        d = std::max(d, b.p[4]);
        if (b.p[5] > 0) d = std::min(d, b.p[5]);
        return d * 250.0 / 1000.0;
    }
    return b.p[1] * rho / 1000.0;
}

static double moved(Basin& b, int u, double swe, double rho) {   // mm SWE leaving towards complete neighbours
    double ex = std::max(0.0, swe - threshold(b, u, rho));
    if (b.kind != SLIDE) {
        double f = rho < b.p[2] ? (b.p[2] - rho) / b.p[2] * std::exp(-rho / b.p[2]) * std::min(90.0, std::max(0.0, b.slope[u])) / 90.0 : 0;
        ex *= f * b.p[0];
    }
    return std::min(ex, 1000.0);
}

static double densityOf(Basin& b, int u, int k) {
    if (b.kind == FREY) return b.p[3];
    if (b.kind == FREY_DYN) { auto* q = dynamic_cast<ProcessLateralSnowRedistributionFrey*>(b.lat(u, k)); return q && q->_density > 0 ? q->_density : 250.0; }
    return 250.0;
}

static void checkRates(Ctx& c, Basin& b) {
    for (int u = 0; u < b.nu; u++)
        for (int k = 0; k < b.nc; k++) {
            ProcessLateral* l = b.lat(u, k);
            if (b.skipGlaciers && b.glacier[k]) { c.check(!l, "glacier snowpacks excluded from redistribution do not give", ""); continue; }
            if (!l) { c.check(false, "every snowpack can redistribute", ""); continue; }
            // connections: one per neighbour and snowpack of the neighbour
            std::vector<std::pair<Snowpack*, std::pair<int, int>>> want;
            std::vector<double> ww;
            for (auto& cn : b.conns) if (cn.from == u) for (int t = 0; t < b.nc; t++) { want.push_back({b.pack(cn.to, t), {cn.to, t}}); ww.push_back(cn.w); }
            c.check(l->_outputs.size() == want.size(), "one connection per snowpack of each neighbour", std::to_string(l->_outputs.size()));
            if (l->_outputs.size() != want.size()) continue;
            if (b.f(u, k) <= 0) continue;
            vecDouble r = l->GetRates();
            double swe = b.pack(u, k)->_snow->_content, rho = densityOf(b, u, k), mv = moved(b, u, swe, rho);
            c.check(r.size() == want.size(), "one rate per connection", "");
            if (r.size() != want.size()) continue;
            double sum = 0;
            std::vector<bool> used(want.size());
            for (size_t i = 0; i < l->_outputs.size(); i++) {
                auto* fl = dynamic_cast<FluxToBrick*>(l->_outputs[i].get());
                size_t j = 0;
                while (j < want.size() && (used[j] || !fl || want[j].first != fl->_toBrick)) j++;
                if (j == want.size()) { c.check(false, "each connection leads to a snowpack of a neighbour", ""); break; }
                used[j] = true;
                int v = want[j].second.first, t = want[j].second.second;
                double tf = b.f(v, t), rate = 0;
                double cap = 1.5 * b.p[5] * rho / 1000.0;
                bool full = b.p[5] > 0 && want[j].first->_snow->_content > cap;
                if (std::fabs(want[j].first->_snow->_content - cap) < 1e-6 * cap) continue;
                if (tf > 0 && !full) rate = mv * ww[j] * tf;
                c.eq(r[i], rate, "share of a neighbour's land cover", 1e-6, 1e-7);
                c.le(-1e-12, r[i], "no snow moves backwards", 0);
                if (r[i] > 0)
                    c.eq(fl->_fractionUnitArea, b.area[u] * b.f(u, k) / (b.area[v] * tf), "received depth is scaled by the area ratio", 1e-9, 1e-12);
                sum += r[i];
                c.cover(full ? "full target" : rate > 0 ? "moving" : "still");
            }
            if (swe > 0) c.le(sum, std::max(0.0, b.p[0] <= 1 || b.kind == SLIDE ? swe - threshold(b, u, rho) : sum), "nothing moves below the holding threshold", 1e-6);
        }
}

// the rates and weights of every connection of any terrain
HB_CASE(rates, 4) {
    Basin b;
    if (!make(c, b, true)) return;
    checkRates(c, b);
    if (c.chance(0.5) && b.nc > 1) {        // land changes hands
        int u = (int)c.integer(0, b.nu - 1), k = (int)c.integer(1, b.nc - 1);
        double f = std::round(c.u() * 16) / 16.0, d = f - b.fr[u][k];
        if (b.fr[u][0] - d >= 0 && b.unit(u)->ChangeLandCoverAreaFraction(b.covers[k], f)) { b.fr[u][k] = f; b.fr[u][0] -= d; checkRates(c, b); c.cover("area change"); }
    }
}

// whole steps: what leaves a unit arrives at its neighbours, and nothing else happens to the snow (cold, dry of melt)
HB_CASE(steps, 5) {
    Basin b;
    if (!make(c, b, true)) return;
    for (int i = 0; i < b.ns; i++) {
        if (b.nc > 1 && c.chance(0.3)) {
            int u = (int)c.integer(0, b.nu - 1), k = (int)c.integer(1, b.nc - 1);
            double f = std::round(c.u() * 16) / 16.0, d = f - b.fr[u][k];
            if (b.fr[u][0] - d >= 0 && b.unit(u)->ChangeLandCoverAreaFraction(b.covers[k], f)) { b.fr[u][k] = f; b.fr[u][0] -= d; c.cover("area change"); }
        }
        std::vector<std::vector<double>> s0(b.nu, std::vector<double>(b.nc)), rho(b.nu, std::vector<double>(b.nc));
        for (int u = 0; u < b.nu; u++) for (int k = 0; k < b.nc; k++) { s0[u][k] = held(b.pack(u, k)); if (b.lat(u, k)) rho[u][k] = densityOf(b, u, k); }
        try { if (!b.m->GetProcessor()->ProcessTimeStep(1)) return; } catch (const std::exception& e) { c.check(false, "a cold basin is computed", e.what()); return; }
        double before = 0, after = 0, fall = 0;
        std::vector<std::vector<double>> in(b.nu, std::vector<double>(b.nc, 0.0)), out = in;
        for (int u = 0; u < b.nu; u++)
            for (int k = 0; k < b.nc; k++) {
                double A = b.area[u] * b.f(u, k);
                before += A * s0[u][k];
                after += A * held(b.pack(u, k));
                fall += A * b.P(i, u);
                if (!b.lat(u, k) || b.f(u, k) <= 0) continue;
                for (auto& o : b.lat(u, k)->_outputs) {
                    auto* fl = dynamic_cast<FluxToBrickInstantaneous*>(o.get());
                    if (!fl) { c.check(false, "redistributed snow is delivered in the step", ""); continue; }
                    for (int v = 0; v < b.nu; v++)
                        for (int t = 0; t < b.nc; t++)
                            if (b.pack(v, t) == fl->_toBrick && fl->_amount != 0) {
                                double got = fl->GetRealAmount();       // depth over the receiving land cover
                                in[v][t] += got;
                                out[u][k] += got * b.area[v] * b.f(v, t) / (b.area[u] * b.f(u, k));
                                c.check(b.f(v, t) > 0, "no snow goes to a land cover without area", "");
                            }
                }
            }
        c.eq(after, before + fall, "the snow mass of the basin is conserved", 1e-8, 1e-6);
        double one = 0;
        for (int u = 0; u < b.nu; u++)
            for (int k = 0; k < b.nc; k++) {
                if (b.f(u, k) <= 0) { c.eq(b.pack(u, k)->_snow->_content, s0[u][k], "a land cover without area gives and receives nothing", 0, 1e-12); continue; }
                double s1 = held(b.pack(u, k));
                c.eq(s1, s0[u][k] + b.P(i, u) + in[u][k] - out[u][k], "a pack changes by its snowfall, what it received and what it gave", 1e-8, 1e-6);
                c.le(-1e-9, out[u][k], "no pack gives a negative amount", 0);
                c.le(out[u][k], s0[u][k] + b.P(i, u) + in[u][k], "no pack gives more than it holds", 1e-6);
                one += out[u][k];
                if (b.lat(u, k) && (b.kind == SLIDE || b.p[0] <= 1)) {
                    double th = threshold(b, u, rho[u][k]);
                    if (s0[u][k] + b.P(i, u) + in[u][k] <= th) c.eq(out[u][k], 0, "nothing moves below the holding threshold", 0, 1e-9);
                    else c.le(std::min(s0[u][k], th), s1, "a pack keeps its holding depth", 1e-6);
                }
            }
        c.cover(one > 0 ? "moved" : "still");
        b.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < b.ns && !b.m->UpdateForcing()) return;
    }
}

// one step from the packs' contents: each neighbour's share is the weight times the area share of its land cover
HB_CASE(shares, 3) {
    Basin b;
    if (!make(c, b, true)) return;
    std::vector<std::vector<double>> now(b.nu, std::vector<double>(b.nc)), rho = now, base = now;
    for (int u = 0; u < b.nu; u++) for (int k = 0; k < b.nc; k++) { now[u][k] = base[u][k] = b.pack(u, k)->_snow->_content; if (b.lat(u, k)) rho[u][k] = densityOf(b, u, k); }
    bool near = false;
    for (int u = 0; u < b.nu; u++)              // units release in their declaration order, each with what it just received
        for (int k = 0; k < b.nc; k++) {
            if (b.f(u, k) <= 0) continue;
            now[u][k] += b.P(0, u);
            base[u][k] = now[u][k];
            if (!b.lat(u, k)) continue;
            double swe = now[u][k], mv = moved(b, u, swe, rho[u][k]), tot = 0;
            std::vector<std::tuple<int, int, double>> mine;
            for (auto& cn : b.conns)
                if (cn.from == u)
                    for (int t = 0; t < b.nc; t++) {
                        if (b.f(cn.to, t) <= 0) continue;
                        double cap = 1.5 * b.p[5] * rho[u][k] / 1000.0, ts = b.pack(cn.to, t)->_snow->_content;
                        if (cn.to < u) ts = NAN;                  // already computed: its content has moved on
                        if (b.p[5] > 0 && !(std::fabs(ts - cap) > 1e-6 * cap) && !std::isnan(ts)) near = true;
                        if (b.p[5] > 0 && std::isnan(ts)) ts = base[cn.to][t];
                        if (b.p[5] > 0 && cn.to < u && std::fabs(ts - cap) < 2000) near = true;
                        if (b.p[5] > 0 && ts > cap) continue;
                        double x = mv * cn.w * b.f(cn.to, t);
                        mine.push_back({cn.to, t, x});
                        tot += x;
                    }
            double scale = tot > swe ? swe / tot : 1;
            for (auto& [v, t, x] : mine) {
                now[u][k] -= x * scale;
                now[v][t] += x * scale * b.area[u] * b.f(u, k) / (b.area[v] * b.f(v, t));
            }
        }
    if (near) return;
    try { if (!b.m->GetProcessor()->ProcessTimeStep(1)) return; } catch (const std::exception& e) { c.check(false, "a cold basin is computed", e.what()); return; }
    for (int u = 0; u < b.nu; u++)
        for (int k = 0; k < b.nc; k++)
            if (b.f(u, k) > 0) c.eq(held(b.pack(u, k)), now[u][k], "each neighbour takes its share", 1e-6, 1e-5);
    c.cover("shares");
}

// the snow density followed by the dynamic scheme only depends on its own pack
HB_CASE(density, 2) {
    Basin b;
    if (!make(c, b, false)) return;
    if (b.kind != FREY_DYN) return;
    std::vector<std::vector<double>> prev(b.nu, std::vector<double>(b.nc, 0.0)), d(b.nu, std::vector<double>(b.nc, 250.0));
    for (int i = 0; i < b.ns; i++) {
        try { if (!b.m->GetProcessor()->ProcessTimeStep(1)) return; } catch (const std::exception&) { return; }
        for (int u = 0; u < b.nu; u++)
            for (int k = 0; k < b.nc; k++) {
                auto* q = dynamic_cast<ProcessLateralSnowRedistributionFrey*>(b.lat(u, k));
                if (!q || b.f(u, k) <= 0) continue;
                double swe = b.pack(u, k)->_snow->_content, t = b.T(i, u) / b.p[8] + b.p[9];
                double fresh = (b.p[6] - b.p[4]) * (t / std::sqrt(1 + t * t) + 1) / 2 + b.p[4];
                double set = d[u][k] + (b.p[2] - d[u][k]) * std::min(1.0, std::max(0.0, b.p[7]));
                double nw = std::max(0.0, swe - prev[u][k]), old = std::max(0.0, std::min(prev[u][k], swe));
                d[u][k] = swe <= 0 ? fresh : nw > 0 ? (old * set + nw * fresh) / (old + nw) : set;
                prev[u][k] = swe;
                c.eq(q->_density, d[u][k], "the snow density settles and mixes with the new snow", 1e-6, 1e-6);
                c.cover("density");
                d[u][k] = q->_density;
            }
        b.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < b.ns && !b.m->UpdateForcing()) return;
    }
}
int main(int argc, char** argv) { return Main(argc, argv); }
