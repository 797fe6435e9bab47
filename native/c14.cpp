#include "direct.h"
using namespace hb;

// ---- aggregation over any set of outlet fluxes ----
HB_CASE(aggregate, 2) {
    SubBasin sb;
    int n = c.inum("fluxes", 0, 12);
    std::vector<std::unique_ptr<FluxToOutlet>> fx;
    double want = 0;
    for (int i = 0; i < n; i++) {
        fx.push_back(std::make_unique<FluxToOutlet>());
        double w = c.chance(0.3) ? 1 : c.num("share", 0, 1), lc = c.chance(0.5) ? 1 : c.num("fraction", 0, 1);
        fx[i]->SetFractionUnitArea(w);
        fx[i]->SetFractionLandCover(lc);
        sb.AttachOutletFlux(fx[i].get());
    }
    int rounds = c.integer(1, 3);
    for (int r = 0; r < rounds; r++) {
        want = 0;
        for (int i = 0; i < n; i++) {
            double a = c.chance(0.2) ? 0 : c.num("amount", 0, 200);
            fx[i]->UpdateFlux(a);
            want += a * fx[i]->_fractionUnitArea * fx[i]->_fractionLandCover;
        }
        c.check(sb.ComputeOutletDischarge(), "C14 the discharge is computed");
        c.eq(*sb.GetValuePointer("outlet"), want, "C14 discharge is the weighted sum of what was sent to the outlet");
    }
    sb.ComputeOutletDischarge();
    c.eq(*sb.GetValuePointer("outlet"), want, "C14 each amount is counted once");
    c.cover(n == 0 ? "none" : "some");
}

// ---- whole basins, every route to the outlet, with independently computed weights ----
enum Tgt { OUT, STORE, SUB };
static const char* tgtName[] = {"outlet", "store", "lumped"};

HB_CASE(basin, 5) {
    SettingsModel ms;
    SettingsBasin bs;
    SubBasin sb;
    int ns = c.inum("steps", 1, 6), nu = c.inum("units", 1, 5), nc = c.inum("covers", 1, 3);
    const char* solver = kSolvers[c.integer(0, 6)];
    c.note("solver", solver);
    bool snow = c.flag("snowpacks", 0.5), directRain = c.flag("rain_to_outlet", 0.2);
    ms.SetSolver(solver);
    ms.SetTimer(dayStr(0), dayStr(ns - 1), 1, "day");
    ms.GeneratePrecipitationSplitters(snow, "snow_rain:linear");
    std::vector<std::string> covers;
    std::vector<Tgt> coverTo, snowTo;
    for (int i = 0; i < nc; i++) {
        covers.push_back(i == 0 ? "ground" : "cover_" + std::to_string(i));
        ms.AddLandCoverBrick(covers[i], "generic_land_cover");
    }
    for (int i = 0; i < nc; i++) {
        ms.SelectHydroUnitBrick(covers[i]);
        coverTo.push_back((Tgt)c.pick("cover_to", 3));
        ms.AddBrickProcess("outflow", "outflow:direct", tgtName[coverTo[i]]);
        snowTo.push_back((Tgt)c.pick("snow_to", 3));
        if (snow) {
            ms.SelectHydroUnitSplitter("snow_splitter");
            ms.AddSplitterOutput(covers[i] + "_snowpack", ContentType::Snow);
            ms.AddSurfaceComponentBrick(covers[i] + "_snowpack", "snowpack");
            ms.SetSurfaceComponentParent(covers[i]);
            ms.AddBrickProcess("melt", "melt:degree_day", tgtName[snowTo[i]]);
            ms.SetProcessParameterValue("degree_day_factor", c.numf("ddf", 0.5, 8));
        }
    }
    if (directRain) { ms.SelectHydroUnitSplitter("rain_splitter"); ms.AddSplitterOutput("outlet"); }
    ms.AddHydroUnitBrick("store", "storage");
    double k1 = c.numf("k1", 0.01, 0.4), k2 = c.chance(0.4) ? 0 : c.numf("k2", 0.01, 0.4);
    k1 = (float)k1;
    k2 = (float)k2;
    ms.AddBrickProcess("outflow", "outflow:linear", "outlet");
    ms.SetProcessParameterValue("response_factor", (float)k1);
    bool toSub = c.flag("store_to_lumped");
    ms.AddBrickProcess("deep", "outflow:linear", toSub ? "lumped" : "outlet");
    ms.SetProcessParameterValue("response_factor", (float)k2);
    ms.AddSubBasinBrick("lumped", "storage");
    ms.AddBrickProcess("outflow", "outflow:linear", "outlet");
    ms.SetProcessParameterValue("response_factor", c.numf("k3", 0.01, 0.5));
    bool two = c.flag("two_lumped_outflows");
    if (two) {
        ms.AddBrickProcess("outflow_2", "outflow:linear", "outlet");
        ms.SetProcessParameterValue("response_factor", c.numf("k4", 0.01, 0.4));
    }
    if (c.chance(0.5)) ms.SetLogAll(true); else ms.AddLoggingToItem("outlet");
    std::vector<double> area(nu);
    double total = 0;
    std::vector<std::vector<double>> fr(nu, std::vector<double>(nc, 0.0));
    for (int u = 0; u < nu; u++) {
        area[u] = c.num("area", 0.5, 1000);
        total += area[u];
        bs.AddHydroUnit(3 + 5 * u, area[u], 1000);
        double left = 1;
        for (int k = nc - 1; k > 0; k--) { fr[u][k] = c.chance(0.2) ? 0 : left * std::round(c.u() * 16) / 16.0; left -= fr[u][k]; }
        fr[u][0] = left;
        for (int k = 0; k < nc; k++) bs.AddLandCover(covers[k], "generic_land_cover", fr[u][k]);
    }
    if (!sb.Initialize(bs)) return;
    ModelHydro m(&sb);
    if (!m.Initialize(ms, bs)) { c.cover("refused"); return; }
    c.eq(sb.GetArea(), total, "C14 the basin area is the sum of the areas of its units");
    axd time(ns);
    axi ids(nu);
    axxd P(ns, nu), T(ns, nu);
    for (int u = 0; u < nu; u++) ids(u) = 3 + 5 * u;
    for (int i = 0; i < ns; i++) {
        time(i) = GetMJD(2020, 1, 1) + i;
        for (int u = 0; u < nu; u++) { P(i, u) = c.chance(0.3) ? 0 : c.u(0.1, 80); T(i, u) = 5 + 10 * c.u(); }   // rain only
    }
    if (!m.CreateTimeSeries("precipitation", time, ids, P)) return;
    if (snow && !m.CreateTimeSeries("temperature", time, ids, T)) return;
    if (!m.AttachTimeSeriesToHydroUnits()) return;
    auto store = [&](int u) { return sb.GetHydroUnit((size_t)u)->GetBrick("store"); };
    auto pack = [&](int u, int k) { return sb.GetHydroUnit((size_t)u)->GetBrick(covers[k] + "_snowpack"); };
    Brick* lumped = sb.GetBrick("lumped");
    for (int u = 0; u < nu; u++) {
        store(u)->UpdateContent(c.chance(0.2) ? 0 : c.u(0, 100), ContentType::Water);
        for (int k = 0; snow && k < nc; k++) if (fr[u][k] > 0) pack(u, k)->UpdateContent(c.chance(0.2) ? 0 : c.u(0, 90), ContentType::Snow);
    }
    lumped->UpdateContent(c.u(0, 60), ContentType::Water);
    if (!m.InitializeTimeSeries()) return;
    for (int i = 0; i < ns; i++) {
        if (nc > 1 && c.chance(0.3)) {      // land changes hands
            int u = c.integer(0, nu - 1), k = c.integer(1, nc - 1);
            double f = std::round(c.u() * 16) / 16.0, d = f - fr[u][k];
            if (fr[u][0] - d >= 0 && sb.GetHydroUnit((size_t)u)->ChangeLandCoverAreaFraction(covers[k], f)) { fr[u][k] = f; fr[u][0] -= d; c.cover("area change"); }
        }
        std::vector<double> s0(nu);
        std::vector<std::vector<double>> w0(nu, std::vector<double>(nc, 0.0));
        for (int u = 0; u < nu; u++) {
            s0[u] = store(u)->GetContent(ContentType::Water);
            for (int k = 0; snow && k < nc; k++) w0[u][k] = pack(u, k)->GetContent(ContentType::Snow);
        }
        double l0 = lumped->GetContent(ContentType::Water);
        try { if (!m.GetProcessor()->ProcessTimeStep(1)) return; } catch (const std::exception& e) { c.check(false, "C14 a plain basin is computed", e.what()); return; }
        double q = 0, subIn = 0;
        for (int u = 0; u < nu; u++) {
            double share = area[u] / total, in = 0;
            if (directRain) q += share * P(i, u);
            for (int k = 0; k < nc; k++) {
                if (fr[u][k] <= 0) continue;
                double a = fr[u][k] * P(i, u), melt = snow ? fr[u][k] * (w0[u][k] - pack(u, k)->GetContent(ContentType::Snow)) : 0;
                (coverTo[k] == OUT ? q : coverTo[k] == SUB ? subIn : in) += a * (coverTo[k] == STORE ? 1 : share);
                (snowTo[k] == OUT ? q : snowTo[k] == SUB ? subIn : in) += melt * (snowTo[k] == STORE ? 1 : share);
            }
            double out = s0[u] + in - store(u)->GetContent(ContentType::Water);
            c.le(-1e-9, out, "C14 a store sends what it held", 1e-9);
            q += share * out * k1 / (k1 + k2);
            (toSub ? subIn : q) += share * out * k2 / (k1 + k2);
        }
        q += l0 + subIn - lumped->GetContent(ContentType::Water);
        c.eq(sb._outletTotal, q, "C14 discharge is the area-weighted sum of everything sent to the outlet", 1e-8, 1e-7);
        m.GetTimeMachine()->IncrementTime();
        if (i + 1 < ns && !m.UpdateForcing()) return;
    }
    c.cover(std::string("basin") + (snow ? "+snow" : "") + (toSub ? "+lumped" : "") + (directRain ? "+rain" : ""));
}

// ---- the structures users run: every outlet connection is attached once, with the share of its unit ----
HB_CASE(structures, 2) {
    Mdl d;
    Opt o;
    if (!build(c, d, o)) return;
    randomStates(c, d);
    std::map<Flux*, int> attached;
    for (Flux* f : d.sb._outletFluxes) attached[f]++;
    double total = d.totalArea(), shares = 0;
    c.eq(d.sb.GetArea(), total, "C14 the basin area is the sum of the areas of its units");
    std::map<Flux*, double> weight;
    for (int u = 0; u < d.nUnits; u++) {
        HydroUnit* hu = d.sb.GetHydroUnit((size_t)u);
        shares += hu->GetArea() / d.sb.GetArea();
        for (int b = 0; b < hu->GetBrickCount(); b++)
            for (auto& p : hu->GetBrick((size_t)b)->_processes)
                for (auto& f : p->_outputs) if (dynamic_cast<FluxToOutlet*>(f.get())) weight[f.get()] = d.areas[u] / total;
    }
    for (int b = 0; b < d.sb.GetBrickCount(); b++)
        for (auto& p : d.sb.GetBrick((size_t)b)->_processes)
            for (auto& f : p->_outputs) if (dynamic_cast<FluxToOutlet*>(f.get())) weight[f.get()] = 1;
    c.eq(shares, 1, "C14 the area shares of the units sum to one");
    c.check(attached.size() == weight.size(), "C14 every connection to the outlet is counted");
    for (auto& [f, w] : weight) {
        c.check(attached[f] == 1, "C14 each connection to the outlet is counted exactly once");
        c.eq(f->_fractionUnitArea, w, "C14 a unit's outflow is weighted by its share of the basin area");
    }
    Processor* p = d.m->GetProcessor();
    if (!d.m->InitializeTimeSeries()) return;
    for (int i = 0; i < d.nSteps; i++) {
        try { if (!p->ProcessTimeStep(1)) return; } catch (const std::exception&) { c.cover("refused step"); return; }
        double q = 0;
        for (auto& [f, w] : weight) q += f->_amount;
        if (std::isfinite(q)) c.eq(*d.sb.GetValuePointer("outlet"), q, "C14 discharge of a step is what the step sent to the outlet");
        d.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < d.nSteps && !d.m->UpdateForcing()) return;
    }
    c.cover("structure:" + d.kind);
}

int main(int argc, char** argv) { return Main(argc, argv); }
