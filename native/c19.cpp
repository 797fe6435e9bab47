#include "models.h"
#include "ResultWriter.h"
#include "Splitter.h"
#include "TimeMachine.h"
#include <netcdf.h>
#include <unistd.h>
using namespace hb;

static std::vector<std::string> split(const std::string& s) {
    std::vector<std::string> v{""};
    for (char ch : s) if (ch == ':') v.push_back(""); else v.back() += ch;
    return v;
}

static double itemOf(Brick* b, const std::string& item, bool& ok) {
    if (item == "water_content" || item == "water") return b->_water->_content;
    if (item == "snow_content" || item == "snow") if (auto* s = dynamic_cast<Snowpack*>(b)) return s->_snow->_content;
    if (item == "ice_content" || item == "ice") if (auto* g = dynamic_cast<Glacier*>(b)) return g->_ice->_content;
    ok = false;
    return 0;
}

// the current value of the element a label names, through the model's own objects (by name)
template <class Owner>
static double valueOf(Owner* o, const std::string& label, bool& ok, bool& present) {
    auto p = split(label);
    ok = true;
    present = true;
    Brick* b = nullptr;
    for (auto& bb : o->_bricks) if (bb->GetName() == p[0]) b = &*bb;
    if (b) {
        if (p.size() == 2) return itemOf(b, p[1], ok);
        for (int i = 0; i < b->GetProcessCount(); i++) {
            Process* pr = b->GetProcess(i);
            if (pr->GetName() != p[1]) continue;
            if (p[2] == "output" && pr->_outputs.size() >= 1) return *pr->_outputs[0]->GetAmountPointer();
            ok = false;
            return 0;
        }
        ok = false;
        return 0;
    }
    present = false;
    ok = false;
    return 0;
}

// a full run: each row of each column is the value its own element had at the end of that step
HB_CASE(columns, 3) {
    Opt o;
    o.maxSteps = 10;
    o.extras = c.flag("extras");
    if (o.extras) o.kind = K_SOCONT;
    if (c.chance(0.2)) o.spinup = c.inum("spinup", 1, 3);
    Ctx c2 = c;
    Mdl a, b;
    if (!build(c, a, o)) return;
    if (!build(c2, b, o)) { c.check(false, "the same inputs build the same model", "second build refused"); return; }
    randomStates(c, a);
    randomStates(c2, b);
    Logger& L = a.m->_logger;
    if (o.spinup) { a.m->_spinupSteps = std::min(o.spinup, a.nSteps); b.m->_spinupSteps = a.m->_spinupSteps; }
    for (int k = 0; k < (int)L._subBasinLabels.size(); k++) if (L._subBasinLabels[k].empty()) return;
    int runs = c.inum("runs", 1, 2);
    for (int r = 0; r < runs; r++) {
        if (r) { a.m->Reset(); b.m->Reset(); }
        // reference: the twin model stepped by hand
        if (!b.m->InitializeTimeSeries()) return;
        if (b.m->_spinupSteps > 0 && !b.m->RunSpinup()) return;
        int n = b.nSteps;
        int nS = (int)L._subBasinLabels.size(), nH = (int)L._hydroUnitLabels.size(), nF = (int)L._hydroUnitFractionLabels.size();
        std::vector<std::vector<double>> rs(nS, std::vector<double>(n + 1, NAN));
        std::vector<axxd> rh(nH, axxd::Ones(n + 1, b.nUnits) * NAN_D), rf(nF, axxd::Ones(n + 1, b.nUnits) * NAN_D);
        std::vector<double> dates;
        auto snap = [&](int row) {
            bool ok, present;
            for (int k = 0; k < nS; k++) {
                if (L._subBasinLabels[k] == "outlet") { rs[k][row] = b.sb._outletTotal; continue; }
                double v = valueOf(&b.sb, L._subBasinLabels[k], ok, present);
                if (ok) rs[k][row] = v;
            }
            for (int u = 0; u < b.nUnits; u++) {
                HydroUnit* hu = b.sb.GetHydroUnit(u);
                for (int k = 0; k < nH; k++) {
                    double v = valueOf(hu, L._hydroUnitLabels[k], ok, present);
                    if (ok) rh[k](row, u) = v;
                }
                for (int k = 0; k < nF; k++)
                    for (auto* lc : hu->_landCoverBricks)
                        if (lc->GetName() == L._hydroUnitFractionLabels[k]) rf[k](row, u) = lc->GetAreaFraction();
            }
        };
        snap(0);
        for (int i = 0; i < n; i++) {
            if (!b.m->GetProcessor()->ProcessTimeStep(1.0)) return;
            snap(i + 1);
            dates.push_back(GetMJD(2020, 1, 1) + i);
            b.m->_timer.IncrementTime();
            if (i + 1 < n && !b.m->UpdateForcing()) return;
        }
        auto res = a.m->Run();
        if (!res) return;
        c.check(L._cursor == n, "as many rows as steps", std::to_string(L._cursor));
        c.check((int)L._time.size() == n, "one row per step", std::to_string(L._time.size()));
        for (int i = 0; i < n && i < L._time.size(); i++) c.eq(L._time[i], dates[i], "row i is dated with step i", 0, 1e-9);
        for (int k = 0; k < nS; k++) {
            if (std::isnan(rs[k][1])) { c.cover("unread:" + L._subBasinLabels[k]); continue; }
            c.cover("sb");
            if (L._subBasinLabels[k] != "outlet")
                c.eq(L._subBasinInitialValues[k], rs[k][0], "initial value of " + L._subBasinLabels[k], 1e-9, 1e-10);
            for (int i = 0; i < n; i++) c.eq(L._subBasinValues[k][i], rs[k][i + 1], "sub-basin series " + L._subBasinLabels[k], 1e-9, 1e-10);
        }
        for (int k = 0; k < nH; k++)
            for (int u = 0; u < b.nUnits; u++) {
                if (std::isnan(rh[k](1, u))) { c.cover("unread:" + L._hydroUnitLabels[k]); continue; }
                c.eq(L._hydroUnitInitialValues[k](u), rh[k](0, u), "initial value of " + L._hydroUnitLabels[k], 1e-9, 1e-10);
                for (int i = 0; i < n; i++) c.eq(L._hydroUnitValues[k](i, u), rh[k](i + 1, u), "unit series " + L._hydroUnitLabels[k], 1e-9, 1e-10);
            }
        for (int k = 0; k < nF; k++)
            for (int u = 0; u < b.nUnits; u++)
                for (int i = 0; i < n; i++) c.eq(L._hydroUnitFractions[k](i, u), rf[k](i + 1, u), "fraction series", 1e-9, 1e-12);
        if (nF) c.cover("fractions");
        // basin totals over the run
        double A = 0;
        for (double x : b.areas) A += x;
        double out = 0, et = 0, dW[3] = {0, 0, 0};
        static const char* kinds[3] = {":water_content", ":snow_content", ":ice_content"};
        for (int k = 0; k < nS; k++) {
            const std::string& lab = L._subBasinLabels[k];
            if (lab.find("outlet") != std::string::npos) for (int i = 0; i < n; i++) out += L._subBasinValues[k][i];
            for (int q = 0; q < 3; q++)
                if (lab.ends_with(kinds[q])) dW[q] += rs[k][n] - rs[k][0];
            auto p = split(lab);
            if (p.size() == 3 && p[2] == "output")
                for (auto& bb : b.sb._bricks)
                    if (bb->GetName() == p[0])
                        for (int j = 0; j < bb->GetProcessCount(); j++)
                            if (bb->GetProcess(j)->GetName() == p[1] && dynamic_cast<FluxToAtmosphere*>(&*bb->GetProcess(j)->_outputs[0]))
                                for (int i = 1; i <= n; i++) et += rs[k][i];
        }
        bool inf = false;
        for (int u = 0; u < b.nUnits; u++) {
            HydroUnit* hu = b.sb.GetHydroUnit(u);
            for (auto& bb : hu->_bricks) {
                std::string cover;
                if (dynamic_cast<LandCover*>(&*bb)) cover = bb->GetName();
                else if (auto* sc = dynamic_cast<SurfaceComponent*>(&*bb)) cover = sc->_parent->GetName();
                if (nF == 0) cover = "";
                for (auto* w : containersOf(&*bb)) inf = inf || w->IsInfiniteStorage();
                auto frac = [&](int row) {
                    if (cover.empty()) return 1.0;
                    for (int k = 0; k < nF; k++) if (L._hydroUnitFractionLabels[k] == cover) return rf[k](row, u);
                    return 1.0;
                };
                for (int k = 0; k < nH; k++) {
                    auto p = split(L._hydroUnitLabels[k]);
                    if (p[0] != bb->GetName()) continue;
                    if (p.size() == 2)
                        for (int q = 0; q < 3; q++)
                            if (":" + p[1] == kinds[q]) dW[q] += (rh[k](n, u) * frac(n) - rh[k](0, u) * frac(0)) * b.areas[u] / A;
                    if (p.size() == 3 && p[2] == "output")
                        for (int j = 0; j < bb->GetProcessCount(); j++)
                            if (bb->GetProcess(j)->GetName() == p[1] && dynamic_cast<FluxToAtmosphere*>(&*bb->GetProcess(j)->_outputs[0]))
                                for (int i = 1; i <= n; i++) et += rh[k](i, u) * frac(i) * b.areas[u] / A;
                }
            }
        }
        auto tot = [&](double got, double want, const char* w) {
            if (std::isfinite(want) && std::isfinite(got)) c.eq(got, want, w, 1e-8, 1e-8);
            else if (!inf) c.check(false, w, "not a number");
        };
        tot(a.m->GetTotalOutletDischarge(), out, "total discharge is the sum of the outlet column");
        tot(a.m->GetTotalET(), et, "total ET is the weighted sum of the recorded atmosphere fluxes");
        tot(a.m->GetTotalWaterStorageChanges(), dW[0], "water storage change");
        tot(a.m->GetTotalSnowStorageChanges(), dW[1], "snow storage change");
        if (!inf) tot(a.m->GetTotalGlacierStorageChanges(), dW[2], "ice storage change");
        axd q = a.m->GetOutletDischarge();
        for (int k = 0; k < nS; k++) if (L._subBasinLabels[k] == "outlet")
            for (int i = 0; i < n && i < q.size(); i++) c.eq(q[i], L._subBasinValues[k][i], "outlet discharge series", 0, 0);
        for (int k = 0; k < nH; k++) {
            axxd v = a.m->GetHydroUnitValues(L._hydroUnitLabels[k]);
            bool same = v.rows() == n && v.cols() == b.nUnits;
            for (int i = 0; same && i < n; i++)
                for (int u = 0; u < b.nUnits; u++) {
                    double x = v(i, u), y = L._hydroUnitValues[k](i, u);
                    if (!(x == y || (std::isnan(x) && std::isnan(y)))) same = false;
                }
            c.check(same, "a series is read back under its own label", L._hydroUnitLabels[k]);
        }
    }
}

static void ncCheck(Ctx& c, Logger& L, const std::string& dir) {
    int id;
    if (nc_open((dir + "/results.nc").c_str(), NC_NOWRITE, &id)) { c.check(false, "the results file can be read", dir); return; }
    size_t n = L._time.size(), nu = L._hydroUnitIds.size(), ns = L._subBasinLabels.size(), nh = L._hydroUnitLabels.size(), nf = L._hydroUnitFractionLabels.size();
    auto dim = [&](const char* nm) { int d; size_t l = 9999999; if (!nc_inq_dimid(id, nm, &d)) nc_inq_dimlen(id, d, &l); return l; };
    bool ok = dim("time") == n && dim("hydro_units") == nu && dim("aggregated_values") == ns && dim("distributed_values") == nh;
    c.check(ok, "file dimensions", "");
    auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    auto get = [&](const char* nm, size_t k) { std::vector<double> v(k ? k : 1); int vid; if (nc_inq_varid(id, nm, &vid) || nc_get_var_double(id, vid, v.data())) v.clear(); return v; };
    if (ok) {
        auto t = get("time", n), ar = get("hydro_units_areas", nu), ids = get("hydro_units_ids", nu), st = get("hydro_units_structure_ids", nu);
        auto s = get("sub_basin_values", ns * n), h = get("hydro_units_values", nh * nu * n);
        for (size_t i = 0; i < n; i++) c.check(!t.empty() && same(t[i], L._time[i]), "file time", "");
        for (size_t i = 0; i < nu; i++) {
            c.check(!ar.empty() && same(ar[i], L._hydroUnitAreas[i]), "file areas", "");
            c.check(!ids.empty() && ids[i] == L._hydroUnitIds[i], "file unit ids", "");
            c.check(!st.empty() && st[i] == L._hydroUnitStructureIds[i], "file structure ids", "");
        }
        for (size_t k = 0; k < ns; k++)
            for (size_t i = 0; i < n; i++) c.check(!s.empty() && same(s[k * n + i], L._subBasinValues[k][i]), "file sub-basin value", L._subBasinLabels[k]);
        for (size_t k = 0; k < nh; k++)
            for (size_t u = 0; u < nu; u++)
                for (size_t i = 0; i < n; i++)
                    c.check(!h.empty() && same(h[(k * nu + u) * n + i], L._hydroUnitValues[k](i, u)), "file unit value", L._hydroUnitLabels[k]);
        if (L._recordFractions && nf) {
            auto f = get("land_cover_fractions", nf * nu * n);
            for (size_t k = 0; k < nf; k++)
                for (size_t u = 0; u < nu; u++)
                    for (size_t i = 0; i < n; i++) c.check(!f.empty() && same(f[(k * nu + u) * n + i], L._hydroUnitFractions[k](i, u)), "file fraction", "");
        }
        auto labels = [&](const char* nm, const std::vector<std::string>& want) {
            size_t len = 0;
            if (nc_inq_attlen(id, NC_GLOBAL, nm, &len)) { c.check(want.empty(), "file labels", nm); return; }
            std::vector<char*> v(len ? len : 1);
            if (nc_get_att_string(id, NC_GLOBAL, nm, v.data())) { c.check(false, "file labels", nm); return; }
            bool eq = len == want.size();
            for (size_t i = 0; eq && i < len; i++) eq = want[i] == v[i];
            c.check(eq, "file labels", nm);
            nc_free_string(len, v.data());
        };
        labels("labels_aggregated", L._subBasinLabels);
        labels("labels_distributed", L._hydroUnitLabels);
        if (L._recordFractions && nf) labels("labels_land_covers", L._hydroUnitFractionLabels);
        c.cover("file");
    }
    nc_close(id);
}

// the recorder alone: any values, absent elements, runs repeated, any order
HB_CASE(recorder, 4) {
    Logger L;
    int n = c.inum("steps", 1, 12), nu = c.inum("units", 1, 6), ns = c.inum("sb", 1, 6), nh = c.inum("hu", 1, 7), nf = c.inum("fr", 0, 3);
    static const char* comp[] = {"ground", "ground_snowpack", "forest", "forest_canopy", "glacier", "glacier_snowpack", "storage", "groundwater", "slow", "ground_2"};
    static const char* item[] = {":water_content", ":snow_content", ":ice_content", ":et:output", ":runoff:output", ":melt:output"};
    L._time.resize(n);
    std::vector<std::string> frl = {"ground", "forest", "glacier"};
    for (int i = (int)frl.size() - 1; i > 0; i--) std::swap(frl[i], frl[c.integer(0, i)]);
    for (int k = 0; k < ns; k++) L._subBasinLabels.push_back(k == 0 ? "outlet" : std::string("reservoir") + std::to_string(k) + item[c.integer(0, 5)]);
    for (int i = ns - 1; i > 0; i--) std::swap(L._subBasinLabels[i], L._subBasinLabels[c.integer(0, i)]);
    std::set<std::string> seen;
    while ((int)L._hydroUnitLabels.size() < nh) {
        std::string s = std::string(comp[c.integer(0, 9)]) + item[c.integer(0, 5)];
        if (seen.insert(s).second) L._hydroUnitLabels.push_back(s);
    }
    if (nf) { L.RecordFractions(); L._hydroUnitFractionLabels.assign(frl.begin(), frl.begin() + nf); }
    L._subBasinInitialValues = axd::Ones(ns) * NAN_D;
    L._subBasinValues = vecAxd(ns, axd::Ones(n) * NAN_D);
    L._subBasinValuesPt.resize(ns);
    L._hydroUnitAreas.resize(nu);
    for (int u = 0; u < nu; u++) { L._hydroUnitIds.push_back(3 * u + 5); L._hydroUnitStructureIds.push_back((int)c.integer(1, 3)); L._hydroUnitAreas[u] = 1 + 99 * c.u(); }
    L._hydroUnitInitialValues = vecAxd(nh, axd::Ones(nu) * NAN_D);
    L._hydroUnitValues = vecAxxd(nh, axxd::Ones(n, nu) * NAN_D);
    L._hydroUnitValuesPt = std::vector<vecDoublePt>(nh, vecDoublePt(nu, nullptr));
    L._hydroUnitFractions = vecAxxd(nf, axxd::Ones(n, nu) * NAN_D);
    L._hydroUnitFractionsPt = std::vector<vecDoublePt>(nf, vecDoublePt(nu, nullptr));
    std::vector<double> vs(ns);
    std::vector<std::vector<double>> vh(nh, std::vector<double>(nu)), vf(nf, std::vector<double>(nu));
    std::vector<std::vector<bool>> hasH(nh, std::vector<bool>(nu)), hasF(nf, std::vector<bool>(nu));
    for (int k = 0; k < ns; k++) L.SetSubBasinValuePointer(k, &vs[k]);
    for (int k = 0; k < nh; k++)
        for (int u = 0; u < nu; u++)
            if ((hasH[k][u] = c.chance(0.8))) L.SetHydroUnitValuePointer(u, k, &vh[k][u]);
    for (int k = 0; k < nf; k++)
        for (int u = 0; u < nu; u++)
            if ((hasF[k][u] = c.chance(0.85))) L.SetHydroUnitFractionPointer(u, k, &vf[k][u]);
    std::vector<int> etS, etH;
    for (int k = 0; k < ns; k++) if (L._subBasinLabels[k].find(":output") != std::string::npos && c.chance(0.6)) { etS.push_back(k); L.AddSubBasinEtIndex(k); }
    for (int k = 0; k < nh; k++) if (L._hydroUnitLabels[k].find(":output") != std::string::npos && c.chance(0.6)) { etH.push_back(k); L.AddHydroUnitEtIndex(k); }
    auto draw = [&] {
        for (auto& v : vs) v = c.chance(0.2) ? 0 : c.u() * 100 - 20;
        for (auto& r : vh) for (auto& v : r) v = c.chance(0.2) ? 0 : c.u() * 100 - 20;
        for (auto& r : vf) for (auto& v : r) v = c.chance(0.2) ? 0 : c.u();
    };
    int runs = c.inum("runs", 1, 2);
    std::vector<double> is, tt;
    std::vector<std::vector<double>> ih;
    std::vector<std::vector<double>> rs;                 // step x label
    std::vector<std::vector<std::vector<double>>> rh, rf;  // step x label x unit
    for (int r = 0; r < runs; r++) {
        if (r) L.Reset();
        rs.clear(); rh.clear(); rf.clear(); tt.clear();
        draw();
        is = vs; ih = vh;
        L.SaveInitialValues();
        for (int i = 0; i < n; i++) {
            draw();
            double date = 50000 + i * 0.25 + r * 1000;
            L.SetDate(date);
            L.Record();
            L.Increment();
            tt.push_back(date);
            rs.push_back(vs); rh.push_back(vh); rf.push_back(vf);
            // rows not reached yet are untouched on the first run
            if (r == 0)
                for (int j = i + 1; j < n; j++)
                    for (int k = 0; k < ns; k++) c.check(std::isnan(L._subBasinValues[k][j]), "a later row is untouched", "");
        }
    }
    for (int i = 0; i < n; i++) {
        c.eq(L._time[i], tt[i], "row date", 0, 0);
        for (int k = 0; k < ns; k++) c.eq(L._subBasinValues[k][i], rs[i][k], "sub-basin cell", 0, 0);
        for (int k = 0; k < nh; k++)
            for (int u = 0; u < nu; u++)
                if (hasH[k][u]) c.eq(L._hydroUnitValues[k](i, u), rh[i][k][u], "unit cell", 0, 0);
                else c.check(std::isnan(L._hydroUnitValues[k](i, u)), "an absent element has no value", "");
        for (int k = 0; k < nf; k++)
            for (int u = 0; u < nu; u++)
                if (hasF[k][u]) c.eq(L._hydroUnitFractions[k](i, u), rf[i][k][u], "fraction cell", 0, 0);
                else c.check(std::isnan(L._hydroUnitFractions[k](i, u)), "an absent cover has no fraction", "");
    }
    for (int k = 0; k < ns; k++) c.eq(L._subBasinInitialValues[k], is[k], "initial sub-basin value", 0, 0);
    for (int k = 0; k < nh; k++)
        for (int u = 0; u < nu; u++)
            if (hasH[k][u]) c.eq(L._hydroUnitInitialValues[k](u), ih[k][u], "initial unit value", 0, 0);
            else c.check(std::isnan(L._hydroUnitInitialValues[k](u)), "an absent element has no initial value", "");
    // totals
    double A = 0;
    for (int u = 0; u < nu; u++) A += L._hydroUnitAreas[u];
    auto coverOf = [&](const std::string& label) {
        std::string b = label.substr(0, label.find(':'));
        for (int j = 0; j < nf; j++) {
            const std::string& f = L._hydroUnitFractionLabels[j];
            if (b == f || b == f + "_snowpack" || b == f + "_canopy") return j;
        }
        return -1;
    };
    auto frac = [&](int k, int i, int u) {
        int j = coverOf(L._hydroUnitLabels[k]);
        if (j < 0) return 1.0;
        return hasF[j][u] ? rf[i][j][u] : 0.0;
    };
    double et = 0;
    for (int k : etS) for (int i = 0; i < n; i++) et += rs[i][k];
    for (int k : etH)
        for (int u = 0; u < nu; u++)
            if (hasH[k][u]) for (int i = 0; i < n; i++) et += rh[i][k][u] * frac(k, i, u) * L._hydroUnitAreas[u] / A;
    c.eq(L.GetTotalET(), et, "total ET", 1e-9, 1e-9);
    static const char* kinds[3] = {":water_content", ":snow_content", ":ice_content"};
    for (int q = 0; q < 3; q++) {
        double fin = 0, ini = 0, sf = 0, si = 0;
        for (int k = 0; k < nh; k++)
            if (L._hydroUnitLabels[k].ends_with(kinds[q]))
                for (int u = 0; u < nu; u++)
                    if (hasH[k][u]) {
                        fin += rh[n - 1][k][u] * frac(k, n - 1, u) * L._hydroUnitAreas[u] / A;
                        ini += ih[k][u] * frac(k, 0, u) * L._hydroUnitAreas[u] / A;
                    }
        for (int k = 0; k < ns; k++)
            if (L._subBasinLabels[k].ends_with(kinds[q])) { sf += rs[n - 1][k]; si += is[k]; }
        c.eq(L.GetHydroUnitsFinalStorageState(kinds[q]), fin, "final unit storage", 1e-9, 1e-9);
        c.eq(L.GetHydroUnitsInitialStorageState(kinds[q]), ini, "initial unit storage", 1e-9, 1e-9);
        c.eq(L.GetSubBasinFinalStorageState(kinds[q]), sf, "final sub-basin storage", 1e-9, 1e-9);
        c.eq(L.GetSubBasinInitialStorageState(kinds[q]), si, "initial sub-basin storage", 1e-9, 1e-9);
        double ch = q == 0 ? L.GetTotalWaterStorageChanges() : q == 1 ? L.GetTotalSnowStorageChanges() : L.GetTotalGlacierStorageChanges();
        c.eq(ch, fin - ini + sf - si, "storage change", 1e-9, 1e-8);
    }
    for (const char* it : {":runoff:output", ":melt:output", "ground:", ":et:output", "reservoir"}) {
        double sw = 0, su = 0, sb = 0;
        for (int k = 0; k < nh; k++)
            if (L._hydroUnitLabels[k].find(it) != std::string::npos)
                for (int u = 0; u < nu; u++)
                    if (hasH[k][u]) for (int i = 0; i < n; i++) { su += rh[i][k][u]; sw += rh[i][k][u] * L._hydroUnitAreas[u] / A; }
        for (int k = 0; k < ns; k++)
            if (L._subBasinLabels[k].find(it) != std::string::npos) for (int i = 0; i < n; i++) sb += rs[i][k];
        c.eq(L.GetTotalHydroUnits(it, true), sw, "area-weighted total", 1e-9, 1e-8);
        c.eq(L.GetTotalHydroUnits(it, false), su, "plain total", 1e-9, 1e-8);
        c.eq(L.GetTotalSubBasin(it), sb, "sub-basin total", 1e-9, 1e-8);
    }
    double q = 0;
    axd od = L.GetOutletDischarge();
    for (int k = 0; k < ns; k++) if (L._subBasinLabels[k] == "outlet") for (int i = 0; i < n; i++) { q += rs[i][k]; c.eq(od[i], rs[i][k], "outlet series", 0, 0); }
    c.eq(L.GetTotalOutletDischarge(), q, "total discharge", 1e-9, 1e-8);
    c.cover("units:" + std::to_string(nu) + "/fr:" + std::to_string(nf));
    if (c.chance(0.01)) {
        char tmpl[] = "/tmp/hbc19XXXXXX";
        if (char* dir = mkdtemp(tmpl)) {
            bool w = L.DumpOutputs(dir);
            c.check(w, "the results are written", "");
            if (w) ncCheck(c, L, dir);
            unlink((std::string(dir) + "/results.nc").c_str());
            rmdir(dir);
        }
    }
}
int main(int argc, char** argv) { return Main(argc, argv); }
