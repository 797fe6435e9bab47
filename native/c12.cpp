#include "unit.h"
#include "ActionLandCoverChange.h"
#include "ActionsManager.h"
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
using namespace hb;

struct Slot { Brick* b; ContentType t; const char* role; };

static std::vector<Slot> slotsOf(HydroUnit* u, LandCover* lc) {
    std::vector<Slot> v;
    auto add = [&](Brick* b, ContentType t, const char* r) { if (b && std::isfinite(b->GetContent(t))) v.push_back({b, t, r}); };
    add(lc, ContentType::Water, "water");
    if (lc->GetCategory() == BrickCategory::Glacier) add(lc, ContentType::Ice, "ice");
    Brick* s = u->TryGetBrick(lc->GetName() + "_snowpack");
    add(s, ContentType::Snow, "snow");
    add(s, ContentType::Water, "snow water");
    add(u->TryGetBrick(lc->GetName() + "_canopy"), ContentType::Water, "canopy");
    return v;
}

struct Snap {
    std::map<std::string, double> fr, depth;   // cover; cover/role
    std::map<std::string, bool> has;
};

static Snap snap(HydroUnit* u) {
    Snap s;
    for (auto* lc : u->_landCoverBricks) {
        s.fr[lc->GetName()] = lc->GetAreaFraction();
        for (auto& x : slotsOf(u, lc)) s.depth[lc->GetName() + "/" + x.role] = x.b->GetContent(x.t), s.has[lc->GetName() + "/" + x.role] = true;
    }
    return s;
}

static double total(const Snap& s, const std::string& role, const std::vector<std::string>& covers) {
    double t = 0;
    for (auto& cv : covers) { auto it = s.depth.find(cv + "/" + role); if (it != s.depth.end()) t += it->second * s.fr.at(cv); }
    return t;
}

static void judge(Ctx& c, HydroUnit* u, const std::string& name, double want, const Snap& a, const Snap& b, bool ok, const std::string& generic) {
    std::vector<std::string> all;
    for (auto& x : a.fr) all.push_back(x.first);
    double sum = 0, sa = 0;
    for (auto& x : b.fr) {
        sum += x.second;
        sa += a.fr.at(x.first);
        c.check(x.second >= -1e-12 && x.second <= 1 + 1e-9, "C12 fractions stay in [0,1]", x.first);
    }
    (void)sa;
    if (!ok) {
        c.check(a.fr == b.fr && a.depth == b.depth, "C12 a refused change modifies nothing", name);
        c.cover(generic.empty() ? "refused/no generic" : "refused");
        return;
    }
    c.eq(sum, 1.0, "C12 fractions of the unit sum to one", 1e-9, 0);
    bool self = name == generic;
    for (auto& x : b.fr) if (x.first != name && x.first != generic) c.check(a.fr.at(x.first) == x.second, "C12 other covers keep their fraction", x.first);
    for (auto& x : b.depth) {
        std::string cv = x.first.substr(0, x.first.find('/'));
        if (cv != name && cv != generic) c.check(a.depth.at(x.first) == x.second, "C12 other covers keep their content", x.first);
    }
    if (self || generic.empty()) {
        c.cover(self ? "generic itself" : "no generic");
        if (self) c.check(a.fr == b.fr || std::abs(b.fr.at(name) - a.fr.at(name)) < 1e-9, "C12 the generic cover only balances the others");
        c.check(a.depth == b.depth, "C12 no content moves when no land changes hands");
        return;
    }
    c.eq(b.fr.at(name), want, "C12 the cover takes the requested fraction", 1e-12, 1e-15);
    c.eq(b.fr.at(generic), a.fr.at(generic) + a.fr.at(name) - want, "C12 the generic cover absorbs the change", 1e-9, 1e-12);
    double d = want - a.fr.at(name);
    std::string rec = d > 0 ? name : generic, don = d > 0 ? generic : name;
    auto hasRole = [&](const std::string& cv, const char* r) { return a.has.count(cv + "/" + r) > 0; };
    // liquid water: always conserved over the unit
    double w0 = 0, w1 = 0;
    for (const char* r : {"water", "snow water", "canopy"}) { w0 += total(a, r, all); w1 += total(b, r, all); }
    c.eq(w1, w0, "C12 stored water conserved by the change", 1e-9, 1e-9);
    c.cover(d > 0 ? "grows" : "shrinks");
    for (const char* r : {"snow", "ice"}) {
        if (hasRole(rec, r)) {
            c.eq(total(b, r, all), total(a, r, all), std::string("C12 stored ") + r + " conserved by the change", 1e-9, 1e-9);
            c.cover(std::string(r) + (hasRole(don, r) ? " moved" : " thinned"));
        } else if (hasRole(don, r) && b.fr.at(don) > 1e-12) {
            c.check(a.depth.at(don + "/" + r) == b.depth.at(don + "/" + r), std::string("C12 ") + r + " nobody can take stays");
        }
    }
    for (auto& r : a.depth) {   // what the donor keeps has the same depth
        if (r.first.substr(0, r.first.find('/')) != don) continue;
        if (b.fr.at(don) > 1e-9) c.check(b.depth.at(r.first) == r.second, "C12 the land that stays keeps its depth", r.first);
        else if (b.fr.at(don) == 0 && std::abs(d) > 1e-12) c.check(b.depth.at(r.first) == 0, "C12 a cover that vanished holds nothing", r.first);
    }
    for (auto& r : b.depth) c.check(r.second >= 0, "C12 no negative content");
    for (auto* lc : u->_landCoverBricks) for (auto& p : lc->_processes) for (int j = 0; j < p->GetOutputFluxCount(); j++) {
        Flux* f = p->GetOutputFlux(j);
        if (f->NeedsWeighting()) c.check(f->_fractionLandCover == lc->GetAreaFraction(), "C12 fluxes follow the new fraction");
    }
}

static double aFraction(Ctx& c, HydroUnit* u, const std::string& name, const std::string& generic) {
    LandCover* lc = u->TryGetLandCover(name);
    LandCover* g = generic.empty() ? nullptr : u->TryGetLandCover(generic);
    double room = g && g != lc ? g->GetAreaFraction() : 0, cur = lc ? lc->GetAreaFraction() : 0;
    switch (c.integer(0, 7)) {
        case 0: return 0;
        case 1: return std::min(1.0, cur + room);
        case 2: return c.u(-0.2, 1.2);
        case 3: return cur;
        case 4: return c.u(0, std::max(0.0, cur));
        case 5: return 1;
        default: return std::min(1.0, c.u(0, cur + room));
    }
}

HB_CASE(unit, 5) {
    HydroUnit u(c.num("area", 1, 1e6));
    SettingsModel s;
    static const char* gen[] = {"open", "ground", "generic", "generic_land_cover"};
    static const char* oth[] = {"forest", "glacier", "glacier_2", "urban", "lake"};
    std::vector<std::string> covers;
    std::string generic;
    int n = c.inum("covers", 1, 5);
    int gi = c.chance(0.9) ? c.integer(0, 3) : -1;
    for (int i = 0; i < n; i++) covers.push_back(oth[i]);
    if (gi >= 0) { generic = gen[gi]; covers[c.integer(0, n - 1)] = generic; }
    std::vector<double> w;
    double sum = 0;
    for (int i = 0; i < n; i++) { w.push_back(c.chance(0.15) && n > 1 ? 0 : c.u(0.01, 1)); sum += w.back(); }
    if (sum == 0) { w[0] = 1; sum = 1; }
    for (int i = 0; i < n; i++) {
        bool gl = covers[i].starts_with("glacier");
        c.note("cover", covers[i]);
        auto b = Brick::Factory(gl ? BrickType::Glacier : BrickType::GenericLandCover);
        b->SetName(covers[i]);
        auto* lc = dynamic_cast<LandCover*>(b.get());
        u.AddBrick(std::move(b));
        bool inf = gl && c.chance(0.3);
        if (inf) dynamic_cast<Glacier*>(lc)->_ice->SetAsInfiniteStorage();
        lc->_areaFraction = w[i] / sum;
        c.note("fraction", w[i] / sum);
        auto amount = [&] { return c.chance(0.25) ? 0.0 : c.u(0, 500); };
        lc->UpdateContent(amount(), ContentType::Water);
        if (gl && !inf) lc->UpdateContent(amount() * 100, ContentType::Ice);
        if (c.chance(0.7)) {
            auto sp = Brick::Factory(BrickType::Snowpack);
            sp->SetName(covers[i] + "_snowpack");
            dynamic_cast<SurfaceComponent*>(sp.get())->SetParent(lc);
            sp->UpdateContent(amount(), ContentType::Snow);
            sp->UpdateContent(amount(), ContentType::Water);
            u.AddBrick(std::move(sp));
        }
        if (c.chance(0.4)) {
            auto sp = Brick::Factory(BrickType::InterceptionStorage);
            sp->SetName(covers[i] + "_canopy");
            dynamic_cast<SurfaceComponent*>(sp.get())->SetParent(lc);
            sp->UpdateContent(amount(), ContentType::Water);
            u.AddBrick(std::move(sp));
        }
    }
    int changes = c.inum("changes", 1, 6);
    for (int k = 0; k < changes; k++) {
        std::string nm = c.chance(0.03) ? "nowhere" : covers[c.integer(0, n - 1)];
        double f = aFraction(c, &u, nm, generic);
        c.note("change", nm);
        c.note("to", f);
        Snap a = snap(&u);
        LandCover* g = generic.empty() ? nullptr : u.TryGetLandCover(generic);
        LandCover* lc = u.TryGetLandCover(nm);
        bool ok = u.ChangeLandCoverAreaFraction(nm, f);
        Snap b = snap(&u);
        bool can = lc && f >= 0 && f <= 1;
        if (can && g && g != lc) {
            double room = a.fr[generic] - (f - a.fr[nm]);
            if (room > 1e-12) c.check(ok, "C12 a change that can be balanced is accepted");
            if (room < -1e-12) c.check(!ok, "C12 a change that cannot be balanced is refused");
        }
        if (!can) c.check(!ok, "C12 an impossible fraction or an unknown cover is refused");
        if (can && !g && n > 1 && std::abs(f - a.fr[nm]) > 1e-9) c.check(!ok, "C12 a change that cannot be balanced is refused", "no generic cover");
        judge(c, &u, nm, f, a, b, ok, generic);
    }
}

// covers of running models, changed by the action
HB_CASE(model, 3) {
    Mdl d;
    Opt o;
    o.kind = K_SOCONT;
    o.infiniteGlacier = c.chance(0.3);
    if (!build(c, d, o)) return;
    if (d.covers.size() < 2) return;
    randomStates(c, d);
    if (!d.m->InitializeTimeSeries()) return;
    Processor* p = d.m->GetProcessor();
    for (int i = 0; i < d.nSteps; i++) {
        try { if (!p->ProcessTimeStep(1.0)) return; } catch (const std::exception&) { return; }
        int ui = c.integer(0, d.nUnits - 1);
        HydroUnit* u = d.m->GetSubBasin()->GetHydroUnit(ui);
        std::string nm = d.covers[c.integer(0, (int)d.covers.size() - 1)];
        double f = aFraction(c, u, nm, "ground");
        c.note("unit", ui);
        c.note("change", nm);
        c.note("to", f);
        std::vector<Snap> before;
        for (int k = 0; k < d.nUnits; k++) before.push_back(snap(d.m->GetSubBasin()->GetHydroUnit(k)));
        ActionsManager am;
        am.SetModel(d.m.get());
        ActionLandCoverChange act;
        double date = d.m->GetTimeMachine()->GetDate();
        act.AddChange(date, d.ids[ui], nm, f * u->GetArea());
        bool ok = true;
        if (f > 1e-8 && f < 1e-7) f = 0.01;
        c.check(am.AddAction(&act), "C12 the action is accepted by the manager");
        double asked = act._areas[0] / u->GetArea();
        try { am.DateUpdate(date); } catch (const std::exception&) { ok = false; }
        if (std::abs(asked) < 1e-8) asked = 0;
        if (std::abs(asked - 1) < 1e-8) asked = 1;
        for (int k = 0; k < d.nUnits; k++) {
            HydroUnit* v = d.m->GetSubBasin()->GetHydroUnit(k);
            Snap b = snap(v);
            if (k == ui) judge(c, v, nm, asked, before[k], b, ok, "ground");
            else c.check(b.fr == before[k].fr && b.depth == before[k].depth, "C12 the other units are not touched");
        }
        c.cover(ok ? "action" : "action refused");
        d.m->GetTimeMachine()->IncrementTime();
        if (i + 1 < d.nSteps && !d.m->UpdateForcing()) return;
    }
}

// glacier evolution: the extents follow the lookup table, the ice is spread over them without loss
HB_CASE(evolution, 3) {
    Mdl d;
    Opt o;
    o.kind = K_SOCONT;
    o.startOffset = c.integer(20, 30);
    o.minSteps = 3;
    o.maxSteps = 14;
    if (!build(c, d, o)) return;
    if (d.covers.size() < 2) return;
    const std::string gl = d.covers[1];
    bool scaling = c.flag("area_scaling");
    int rows = c.inum("rows", 2, 30), n = 0;
    std::vector<int> us;
    for (int u = 0; u < d.nUnits; u++) if (c.chance(0.85)) us.push_back(u);
    n = (int)us.size();
    if (!n) return;
    axi ids(n);
    axxd areas(rows, n), vols(rows, n);
    bool any = false;
    for (int i = 0; i < n; i++) {
        int u = us[i];
        LandCover* lc = d.sb.GetHydroUnit(u)->TryGetLandCover(gl);
        ids(i) = d.ids[u];
        double a0 = lc->GetAreaFraction() * d.areas[u];
        if (a0 <= 0) return;   // the tables describe existing glaciers
        any = true;
        double v0 = a0 * c.u(0.01, 2);
        double a = 1, v = 1;
        int gone = c.chance(0.4) ? c.integer(1, rows) : rows;
        for (int r = 0; r < rows; r++) {
            if (r > 0) { a = std::max(0.0, a - c.u() * 2.0 / rows); v = std::max(0.0, 1 - (double)r / (rows - 1)); }
            bool z = r >= gone || r == rows - 1 || a == 0;
            areas(r, i) = z ? 0 : a0 * a;
            vols(r, i) = z ? 0 : v0 * v;
            if (z) a = 0;
        }
    }
    if (!any) return;
    ActionGlacierEvolutionDeltaH dh;
    ActionGlacierEvolutionAreaScaling as;
    Action* act = scaling ? (Action*)&as : (Action*)&dh;
    if (scaling) as.AddLookupTables(2, gl, ids, areas, vols); else dh.AddLookupTables(2, gl, ids, areas, vols);
    if (!d.m->AddAction(act)) { c.cover("refused tables"); return; }
    std::vector<HydroUnit*> hu;
    std::vector<LandCover*> g;
    double init = 0;
    for (int i = 0; i < n; i++) {
        hu.push_back(d.sb.GetHydroUnit(us[i]));
        g.push_back(hu[i]->TryGetLandCover(gl));
        double rho = constants::iceDensity;
        c.eq(g[i]->GetContent(ContentType::Ice), vols(0, i) * rho / areas(0, i), "C12 the glacier starts with the tabled volume", 1e-12, 0);
        init += vols(0, i) * rho;
    }
    c.check((bool)d.m->InitializeTimeSeries(), "C12 forcing");
    auto volume = [&](int i) { return g[i]->GetContent(ContentType::Ice) * g[i]->GetAreaFraction() * d.areas[us[i]]; };
    auto water = [&](int u) {
        HydroUnit* h = d.sb.GetHydroUnit(u);
        double t = 0;
        for (auto* lc : h->_landCoverBricks) for (auto& s : slotsOf(h, lc)) if (std::string(s.role) != "ice" && std::string(s.role) != "snow") t += s.b->GetContent(s.t) * lc->GetAreaFraction();
        return t;
    };
    for (int t = 1; t <= d.nSteps; t++) {
        d.m->GetProcessor()->ProcessTimeStep(1.0);
        // any melt history: the ice is set between steps
        bool fresh = c.chance(0.5);
        for (int i = 0; i < n && fresh; i++) if (g[i]->GetAreaFraction() > 0) {
            double f = c.chance(0.1) ? 0 : c.chance(0.2) ? c.u(1, 1.3) : c.u();
            g[i]->UpdateContent(vols(0, i) * constants::iceDensity * f / (g[i]->GetAreaFraction() * d.areas[us[i]]), ContentType::Ice);
        }
        std::vector<double> before, a0, w0;
        double tot = 0;
        for (int i = 0; i < n; i++) { before.push_back(volume(i)); tot += before[i]; a0.push_back(g[i]->GetAreaFraction()); }
        for (int u = 0; u < d.nUnits; u++) w0.push_back(water(u));
        d.m->GetTimeMachine()->IncrementTime();
        bool due = o.startOffset + t == 31;
        auto rowsFor = [&](double pc) { double x = std::max(0.0, pc) * (rows - 1); std::set<int> r{(int)std::floor(x)}; for (double e : {-1e-9, 1e-9}) r.insert(std::max(0, (int)std::floor(x + e))); return r; };
        if (!due) {
            for (int i = 0; i < n; i++) { c.check(g[i]->GetAreaFraction() == a0[i], "C12 glaciers change on their date only"); c.check(volume(i) == before[i], "C12 the ice changes on its date only"); }
        } else if (!scaling) {
            double after = 0;
            auto rs = rowsFor((init - tot) / init);
            bool ok = false;
            int row = *rs.begin();
            for (int r : rs) { bool all = r < rows; for (int i = 0; i < n && all; i++) if (std::abs(g[i]->GetAreaFraction() * d.areas[us[i]] - areas(r, i)) > 1e-6 * d.areas[us[i]]) all = false; if (all) { ok = true; row = r; } }
            c.check(ok, "C12 the glacier takes the tabled extent");
            for (int i = 0; i < n; i++) after += volume(i);
            double sum = 0;
            for (int i = 0; i < n; i++) sum += vols(row, i);
            if (sum > 0) {
                c.eq(after, tot, "C12 glacier evolution conserves the ice", 1e-6, 1e-6 * init);
                for (int i = 0; i < n; i++) c.eq(volume(i), tot * vols(row, i) / sum, "C12 the ice is spread like the tabled volumes", 1e-6, 1e-6 * init);
            }
            c.cover(row == 0 ? "delta-h/first row" : sum > 0 ? "delta-h/row" : "delta-h/gone");
        } else {
            for (int i = 0; i < n; i++) {
                double v0 = vols(0, i) * constants::iceDensity;
                if (a0[i] <= 1e-8) continue;
                if (before[i] < 1e-7) { if (before[i] < 1e-9) { c.eq(g[i]->GetAreaFraction(), 0, "C12 a glacier without ice vanishes", 0, 1e-12); c.cover("area scaling/melted"); } continue; }
                bool ok = false, gone = false;
                for (int r : rowsFor((v0 - before[i]) / v0)) { if (r >= rows) continue; if (areas(r, i) <= 1e-6 * d.areas[us[i]]) gone = true; if (std::abs(g[i]->GetAreaFraction() * d.areas[us[i]] - areas(r, i)) < 1e-6 * d.areas[us[i]]) ok = true; }
                c.check(ok, "C12 the glacier takes the tabled extent");
                c.check(std::isfinite(g[i]->GetContent(ContentType::Ice)), "C12 the ice of a glacier stays finite");
                if (!gone) { c.eq(volume(i), before[i], "C12 glacier evolution conserves the ice", 1e-6, 1e-9 * v0); c.cover("area scaling/row"); }
                else c.cover("area scaling/gone");
            }
        }
        for (int u = 0; u < d.nUnits; u++) {
            c.eq(water(u), w0[u], "C12 stored water conserved by the change", 1e-9, 1e-9);
            double s = 0;
            for (auto* lc : d.sb.GetHydroUnit(u)->_landCoverBricks) s += lc->GetAreaFraction();
            c.eq(s, 1, "C12 fractions of the unit sum to one", 1e-6, 0);
        }
        if (t < d.nSteps) c.check((bool)d.m->UpdateForcing(), "C12 forcing");
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
