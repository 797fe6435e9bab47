#include "unit.h"
#include "FluxSimple.h"
#include "SplitterRain.h"
#include "SplitterMultiFluxes.h"
using namespace hb;

struct SplitLab {
    SettingsModel s;
    std::unique_ptr<Splitter> sp;
    std::vector<std::unique_ptr<Series>> in;
    std::vector<FluxSimple*> out;
    HydroUnit unit{1000.0};
    void build(const std::string& type, const std::vector<std::pair<std::string, double>>& pars, double elevation, int nOut) {
        s.AddHydroUnitSplitter("x", type);
        for (auto& p : pars) s.AddSplitterParameter(p.first, (float)p.second);
        const SplitterSettings& st = s.GetHydroUnitSplitterSettings(0);
        sp = Splitter::Factory(st);
        sp->SetParameters(st);
        for (auto& f : in) sp->AttachForcing(&f->f);
        unit.AddProperty(std::make_unique<HydroUnitProperty>("elevation", elevation, "m"));
        sp->SetHydroUnitProperties(&unit);
        for (int i = 0; i < nOut; i++) {
            auto f = std::make_unique<FluxSimple>();
            out.push_back(f.get());
            sp->AttachFluxOut(std::move(f));
        }
    }
};

static double share(Ctx& c, const std::string& type, double T, double tn, double tx, double a, double b, double z) {
    (void)c;
    if (type == "snow_rain:threshold") return T <= a ? 1 : 0;
    if (type == "snow_rain:linear") return T <= a ? 1 : T >= b ? 0 : (b - T) / (b - a);
    if (z >= 1500) return T <= -1 ? 1 : T >= 3 ? 0 : (3 - T) / 4;
    if (tx < tn) tx = tn;
    return tx <= 0 ? 1 : tn >= 0 ? 0 : -tn / (tx - tn);
}

HB_CASE(snow_rain, 3) {
    static const char* types[] = {"snow_rain:threshold", "snow_rain:linear", "snow_rain:cemaneige"};
    int k = c.pick("type", 3);
    std::string type = types[k];
    double P = c.num("precip", 0, 200), T = c.num("T", -30, 30), tn = T - c.num("below", 0, 12), tx = T + c.num("above", 0, 12);
    if (c.chance(0.1)) { tn = 0; c.note("tmin", 0); }
    if (c.chance(0.1)) { tx = std::max(tn, 0.0); c.note("tmax", tx); }
    double a = fl(c.num("start", -3, 3)), b = fl(a + c.num("width", 0, 4)), z = c.num("elevation", 0, 3500);
    if (c.chance(0.1)) z = 1500;
    if (c.chance(0.15)) T = a;
    else if (c.chance(0.15)) T = b;
    else if (c.chance(0.1)) T = c.chance(0.5) ? -1 : 3;
    c.note("T", T); c.note("z", z);
    bool hasCf = c.flag("corrections", 0.6);
    double rcf = hasCf ? fl(c.num("rcf", 0, 2)) : 1, scf = hasCf ? fl(c.num("scf", 0, 2)) : 1;
    if (hasCf && c.chance(0.3)) scf = rcf;
    std::vector<std::pair<std::string, double>> p;
    if (k == 0) p.push_back({"threshold", a});
    if (k == 1) { p.push_back({"transition_start", a}); p.push_back({"transition_end", b}); }
    if (hasCf) { p.push_back({"rain_correction_factor", rcf}); p.push_back({"snow_correction_factor", scf}); }
    SplitLab l;
    l.in.push_back(std::make_unique<Series>(VariableType::Precipitation, P));
    l.in.push_back(std::make_unique<Series>(VariableType::Temperature, T));
    if (k == 2) {
        l.in.push_back(std::make_unique<Series>(VariableType::TemperatureMin, tn));
        l.in.push_back(std::make_unique<Series>(VariableType::TemperatureMax, tx));
    }
    l.build(type, p, z, 2);
    c.check(l.sp->IsValid(), "C04 a complete splitter is accepted");
    int rep = c.integer(1, 2);
    for (int r = 0; r < rep; r++) {
        l.sp->Compute();
        double f = share(c, type, T, tn, tx, a, b, z);
        double rain = l.out[0]->GetAmount(), snow = l.out[1]->GetAmount();
        c.eq(rain, P * (1 - f) * rcf, "C04 rain is the corrected liquid share: " + type, 1e-9, 1e-12 + P * 1e-6);
        c.eq(snow, P * f * scf, "C04 snow is the corrected solid share: " + type, 1e-9, 1e-12 + P * 1e-6);
        c.check(rain >= 0 && snow >= 0, "C04 shares are not negative: " + type);
        c.check(rain <= P * rcf * (1 + 1e-12) + 1e-12 && snow <= P * scf * (1 + 1e-12) + 1e-12, "C04 share within [0,1]: " + type);
        // the values a logger or receiver reads
        c.eq(*l.sp->GetValuePointer("rain"), rain, "C04 reported rain");
        c.eq(*l.sp->GetValuePointer("snow"), snow, "C04 reported snow");
        c.cover(type + (f == 0 ? "/rain" : f == 1 ? "/snow" : "/mixed") + (k == 2 ? (z >= 1500 ? "/high" : "/low") : ""));
        // an overridden temperature or precipitation is what the splitter uses
        if (r + 1 < rep) {
            P = c.num("precip2", 0, 100);
            T = c.num("T2", -10, 10);
            tn = std::min(tn, T); tx = std::max(tx, T);
            l.in[0]->f.UpdateValue(P);
            l.in[1]->f.UpdateValue(T);
            if (k == 2) { l.in[2]->f.UpdateValue(tn); l.in[3]->f.UpdateValue(tx); }
        }
    }
    // the snow share never rises with temperature
    double f1 = share(c, type, T, tn, tx, a, b, z);
    (void)f1;
    double before = l.out[1]->GetAmount(), up = c.num("warmer", 0, 6);
    l.in[1]->f.UpdateValue(T + up);
    if (k == 2) { l.in[2]->f.UpdateValue(tn + up); l.in[3]->f.UpdateValue(tx + up); }
    l.sp->Compute();
    c.check(l.out[1]->GetAmount() <= before + 1e-9 * (1 + before), "C04 the snow share falls with temperature: " + type);
}

HB_CASE(plain, 1) {
    if (c.flag("rain")) {
        double P = c.num("precip", 0, 200), rcf = fl(c.num("rcf", 0, 2));
        bool has = c.flag("corrected");
        SplitLab l;
        l.in.push_back(std::make_unique<Series>(VariableType::Precipitation, P));
        std::vector<std::pair<std::string, double>> p;
        if (has) p.push_back({"rain_correction_factor", rcf});
        l.build("rain", p, 1000, 1);
        l.sp->Compute();
        c.eq(l.out[0]->GetAmount(), P * (has ? rcf : 1), "C04 all precipitation is rain", 1e-9, 1e-12);
        c.cover(has ? "rain/corrected" : "rain");
    } else {
        SplitterMultiFluxes sp;
        FluxForcing ff;
        FluxToOutlet fo;
        double a = c.num("amount", 0, 200);
        Series s(VariableType::Precipitation, a);
        bool forcing = c.flag("from_forcing");
        ff.AttachForcing(&s.f);
        fo.UpdateFlux(a);
        sp.AttachFluxIn(forcing ? (Flux*)&ff : (Flux*)&fo);
        std::vector<std::unique_ptr<Flux>> more;
        for (int i = c.inum("more", 0, 3); i > 0; i--) {
            more.push_back(std::make_unique<FluxSimple>());
            double x = c.num("amount2", 0, 200);
            more.back()->UpdateFlux(x);
            sp.AttachFluxIn(more.back().get());
            a += x;
        }
        int n = c.inum("branches", 1, 5);
        std::vector<Flux*> o;
        for (int i = 0; i < n; i++) { auto f = std::make_unique<FluxSimple>(); o.push_back(f.get()); sp.AttachFluxOut(std::move(f)); }
        sp.Compute();
        for (int i = 0; i < n; i++) {
            c.eq(o[i]->GetAmount(), a, "C04 every branch gets the whole input");
            c.eq(*sp.GetValuePointer("output_" + std::to_string(i + 1)), a, "C04 reported branch amount");
        }
        c.cover("multi" + std::to_string(n));
    }
}

// rain and snow reaching the bricks of a model are the split of the forcing of the unit
HB_CASE(in_model, 1) {
    Mdl d;
    Opt o;
    o.kind = c.chance(0.5) ? K_SOCONT : K_HBV;
    if (!build(c, d, o)) return;
    if (!d.m->InitializeTimeSeries()) return;
    for (int i = 0; i < d.nSteps; i++) {
        for (int u = 0; u < d.nUnits; u++) {
            HydroUnit* hu = d.sb.GetHydroUnit(u);
            for (int k = 0; k < hu->GetSplitterCount(); k++) hu->GetSplitter(k)->Compute();
            for (int k = 0; k < hu->GetSplitterCount(); k++) {
                Splitter* s = hu->GetSplitter(k);
                if (s->GetName() != "snow_rain_transition") continue;
                double P = d.P(i, u), r = *s->GetValuePointer("rain"), n = *s->GetValuePointer("snow");
                c.eq(r + n, P, "C04 rain plus snow is the precipitation of the unit", 1e-9, 1e-12);
                double T = d.T(i, u);
                if (T < -5) c.eq(n, P, "C04 cold: all snow");
                if (T > 8) c.eq(r, P, "C04 warm: all rain");
                c.cover("model" + std::to_string(r > 0) + std::to_string(n > 0));
            }
        }
        if (i + 1 < d.nSteps && !d.m->UpdateForcing()) return;
    }
}

int main(int argc, char** argv) { return Main(argc, argv); }
