// N02: files written by the library, read back through the plain netCDF interface.
#include <netcdf.h>
#include <usml/biverbs/biverbs.h>
#include <usml/eigenrays/eigenrays.h>
#include <usml/eigenverbs/eigenverbs.h>
#include <usml/ocean/ocean.h>
#include <usml/types/types.h>
#include <usml/waveq3d/waveq3d.h>
#include "vt.h"
using namespace usml::biverbs;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;
using namespace usml::ocean;
using namespace usml::types;
using namespace usml::waveq3d;
static const double D = M_PI / 180;
struct File {
    int id = -1;
    bool ok;
    Case& C;
    std::string name;
    File(Case& c, const std::string& n) : C(c), name(n) { ok = nc_open(n.c_str(), NC_NOWRITE, &id) == NC_NOERR; CHECK(ok, "open", "can not open what was written"); }
    ~File() { if (ok) nc_close(id); }
    int dims() { int n = 0; nc_inq_ndims(id, &n); return n; }
    long dim(const char* n) { int d; size_t l; if (nc_inq_dimid(id, n, &d) != NC_NOERR) return -1; nc_inq_dimlen(id, d, &l); return (long)l; }
    std::string text(const char* att) { size_t l; char buf[512] = {0}; char* s; nc_type t; if (nc_inq_att(id, NC_GLOBAL, att, &t, &l) != NC_NOERR) return "(none)"; if (t == NC_STRING) { nc_get_att_string(id, NC_GLOBAL, att, &s); std::string r = s; nc_free_string(1, &s); return r; } if (l > 500) return "(long)"; nc_get_att_text(id, NC_GLOBAL, att, buf); return std::string(buf, l); }
    int number(const char* att) { int v = -999; nc_get_att_int(id, NC_GLOBAL, att, &v); return v; }
    std::string shape(const char* n) {
        int v, k, d[8];
        if (nc_inq_varid(id, n, &v) != NC_NOERR) return "missing";
        nc_inq_varndims(id, v, &k); nc_inq_vardimid(id, v, d);
        std::string s;
        for (int i = 0; i < k; ++i) { char b[NC_MAX_NAME + 1]; nc_inq_dimname(id, d[i], b); s += std::string(i ? "," : "") + b; }
        return s;
    }
    std::vector<double> get(const char* n) {
        int v, k, d[8];
        if (nc_inq_varid(id, n, &v) != NC_NOERR) { C.fail("missing", std::string("no variable ") + n); return {}; }
        nc_inq_varndims(id, v, &k); nc_inq_vardimid(id, v, d);
        size_t t = 1;
        for (int i = 0; i < k; ++i) { size_t l; nc_inq_dimlen(id, d[i], &l); t *= l; }
        std::vector<double> x(t);
        if (t && nc_get_var_double(id, v, x.data()) != NC_NOERR) C.fail("read", std::string("can not read ") + n);
        return x;
    }
    std::string units(const char* n) { int v; size_t l; char buf[128] = {0}; if (nc_inq_varid(id, n, &v) != NC_NOERR || nc_inq_attlen(id, v, "units", &l) != NC_NOERR || l > 100) return ""; nc_get_att_text(id, v, "units", buf); return std::string(buf, l); }
    // values are those given
    void same(const char* n, const std::vector<double>& want, double rel = 0) {
        auto got = get(n);
        vt::obs("values compared", (long)got.size());
        if (got.size() != want.size()) { C.fail(std::string("size_") + n, MSG(n << " has " << got.size() << " values instead of " << want.size())); return; }
        for (size_t i = 0; i < got.size(); ++i)
            if (!(rel == 0 ? vt::same(got[i], want[i]) : std::fabs(got[i] - want[i]) <= rel * (1 + std::fabs(want[i])))) { C.fail(std::string("value_") + n, MSG(n << "[" << i << "] is " << got[i] << " instead of " << want[i])); return; }
    }
};
static seq_vector::csptr freqs(Rng& R) {
    std::vector<double> f(R.in(1, 5));
    double x = R.logu(5, 500);
    for (auto& v : f) v = x, x *= R.uni(1.1, 4);
    return seq_vector::csptr(new seq_data(f.data(), f.size()));
}
static int count(Rng& R) { return R.chance(0.1) ? R.in(0, 30000) : R.in(0, 9); }
static eigenray_model::csptr ray(Rng& R, const seq_vector::csptr& f) {
    auto* r = new eigenray_model();
    r->frequencies = f; r->travel_time = R.uni(0.01, 100);
    r->intensity.resize(f->size()); r->phase.resize(f->size());
    for (size_t i = 0; i < f->size(); ++i) r->intensity[i] = R.uni(20, 120), r->phase[i] = R.uni(-7, 7);
    r->source_de = R.uni(-89, 89); r->target_de = R.uni(-89, 89); r->source_az = R.uni(-180, 360); r->target_az = R.uni(-180, 360);
    r->surface = count(R); r->bottom = count(R); r->caustic = count(R); r->upper = count(R); r->lower = count(R);
    return eigenray_model::csptr(r);
}
static eigenverb_model::csptr verb(Rng& R, const seq_vector::csptr& f) {
    auto* v = new eigenverb_model();
    v->travel_time = R.uni(0.01, 100); v->frequencies = f; v->power.resize(f->size());
    for (size_t i = 0; i < f->size(); ++i) v->power[i] = R.chance(0.05) ? 0 : R.logu(1e-20, 1);
    v->length = R.logu(1, 5000); v->width = R.logu(1, 5000);
    v->position = wposition1(R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 4000));
    v->direction = R.uni(0, 2 * M_PI); v->grazing = R.uni(0.01, 1.5); v->sound_speed = R.uni(1400, 1600);
    v->de_index = (size_t)count(R); v->az_index = (size_t)count(R); v->source_de = R.uni(-1.5, 1.5); v->source_az = R.uni(0, 6.2);
    v->surface = count(R); v->bottom = count(R); v->caustic = count(R); v->upper = count(R); v->lower = count(R);
    return eigenverb_model::csptr(v);
}
static double dB(double p) { return 10 * std::log10(std::max(p, 1e-30)); }
static std::string layer_name(size_t i) {
    if (i == 0) return "bottom eigenverbs";
    if (i == 1) return "surface eigenverbs";
    if (i == 2) return "upper volume eigenverbs";
    if (i == 3) return "lower volume eigenverbs";
    return std::string(i % 2 ? "lower" : "upper") + " volume " + std::to_string(i / 2) + " eigenverbs";
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    const std::string dir = vt::S().scratch + "/";
    vt::section("eigenrays", 250, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        size_t n1 = R.in(1, 4), n2 = R.in(1, 4), nf = f->size();
        wposition tgt(n1, n2);
        matrix<uint64_t> ids(n1, n2);
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
            tgt.latitude(i, j, R.uni(-80, 80)); tgt.longitude(i, j, R.uni(-180, 180)); tgt.altitude(i, j, -R.uni(0, 4000));
            ids(i, j) = R.chance(0.1) ? 5000000000ull + R.in(0, 99) : R.in(1, 1000);
        }
        wposition1 src(R.uni(-80, 80), R.uni(-180, 180), -R.uni(0, 4000));
        uint64_t sid = R.chance(0.1) ? 6000000000ull : R.in(1, 1000);
        eigenray_collection col(f, src, tgt, sid, ids, R.chance(0.5));
        std::map<std::pair<size_t, size_t>, std::vector<eigenray_model::csptr>> model;
        int adds = R.in(0, 20);
        bool sum = R.chance(0.8);
        C.in("rows", n1).in("cols", n2).in("freqs", nf).in("rays", adds).in("sum", sum);
        for (int k = 0; k < adds; ++k) { size_t i = R.in(0, n1 - 1), j = R.in(0, n2 - 1); auto r = ray(R, f); model[{i, j}].push_back(r); col.add_eigenray(i, j, r); }
        if (sum) col.sum_eigenrays();
        const std::string name = dir + "rays.nc";
        bool named = R.chance(0.5);
        if (named) col.write_netcdf(name.c_str(), "some paths"); else col.write_netcdf(name.c_str());
        File F(C, name);
        if (!F.ok) return;
        CHECK(F.dim("rows") == (long)n1 && F.dim("cols") == (long)n2 && F.dim("frequencies") == (long)nf && F.dim("eigenrays") == (long)(adds + n1 * n2), "dims", "dimensions");
        CHECK(F.text("Conventions") == "COARDS" && F.text("long_name") == (named ? "some paths" : "(none)"), "attributes", "global attributes");
        F.same("sourceID", {(double)sid}); F.same("source_latitude", {src.latitude()}); F.same("source_longitude", {src.longitude()}); F.same("source_altitude", {src.altitude()});
        F.same("frequencies", std::vector<double>(f->begin(), f->end()));
        std::vector<double> id, lat, lng, alt, init, pi, ei, en, I, P, t, sd, sa, td, ta, cs, cb, cc, cu, cl;
        double rec = 0;
        for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) {
            auto& m = model[{i, j}];
            id.push_back((double)ids(i, j)); lat.push_back(tgt.latitude(i, j)); lng.push_back(tgt.longitude(i, j)); alt.push_back(tgt.altitude(i, j)); init.push_back(col.initial_time(i, j));
            pi.push_back(rec); ei.push_back(rec + 1); en.push_back((double)m.size());
            rec += 1 + (double)m.size();
            auto put = [&](const eigenray_model& r) {
                for (size_t k = 0; k < nf; ++k) I.push_back(r.intensity[k]), P.push_back(r.phase[k]);
                t.push_back(r.travel_time); sd.push_back(r.source_de); sa.push_back(r.source_az); td.push_back(r.target_de); ta.push_back(r.target_az);
                cs.push_back(r.surface); cb.push_back(r.bottom); cc.push_back(r.caustic); cu.push_back(r.upper); cl.push_back(r.lower);
            };
            put(col.total(i, j));
            for (auto& r : m) put(*r);
        }
        F.same("targetID", id); F.same("latitude", lat); F.same("longitude", lng); F.same("altitude", alt); F.same("initial_time", init);
        F.same("proploss_index", pi); F.same("eigenray_index", ei); F.same("eigenray_num", en);
        F.same("intensity", I); F.same("phase", P); F.same("travel_time", t); F.same("source_de", sd); F.same("source_az", sa); F.same("target_de", td); F.same("target_az", ta);
        F.same("surface", cs); F.same("bottom", cb); F.same("caustic", cc); F.same("upper", cu); F.same("lower", cl);
        CHECK(F.shape("intensity") == "eigenrays,frequencies" && F.shape("latitude") == "rows,cols" && F.shape("travel_time") == "eigenrays", "shape", "shape of variables");
        CHECK(F.units("intensity") == "dB" && F.units("travel_time") == "seconds" && F.units("source_de") == "degrees" && F.units("latitude") == "degrees_north" && F.units("phase") == "radians", "units", "units");
    });
    vt::section("eigenverbs", 250, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        size_t vols = R.in(0, 3), nf = f->size(), adds = R.chance(0.1) ? 0 : R.in(1, 25);
        C.in("volumes", vols).in("freqs", nf).in("patches", adds);
        eigenverb_collection col(vols);
        for (size_t k = 0; k < adds; ++k) col.add_eigenverb(verb(R, f), (size_t)R.in(0, (int)(1 + 2 * vols)));
        eigenverb_collection back(vols);
        for (size_t w = 0; w < col.num_interfaces(); ++w) {
            const std::string name = dir + "verbs.nc";
            auto L = col.eigenverbs(w);
            C.in("empty", L.empty());
            col.write_netcdf(name.c_str(), w);
            {
                File F(C, name);
                if (!F.ok) return;
                CHECK(F.text("long_name") == layer_name(w), "interface_name", "file for interface " << w << " is named " << F.text("long_name"));
                if (w > 1) CHECK(F.number("layer") == (int)(w / 2), "interface_name", "file for interface " << w << " has layer " << F.number("layer"));
                if (!L.empty()) {
                    CHECK(F.dim("eigenverbs") == (long)L.size() && F.dim("frequencies") == (long)nf, "dims", "dimensions");
                    std::vector<double> t, p, l, wd, lat, lng, alt, dr, gr, c, di, ai, sd, sa, cs, cb, cc, cu, cl;
                    for (auto& v : L) {
                        t.push_back(v->travel_time); for (double x : v->power) p.push_back(dB(x));
                        l.push_back(v->length); wd.push_back(v->width); lat.push_back(v->position.latitude()); lng.push_back(v->position.longitude()); alt.push_back(v->position.altitude());
                        dr.push_back(v->direction / D); gr.push_back(v->grazing / D); c.push_back(v->sound_speed); di.push_back((double)v->de_index); ai.push_back((double)v->az_index); sd.push_back(v->source_de / D); sa.push_back(v->source_az / D);
                        cs.push_back(v->surface); cb.push_back(v->bottom); cc.push_back(v->caustic); cu.push_back(v->upper); cl.push_back(v->lower);
                    }
                    F.same("frequencies", std::vector<double>(f->begin(), f->end()));
                    F.same("travel_time", t); F.same("power", p, 1e-12); F.same("length", l); F.same("width", wd); F.same("latitude", lat); F.same("longitude", lng); F.same("altitude", alt);
                    F.same("direction", dr, 1e-12); F.same("grazing", gr, 1e-12); F.same("sound_speed", c); F.same("de_index", di); F.same("az_index", ai); F.same("source_de", sd, 1e-12); F.same("source_az", sa, 1e-12);
                    F.same("surface", cs); F.same("bottom", cb); F.same("caustic", cc); F.same("upper", cu); F.same("lower", cl);
                    CHECK(F.units("direction") == "degrees_true" && F.units("power") == "dB", "units", "units");
                }
            }
            // and back
            try {
                back.read_netcdf(name.c_str(), w);
            } catch (const std::exception& e) {
                C.fail("read_back", MSG("interface " << w << (L.empty() ? " (no patches)" : "") << ": reading the file back throws " << e.what()));
                continue;
            }
            auto B = back.eigenverbs(w);
            CHECK(B.size() == L.size(), "read_back_size", L.size() << " patches written, " << B.size() << " read");
            if (B.size() != L.size()) continue;
            // by travel time, in whatever order
            std::map<double, eigenverb_model::csptr> by;
            for (auto& b : B) by[b->travel_time] = b;
            for (auto& v : L) {
                auto it = by.find(v->travel_time);
                if (it == by.end()) { C.fail("read_back_value", "patch lost"); continue; }
                auto& b = it->second;
                bool ok = b->frequencies->size() == nf && b->power.size() == nf;
                auto close = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * (1e-12 + std::fabs(y)); };
                for (size_t k = 0; ok && k < nf; ++k) ok = close((*b->frequencies)(k), (*f)(k)) && (close(b->power[k], std::max(v->power[k], 1e-30)));
                CHECK(ok, "read_back_power", "frequencies or power differ after reading back");
                ok = close(b->length, v->length) && close(b->width, v->width) && std::fabs(b->position.latitude() - v->position.latitude()) < 1e-9 && std::fabs(b->position.longitude() - v->position.longitude()) < 1e-9 && std::fabs(b->position.altitude() - v->position.altitude()) < 1e-6 && close(b->direction, v->direction) && close(b->grazing, v->grazing) && close(b->sound_speed, v->sound_speed) && close(b->source_de, v->source_de) && close(b->source_az, v->source_az);
                CHECK(ok, "read_back_value", "values differ after reading back");
                ok = b->de_index == v->de_index && b->az_index == v->az_index && b->surface == v->surface && b->bottom == v->bottom && b->caustic == v->caustic && b->upper == v->upper && b->lower == v->lower;
                CHECK(ok, "read_back_count", "counts differ after reading back");
                vt::obs("patches read back");
            }
        }
    });
    vt::section("biverbs", 200, [&](Case& C, Rng& R) {
        auto f = freqs(R);
        size_t vols = R.in(0, 2), nf = f->size(), adds = R.in(0, 15);
        C.in("volumes", vols).in("freqs", nf).in("pairs", adds);
        biverb_collection::power_threshold = 0;
        biverb_collection col(vols);
        for (size_t k = 0; k < adds; ++k) {
            auto s = verb(R, f), r = verb(R, f);
            r->position = s->position;
            vector<double> sc(nf);
            for (auto& x : sc) x = R.logu(1e-4, 1);
            col.add_biverb(s, r, sc, (size_t)R.in(0, (int)(1 + 2 * vols)));
        }
        for (size_t w = 0; w < col.num_interfaces(); ++w) {
            const std::string name = dir + "biverbs.nc";
            auto L = col.biverbs(w);
            col.write_netcdf(name.c_str(), w);
            File F(C, name);
            if (!F.ok) return;
            CHECK(F.text("long_name") == layer_name(w), "biverb_interface", "file for interface " << w << " is named " << F.text("long_name"));
            if (L.empty()) { vt::obs("empty"); continue; }
            CHECK(F.dim("eigenverbs") == (long)L.size() && F.dim("frequencies") == (long)nf, "dims", "dimensions");
            std::vector<double> t, p, d, di, ai, sd, sa, s1, s2, s3, s4, s5, rd, ra, r1, r2, r3, r4, r5;
            for (auto& v : L) {
                t.push_back(v->travel_time); for (double x : v->power) p.push_back(dB(x));
                d.push_back(v->duration); di.push_back((double)v->de_index); ai.push_back((double)v->az_index); sd.push_back(v->source_de / D); sa.push_back(v->source_az / D); rd.push_back(v->receiver_de / D); ra.push_back(v->receiver_az / D);
                s1.push_back(v->source_surface); s2.push_back(v->source_bottom); s3.push_back(v->source_caustic); s4.push_back(v->source_upper); s5.push_back(v->source_lower);
                r1.push_back(v->receiver_surface); r2.push_back(v->receiver_bottom); r3.push_back(v->receiver_caustic); r4.push_back(v->receiver_upper); r5.push_back(v->receiver_lower);
            }
            F.same("frequencies", std::vector<double>(f->begin(), f->end()));
            F.same("travel_time", t); F.same("power", p, 1e-12); F.same("duration", d); F.same("de_index", di); F.same("az_index", ai); F.same("source_de", sd, 1e-12); F.same("source_az", sa, 1e-12); F.same("receiver_de", rd, 1e-12); F.same("receiver_az", ra, 1e-12);
            F.same("source_surface", s1); F.same("source_bottom", s2); F.same("source_caustic", s3); F.same("source_upper", s4); F.same("source_lower", s5);
            F.same("receiver_surface", r1); F.same("receiver_bottom", r2); F.same("receiver_caustic", r3); F.same("receiver_upper", r4); F.same("receiver_lower", r5);
        }
    });
    vt::section("wavefronts", 40, [&](Case& C, Rng& R) {
        double depth = R.uni(200, 2000);
        ocean_model::csptr ocean(new ocean_model(boundary_model::csptr(new boundary_flat()), boundary_model::csptr(new boundary_flat(depth)), profile_model::csptr(new profile_linear(1500.0, R.uni(-0.03, 0.03)))));
        auto f = freqs(R);
        int nde = R.in(1, 7), naz = R.in(1, 5), steps = R.in(0, 60);
        seq_vector::csptr de(new seq_linear(R.uni(-60, 0), R.uni(1, 8), (size_t)nde)), az(new seq_linear(R.uni(0, 300), R.uni(1, 20), (size_t)naz));
        double dt = R.pick({0.05, 0.1});
        C.in("depth", depth).in("nde", nde).in("naz", naz).in("steps", steps);
        wave_queue w(ocean, f, wposition1(R.uni(-60, 60), R.uni(-180, 180), -R.uni(0.1, 0.9) * depth), de, az, dt);
        const std::string name = dir + "wave.nc";
        bool named = R.chance(0.5);
        if (named) w.init_netcdf(name.c_str(), "a wave"); else w.init_netcdf(name.c_str());
        std::vector<double> t, lat, lng, alt, s, b, c, u, l, e;
        long saved = 0;
        for (int k = 0; k <= steps; ++k) {
            if (R.chance(0.8)) {
                w.save_netcdf();
                ++saved;
                t.push_back(w.time());
                const wave_front* x = w.curr();
                for (int i = 0; i < nde; ++i) for (int j = 0; j < naz; ++j) {
                    lat.push_back(x->position.latitude(i, j)); lng.push_back(x->position.longitude(i, j)); alt.push_back(x->position.altitude(i, j));
                    s.push_back(x->surface(i, j)); b.push_back(x->bottom(i, j)); c.push_back(x->caustic(i, j)); u.push_back(x->upper(i, j)); l.push_back(x->lower(i, j)); e.push_back(x->on_edge(i, j));
                }
            }
            w.step();
        }
        w.close_netcdf();
        File F(C, name);
        if (!F.ok) return;
        CHECK(F.text("long_name") == (named ? "a wave" : "(none)"), "attributes", "long name");
        CHECK(F.dim("travel_time") == saved && F.dim("source_de") == nde && F.dim("source_az") == naz, "wave_dims", saved << " steps saved, " << F.dim("travel_time") << " in the file");
        F.same("frequencies", std::vector<double>(f->begin(), f->end())); F.same("source_de", std::vector<double>(de->begin(), de->end())); F.same("source_az", std::vector<double>(az->begin(), az->end()));
        F.same("travel_time", t); F.same("latitude", lat, 1e-15); F.same("longitude", lng, 1e-15); F.same("altitude", alt, 1e-9);
        F.same("surface", s); F.same("bottom", b); F.same("caustic", c); F.same("upper", u); F.same("lower", l); F.same("on_edge", e);
    });
    vt::section("grids", 150, [&](Case& C, Rng& R) {
        auto go = [&](auto dims) {
            constexpr size_t N = decltype(dims)::value;
            seq_vector::csptr ax[N];
            size_t total = 1;
            for (size_t k = 0; k < N; ++k) {
                size_t n = R.in(2, 6);
                if (R.chance(0.5)) ax[k].reset(new seq_linear(R.uni(-50, 50), R.uni(0.1, 5), n));
                else { std::vector<double> v(n); double x = R.uni(-50, 50); for (auto& y : v) y = x, x += R.uni(0.1, 5); ax[k].reset(new seq_data(v.data(), n)); }
                total *= n;
            }
            std::vector<double> data(total);
            for (auto& x : data) x = R.uni(-1e3, 1e3);
            gen_grid<N> g(ax);
            for (size_t q = 0; q < total; ++q) { size_t i[N], o = q; for (size_t k = N; k-- > 0;) i[k] = o % ax[k]->size(), o /= ax[k]->size(); g.setdata(i, data[q]); }
            C.in("dims", N).in("total", total);
            const std::string name = dir + "grid.nc";
            g.write_netcdf(name.c_str());
            File F(C, name);
            if (!F.ok) return;
            for (size_t k = 0; k < N; ++k) F.same(("axis" + std::to_string(k)).c_str(), std::vector<double>(ax[k]->begin(), ax[k]->end()));
            F.same("data", data);
            F.same("earth_radius", {wposition::earth_radius});
            // by index
            auto got = F.get("data");
            for (int q = 0; q < 20; ++q) { size_t i[N], off = 0; for (size_t k = 0; k < N; ++k) { i[k] = R.in(0, (int)ax[k]->size() - 1); off = off * ax[k]->size() + i[k]; } CHECK(got.size() == total && got[off] == g.data(i), "grid_order", "value is stored elsewhere"); }
        };
        int n = R.in(1, 3);
        if (n == 1) go(std::integral_constant<size_t, 1>()); else if (n == 2) go(std::integral_constant<size_t, 2>()); else go(std::integral_constant<size_t, 3>());
    });
    return vt::finish();
}
