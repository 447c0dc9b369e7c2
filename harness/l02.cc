// L02: pairs of sensors against the set of pairs that the sensors present call for.
#include <usml/beampatterns/bp_omni.h>
#include <usml/eigenrays/eigenray_collection.h>
#include <usml/eigenverbs/eigenverb_collection.h>
#include <usml/platforms/platforms.h>
#include <usml/sensors/sensors.h>
#include <usml/types/seq_linear.h>
#include "vt.h"
using namespace usml::sensors;
using namespace usml::beampatterns;
static void nap(double us) { std::this_thread::sleep_for(std::chrono::microseconds((long)us)); }
typedef std::shared_ptr<sensor_model> sp;
typedef std::pair<uint64_t, uint64_t> ends;
struct spec {
    bool src, rcv;
    uint64_t group;
    double min_range;
    double time_max;
    bool nopatterns() const { return !src && !rcv; }
};
static std::set<ends> pairs(const std::map<uint64_t, spec>& in) {
    std::set<ends> want;
    for (auto& a : in) for (auto& b : in) {
        if (!a.second.src || !b.second.rcv) continue;
        if (a.first == b.first) { if (a.second.min_range < 1e-6) want.insert({a.first, b.first}); }
        else if (a.second.group > 0 && a.second.group == b.second.group) want.insert({a.first, b.first});
    }
    return want;
}
static sp make(uint64_t id, const spec& s) {
    sp p(new sensor_model(id, "s" + std::to_string(id), 0, wposition1(30.0 + 0.01 * (double)(id % 1000), 10, -100)));
    bp_model::csptr omni(new bp_omni());
    if (s.src) p->src_beam(0, omni);
    if (s.rcv) p->rcv_beam(0, omni);
    p->multistatic(s.group);
    p->min_range(s.min_range);
    p->time_maximum(s.time_max);
    return p;
}
static spec draw(Rng& R, bool wide = false) {  // wide: groups that differ in their high half only
    spec s;
    s.src = R.chance(0.65); s.rcv = R.chance(0.65);
    s.group = R.chance(0.25) ? 0 : (uint64_t)R.in(1, 2) + (wide ? (uint64_t)R.in(0, 1) << 32 : 0);
    s.min_range = R.chance(0.25) ? R.pick({1.0, 100.0, 1e-3}) : 0.0;
    s.time_max = 10.0;
    return s;
}
struct ear : update_listener<sensor_pair> {  // counts announcements per pair
    std::mutex m;
    std::map<ends, int> n;
    std::function<void(const sensor_pair*)> more;
    void notify_update(const sensor_pair* p) override {
        { std::lock_guard<std::mutex> g(m); ++n[{p->source()->keyID(), p->receiver()->keyID()}]; }
        if (more) more(p);
    }
};
struct mear : manager_listener<sensor_pair> {
    mutable std::mutex m;
    mutable std::multiset<std::string> have;
    mutable std::string bad;
    void notify_add(const sensor_pair* p) const override { std::lock_guard<std::mutex> g(m); if (have.count(p->hash_key())) bad = "pair announced twice"; have.insert(p->hash_key()); }
    void notify_remove(std::string k) const override { std::lock_guard<std::mutex> g(m); auto i = have.find(k); if (i == have.end()) bad = "removal of an unknown pair announced"; else have.erase(i); }
};
static ends of(const sensor_pair::sptr& p) { return {p->source()->keyID(), p->receiver()->keyID()}; }
static std::string str(const std::set<ends>& s) { std::ostringstream o; for (auto& l : s) o << l.first << "_" << l.second << " "; return o.str(); }
static std::set<ends> seen(Case& C, const pair_list& l, const char* what) {
    std::set<ends> got;
    for (auto& p : l) {
        CHECK(p != nullptr, "null pair", MSG(what << " gave an empty pair"));
        if (!p) continue;
        CHECK(got.insert(of(p)).second, "twice", MSG(what << " gave " << p->hash_key() << " twice"));
    }
    return got;
}
static std::shared_ptr<eigenray_collection> rays(const sp& from, const std::vector<uint64_t>& ids) {  // one marked path to every sensor
    seq_vector::csptr f(new seq_linear(1000.0, 1.0, (size_t)1));
    size_t n = ids.size();
    wposition pos(n, 1);
    matrix<uint64_t> id(n, 1);
    for (size_t i = 0; i < n; ++i) { id(i, 0) = ids[i]; pos.latitude(i, 0, 30); pos.longitude(i, 0, 10); pos.altitude(i, 0, -100); }
    auto c = std::make_shared<eigenray_collection>(f, from->position(), pos, from->keyID(), id);
    for (size_t i = 0; i < n; ++i) {
        auto* r = new eigenray_model();
        r->travel_time = 1000.0 * (double)from->keyID() + (double)ids[i];
        r->frequencies = f; r->intensity = vector<double>(1, 60.0); r->phase = vector<double>(1, 0.0);
        c->add_eigenray(i, 0, eigenray_model::csptr(r));
    }
    c->sum_eigenrays();
    return c;
}
static void agree(Case& C, const std::map<uint64_t, spec>& in, const std::map<uint64_t, sp>& who, const std::vector<uint64_t>& ids, const std::string& log) {
    sensor_manager* M = sensor_manager::instance();
    auto want = pairs(in);
    auto got = seen(C, M->list(), "list");
    CHECK(got == want, "pairs", MSG(log << ": pairs are " << str(got) << "instead of " << str(want)));
    for (uint64_t id : ids) {
        std::set<ends> s, r;
        for (auto& l : want) { if (l.first == id) s.insert(l); if (l.second == id) r.insert(l); }
        auto gs = seen(C, M->find_source(id), "find_source"), gr = seen(C, M->find_receiver(id), "find_receiver");
        CHECK(gs == s, "find_source", MSG(log << ": source " << id << " has " << str(gs) << "instead of " << str(s)));
        CHECK(gr == r, "find_receiver", MSG(log << ": receiver " << id << " has " << str(gr) << "instead of " << str(r)));
        auto w = who.find(id);
        sp e = w == who.end() ? nullptr : w->second;
        CHECK(sensor_manager::find_sensor(id) == e, "find_sensor", MSG(log << ": sensor " << id << " looked up wrongly"));
    }
    for (auto& l : want) {
        auto p = M->find(sensor_pair::generate_hash_key(l.first, l.second));
        CHECK(p && of(p) == l, "find", MSG(log << ": pair " << l.first << "_" << l.second << " not found by its key"));
        if (!p) continue;
        CHECK(p->source() == who.at(l.first) && p->receiver() == who.at(l.second), "ends", "pair of the wrong sensors");
        CHECK(p->complement(p->source()) == p->receiver() && p->complement(p->receiver()) == p->source(), "complement", "complement is wrong");
    }
    vt::obs("pairs compared", (long)want.size());
}

int main(int argc, char** argv) {
    vt::init(argc, argv);
    seq_vector::csptr freq(new seq_linear(1000.0, 1.0, (size_t)1));
    vt::section("history", 500, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        int n = R.in(1, 7), steps = R.in(3, 40);
        C.in("sensors", n).in("steps", steps);
        std::vector<uint64_t> ids;
        for (int i = 1; i <= n; ++i) ids.push_back(i * (R.chance(0.2) ? 10 : 1) + (uint64_t)(R.chance(0.2) ? 100 * i : 0));
        bool wide = R.chance(0.2);
        if (wide) for (auto& i : ids) if (R.chance(0.5)) i = (i % 3) + 1 + ((uint64_t)R.in(1, 3) << 32);
        std::sort(ids.begin(), ids.end());
        ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
        std::map<uint64_t, spec> in;
        std::map<uint64_t, sp> who;
        ear heard;
        mear told;
        sensor_manager::instance()->add_listener(&told);
        bool freqs = R.chance(0.8);
        if (freqs) sensor_manager::instance()->frequencies(freq);
        std::ostringstream log;
        std::set<ends> listened;
        for (int s = 0; s < steps; ++s) {
            sensor_manager* M = sensor_manager::instance();
            uint64_t id = R.of(ids);
            bool isin = in.count(id) > 0;
            if (R.chance(isin ? 0.5 : 0.08)) {
                if (!isin) continue;
                sp was = who[id];
                std::weak_ptr<sensor_model> w = was;
                bool quiet = R.chance(0.5);
                log << "-" << id << " ";
                std::map<ends, sensor_pair::sptr> old;
                for (auto& p : M->list()) if (of(p).first == id || of(p).second == id) old[of(p)] = p;
                M->remove_sensor(was, quiet ? &heard : nullptr);
                in.erase(id); who.erase(id);
                if (quiet && !old.empty()) {  // listeners handed over at removal are no longer told
                    auto p = old.begin()->second;
                    int n0 = heard.n[of(p)];
                    p->notify_update(p.get());
                    CHECK(heard.n[of(p)] == n0, "deaf", "listener removed with its sensor was still told");
                }
                for (auto& o : old) listened.erase(o.first);
                old.clear();
                was.reset();
                CHECK(w.expired(), "kept", MSG(log.str() << ": sensor kept alive after its removal"));
                vt::obs("removals");
            } else {
                spec d = draw(R, wide);
                int flaw = R.chance(0.1) ? 1 : 0;
                if (flaw) d.time_max = 0.0;
                sp p = make(id, d);
                bool listen = R.chance(0.7);
                std::string ex;
                auto before = seen(C, M->list(), "list");
                auto platforms = platform_manager::instance()->list();
                try { M->add_sensor(p, listen ? &heard : nullptr); }
                catch (sensor_manager::freq_missing&) { ex = "freq"; }
                catch (sensor_manager::time_maximum_missing&) { ex = "time"; }
                catch (platform_manager::duplicate_key&) { ex = "key"; }
                catch (std::exception& e) { ex = e.what(); }
                std::string expect = !freqs ? "freq" : flaw ? "time" : isin ? "key" : "";
                log << "+" << id << (d.src ? "s" : "") << (d.rcv ? "r" : "") << d.group << (d.min_range > 0 ? "m" : "") << "(" << expect << ") ";
                CHECK(ex == expect, "refusal", MSG(log.str() << ": adding gave '" << ex << "' instead of '" << expect << "'"));
                if (!ex.empty()) {
                    CHECK(platforms == platform_manager::instance()->list(), "refused change", "a refused sensor was left in the platform manager");
                    vt::obs("refused sensors");
                } else {
                    in[id] = d; who[id] = p;
                    for (auto& l : pairs(in)) if (!before.count(l)) { if (listen) listened.insert(l); else listened.erase(l); }
                    vt::obs("additions");
                }
                if (!freqs && R.chance(0.5)) { M->frequencies(freq); freqs = true; }
            }
            agree(C, in, who, ids, log.str());
            auto want = pairs(in);
            std::multiset<std::string> keys;
            for (auto& l : want) keys.insert(sensor_pair::generate_hash_key(l.first, l.second));
            CHECK(told.have == keys && told.bad.empty(), "announcements", MSG(log.str() << ": manager listeners know " << told.have.size() << " pairs of " << keys.size() << " " << told.bad));
            if (!who.empty() && R.chance(0.4)) {  // new wavefront of one sensor reaches the pairs of that sensor
                auto it = who.begin();
                std::advance(it, R.in(0, (int)who.size() - 1));
                std::map<ends, const void*> old;
                for (auto& p : M->list()) old[of(p)] = p->dirpaths().get();
                { std::lock_guard<std::mutex> g(heard.m); heard.n.clear(); }
                auto c = rays(it->second, ids);
                it->second->notify_wavefront_listeners(it->second.get(), c, std::make_shared<eigenverb_collection>(0));
                for (auto& p : M->list()) {
                    ends l = of(p);
                    bool mine = l.first == it->first || l.second == it->first;
                    CHECK((p->dirpaths().get() != old[l]) == mine, "feeding", MSG(log.str() << ": pair " << p->hash_key() << (mine ? " missed" : " was changed by") << " the wavefront of " << it->first));
                    if (mine && p->dirpaths()) {
                        auto list = p->dirpaths()->eigenrays();
                        uint64_t other = l.first == it->first ? l.second : l.first;
                        CHECK(list.size() == 1 && list.front()->travel_time == 1000.0 * (double)it->first + (double)other, "paths", MSG(log.str() << ": pair " << p->hash_key() << " holds the paths of another pair"));
                    }
                    int k = heard.n.count(l) ? heard.n[l] : 0;
                    CHECK(k == (mine && listened.count(l) ? 1 : 0), "told", MSG(log.str() << ": listener of pair " << p->hash_key() << " told " << k << " times"));
                    if (mine) vt::obs("pairs fed");
                }
            }
        }
        sensor_manager::instance()->remove_listener(&told);
        std::vector<std::weak_ptr<sensor_model>> weak;
        for (auto& w : who) weak.push_back(w.second);
        who.clear();
        sensor_manager::reset();
        for (auto& w : weak) CHECK(w.expired(), "kept", "sensor survived the reset");
        CHECK(sensor_manager::instance()->list().empty(), "reset", "pairs survived the reset");
    });
    // Threads that own different sensors come and go at the same time.
    vt::section("threads", 60, [&](Case& C, Rng& R) {
        sensor_manager::reset();
        int threads = R.in(2, 4), steps = R.in(10, 60), own = R.in(1, 3);
        bool waves = R.chance(0.6), slow = R.chance(0.5), first = R.chance(0.5);
        C.in("threads", threads).in("steps", steps).in("sensors each", own).in("waves", waves).in("slow listeners", slow);
        if (!first) sensor_manager::instance()->frequencies(freq);
        std::vector<uint64_t> ids;
        for (int i = 1; i <= threads * own; ++i) ids.push_back(i);
        std::mutex fm;
        std::string bad;
        auto oops = [&](const std::string& s) { std::lock_guard<std::mutex> g(fm); if (bad.empty()) bad = s; };
        mear told;
        std::atomic<long> heards{0};
        ear heard;
        heard.more = [&](const sensor_pair* p) {  // listeners may use the manager
            ++heards;
            if (slow) nap(p->source()->keyID() * 7 % 40);
            for (auto& q : sensor_manager::instance()->find_source(p->source()->keyID())) if (q->source()->keyID() != p->source()->keyID()) oops("lookup gave a foreign pair");
        };
        std::atomic<int> up{0};
        std::vector<std::map<uint64_t, spec>> in(threads);
        std::vector<std::map<uint64_t, sp>> who(threads);
        std::vector<uint64_t> seeds;
        for (int i = 0; i < threads; ++i) seeds.push_back(R.next());
        std::vector<sensor_manager*> inst(threads);
        std::vector<std::thread> T;
        for (int t = 0; t < threads; ++t) T.emplace_back([&, t] {
            Rng Q(seeds[t]);
            ++up;
            while (up < threads) ;
            inst[t] = sensor_manager::instance();
            inst[t]->frequencies(freq);
            for (int s = 0; s < steps; ++s) {
                sensor_manager* M = sensor_manager::instance();
                uint64_t id = (uint64_t)(t * own + Q.in(1, own));
                int what = Q.in(0, 9);
                if (what < 5) {
                    if (in[t].count(id)) {
                        sp p = who[t][id];
                        M->remove_sensor(p, Q.chance(0.5) ? &heard : nullptr);
                        in[t].erase(id); who[t].erase(id);
                        if (!M->find_source(id).empty() || !M->find_receiver(id).empty()) oops("pairs of a removed sensor were found");
                        if (sensor_manager::find_sensor(id)) oops("removed sensor was found");
                    } else {
                        spec d = draw(Q);
                        sp p = make(id, d);
                        M->add_sensor(p, &heard);
                        in[t][id] = d; who[t][id] = p;
                        bool mono = d.src && d.rcv && d.min_range < 1e-6, found = false;
                        for (auto& q : M->find_source(id)) if (q->receiver() == p) found = true;
                        if (mono != found) oops("pair of a sensor with itself lost");
                    }
                } else if (what < 7) {
                    for (uint64_t k : ids) {
                        std::set<ends> twice;
                        for (auto& q : M->find_source(k)) if (q->source()->keyID() != k || !twice.insert(of(q)).second) oops("find_source gave a wrong pair");
                        for (auto& q : M->find_receiver(k)) if (q->receiver()->keyID() != k) oops("find_receiver gave a wrong pair");
                    }
                    // own sensors among each other are not touched by other threads
                    for (auto& l : pairs(in[t])) if (!M->find(sensor_pair::generate_hash_key(l.first, l.second))) oops("pair lost");
                } else if (what == 7) {
                    std::set<ends> twice;
                    for (auto& q : M->list()) if (!twice.insert(of(q)).second) oops("list gave a pair twice");
                } else if (waves && !who[t].empty()) {
                    auto it = who[t].begin();
                    std::advance(it, Q.in(0, (int)who[t].size() - 1));
                    sp keep = it->second;
                    keep->notify_wavefront_listeners(keep.get(), rays(keep, ids), std::make_shared<eigenverb_collection>(0));
                    vt::obs("wavefronts announced while pairs come and go");
                }
                if (Q.chance(0.2)) std::this_thread::yield();
            }
        });
        for (auto& t : T) t.join();
        for (auto* i : inst) CHECK(i == inst[0], "singleton", "threads were given different managers");
        std::map<uint64_t, spec> all;
        std::map<uint64_t, sp> everyone;
        for (int t = 0; t < threads; ++t) { all.insert(in[t].begin(), in[t].end()); everyone.insert(who[t].begin(), who[t].end()); }
        agree(C, all, everyone, ids, "after the threads");
        if (!bad.empty()) C.fail("concurrent use", bad);
        vt::obs("concurrent steps", threads * steps);
        vt::obs("announcements to listeners", heards);
        everyone.clear(); who.clear();
        sensor_manager::reset();
    });
    return vt::finish();
}
