#include "vdrv.h"
#include <thread>
#include <atomic>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/storage/shared_lock.h>
#include <jogasaki/storage/unique_lock.h>
#include <jogasaki/storage/reference_scope.h>
#include <jogasaki/utils/subtract_vectors.h>
using namespace jogasaki::storage;
using ids = std::vector<storage_entry>;
struct state { bool w{false}; long r{0}; long refs{0}; };
struct uniq { std::unique_ptr<unique_lock> l; std::set<storage_entry> has; };
struct shar { std::unique_ptr<shared_lock> l; std::multiset<storage_entry> has; };
static std::string show(ids const& v) { std::string s = "["; for (auto e : v) s += std::to_string(e) + " "; return s + "]"; }

static void lists(vdrv& d) {
    ids x, y;
    for (int i = d.below(7); i > 0; --i) x.emplace_back(d.below(5));
    for (int i = d.below(7); i > 0; --i) y.emplace_back(d.below(5));
    d.input("subtract " + show(x) + " - " + show(y));
    auto r = jogasaki::utils::subtract_vectors(x, y);
    for (storage_entry e = 0; e < 5; ++e) {
        auto cx = std::count(x.begin(), x.end(), e), cy = std::count(y.begin(), y.end(), e), c = std::count(r.begin(), r.end(), e);
        d.check(c == std::max<long>(cx - cy, 0), "count of an element in the difference");
    }
}

static void history(vdrv& d) {
    storage_manager m{};
    int n = 1 + d.below(4);
    std::map<storage_entry, state> st;
    for (int i = 0; i < n; ++i) {
        storage_entry e = 10 + i;
        m.add_entry(e, std::string_view{std::string(1, static_cast<char>('A' + i))});
        st[e];
    }
    std::vector<uniq> us; std::vector<shar> ss;
    std::vector<std::pair<std::unique_ptr<reference_scope>, std::set<storage_entry>>> rs;
    std::string h = "tables 10.." + std::to_string(9 + n) + ": ";
    auto pick = [&](bool unknown) { return storage_entry(10 + d.below(n + (unknown && d.below(8) == 0 ? 1 : 0))); };
    auto want = [&](int max) { ids v; for (int k = d.below(max + 1); k > 0; --k) { auto e = pick(true); if (d.below(6) == 0 || std::find(v.begin(), v.end(), e) == v.end()) v.emplace_back(e); } return v; };
    auto verify = [&](std::string const& op) {
        h += op + "; ";
        d.input(h);
        for (auto&& [e, s] : st) {
            auto c = m.find_entry(e);
            d.check(c && c->can_lock() == (! s.w && s.r == 0), "table " + std::to_string(e) + " can be locked exactly if nobody holds it");
            d.check(c->can_lock_shared() == ! s.w, "table " + std::to_string(e) + " can be shared exactly if no writer holds it");
            d.check(static_cast<long>(c->ref_transaction_count()) == s.refs, "references of table " + std::to_string(e));
        }
        for (auto&& u : us) {
            auto v = u.l->storage();
            d.check(std::multiset<storage_entry>(v.begin(), v.end()) == std::multiset<storage_entry>(u.has.begin(), u.has.end()), "list of an exclusive lock");
            for (storage_entry e = 9; e < 16; ++e) d.check(v.contains(e) == (u.has.count(e) != 0), "exclusive lock contains " + std::to_string(e));
        }
        for (auto&& s : ss) {
            auto v = s.l->storage();
            d.check(std::multiset<storage_entry>(v.begin(), v.end()) == s.has, "list of a shared lock");
        }
    };
    int steps = 1 + d.below(d.coin() ? 8 : 30);
    for (int k = 0; k < steps; ++k) {
        int op = d.below(11);
        if (op == 0) { us.push_back({m.create_unique_lock(), {}}); verify("exclusive#" + std::to_string(us.size() - 1)); }
        else if (op <= 3 && ! us.empty()) {
            auto i = d.below(us.size()); auto w = want(4);
            d.input(h + "add " + show(w) + " to #" + std::to_string(i));
            bool ok = true; std::set<storage_entry> now;
            for (auto e : w) { if (us[i].has.count(e)) continue; if (! st.count(e) || st[e].w || st[e].r || now.count(e)) { ok = false; break; } now.insert(e); }
            bool r = m.add_locked_storages(storage_list{w}, *us[i].l);
            d.check(r == ok, r ? "granted although a table is taken" : "refused although every table is free");
            if (ok) for (auto e : now) { st[e].w = true; us[i].has.insert(e); }
            verify("add " + show(w) + " to #" + std::to_string(i));
        }
        else if (op == 4 && ! us.empty()) {
            auto i = d.below(us.size()); ids w;
            for (auto e : us[i].has) if (d.coin()) w.emplace_back(e);
            if (d.coin()) std::reverse(w.begin(), w.end());
            d.input(h + "remove " + show(w) + " from #" + std::to_string(i));
            m.remove_locked_storages(storage_list{w}, *us[i].l);
            for (auto e : w) { st[e].w = false; us[i].has.erase(e); }
            verify("remove " + show(w) + " from #" + std::to_string(i));
        }
        else if (op == 5 && ! us.empty()) {
            auto i = d.below(us.size()); auto e = pick(true);
            d.input(h + "release " + std::to_string(e) + " of #" + std::to_string(i));
            us[i].l->release_storage(e);
            if (us[i].has.erase(e)) st[e].w = false;
            verify("release " + std::to_string(e) + " of #" + std::to_string(i));
        }
        else if (op <= 7) {
            auto w = want(4); int p = us.empty() || d.coin() ? -1 : static_cast<int>(d.below(us.size()));
            auto t = "share " + show(w) + " under #" + std::to_string(p);
            d.input(h + t);
            bool ok = true; std::multiset<storage_entry> now;
            for (auto e : w) { if (p >= 0 && us[p].has.count(e)) continue; if (! st.count(e) || st[e].w) { ok = false; break; } now.insert(e); }
            auto l = m.create_shared_lock(storage_list{w}, p < 0 ? nullptr : us[p].l.get());
            d.check((l != nullptr) == ok, l ? "granted although a table is taken" : "refused although no writer holds a table");
            if (l && ok) { for (auto e : now) ++st[e].r; ss.push_back({std::move(l), now}); }
            verify(t);
        }
        else if (op == 8 && ! us.empty() && d.coin()) {
            auto i = d.below(us.size());
            for (auto e : us[i].has) st[e].w = false;
            us.erase(us.begin() + i);
            verify("end of exclusive#" + std::to_string(i));
        }
        else if (op == 9 && ! ss.empty()) {
            auto i = d.below(ss.size());
            for (auto e : ss[i].has) --st[e].r;
            ss.erase(ss.begin() + i);
            verify("end of shared#" + std::to_string(i));
        }
        else if (op == 10) {
            if (rs.empty() || d.below(4) == 0) { rs.emplace_back(std::make_unique<reference_scope>(m), std::set<storage_entry>{}); verify("transaction"); }
            else if (d.below(4) == 0) { auto i = d.below(rs.size()); for (auto e : rs[i].second) --st[e].refs; rs.erase(rs.begin() + i); verify("end of transaction"); }
            else { auto i = d.below(rs.size()); auto e = pick(true); rs[i].first->add_storage(e); if (st.count(e) && rs[i].second.insert(e).second) ++st[e].refs; verify("use " + std::to_string(e) + " in " + std::to_string(i)); }
        }
    }
    us.clear(); ss.clear(); rs.clear();
    for (auto&& [e, s] : st) s = state{};
    verify("end");
}

static void threads(vdrv& d) {
    storage_manager m{};
    constexpr int N = 3;
    for (int i = 0; i < N; ++i) m.add_entry(10 + i, std::string_view{std::string(1, static_cast<char>('A' + i))});
    std::atomic<int> in_w[N]{}, in_r[N]{}, bad{0}, free_refused{0};
    reference_scope scope{m};
    int nt = 2 + d.below(5);
    std::vector<std::uint64_t> seeds; for (int t = 0; t < nt; ++t) seeds.push_back(d.edge64() * 2 + 1);
    bool readers_only = d.below(4) == 0;
    d.input(std::to_string(nt) + " threads locking 3 tables" + (readers_only ? " shared" : ""));
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        auto x = seeds[t];
        auto rnd = [&](int n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return static_cast<int>(x % n); };
        for (int k = 0; k < 200; ++k) {
            ids w; for (int i = 0; i < N; ++i) if (rnd(2)) w.emplace_back(10 + i);
            if (rnd(8) == 0) scope.add_storage(10 + rnd(N));
            if (readers_only || rnd(3)) {
                auto l = m.create_shared_lock(storage_list{w});
                if (! l) { if (readers_only) ++free_refused; continue; }
                for (auto e : w) { ++in_r[e - 10]; if (in_w[e - 10]) ++bad; }
                for (auto e : w) --in_r[e - 10];
            } else {
                auto l = m.create_unique_lock();
                if (! m.add_locked_storages(storage_list{w}, *l)) continue;
                for (auto e : w) { if (++in_w[e - 10] != 1 || in_r[e - 10]) ++bad; }
                for (auto e : w) --in_w[e - 10];
            }
        }
    });
    for (auto&& t : ts) t.join();
    d.check(bad == 0, "a writer was not alone");
    d.check(free_refused == 0, "a reader was refused although there is no writer");
    for (int i = 0; i < N; ++i) {
        auto c = m.find_entry(10 + i);
        d.check(c->can_lock(), "table " + std::to_string(10 + i) + " is free at the end");
        d.check(c->ref_transaction_count() <= 1, "one reference for each table of a transaction");
    }
}

int main(int argc, char** argv) {
    vdrv d(argc, argv);
    vdrv_install();
    long k = 0;
    while (d.running()) {
        if (k++ % 50 == 49) threads(d);
        else if (d.below(6) == 0) lists(d);
        else history(d);
    }
    return d.done();
}
