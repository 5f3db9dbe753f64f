#include "vdrv.h"
#include <memory>
#include <map>
#include <string>
#include <string_view>
#include <unordered_map>
#include <jogasaki/auth/fill_action_set.h>
#include <jogasaki/auth/action_set.h>
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/storage/storage_manager.h>
using namespace jogasaki::auth;
namespace pb = jogasaki::proto::metadata::storage;
static constexpr action_kind kinds[] = {action_kind::undefined, action_kind::control, action_kind::select, action_kind::insert, action_kind::update, action_kind::delete_};
static constexpr unsigned ALL = 2;
static unsigned added(unsigned s, unsigned t) { return ((s | t) & ALL) ? ALL : s | t; }
static unsigned removed(unsigned s, unsigned t) { return (t & ALL) ? 0 : s & ~t; }
static bool covers(unsigned s, unsigned t) { return (s & ALL) || !(t & ~s); }
static unsigned bits(action_set const& s) { unsigned b = 0; for (auto k : kinds) if (s.has_action(k)) b |= 1U << static_cast<int>(k); return b; }
static unsigned members(action_set const& s) { unsigned b = 0; for (auto k : s) b |= 1U << static_cast<int>(k); return b; }
static action_set of(unsigned b) { action_set s{}; for (auto k : kinds) if (b >> static_cast<int>(k) & 1) s.add_action(k); return s; }
static unsigned gen(vdrv& d) { return d.below(6) == 0 ? ALL : d.below(64) & ~ALL; }
static std::string str(unsigned b) { static char const* n[] = {"undefined", "control", "select", "insert", "update", "delete"}; std::string r = "{"; for (int i = 0; i < 6; ++i) if (b >> i & 1) r += (r.size() > 1 ? " " : "") + std::string(n[i]); return r + "}"; }
static void same(vdrv& d, std::string const& h, action_set const& s, unsigned want) {
    d.check(bits(s) == want && members(s) == want && s.empty() == (want == 0), h + ": " + str(bits(s)) + " expected " + str(want));
}
static void sets(vdrv& d) {
    unsigned w = gen(d); std::string h = "action_set " + str(w); d.input(h); action_set s = of(w);
    same(d, h, s, w);
    for (int i = 0, n = 1 + d.below(4); i < n; ++i) {
        unsigned t = gen(d); int k = d.below(6); auto kd = kinds[k];
        switch (d.below(6)) {
            case 0: h += " add " + str(1U << k); d.input(h); s.add_action(kd); w = added(w, 1U << k); break;
            case 1: h += " remove " + str(1U << k); d.input(h); s.remove_action(kd); w = removed(w, 1U << k); break;
            case 2: h += " add all " + str(t); d.input(h); { auto o = of(t); s.add_actions(o); same(d, h + " (argument)", o, t); } w = added(w, t); break;
            case 3: h += " remove all " + str(t); d.input(h); { auto o = of(t); s.remove_actions(o); same(d, h + " (argument)", o, t); } w = removed(w, t); break;
            case 4: if (d.below(3)) break; h += " clear"; d.input(h); s.clear(); w = 0; break;
            default: { int j = d.below(6); h = "action_set{" + str(1U << k) + "," + str(1U << j) + "}"; d.input(h); s = action_set{kd, kinds[j]}; w = added(1U << k, 1U << j); }
        }
        same(d, h, s, w);
        for (int k2 = 0; k2 < 6; ++k2) d.check(s.action_allowed(kinds[k2]) == ((w & ALL) || (w >> k2 & 1)), h + ": action_allowed " + str(1U << k2));
        unsigned x = gen(d); auto o = of(x);
        d.check(s.allows(o) == covers(w, x), h + ": allows " + str(x)); d.check((s == o) == (w == x) && (s != o) == (w != x), h + ": equals " + str(x));
    }
}
static void users(vdrv& d) {
    static std::string const names[] = {"", "u", "u1", "u12", "admin", "a user with a name that is not short", std::string("u\0x", 3)};
    auto c = std::make_unique<jogasaki::storage::impl::storage_control>(); std::map<std::string, unsigned> ref; std::string h = "users";
    auto& m = c->authorized_actions();
    for (int i = 0, n = 1 + d.below(8); i < n; ++i) {
        auto const& u = names[d.below(7)]; unsigned t = gen(d); int k = d.below(6); auto& r = ref[u];
        switch (d.below(4)) {
            case 0: case 1: h += " grant(" + u + "," + str(t) + ")"; d.input(h); m.add_user_actions(u, of(t)); r = added(r, t); break;
            case 2: h += " revoke(" + u + "," + str(t) + ")"; d.input(h); m.remove_user_actions(u, of(t)); r = removed(r, t); break;
            default: if (d.coin()) { h += " revoke one(" + u + "," + str(1U << k) + ")"; d.input(h); m.remove_user_action(u, kinds[k]); r = removed(r, 1U << k); } else { h += " revoke everything(" + u + ")"; d.input(h); m.remove_user_all_actions(u); r = 0; }
        }
        std::size_t have = 0;
        for (auto& x : names) { same(d, h + " find " + x, m.find_user_actions(x), ref.count(x) ? ref[x] : 0); have += ref.count(x) && ref[x]; }
        d.check(m.user_count() == have, h + ": " + std::to_string(m.user_count()) + " entries, expected " + std::to_string(have));
    }
    unsigned p = gen(d), w = gen(d); c->public_actions() = of(p); h += " public " + str(p); d.input(h);
    for (auto& x : names) { unsigned g = ref.count(x) ? ref[x] : 0; d.check(c->allows_user_actions(x, of(w)) == ((p & ALL) || (g & ALL) || !(w & ~(p | g))), h + ": " + x + " allowed " + str(w)); }
    // stored and read back
    static int const stored[] = {pb::UNSPECIFIED, pb::CONTROL, pb::SELECT, pb::INSERT, pb::UPDATE, pb::DELETE};
    pb::TableDefinition t; from_action_sets(m, c->public_actions(), t);
    auto mask = [&](unsigned b) { std::map<int, int> r; for (int i = 0; i < 6; ++i) if (b >> i & 1) r[stored[i]] = 1; return r; };
    std::map<int, int> got; for (auto& e : t.default_privilege_list()) got[e.action_kind()]++;
    d.check(got == mask(p), h + ": stored privileges of everybody");
    std::size_t have = 0; for (auto& [x, b] : ref) have += b != 0;
    d.check(static_cast<std::size_t>(t.authorization_list_size()) == have, h + ": stored entries");
    for (auto& e : t.authorization_list()) { std::map<int, int> g; for (auto& a : e.privilege_list()) g[a.action_kind()]++; d.check(ref.count(e.identifier()) && ref[e.identifier()] && g == mask(ref[e.identifier()]), h + ": stored entry of " + e.identifier()); }
    authorized_users_action_set m2{}; action_set p2{}; from_authorization_list(t, m2); from_default_privilege(t, p2);
    same(d, h + " read back: everybody", p2, p);
    for (auto& x : names) same(d, h + " read back: " + x, m2.find_user_actions(x), ref.count(x) ? ref[x] : 0);
    // any stored definition
    pb::TableDefinition q; std::map<std::string, unsigned> rq; unsigned pq = 0; std::string s = "definition";
    auto kind = [&](int& i) { static int const all[] = {0, 2, 4, 5, 6, 7}; i = d.below(6); return static_cast<pb::TableActionKind>(all[i]); };
    for (int i = 0, n = d.below(4); i < n; ++i) { auto const& u = names[d.below(7)]; auto* a = q.add_authorization_list(); a->set_identifier(u); s += " " + u + ":"; unsigned b = 0; for (int j = 0, z = d.below(4); j < z; ++j) { int k; a->add_privilege_list()->set_action_kind(kind(k)); b = added(b, 1U << k); s += str(1U << k); } if (b) rq[u] = added(rq[u], b); }
    for (int j = 0, z = d.below(4); j < z; ++j) { int k; q.add_default_privilege_list()->set_action_kind(kind(k)); pq = added(pq, 1U << k); s += " *" + str(1U << k); }
    d.input(s); authorized_users_action_set m3{}; action_set p3{}; from_authorization_list(q, m3); from_default_privilege(q, p3);
    same(d, s + ": everybody", p3, pq);
    for (auto& x : names) same(d, s + ": " + x, m3.find_user_actions(x), rq.count(x) ? rq[x] : 0);
    d.check(m3.user_count() == rq.size(), s + ": entries");
}
int main(int argc, char** argv) {
    vdrv d(argc, argv); vdrv_install();
    while (d.running()) { sets(d); users(d); }
    return d.done();
}
