#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <atomic>
#include <map>
#include <deque>
#include <functional>
#include <optional>
#include <sstream>
#include <algorithm>
#include <tbb/concurrent_hash_map.h>
#include <tbb/concurrent_queue.h>
#define private public
#include <jogasaki/auth/action_set.h>
#include <jogasaki/auth/authorized_users_action_set.h>
#include <jogasaki/storage/storage_manager.h>
#undef private
using namespace jogasaki::auth;
using u64 = std::uint64_t;
extern "C" {
void arbitrary_users(void* map);
void observe_users(void const* map);
void observe_set(u64 bits);
}
static void put(action_set& s, u64 b) { s.actions_.bits_ = b; }
static u64 get(action_set const& s) { return s.actions_.bits_; }
extern "C" u64 c_bit(int k) { action_kind_set s{}; s.insert(static_cast<action_kind>(k)); return s.bits_; }
extern "C" u64 c_add_action(u64 b, int k) { action_set s; put(s, b); s.add_action(static_cast<action_kind>(k)); return get(s); }
extern "C" u64 c_remove_action(u64 b, int k) { action_set s; put(s, b); s.remove_action(static_cast<action_kind>(k)); return get(s); }
extern "C" u64 c_add_actions(u64 b, u64 c) { action_set s, t; put(s, b); put(t, c); s.add_actions(t); observe_set(get(t)); return get(s); }
extern "C" u64 c_remove_actions(u64 b, u64 c) { action_set s, t; put(s, b); put(t, c); s.remove_actions(t); observe_set(get(t)); return get(s); }
extern "C" u64 c_clear(u64 b) { action_set s; put(s, b); s.clear(); return get(s); }
extern "C" bool c_empty(u64 b) { action_set s; put(s, b); return s.empty(); }
extern "C" bool c_has_action(u64 b, int k) { action_set s; put(s, b); return s.has_action(static_cast<action_kind>(k)); }
extern "C" bool c_action_allowed(u64 b, int k) { action_set s; put(s, b); return s.action_allowed(static_cast<action_kind>(k)); }
extern "C" bool c_allows(u64 b, u64 c) { action_set s, t; put(s, b); put(t, c); return s.allows(t); }
extern "C" bool c_equal(u64 b, u64 c) { action_set s, t; put(s, b); put(t, c); return s == t; }
extern "C" bool c_differ(u64 b, u64 c) { action_set s, t; put(s, b); put(t, c); return s != t; }
extern "C" u64 c_of_two(int j, int k) { action_set s{static_cast<action_kind>(j), static_cast<action_kind>(k)}; return get(s); }
#define USERS authorized_users_action_set m; arbitrary_users(&m.map_); std::string_view name{p, n}
extern "C" void c_user_add(char const* p, std::size_t n, u64 b) { USERS; action_set s; put(s, b); m.add_user_actions(name, s); observe_users(&m.map_); }
extern "C" void c_user_remove(char const* p, std::size_t n, int k) { USERS; m.remove_user_action(name, static_cast<action_kind>(k)); observe_users(&m.map_); }
extern "C" void c_user_removes(char const* p, std::size_t n, u64 b) { USERS; action_set s; put(s, b); m.remove_user_actions(name, s); observe_users(&m.map_); }
extern "C" void c_user_remove_all(char const* p, std::size_t n) { USERS; m.remove_user_all_actions(name); observe_users(&m.map_); }
extern "C" u64 c_user_find(char const* p, std::size_t n) { USERS; u64 r = get(m.find_user_actions(name)); observe_users(&m.map_); return r; }
extern "C" bool c_allows_user(char const* p, std::size_t n, u64 pub, u64 wanted) {
    jogasaki::storage::impl::storage_control c; arbitrary_users(&c.authorized_actions_.map_); put(c.public_actions_, pub);
    action_set s; put(s, wanted); bool r = c.allows_user_actions({p, n}, s); observe_users(&c.authorized_actions_.map_); observe_set(get(c.public_actions_)); return r;
}
