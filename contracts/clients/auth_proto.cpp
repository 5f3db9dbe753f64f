#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <jogasaki/auth/fill_action_set.h>
#define private public
#include <jogasaki/auth/action_set.h>
#include <jogasaki/auth/authorized_users_action_set.h>
#undef private
#include <jogasaki/auth/fill_action_set.h>
using namespace jogasaki::auth;
namespace pb = jogasaki::proto::metadata::storage;
using u64 = std::uint64_t;
extern "C" void c_from_default(pb::TableDefinition const* t, action_set* s) { from_default_privilege(*t, *s); }
extern "C" void c_from_list(pb::TableDefinition const* t, authorized_users_action_set* m) { from_authorization_list(*t, *m); }
extern "C" void c_to_proto(authorized_users_action_set const* m, action_set const* s, pb::TableDefinition* t) { from_action_sets(*m, *s, *t); }
extern "C" void proto_kinds(int* k) { k[0] = pb::UNSPECIFIED; k[1] = pb::CONTROL; k[2] = pb::SELECT; k[3] = pb::INSERT; k[4] = pb::UPDATE; k[5] = pb::DELETE; }
